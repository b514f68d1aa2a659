import ast,sys,glob,os,random
mode=set(sys.argv[2].split(',')); rnd=random.Random(int(sys.argv[3]) if len(sys.argv)>3 else 0)
FILES=[f for f in glob.glob(sys.argv[1]+'/src/pyRFtk/*.py') if os.path.basename(f) not in('__init__.py','whoami.py','codebase.py','circuit.py','config.py')]
class Tr(ast.NodeTransformer):
    def visit_If(s,n):
        s.generic_visit(n)
        if 'inv' in mode and n.orelse and not(len(n.orelse)==1 and isinstance(n.orelse[0],ast.If)):
            n.test=ast.UnaryOp(ast.Not(),n.test); n.body,n.orelse=n.orelse,n.body
        return n
    def visit_ListComp(s,n):
        s.generic_visit(n)
        if 'lc' in mode: return ast.Call(ast.Name('list',ast.Load()),[ast.GeneratorExp(n.elt,n.generators)],[])
        return n
    def visit_FunctionDef(s,n):
        src=ast.unparse(n)
        s.generic_visit(n); ast.fix_missing_locations(n)
        if 'ren' in mode and not any(k in src for k in ('locals(','eval(','exec(','nonlocal','global')):
            args={a.arg for a in n.args.args+n.args.kwonlyargs+n.args.posonlyargs+([n.args.vararg] if n.args.vararg else [])+([n.args.kwarg] if n.args.kwarg else [])}
            inner=[m for m in ast.walk(n) if isinstance(m,(ast.FunctionDef,ast.Lambda)) and m is not n]
            if not inner:
                loc={m.id for m in ast.walk(n) if isinstance(m,ast.Name) and isinstance(m.ctx,ast.Store)}-args
                for m in ast.walk(n):
                    if isinstance(m,ast.Name) and m.id in loc: m.id='_r_'+m.id
        if 'wrap' in mode and 'super()' not in src and 'locals(' not in src and 'yield' not in src and 'nonlocal' not in src and not n.decorator_list and rnd.random()<.7:
            import copy
            a=n.args
            inner=ast.FunctionDef(name='_body',args=ast.arguments(posonlyargs=[],args=[ast.arg(x.arg) for x in a.posonlyargs+a.args],vararg=a.vararg and ast.arg(a.vararg.arg),kwonlyargs=[ast.arg(x.arg) for x in a.kwonlyargs],kw_defaults=[None]*len(a.kwonlyargs),kwarg=a.kwarg and ast.arg(a.kwarg.arg),defaults=[]),body=n.body,decorator_list=[],type_params=[])
            call=ast.Call(ast.Name('_body',ast.Load()),[ast.Name(x.arg,ast.Load()) for x in a.posonlyargs+a.args]+([ast.Starred(ast.Name(a.vararg.arg,ast.Load()))] if a.vararg else []),[ast.keyword(x.arg,ast.Name(x.arg,ast.Load())) for x in a.kwonlyargs]+([ast.keyword(None,ast.Name(a.kwarg.arg,ast.Load()))] if a.kwarg else []))
            doc=[n.body[0]] if ast.get_docstring(n) else []
            n.body=doc+[inner,ast.Return(call)]; n.lineno=1; ast.fix_missing_locations(n)
        return n
for f in FILES:
    t=ast.parse(open(f).read()); t=Tr().visit(t); ast.fix_missing_locations(t)
    open(f,'w').write(ast.unparse(t)+'\n')
