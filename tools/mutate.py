#!/usr/bin/env python3
"""mutation sampling of the library, to find what the checks do not see (development tool, never run by a check)

mutate.py list FILE...            number of mutants
mutate.py run OUT N SEED [FILE..] runs N random mutants, 8 in parallel, results appended to OUT (json lines)
"""
import ast, json, os, random, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
HERE = '/tmp/mut/verif'       # a copy of the committed work
SRC = '/repo/src/pyRFtk'
FILES = ['ConvertGeneral', 'ReadDictData', 'ReadTSF', 'S_from_VI', 'S_from_Y', 'S_from_Z', 'WriteTSF', 'Y_from_S', 'Z_from_S',
         '_check_3D_shape_', 'compareSs', 'findpath', 'getlines', 'maxfun', 'plotVSWs', 'printMatrices', 'resolveTLparams',
         'rfArcObj', 'rfBase', 'rfCircuit', 'rfCoupler', 'rfGTL', 'rfObject', 'rfRLC', 'rfTRL', 'str_dict']
ALL = ['C%02d' % k for k in range(1, 31)]
FIRST = {'ReadTSF': 'C11 C12', 'WriteTSF': 'C12 C11', 'rfGTL': 'C26', 'findpath': 'C25', 'getlines': 'C25 C11', 'ReadDictData': 'C25',
         'plotVSWs': 'C27', 'compareSs': 'C27', 'printMatrices': 'C27', 'str_dict': 'C27', 'maxfun': 'C17 C16', 'rfArcObj': 'C06 C13 C15',
         'rfRLC': 'C06 C13 C15', 'rfCoupler': 'C06', 'rfTRL': 'C07 C08 C16 C18 C13', 'resolveTLparams': 'C08 C07', 'rfObject': 'C10 C11 C23',
         'rfBase': 'C10 C12 C17 C16 C13 C23 C24', 'rfCircuit': 'C01 C02 C13 C15 C18 C23', 'ConvertGeneral': 'C09', 'S_from_VI': 'C07', '_check_3D_shape_': 'C09',
         'S_from_Y': 'C09', 'S_from_Z': 'C09', 'Y_from_S': 'C09', 'Z_from_S': 'C09'}
SWAP = os.environ.get('SWAP')    # the second family: swapped names, attributes, arguments and statements
TEXT = os.environ.get('TEXT')    # only descriptions and lookups
TEXTFUN = {'__str__', '__repr__', 'strfull', 'asstr', 'listBlocks', 'findObj', 'object'}
if TEXT:
    ALL = ['C29', 'C16', 'C24', 'C14', 'C22', 'C26', 'C12', 'C10', 'C23']
    FIRST = {}
SKIPFUN = {'processGTL', 'logident', 'listdirs'} if TEXT else {'processGTL', '__str__', 'strfull', 'asstr', 'logident', 'listdirs'}
CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==', ast.Is: 'is not', ast.IsNot: 'is',
       ast.In: 'not in', ast.NotIn: 'in'}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.MatMult: '*', ast.Pow: '*', ast.FloorDiv: '/', ast.Mod: None}


def mutants(name):
    """(line, description, new text)"""
    path = f'{SRC}/{name}.py'
    text = open(path).read()
    lines = text.split('\n')
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()) + 1)
    raw = text.encode()
    pos = lambda n: (off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset)
    tree = ast.parse(text)
    par = {}
    for n in ast.walk(tree):
        for c in ast.iter_child_nodes(n):
            par[c] = n
    bl = subprocess.run(['git', '-C', '/repo', 'blame', '-s', '--abbrev=7', f'src/pyRFtk/{name}.py'], capture_output=True, text=True).stdout.split('\n')
    base = subprocess.run(['git', '-C', '/repo', 'rev-list', '--max-parents=0', 'HEAD'], capture_output=True, text=True).stdout.strip()[:7]
    own = [base not in l.split(' ')[0] and not l.startswith('^') for l in bl]
    out = []

    def skip(n):
        if not hasattr(n, 'lineno') or any(own[k] for k in range(n.lineno - 1, n.end_lineno)) and n.end_lineno - n.lineno < 3:
            return True
        m = n
        if TEXT:
            while m in par and not (isinstance(m, ast.FunctionDef) and m.name in TEXTFUN):
                m = par[m]
            if m not in par:
                return True
            m = n
        while m in par:
            if isinstance(m, ast.FunctionDef) and m.name in SKIPFUN:
                return True
            if isinstance(m, ast.If) and '__name__' in ast.dump(m.test):
                return True
            if isinstance(m, ast.Raise if TEXT else (ast.JoinedStr, ast.Raise)):
                return True
            s = raw[slice(*pos(m))].decode() if isinstance(m, ast.stmt) and not isinstance(m, (ast.FunctionDef, ast.ClassDef)) and m.end_lineno - m.lineno < 12 else ''
            if s and any(w in s for w in ('_debug_', 'tLogger', 'logident', 'logit', 'print(', 'warnings.')) and not isinstance(m, (ast.For, ast.While, ast.Try)):
                if isinstance(m, (ast.Expr, ast.Assign)) or (isinstance(m, ast.If) and m.end_lineno - m.lineno < 3):
                    return True
            m = par[m]
        return False

    def add(n, a, b, new, what):
        if raw[a:b].decode() != new and not skip(n):
            out.append((n.lineno, what, (raw[:a] + new.encode() + raw[b:]).decode()))
    src = lambda n: raw[slice(*pos(n))].decode() if hasattr(n, 'lineno') else '(arguments)'
    if SWAP:
        rnd = random.Random(name)
        attrs = sorted({n.attr for n in ast.walk(tree) if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == 'self'})
        for f in ast.walk(tree):
            if isinstance(f, ast.FunctionDef):
                names = sorted({n.id for n in ast.walk(f) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} | {a.arg for a in f.args.args + f.args.kwonlyargs})
                for n in ast.walk(f):
                    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in names and len(names) > 1 and n.id != 'self':
                        o = rnd.choice([x for x in names if x not in (n.id, 'self')] or [n.id])
                        add(n, *pos(n), o, f'name {n.id} -> {o}: ' + src(par[n])[:50])
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and n.attr in attrs and len(attrs) > 1:
                        o = rnd.choice([x for x in attrs if x != n.attr])
                        add(n, *pos(n), f'{src(n.value)}.{o}', f'attribute {n.attr} -> {o}: ' + src(par[n])[:50])
                    if isinstance(n, ast.Call) and len(n.args) > 1 and not any(isinstance(x, ast.Starred) for x in n.args[:2]):
                        a, b = pos(n.args[0])[0], pos(n.args[1])[1]
                        mid = raw[pos(n.args[0])[1]:pos(n.args[1])[0]].decode()
                        add(n, a, b, src(n.args[1]) + mid + src(n.args[0]), 'swap arguments: ' + src(n)[:50])
                    if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load) and isinstance(n.slice, ast.Slice):
                        add(n, *pos(n), src(n.value), 'drop slice: ' + src(n)[:50])
                    for fld in ('body', 'orelse'):
                        st = getattr(n, fld, None)
                        if isinstance(st, list):
                            for u, v in zip(st, st[1:]):
                                if all(isinstance(w, (ast.Assign, ast.AugAssign, ast.Expr)) for w in (u, v)) and not skip(u) and not skip(v):
                                    a, b = pos(u)[0], pos(v)[1]
                                    add(u, a, b, src(v) + raw[pos(u)[1]:pos(v)[0]].decode() + src(u), 'swap statements: ' + src(u)[:30] + ' | ' + src(v)[:30])
                    if isinstance(n, ast.If) and len(n.body) >= 1 and not n.orelse and n.end_lineno - n.lineno < 12:
                        add(n, *pos(n), 'pass', 'delete: ' + src(n)[:50])
        return out
    for n in ast.walk(tree):
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            a, b = pos(n)
            add(n, a, b, f'{src(n.left)} {CMP[type(n.ops[0])]} {src(n.comparators[0])}', 'compare: ' + src(n)[:50])
        elif isinstance(n, ast.BinOp) and BIN.get(type(n.op)) and not isinstance(n.left, ast.JoinedStr):
            a, b = pos(n)
            add(n, a, b, f'{src(n.left)} {BIN[type(n.op)]} {src(n.right)}', 'binop: ' + src(n)[:50])
        elif isinstance(n, ast.BoolOp):
            a, b = pos(n)
            add(n, a, b, (' or ' if isinstance(n.op, ast.And) else ' and ').join('(' + src(v) + ')' for v in n.values), 'boolop: ' + src(n)[:50])
            for k in range(len(n.values)):
                add(n, a, b, (' and ' if isinstance(n.op, ast.And) else ' or ').join('(' + src(v) + ')' for i, v in enumerate(n.values) if i != k), f'drop condition {k}: ' + src(n)[:50])
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            a, b = pos(n)
            add(n, a, b, '(' + src(n.operand) + ')', 'unary: ' + src(n)[:50])
        elif isinstance(n, ast.Constant) and type(n.value) in (int, float) and not isinstance(par.get(n), ast.UnaryOp):
            a, b = pos(n)
            add(n, a, b, repr(n.value + 1 if n.value in (0, 1, -1) or type(n.value) is int else n.value * 1.01), f'constant {n.value}: ' + src(par[n])[:50])
        elif isinstance(n, ast.Constant) and type(n.value) is bool:
            a, b = pos(n)
            add(n, a, b, repr(not n.value), f'constant {n.value}: ' + src(par[n])[:50])
        elif isinstance(n, (ast.If, ast.While, ast.IfExp)):
            a, b = pos(n.test)
            add(n.test, a, b, f'(not ({src(n.test)}))', 'negate: ' + src(n.test)[:50])
        elif isinstance(n, ast.Call):
            a, b = pos(n)
            if isinstance(n.func, ast.Attribute) and n.func.attr in ('copy', 'transpose', 'conj', 'upper', 'lower', 'strip', 'flatten') and not n.args:
                add(n, a, b, src(n.func.value), 'drop call: ' + src(n)[:50])
            elif len(n.args) == 1 and src(n.func).split('.')[-1] in ('abs', 'real', 'imag', 'conj', 'transpose', 'array', 'list', 'sorted', 'deepcopy', 'copy', 'dict', 'float', 'tuple', 'sqrt', 'max', 'min'):
                add(n, a, b, '(' + src(n.args[0]) + ')', 'drop call: ' + src(n)[:50])
            elif n.keywords:
                for k in n.keywords:
                    if k.arg:
                        rest = [src(x) for x in n.args] + [('**' if q.arg is None else q.arg + '=') + src(q.value) for q in n.keywords if q is not k]
                        add(n, a, b, f'{src(n.func)}({", ".join(rest)})', f'drop keyword {k.arg}: ' + src(n)[:50])
        elif isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Continue, ast.Break)) and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
            if isinstance(par.get(n), ast.Module):
                continue
            a, b = pos(n)
            add(n, a, b, 'pass', 'delete: ' + src(n)[:60])
        elif isinstance(n, ast.Return) and n.value is not None:
            a, b = pos(n)
            add(n, a, b, 'return None', 'return None: ' + src(n)[:50])
    return out


def run(job):
    k, name, line, what, new = job
    d = f'/tmp/mut/w{k}'
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree('/repo/src', d + '/src', ignore=shutil.ignore_patterns('__pycache__', '*.egg-info'))
    open(f'{d}/src/pyRFtk/{name}.py', 'w').write(new)
    env = dict(os.environ, VERIF_REPO=d, VERIF_SHARDS='1', OMP_NUM_THREADS='1')
    first = FIRST.get(name, '').split()
    seen = {}
    t0 = time.time()
    caught = None
    try:
        for pid in first + [c for c in ALL if c not in first]:
            mod = {}
            src = open(f'{HERE}/vh/checks/{pid.lower()}.py').read()
            q = [l for l in src.split('\n') if l.startswith('QUICK')][0]
            n = int(eval(q.split('=')[1])[0])
            env['VERIF_CASES'] = str(max(20, n // 10))
            try:
                r = subprocess.run(['/opt/venv/bin/python', f'{HERE}/check.py', pid], env=env, capture_output=True, text=True, timeout=200)
                rc = r.returncode
                if 'VIOLATION' in r.stdout or (rc not in (0,) and 'INCONCLUSIVE' not in r.stdout):
                    caught = pid
                    seen[pid] = (r.stdout + r.stderr)[-300:]
                    break
            except subprocess.TimeoutExpired:
                caught = pid + ' (timeout)'
                break
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return dict(file=name, line=line, what=what, caught=caught, out=seen, t=round(time.time() - t0, 1))


if __name__ == '__main__':
    if sys.argv[1] == 'list':
        for f in sys.argv[2:] or FILES:
            print(f, len(mutants(f)))
        sys.exit()
    out, N, seed = sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
    rnd = random.Random(seed)
    pool = []
    for f in sys.argv[5:] or FILES:
        for line, what, new in mutants(f):
            try:
                compile(new, f, 'exec')
                pool.append((f, line, what, new))
            except SyntaxError:
                pass
    rnd.shuffle(pool)
    jobs = [(k, *p) for k, p in enumerate(pool[:N])]
    with ThreadPoolExecutor(int(os.environ.get('JOBS', 8))) as ex:
        for r in ex.map(run, jobs):
            with open(out, 'a') as f:
                f.write(json.dumps(r) + '\n')
