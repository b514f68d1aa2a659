"""C25: lookup of files and reading of dictionaries and lines"""
import contextlib, fnmatch, io, os, pprint, shutil
import numpy as np
from ..core import Skip
from ..common import *
from ..elems import pick

RULE = ('random directory trees in a scratch directory (nested, missing, empty, shared between the lists, hidden and bracketed '
        'names) are searched through findpath/existspath with every mix of environment variable, user and application '
        'directories, given as absolute, relative and ~ names; a monitor recomputes the acceptable answers from the documented '
        'order by itself; dictionaries written in many ways are read back from file and text, lines from path, text and stream; '
        'non-trivial: at least one match or one refusal was decided; distinct by layout, pattern kind and directory kinds')
ASSUMPTIONS = ASSUME + ['the order of sibling subdirectories within one directory is that of the file system: any of them is accepted',
                        'environment variables and working directory are changed for this process only']
QUICK, THOROUGH = 15000, 250000
VAR = 'VH_FINDPATH_DIRS'


@contextlib.contextmanager
def world(top, env):
    cwd, old = os.getcwd(), dict(os.environ)
    try:
        os.chdir(top)
        for k, v in env.items():
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v
        yield
    finally:
        os.chdir(cwd)
        for k in env:
            os.environ.pop(k, None)
            if k in old:
                os.environ[k] = old[k]


STEMS = ['model', 'Model', 'arc', 'data[1]', 'a.b', 'x y', 'modèle']
EXTS = ['.mod', '.rc', '.s2p', '']


def tree(rng, top, depth=0):
    """random files and directories"""
    n = 0
    os.makedirs(top, exist_ok=True)
    for _ in range(int(rng.integers(0, 4))):
        nm = pick(rng, STEMS) + pick(rng, ['', '', '1', '2']) + pick(rng, EXTS)
        if rng.random() < .1:
            nm = '.' + nm
        p = os.path.join(top, nm)
        if not os.path.exists(p):
            with open(p, 'w') as f:
                f.write('{}')
            n += 1
    if depth < 3:
        for _ in range(int(rng.integers(0, 3))):
            n += tree(rng, os.path.join(top, pick(rng, ['s', 't', 'u', 'w[2]', '.h'])), depth + 1)
    return n


def hits(d, pattern):
    """matches of a basename pattern directly in d (independent of glob)"""
    pat = pattern.replace('[', '[[]')
    out = []
    for nm in os.listdir(d):
        if nm.startswith('.') and not pattern.startswith('.'):
            continue
        if fnmatch.fnmatchcase(nm, pat):
            out.append(os.path.join(d, nm))
    return out


def search(d, pattern):
    """acceptable answers in directory d: the last name of the shallowest matching directories"""
    if os.sep in pattern:
        head, base = os.path.split(pattern)
        here = hits(os.path.join(d, head), base) if os.path.isdir(os.path.join(d, head)) else []
    else:
        here = hits(d, pattern)
    if here:
        return {os.path.realpath(sorted(here)[-1])}
    out = set()
    for nm in os.listdir(d):
        p = os.path.join(d, nm)
        if os.path.isdir(p) and not os.path.islink(p):
            out |= search(p, pattern)
    return out


def finders():
    from pyRFtk.findpath import findpath, existspath
    return [findpath, existspath]


def lookup(ctx, rng):
    top = os.path.join(ctx.scratch, 'w')
    shutil.rmtree(top, ignore_errors=True)
    home = os.path.join(top, 'home')
    roots = ['A', 'B', 'C', 'home/D', 'A/s', 'cwd/E', 'cwd']
    nf = 0
    for r in roots:
        if rng.random() < .75:
            nf += tree(rng, os.path.join(top, r))
    for r in ('home', 'cwd'):
        os.makedirs(os.path.join(top, r), exist_ok=True)
    cwd = os.path.join(top, 'cwd')

    def name():
        r = pick(rng, roots + ['missing', 'home/none'])
        u = rng.random()
        if r.startswith('home') and u < .7:
            return '~' + r[4:]
        if u < .4:
            n = os.path.join('..', r)
            if r == 'cwd' and rng.random() < .6:
                n = '.'
            elif r == 'cwd/E' and rng.random() < .6:
                n = 'E'
            return n + ('/' if rng.random() < .2 else '')
        return os.path.join(top, r) + ('/' if rng.random() < .2 else '')

    user = [name() for _ in range(int(rng.integers(0, 4)))]
    app = [name() for _ in range(int(rng.integers(0, 3)))]
    evd = [name() for _ in range(int(rng.integers(1, 4)))]
    useenv = pick(rng, ['no', 'unset', 'empty', 'set', 'set', 'set'])
    pattern = pick(rng, STEMS) + pick(rng, ['', '', '1', '2']) + pick(rng, EXTS)
    u = rng.random()
    if u < .35:
        pattern = pick(rng, ['*', '*.mod', 'model*', '*1.*', 'm*.rc', '?odel*', 'data[1]*', '*[1]*'])
    elif u < .45:
        pattern = os.path.join(pick(rng, ['s', 't', 'u', 'w[2]']), pattern)
    elif u < .5 and nf:
        allf = [os.path.join(r, f) for r, _, fs in os.walk(top) for f in fs]
        pattern = pick(rng, allf)
    kw = {}
    dirs = []
    if useenv != 'no':
        kw['envvar'] = VAR
        if useenv == 'set':
            dirs += evd
    missing = True
    if rng.random() < .3:
        missing = kw['missingOK'] = bool(rng.random() < .5)
    if rng.random() < .2:
        kw['verbose'] = True
    if rng.random() < .15:
        dirs += ['.']
    else:
        kw['userdirs'] = user[0] if len(user) == 1 and rng.random() < .5 else list(user)
        dirs += user
    if rng.random() < .6:
        kw['appdirs'] = app[0] if len(app) == 1 and rng.random() < .5 else list(app)
        dirs += app
    env = {VAR: ':'.join(evd) if useenv == 'set' else '' if useenv == 'empty' else None, 'HOME': home}
    ctx.desc(pattern=pattern, dirs=dirs, kw={k: repr(v) for k, v in kw.items()}, env=env)

    out, before = io.StringIO(), {k: list(v) for k, v in kw.items() if isinstance(v, list)}
    with world(cwd, env):
        want, refused = None, False
        for d in dirs:
            d = home + d[1:] if d.startswith('~') else d
            if not os.path.exists(d):
                if not missing:
                    refused = True
                    break
                continue
            if os.path.isabs(pattern):
                w = {os.path.realpath(pattern)} if os.path.exists(pattern) else set()
            else:
                w = search(d, pattern)
            if w:
                want = w
                break
        fns = finders()
        with contextlib.redirect_stdout(out):
            for q in range(2):
                if want is None:
                    ctx.raises(lambda: fns[0](pattern, **kw), 'findpath without a match' if not refused else 'findpath with a missing directory', OSError)
                    ctx.same(fns[1](pattern, **kw), '', 'existspath without a match')
                    ctx.ev('refused directories' if refused else 'no match')
                else:
                    for fn in fns:
                        got = fn(pattern, **kw)
                        ctx.ok(isinstance(got, str) and os.path.realpath(got) in want, f'{fn.__name__} found another file', got=got, want=sorted(want))
                        ctx.ev('matches')
        # positional use: findpath(pattern, userdirs)
        if 'userdirs' in kw and rng.random() < .3:
            a = (kw['userdirs'], kw.get('envvar', ''), kw.get('appdirs', []), kw.get('missingOK', True))
            with contextlib.redirect_stdout(out):
                got = fns[1](pattern, *a)
            ctx.ok((got == '') if want is None else os.path.realpath(got) in want, 'existspath with positional arguments', got=got)
    for k, v in before.items():
        ctx.same(kw[k], v, f'{k} after the search')
    shutil.rmtree(top, ignore_errors=True)
    ctx.nontrivial(useenv, len(user), len(app), want is None, refused, pattern, nf)


def value(rng, depth=0):
    u = int(rng.integers(12))
    if u < 2:
        return int(rng.integers(-1000, 1000))
    if u < 4:
        return float(rng.normal() * 10. ** rng.integers(-12, 12))
    if u == 4:
        return pick(rng, ["it's # not a comment", 'a"b', 'x\ny', '', 'Zc', '\\back', 'é'])
    if u == 5:
        return [None, True, False, 1j * 3.5, b'raw', (1 + 2j)][int(rng.integers(6))]
    if u < 8 and depth < 3:
        x = [value(rng, depth + 1) for _ in range(int(rng.integers(0, 4)))]
        return x if rng.random() < .6 else tuple(x)
    if u < 11 and depth < 3:
        return dictionary(rng, depth + 1)
    return 'T%d' % int(rng.integers(50))


KEYS = ['Portnames', 'GTL', 'variables', 'L', 'Z', '[sc]', 'T1', 'a b', 5, (1, 2)]


def dictionary(rng, depth=0):
    return {KEYS[int(rng.integers(len(KEYS)))]: value(rng, depth)
            for _ in range(int(rng.integers(0 if depth else 1, 6)))}


def dump(rng, x, ind=0):
    """text of a value, with comments and layouts a person would use"""
    sp = lambda: pick(rng, ['', ' ', '  ', '\n' + ' ' * int(rng.integers(0, 8)), ' # a comment\n', '\n# {"k": [1,\n'])
    if isinstance(x, dict):
        s = '{' + sp()
        for i, (k, v) in enumerate(x.items()):
            s += repr(k) + pick(rng, [':', ' : ']) + dump(rng, v) + ',' + sp()
        return s + '}'
    if isinstance(x, list):
        return '[' + sp() + ''.join(dump(rng, v) + ',' + sp() for v in x) + ']'
    if isinstance(x, tuple):
        return '(' + sp() + ''.join(dump(rng, v) + ',' + sp() for v in x) + ')'
    if isinstance(x, str) and rng.random() < .2 and '"' not in x and '\\' not in x and x:
        return '"""' + x + '"""'
    return repr(x)


def dicts(ctx, rng):
    d = dictionary(rng)
    u = rng.random()
    text = dump(rng, d) if u < .6 else pprint.pformat(d, width=int(rng.integers(10, 100)), sort_dicts=False) if u < .8 else repr(d)
    if rng.random() < .4:
        text = '# first line\n\n' + text
    if rng.random() < .4:
        text += '\n# last line\n'
    ctx.desc(text=text)
    rf = ctx.rf
    from pyRFtk.ReadDictData import ReadDictString
    sub = os.path.join(ctx.scratch, 'dd', *(['k'] * int(rng.integers(0, 3))))
    shutil.rmtree(os.path.join(ctx.scratch, 'dd'), ignore_errors=True)
    os.makedirs(sub, exist_ok=True)
    fn = 'm%d.mod' % int(rng.integers(3))
    with open(os.path.join(sub, fn), 'w') as f:
        f.write(text)
    ways = [('text', lambda: ReadDictString(text)),
            ('file', lambda: rf.ReadDictData(fn, userdirs=os.path.join(ctx.scratch, 'dd'))),
            ('file in the application directories', lambda: rf.ReadDictData(fn, userdirs=[], appdirs=[os.path.join(ctx.scratch, 'dd')])),
            ('path', lambda: rf.ReadDictData(os.path.join(sub, fn)))]
    for how, fun in ways:
        got = fun()
        ctx.ok(isinstance(got, dict) and repr(got) == repr(d), f'dictionary from {how}', got=got, want=d)
        ctx.ev('dictionaries')
    with world(ctx.scratch, {VAR: sub}):
        ctx.ok(repr(rf.ReadDictData(fn, envvar=VAR, userdirs=[])) == repr(d), 'dictionary found through the environment')
    # independent results
    a, b = ways[0][1](), ways[1][1]()
    a.clear()
    ctx.ok(repr(b) == repr(d) and repr(ways[1][1]()) == repr(d) and repr(ways[0][1]()) == repr(d), 'a second reading')
    # only literals are accepted and nothing is ever executed
    flag = os.path.join(ctx.scratch, 'executed')
    bad = pick(rng, [f"{{'a': open({flag!r}, 'w').close()}}", 'dict(a=1)', "{'a': [1, 2}", "{'a': 1 +}", "{'a': b}", "[i for i in (1, 2)]",
                     "{'a': 2*3}", f"(lambda: open({flag!r}, 'w'))()", "{'a' 1}", '', "{'a': 1}\n{'b': 2}", "a = {'b': 1}"])
    bf = 'bad.mod'
    with open(os.path.join(sub, bf), 'w') as f:
        f.write(bad)
    ctx.raises(lambda: ReadDictString(bad), f'reading {bad!r}', (SyntaxError, ValueError, TypeError))
    ctx.raises(lambda: rf.ReadDictData(os.path.join(sub, bf)), f'reading a file with {bad!r}', (SyntaxError, ValueError, TypeError))
    ctx.ok(not os.path.exists(flag), 'an expression of a dictionary was executed')
    ctx.raises(lambda: rf.ReadDictData('nowhere.mod', userdirs=[sub]), 'reading a missing file', OSError)
    ctx.ev('refusals', 3)
    shutil.rmtree(os.path.join(ctx.scratch, 'dd'), ignore_errors=True)
    ctx.nontrivial(text)


def lines(ctx, rng):
    n = int(rng.integers(2, 12))
    L = [pick(rng, ['', ' ', '! comment', '1.0 2.0 3.0', '\tx\t', '# MHz S MA R 50', 'a  ', '  b', 'é', 'q' * 200]) for _ in range(n)]
    if not L[-1]:
        L[-1] = 'end'
    last = rng.random() < .5
    text = '\n'.join(L) + ('\n' if last else '')
    fn = os.path.join(ctx.scratch, 'lines.txt')
    with open(fn, 'w') as f:
        f.write(text)
    ctx.desc(text=text)
    from pyRFtk.getlines import getlines
    def drop(x):
        return x[:-1] if x and x[-1] == '' else x    # a final newline closes the last line
    for how, src in (('path', fn), ('text', text), ('stream', io.StringIO(text)), ('file', open(fn))):
        it = getlines(src)
        if rng.random() < .5 and how in ('path', 'text'):
            # abandoned and interleaved readings do not disturb each other
            x, y = it(), it()
            next(x)
            got0 = list(y)
            ctx.same(drop([l for l in got0]), L, f'lines from {how} (interleaved)')
            got = [L[0]] + list(x)
        else:
            got = list(it())
        ctx.ok(all('\n' not in l for l in got), f'newline within a line from {how}')
        ctx.same(drop(got), L, f'lines from {how}')
        ctx.ev('lines', len(got))
        if how == 'file':
            src.close()
    ctx.nontrivial(text)


SCENARIOS = [('lookup', lookup, 5), ('dicts', dicts, 3), ('lines', lines, 1)]
MIN_EVENTS = {'matches': 1000, 'no match': 100, 'refused directories': 30, 'dictionaries': 1000, 'lines': 500}
