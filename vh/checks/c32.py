"""C32: the surroundings of a process make no difference"""
import os, re, sys, gc, io, time, pickle, random, signal, logging, threading, warnings, inspect, functools, contextlib
import subprocess, tempfile, shutil
import numpy as np
from .. import core
from ..common import *
from ..elems import pick
from ..core import Skip, CaseViolation
from . import c31

RULE = ('random scenarios of the other checks are executed twice from the same state of the process, once as they are and once in other '
        'surroundings (numerical error handling, print options, warning filters, random state, garbage collection, other thread, depth of '
        'the stack, code without a source, profiler, matplotlib style, environment, directory, logging of the application, contents of '
        'uninitialised memory; in processes of their own: hash seed, optimised mode, time zone, locale, memory allocator ...); a monitor '
        'around every public function records what each call made from outside returned, raised, printed and drew; both traces must '
        'agree; non-trivial: at least one call was compared; distinct by scenario, surroundings and random state')
ASSUMPTIONS = ['descriptions of objects show arrays with the print options of numpy; this is not judged', 'texts are compared without dates, addresses and names of temporary files', 'numbers agree within 1e-8 (relative to the largest of the answer)',
               'floating point errors and warnings issued on purpose are not turned into exceptions', 'what other checks judge is not judged here']
QUICK, THOROUGH = 2200, 14000

STYLE = {'axes.facecolor': 'black', 'lines.linewidth': 3., 'font.size': 6., 'axes.grid': True, 'axes.xmargin': .3}


# ------------------------------------------------------------------ recorder
def scrub(s):
    s = re.sub(r'\d{4}-\d\d-\d\d[ T]\d\d:\d\d:\d\d', '<date>', s)
    s = re.sub(r'0x[0-9a-fA-F]+|(?<![\d.])\d{13,}\b', '<address>', s)
    return re.sub(r'/\S*vh_\w+/[^\s\'",:)\]]*', '<path>', s)


def canon(x, depth=0):
    """what can be compared of an answer"""
    if x is None or isinstance(x, (bool, int, float, complex, np.number, np.bool_)):
        return x.item() if isinstance(x, (np.number, np.bool_)) else x
    if isinstance(x, str):
        return scrub(x)
    if isinstance(x, bytes):
        return x
    if depth > 8:
        return type(x).__name__
    if isinstance(x, np.ndarray):
        if x.dtype.kind in 'biufc':
            return np.array(x)
        return ('array', x.shape, [canon(v, depth + 1) for v in x.ravel()[:500]])
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, len(x), [canon(v, depth + 1) for v in x[:3000]])
    if isinstance(x, dict):
        return ('dict', len(x), [(canon(k, depth + 1), canon(v, depth + 1)) for k, v in list(x.items())[:3000]])
    return type(x).__name__


NUM = re.compile(r'[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?|[-+]?\b(?:nan|inf)\b')


def differ(a, b, path=''):
    """where two recorded answers differ (None: nowhere)"""
    if isinstance(a, bool) or isinstance(b, bool) or a is None or b is None:
        return None if a is b or a == b and type(a) is type(b) else (path, a, b)
    if isinstance(a, (int, float, complex)) and isinstance(b, (int, float, complex)):
        a_, b_ = complex(a), complex(b)
        if a_ == b_ or (a_ != a_ and b_ != b_) or abs(a_ - b_) <= 1e-8 * max(abs(a_), 1e-3):
            return None
        return (path, a, b)
    if type(a) is not type(b):
        return (path, repr(a)[:200], repr(b)[:200])
    if isinstance(a, np.ndarray):
        if a.shape != b.shape or a.dtype.kind != b.dtype.kind:
            return (path, (a.shape, str(a.dtype)), (b.shape, str(b.dtype)))
        if a.size == 0 or np.array_equal(a, b, equal_nan=a.dtype.kind in 'fc'):
            return None
        if a.dtype.kind in 'fc':
            fa, fb = np.isfinite(a), np.isfinite(b)
            if np.array_equal(fa, fb):
                m = np.max(np.abs(a[fa])) if fa.any() else 0.
                if np.all(np.abs(a[fa] - b[fa]) <= 1e-8 * max(m, 1e-3)) and \
                        all(str(u) == str(v) for u, v in zip(a[~fa], b[~fa])):
                    return None
        return (path, repr(a)[:300], repr(b)[:300])
    if isinstance(a, str):
        if a == b:
            return None
        if NUM.sub('#', a) == NUM.sub('#', b):
            for u, v in zip(NUM.findall(a), NUM.findall(b)):
                if u != v and not abs(float(u) - float(v)) <= 1e-5 * max(abs(float(u)), 1e-3):
                    break
            else:
                return None
        k = next((i for i, (u, v) in enumerate(zip(a, b)) if u != v), min(len(a), len(b)))
        return (path, a[max(0, k - 80):k + 120], b[max(0, k - 80):k + 120])
    if isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return (path, f'{len(a)} of them', f'{len(b)} of them')
        for k, (u, v) in enumerate(zip(a, b)):
            d = differ(u, v, f'{path}[{k}]')
            if d:
                return d
        return None
    return None if a == b else (path, repr(a)[:200], repr(b)[:200])


class Tracer:
    wrap = c31.Monitor.wrap

    def __init__(self, rf):
        import matplotlib, importlib
        matplotlib.use('Agg')
        import matplotlib.pyplot as plt
        import scipy.integrate, scipy.interpolate, scipy.optimize, scipy.linalg
        self.plt, self.rf = plt, rf
        self.cfg = importlib.import_module('pyRFtk.config')
        self.depth, self.on, self.trace, self.around = 0, False, [], ()
        self.me = threading.get_ident()
        self.wrap()

    def wrapped(self, fun, name):
        tr = self

        @functools.wraps(fun)
        def call(*args, **kwargs):
            if tr.depth or not tr.on or threading.get_ident() != tr.me:
                return fun(*args, **kwargs)
            tr.depth = 1
            try:
                with contextlib.ExitStack() as st:
                    way = [w for w in (a(st) for a in tr.around) if w]
                    f = functools.partial(fun, *args, **kwargs)
                    for w in way:
                        f = functools.partial(w, f)
                    r = f()
                tr.trace.append((name, canon(r)) + ((tr.drawn(),) if name in c31.DRAWERS else ()))
                return r
            except core.Alarm:
                raise
            except Exception as e:
                tr.trace.append((name, 'raised', type(e).__name__, scrub(str(e))))
                raise
            finally:
                tr.depth = 0
        return call

    def drawn(self):
        r = []
        for k in self.plt.get_fignums():
            for ax in self.plt.figure(k).axes:
                r.append((ax.get_title(), ax.get_xlabel(), ax.get_ylabel(), [t.get_text() for t in ax.texts],
                          [(l.get_label() if not l.get_label().startswith('_') else '', np.array(l.get_xdata(orig=False), dtype=float),
                            np.array(l.get_ydata(orig=False), dtype=float)) for l in ax.lines]))
        return r


# -------------------------------------------------------------- surroundings
def s_fp(rng):
    kw = {k: pick(rng, ['ignore', 'warn', 'warn', 'call']) for k in ('divide', 'invalid', 'over', 'under')}

    def enter(st):
        st.enter_context(np.errstate(call=lambda *a: None, **kw))
    return f'np.seterr {kw}', enter


def s_print(rng):
    kw = dict(precision=int(rng.integers(0, 4)), threshold=int(rng.integers(1, 6)), edgeitems=1, linewidth=int(rng.integers(10, 60)),
              suppress=bool(rng.random() < .5), sign=pick(rng, ['+', '-', ' ']), floatmode=pick(rng, ['fixed', 'maxprec']))
    if rng.random() < .3:
        kw['formatter'] = {'float': lambda x: '#', 'complex': lambda x: '#', 'int': lambda x: '%'}

    def enter(st):
        st.enter_context(np.printoptions(**kw))
    return 'np.set_printoptions', enter


def s_warn(rng):
    how = pick(rng, ['error', 'always', 'error'])

    def enter(st):
        st.enter_context(warnings.catch_warnings())
        warnings.simplefilter(how)
        for c in (UserWarning, RuntimeWarning):          # (those the library issues itself, and floating point errors)
            warnings.simplefilter('ignore', c)
        warnings.showwarning = lambda *a, **k: None
    return f'warnings {how}', enter


def s_random(rng):
    n = [int(rng.integers(2**31))]

    def enter(st):
        s, w = random.getstate(), np.random.get_state()
        n[0] += 1
        random.seed(n[0])
        np.random.seed(n[0])
        st.callback(random.setstate, s)
        st.callback(np.random.set_state, w)
    return 'random generators', enter


def s_gc(rng):
    n = pick(rng, [0, 20])

    def enter(st):
        old = gc.get_threshold()
        gc.set_threshold(n)
        st.callback(gc.set_threshold, *old)
    return f'garbage collection {n}', enter


def s_thread(rng):
    def way(f):
        r = []

        def go():
            try:
                r.append((f(), None))
            except BaseException as e:
                r.append((None, e))
        t = threading.Thread(target=go)
        t.start()
        t.join()
        if r[0][1] is not None:
            raise r[0][1]
        return r[0][0]
    return 'another thread', lambda st: way


def s_deep(rng):
    n = int(rng.integers(20, 150))

    def way(f, n=n):
        return f() if n <= 0 else way(f, n - 1)
    return f'{n} calls deep', lambda st: way


def s_exec(rng):
    def way(f):
        d = dict(f=f)
        exec(compile('r = f()', '<no source>', 'exec'), d)
        return d['r']
    return 'from code without a source', lambda st: way


def s_profile(rng):
    def enter(st):
        sys.setprofile(lambda *a: None)
        st.callback(sys.setprofile, None)
    return 'profiler', enter


def s_style(rng):
    import matplotlib

    def enter(st):
        st.enter_context(matplotlib.rc_context(STYLE))
    return 'style of matplotlib', enter


def s_env(rng):
    tz = pick(rng, ['UTC+11', 'UTC-9:30'])

    def enter(st):
        old = dict(os.environ)

        def back():
            os.environ.clear()
            os.environ.update(old)
            time.tzset()
        st.callback(back)
        for k in ('HOME', 'USER', 'LOGNAME', 'TMPDIR', 'LANG', 'LC_ALL', 'DISPLAY', 'TERM'):
            os.environ.pop(k, None)
        os.environ.update(COLUMNS='20', LINES='3', TZ=tz, HOME='/nonexistent', LANG='xx_YY', NUMEXPR_MAX_THREADS='1', DEBUG='1', VERBOSE='1')
        time.tzset()
    return 'environment', enter


def s_log(rng):
    off = bool(rng.random() < .3)

    def enter(st):
        h = logging.StreamHandler(io.StringIO())
        lvl, hs = logging.root.level, list(logging.root.handlers)
        logging.root.handlers[:] = [h]
        logging.root.setLevel(logging.DEBUG)
        if off:
            logging.disable(logging.CRITICAL)
            st.callback(logging.disable, logging.NOTSET)

        def back():
            logging.root.setLevel(lvl)
            logging.root.handlers[:] = hs
        st.callback(back)
    return f'logging of the application{" (off)" * off}', enter


def s_dirty(rng):
    v = pick(rng, [np.nan, 1e77, -3.25])

    def enter(st):
        def dirt(a):
            if a.dtype.kind in 'fc':
                a.fill(v)
            elif a.dtype.kind in 'iu':
                a.fill(77)
            elif a.dtype.kind == 'b':
                a.fill(True)
            return a

        for name in ('empty', 'empty_like'):
            old = getattr(np, name)
            setattr(np, name, functools.wraps(old)(lambda *a, _o=old, **k: dirt(_o(*a, **k))))
            st.callback(setattr, np, name, old)
    return f'uninitialised memory {v}', enter


def s_cwd(rng):
    def enter(st):
        st.callback(os.chdir, os.getcwd())
        d = tempfile.mkdtemp(prefix='vh_cwd_')
        st.callback(shutil.rmtree, d, True)
        os.chdir(d)
    return 'directory', enter


KINDS = dict(fp=s_fp, print=s_print, warn=s_warn, random=s_random, gc=s_gc, thread=s_thread, deep=s_deep, exec=s_exec, profile=s_profile,
             style=s_style, env=s_env, log=s_log, dirty=s_dirty, cwd=s_cwd)
# (the text for the screen of an object shows arrays as numpy is told to)
SHOW = ('asstr', '__str__', '__repr__', 'str_dict', 'strM', 'printM')
# what is given to a scenario on purpose is not changed
NOT = {'C25': {'env', 'cwd'}, 'C26': {'env', 'cwd'}, 'C29': {'log', 'print'}, 'C24': {'cwd'}, 'C30': {'cwd'}, 'C28': {'thread'},
       'C11': {'cwd'}, 'C12': {'cwd'}, 'C10': {'cwd'}, 'C27': {'style'}, 'C23': {'cwd'}, 'C14': {'cwd'}, 'C16': {'log'}}


# ------------------------------------------------------------------- running
_tr = []


def tracer(rf):
    if not _tr:
        c31.scenarios()
        _tr.append(Tracer(rf))
    return _tr[0]


def follow(tr, tier, seed, scratch, rf, n, name, rngseed, around=()):
    """the trace of one scenario and how it ended"""
    fun = dict(c31.scenarios()[n])[name]
    sub = core.Ctx(n, tier, seed, scratch, rf)
    sub._desc, sub._nt, sub._scn = {}, False, name
    np.random.seed(rngseed)
    random.seed(rngseed)
    out = io.StringIO()
    tr.trace, tr.around, tr.depth, tr.me = [], around, 0, threading.get_ident()
    try:
        with contextlib.redirect_stdout(out), warnings.catch_warnings(), np.errstate(all='ignore'):
            warnings.simplefilter('ignore')
            tr.on = True
            try:
                fun(sub, np.random.default_rng(rngseed))
            finally:
                tr.on = False
        ended = 'held'
    except CaseViolation as e:
        ended = 'not held: ' + scrub(str(e))[:600]
    except Skip:
        ended = 'undecided'
    except Exception as e:
        ended = f'{type(e).__name__}: {scrub(str(e))[:400]}'
    figures = len(tr.plt.get_fignums())
    tr.plt.close('all')
    return dict(trace=tr.trace, ended=ended, figures=figures, text=scrub(out.getvalue())[:20000])


def apart(fun, limit):
    """the result of fun in a copy of this process"""
    r, w = os.pipe()
    t0 = time.time()
    pid = os.fork()
    if not pid:
        code = 1
        try:
            os.close(r)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(limit)
            with os.fdopen(w, 'wb') as f:
                pickle.dump(fun(), f, -1)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    try:
        with os.fdopen(r, 'rb') as f:
            data = f.read()
    except BaseException:
        os.kill(pid, signal.SIGKILL)
        raise
    finally:
        st = os.waitpid(pid, 0)[1]
    if st:
        return None, time.time() - t0
    return pickle.loads(data), time.time() - t0


def choose(rng, mods):
    n = pick(rng, c31.OFTEN) if rng.random() < .4 else pick(rng, sorted(mods))
    return n, pick(rng, mods[n])[0], int(rng.integers(2**31))


def judge(ctx, a, b, who, where, shown=True):
    for k, (u, v) in enumerate(zip(a['trace'], b['trace'])):
        ctx.ok(u[0] == v[0], f'{who}: another call was made ({where})', got=v[0], want=u[0])
        if not shown and u[0] in SHOW and u[1:2] != ('raised',) != v[1:2]:
            continue
        d = differ(u[1:], v[1:])
        ctx.ok(not d, f'{who}: call {k + 1} ({u[0]}) answers otherwise ({where})', here=d and d[0], alone=d and d[1], got=d and d[2])
    ctx.ok(len(a['trace']) == len(b['trace']) and a['ended'] == b['ended'], f'{who}: ended otherwise ({where})',
           alone=(len(a['trace']), a['ended']), got=(len(b['trace']), b['ended']))
    ctx.ok(a['figures'] == b['figures'], f'{who}: made other figures ({where})', alone=a['figures'], got=b['figures'])
    d = differ(a['text'], b['text']) if shown else None
    ctx.ok(not d, f'{who}: printed otherwise ({where})', alone=d and d[1], got=d and d[2])
    ctx.ev('calls compared', len(a['trace']))
    ctx.ev('refused calls compared', sum(t[1] == 'raised' for t in a['trace'] if isinstance(t[1], str)))
    for t in a['trace']:
        ctx.ev('call ' + t[0])


def inside(ctx, rng):
    """in other surroundings within the process"""
    tr, mods = tracer(ctx.rf), c31.scenarios()
    n, name, seed = choose(rng, mods)
    kinds = [k for k in KINDS if k not in NOT.get(n, ())]
    use = [kinds[int(k)] for k in rng.permutation(len(kinds))[:int(rng.integers(1, 4))]]
    names, around = zip(*[KINDS[k](rng) for k in use])
    ctx.desc(executed=f'{n}.{name}', rngseed=seed, surroundings=names)
    a, t = apart(lambda: follow(tr, ctx.tier, ctx.seed, ctx.scratch, ctx.rf, n, name, seed), 40)
    if a is None:
        raise Skip('did not end')
    b, _ = apart(lambda: follow(tr, ctx.tier, ctx.seed, ctx.scratch, ctx.rf, n, name, seed, around), 110 - int(t) if t < 8 else 60)
    if b is None:
        if t > 3:
            raise Skip('did not end')
        ctx.fail(f'{n}.{name}: did not end', surroundings=names)
    judge(ctx, a, b, f'{n}.{name}', ', '.join(names), 'print' not in use)
    for k in use:
        ctx.ev('surroundings: ' + k)
    if a['trace']:
        ctx.nontrivial(n, name, seed, names)


# -------------------------------------------------------- processes of their own
MAIN = '''
import sys, os
os.environ.setdefault('VERIF_REPO', %r)
sys.path.insert(0, %r)
from vh.checks import c32
c32.main(%r)
'''


def main(job):
    """(in the process of its own)"""
    import resource
    with open(job, 'rb') as f:
        j = pickle.load(f)
    rf = core.load(j['scratch'])
    resource.setrlimit(resource.RLIMIT_AS, (core.MEMORY, core.MEMORY))
    tr = tracer(rf)
    if j.get('cwd'):
        os.chdir(j['cwd'])
    res = [apart(lambda c=c: follow(tr, j['tier'], j['seed'], j['scratch'], rf, *c), 40)[0] for c in j['cases']]
    with open(job + '.out', 'wb') as f:
        pickle.dump(res, f, -1)


def processes(ctx, rng):
    """in a process with another interpreter state"""
    tr, mods = tracer(ctx.rf), c31.scenarios()
    cases = []
    while len(cases) < 30:
        cases.append(choose(rng, mods))
    kinds = ['hash', 'hash', 'optimised', 'time zone', 'allocator', 'development', 'locale', 'terminal']
    use = [kinds[int(k)] for k in rng.permutation(len(kinds))[:3]]
    opts, env = [], {k: v for k, v in os.environ.items()}
    env.update(PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', PYTHONHASHSEED='0')
    if 'hash' in use:
        env['PYTHONHASHSEED'] = str(int(rng.integers(1, 2**31)))
    if 'optimised' in use:
        opts.append('-O')
    if 'time zone' in use:
        env['TZ'] = pick(rng, ['UTC+11', 'UTC-9:30'])
    if 'allocator' in use:
        env['PYTHONMALLOC'] = 'debug'
        env['MALLOC_PERTURB_'] = str(int(rng.integers(1, 255)))
    if 'development' in use:
        opts += ['-X', 'dev']
    if 'locale' in use:
        env.update(LC_ALL='C', LANG='C')
    if 'terminal' in use:
        env.update(COLUMNS='20', LINES='4', TERM='dumb', DEBUG='1', VERBOSE='1')
        env.pop('HOME', None)
    ctx.desc(executed=[f'{n}.{m} {s}' for n, m, s in cases], options=opts, surroundings=use)
    d = tempfile.mkdtemp(prefix='proc_', dir=ctx.scratch)
    sc = os.path.join(tempfile.mkdtemp(prefix='vh_C32p_'))
    try:
        job = os.path.join(d, 'job')
        with open(job, 'wb') as f:
            pickle.dump(dict(scratch=sc, tier=ctx.tier, seed=ctx.seed, cases=cases), f)
        t0 = time.time()
        # (each case in a copy of this process: it starts from the state after the import, as the others)
        want = [apart(lambda c=c: follow(tr, ctx.tier, ctx.seed, ctx.scratch, ctx.rf, *c), 30)[0] for c in cases]
        keep = [k for k, w in enumerate(want) if w is not None]
        if time.time() - t0 > 25 or not keep:
            raise Skip('slow')
        with open(job, 'wb') as f:
            pickle.dump(dict(scratch=sc, tier=ctx.tier, seed=ctx.seed, cases=[cases[k] for k in keep]), f)
        p = subprocess.run([sys.executable, *opts, '-c', MAIN % (core.REPO, core.HERE, job)], cwd=sc, env=env, stdin=subprocess.DEVNULL,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', timeout=85)
        if p.returncode or not os.path.exists(job + '.out'):
            ctx.fail('the process failed', code=p.returncode, err=p.stderr[-1500:], surroundings=use)
        with open(job + '.out', 'rb') as f:
            got = pickle.load(f)
        for k, g in zip(keep, got):
            if g is None:
                ctx.ev('did not end')
                continue
            judge(ctx, want[k], g, '.'.join(cases[k][:2]) + f' {cases[k][2]}', ', '.join(use) + f' {env["PYTHONHASHSEED"]}')
        for k in use:
            ctx.ev('surroundings: ' + k)
        ctx.ev('processes')
        ctx.nontrivial(cases, use)
    finally:
        shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(sc, ignore_errors=True)


SCENARIOS = [('inside', inside, 60), ('processes', processes, 1)]
MIN_EVENTS = {'calls compared': 10000, 'refused calls compared': 400, 'processes': 10, **{f'surroundings: {k}': 60 for k in KINDS}}
