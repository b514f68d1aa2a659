"""C28: independent objects do not influence each other, whatever the interleaving"""
import contextlib, os, pickle, re, shutil, sys, importlib, hashlib, threading, traceback, signal
import numpy as np
from .. import core
from ..core import Ctx, Skip, CaseViolation
from ..elems import pick
from ..sched import Sched

RULE = ('2 to 5 independent programs (operations and queries on circuits, elements, lines, tables, models, texts that '
        'share no object; mostly variants of one another with the same names, frequencies and structure and other values) '
        'are run interleaved under a seeded scheduler that hands over between operations, at entries of functions or '
        'between lines of the library; every answer each of them gets is compared with the answers it gets when it runs '
        'alone in a process of its own; non-trivial: hand-overs inside the library happened; distinct by the interleaving')
ASSUMPTIONS = ['programs that share an object, a file, the package defaults, the level of the log or a figure are not '
               'independent', 'no hand-over below scipy, logging or matplotlib, whose locks and state are not this package\'s']
QUICK, THOROUGH = 640, 4500

PROGRAMS = {
    'circuit': [('c01', 'flat'), ('c01', 'nested'), ('c01', 'terminations'), ('c02', 'flat'), ('c02', 'nested'),
                ('c13', 'flat'), ('c13', 'nested'), ('c13', 'nested'), ('c13', 'shared'), ('c15', 'forms'),
                ('c15', 'mixed'), ('c15', 'atbuild'), ('c17', 'nested'), ('c17', 'history'), ('c18', 'nested'),
                ('c19', 'circuit'), ('c21', 'power'), ('c22', 'smat'), ('c22', 'sols'), ('c23', 'living'), ('c14', 'circuits')],
    'element': [('c08', 'rlc'), ('c08', 'arc'), ('c09', 'coupler'), ('c13', 'elements'), ('c14', 'elements'), ('c03', 'element'),
                ('c23', 'elements'), ('c08', 'incircuit')],
    'line': [('c06', 'smat'), ('c06', 'waves'), ('c06', 'closed'), ('c13', 'lines'), ('c14', 'lines'), ('c07', 'resolve'),
             ('c07', 'same')],
    'table': [('c10', 'history'), ('c10', 'order'), ('c10', 'incircuit'), ('c19', 'table'), ('c24', 'table'), ('c03', 'table')],
    'model': [('c26', 'models')],
    'conv': [('c04', 'conv'), ('c04', 'vi'), ('c05', 'conv'), ('c24', 'convert')],
    'file': [('c11', 'strings'), ('c11', 'writetsf'), ('c11', 'users'), ('c12', 'plain'), ('c12', 'hfss'), ('c12', 'perport'),
             ('c25', 'lines')],
    'text': [('c27', 'texts'), ('c27', 'scaling'), ('c27', 'matrices')],
}


class Rng:
    """the decisions of one generator and, for a variant, now and then other values"""

    def __init__(self, seed, variant):
        self.g = np.random.default_rng(seed)
        self.v = np.random.default_rng(seed + [variant]) if variant else None

    def __getattr__(self, n):
        return getattr(self.g, n)

    def uniform(self, low=0., high=1., size=None):
        x = self.g.uniform(low, high, size)
        if self.v is None:
            return x
        y = self.v.uniform(low, high, size)
        return y if self.v.random() < .5 else x

    def normal(self, loc=0., scale=1., size=None):
        x = self.g.normal(loc, scale, size)
        if self.v is None:
            return x
        y = self.v.normal(loc, scale, size)
        return y if self.v.random() < .5 else x


class Rec(Ctx):
    """keeps what was observed; the verdicts of the program itself are not asked for"""

    def __init__(self, pid, rf, scratch):
        super().__init__(pid, '', 0, scratch, rf)
        self._desc, self._scn, self._nt = {}, '', False
        self.obs = []

    def fail(self, what, **detail):
        self.obs.append('fail')
        raise CaseViolation(what)

    def ok(self, cond, what, got=None, **detail):
        self.obs.append((what, bool(cond), number(got)))

    def close(self, got, want, what, **kw):
        self.obs.append((what, number(got), number(want)))

    def same(self, got, want, what, **kw):
        self.obs.append((what, core.deep_equal(got, want), number(got)))

    def raises(self, fun, what, types=None):
        try:
            r = number(fun())
        except Exception as e:
            r = type(e).__name__
        self.obs.append((what, r))


def number(x):
    try:
        a = np.asarray(x)
        return np.array(a) if a.dtype.kind in 'biufc' else None
    except Exception:
        return None


TL = threading.local()


class Stdout:
    """standard output per thread (that of a process is shared by definition)"""

    def __getattr__(self, n):
        return getattr((getattr(TL, 'out', None) or [sys.__stdout__])[-1], n)


class Redirect:
    def __init__(self, to):
        self.to = to

    def __enter__(self):
        TL.out = getattr(TL, 'out', None) or []
        TL.out.append(self.to)
        return self.to

    def __exit__(self, *exc):
        TL.out.pop()


def christen(rf):
    """objects without an Id get one that the objects of the other programs have as well"""
    for n in ('rfTRL', 'rfRLC', 'rfObject', 'rfCircuit', 'rfArcObj', 'rf3dBHybrid', 'rfGTL'):
        c = getattr(rf, n, None)
        if c is None or '__init__' not in vars(c):
            continue

        def init(self, *args, __of=c.__init__, __n=n, **kw):
            k = TL.count[__n] = TL.count.get(__n, 0) + 1
            if TL.same:
                kw.setdefault('Id', f'{__n} {k}')
            __of(self, *args, **kw)
        c.__init__ = init


def program(rf, scratch, prog, seed, variant, same):
    """runs the scenario; returns what was observed"""
    TL.count, TL.same = {}, same
    mod = importlib.import_module('vh.checks.' + prog[0])
    mod.PID = prog[0].upper()
    fun = {n: f for n, f, *_ in mod.SCENARIOS}[prog[1]]
    c = Rec(mod.PID, rf, scratch)
    with np.errstate(all='ignore'):
        try:
            fun(c, Rng(seed, variant))
        except Skip:
            c.obs.append('skip')
        except CaseViolation:
            c.obs.append('end')
        except Exception as e:
            c.obs.append((type(e).__name__, traceback.format_exc()[-400:]))
    return c.obs


def child(rf, fun):
    """the result of fun in a process of its own"""
    r, w = os.pipe()
    pid = os.fork()
    if not pid:
        code = 1
        try:
            christen(rf)
            sys.stdout, contextlib.redirect_stdout = Stdout(), Redirect
            os.close(r)
            signal.alarm(0)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(100)
            with os.fdopen(w, 'wb') as f:
                pickle.dump(fun(), f)
            code = 0
        except BaseException:
            traceback.print_exc()
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    _, st = os.waitpid(pid, 0)
    if os.WIFEXITED(st) and os.WEXITSTATUS(st):
        raise RuntimeError('the machinery failed in a child')
    if st:
        raise NotEnded(str(st))
    return pickle.loads(data)


class NotEnded(Exception):
    pass


def differ(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) != len(b) or plain(a[0]) != plain(b[0]) or any(differ(x, y) for x, y in zip(a[1:], b[1:]))
    if isinstance(a, np.ndarray) and isinstance(b, np.ndarray):
        if a.shape != b.shape:
            return True
        if a.size == 0 or np.array_equal(a, b, equal_nan=a.dtype.kind in 'fc'):
            return False
        if a.dtype.kind == 'b' or not (np.all(np.isfinite(a)) and np.all(np.isfinite(b))):
            return True
        return float(np.max(np.abs(a - b))) > 1e-9 * max(1e-300, float(np.max(np.abs(a))))
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return True
    return plain(a) != plain(b)


def plain(x):
    """texts without the numbers that are counted up through a process (generic names of objects)"""
    return re.sub(r'0x[0-9a-f]+|\d+', '#', x) if isinstance(x, str) else x


def mix(ctx, rng, level, p):
    jobs = []
    fam = pick(rng, list(PROGRAMS) + ['circuit', 'circuit', 'line'])
    seed = [int(rng.integers(2**31)), 1]
    base = pick(rng, PROGRAMS[fam])
    for k in range(int(rng.integers(2, 5))):
        u = rng.random()
        if u < .65:
            jobs.append((base, seed, k))                                  # a variant
        elif u < .75:
            jobs.append((base, seed, 0))                                  # the same once more
        elif u < .9:
            jobs.append((pick(rng, PROGRAMS[fam]), seed, k))              # another program of the kind
        else:
            jobs.append((pick(rng, PROGRAMS[pick(rng, list(PROGRAMS))]), [int(rng.integers(2**31)), 2], 0))
    same = bool(rng.random() < .6)
    jobs = [j + (same,) for j in jobs]
    ctx.desc(programs=[(j[0], j[1], j[2]) for j in jobs], level=level, same_Ids=same)
    rf = ctx.rf
    dirs = [os.path.join(ctx.scratch, f'program {k}') for k in range(len(jobs))]

    def clean():
        for d in dirs:
            shutil.rmtree(d, ignore_errors=True)
            os.mkdir(d)
    clean()
    try:
        alone = [child(rf, lambda: program(rf, d, *j)) for d, j in zip(dirs, jobs)]
    except NotEnded:
        raise Skip('a program did not end')
    clean()
    sseed = int(rng.integers(2**31))

    def together():
        s = Sched(sseed, level, p)
        out = s.run([lambda d=d, j=j: program(rf, d, *j) for d, j in zip(dirs, jobs)])
        return out, s.switches, s.points
    try:
        out, sw, points = child(rf, together)
    except NotEnded as e:
        ctx.fail('independent programs did not end when interleaved', status=str(e))
    for j, a, b in zip(jobs, alone, out):
        ctx.ok(isinstance(b, list), 'a program ended with an error when interleaved', error=b, program=j)
        for k, (x, y) in enumerate(zip(a, b)):
            ctx.ok(not differ(x, y), 'the answer of an independent program changed when interleaved with others: ' + str(x[0] if isinstance(x, tuple) else x)[:300],
                   program=j, number=k, alone=x, interleaved=y)
        ctx.ok(len(a) == len(b), 'an interleaved program gave other answers', program=j, alone=len(a), interleaved=len(b))
        ctx.ev('answers compared', len(a))
    ctx.ev('hand-overs', len(sw))
    ctx.ev('points passed', points)
    ctx.ev('programs', len(jobs))
    ctx.ev('family ' + fam)
    if sw:
        ctx.nontrivial(hashlib.sha1(repr(sw).encode()).hexdigest())
    # which functions were interrupted by which
    ctx.desc(handovers=sorted({f'{a} | {b}' for _, a, _, b in sw})[:20])


def operation(ctx, rng):
    mix(ctx, rng, 'operation', .5)


def call(ctx, rng):
    mix(ctx, rng, 'call', float(10**rng.uniform(-2.5, -.5)))


def line(ctx, rng):
    mix(ctx, rng, 'line', float(10**rng.uniform(-3.5, -1.5)))


SCENARIOS = [('operation', operation, 3), ('call', call, 2), ('line', line, 2)]
MIN_EVENTS = {'hand-overs': 5000, 'answers compared': 10000}
