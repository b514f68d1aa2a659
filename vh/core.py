"""core of the harness: environment, case loop, recorder, evidence, verdict.

Every check is a module vh.checks.cNN with
    RULE      : str    how cases are made and what makes one non-trivial
    SCENARIOS : list of (name, function(ctx, rng), weight)
    QUICK, THOROUGH : number of cases for either tier
    (optional) MIN_EVENTS : {event: minimum}  -> otherwise inconclusive
A scenario drives the real code and calls ctx.ok / ctx.close / ctx.raises, which
are the oracles' verdicts over what was observed.
"""
import os, sys, io, json, time, tempfile, shutil, traceback, hashlib, contextlib
import warnings, signal

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')

for _v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ.setdefault(_v, '1')
os.environ['MPLBACKEND'] = 'Agg'
sys.dont_write_bytecode = True

import numpy as np


MEMORY = 3500 << 20 # of a worker: more is a request that does not end (MemoryError), not 0.5 GB of a normal run


class CaseViolation(Exception):
    pass


class Skip(Exception):
    """the generated case cannot be decided (e.g. ill-conditioned network)"""


def load(scratch):
    """import the library from the repository's working tree"""
    os.chdir(scratch)
    src = os.path.join(REPO, 'src')
    sys.path.insert(0, src)
    hook = sys.excepthook
    with contextlib.redirect_stdout(io.StringIO()):
        import pyRFtk
    sys.excepthook = hook
    if not os.path.abspath(pyRFtk.__file__).startswith(os.path.abspath(src)):
        raise RuntimeError(f'pyRFtk imported from {pyRFtk.__file__}')
    return pyRFtk


class Alarm(Exception):
    pass


def _on_alarm(*_):
    raise Alarm('case did not finish within its time limit')


class Ctx:
    MAXVIOL = 3

    def __init__(self, pid, tier, seed, scratch, rf, known=()):
        self.pid, self.tier, self.seed, self.scratch, self.rf = pid, tier, seed, scratch, rf
        self.known = list(known)
        self.events = {}
        self.cases = self.skipped = 0
        self.sigs = set()
        self.samples = []
        self.violations = []
        self.knownhits = {}
        self.maxerr = 0.
        self._desc = None
        self._nt = False

    # -- recording ----------------------------------------------------------
    def ev(self, name, n=1):
        self.events[name] = self.events.get(name, 0) + int(n)

    def desc(self, **kw):
        """description of the present case (kept as sample and in the replay)"""
        self._desc.update(kw)

    def nontrivial(self, *key):
        self._nt = True
        h = hashlib.sha1(repr((self._scn, key)).encode()).hexdigest()
        self.sigs.add(h)

    # -- oracles ------------------------------------------------------------
    def fail(self, what, **detail):
        raise CaseViolation(json.dumps(dict(what=what, **jsonable(detail))))

    def ok(self, cond, what, **detail):
        self.ev('oracle_verdicts')
        if not cond:
            self.fail(what, **detail)

    def close(self, got, want, what, tol=1e-7, atol=None, **detail):
        """relative comparison: |got-want| <= tol * max(|want|,1) (elementwise max norm)"""
        self.ev('oracle_verdicts')
        g, w = np.asarray(got), np.asarray(want)
        if g.shape != w.shape:
            self.fail(what + ': shape differs', got_shape=g.shape, want_shape=w.shape, **detail)
        if g.size == 0:
            return
        if not np.all(np.isfinite(g)) and np.all(np.isfinite(w)):
            self.fail(what + ': not finite', got=g, want=w, **detail)
        e = float(np.max(np.abs(g - w)))
        lim = (tol * max(float(np.max(np.abs(w))), 1e-300 if atol is not None else 1.)
               + (atol or 0.))
        if not (e <= lim):
            self.fail(what, err=e, limit=lim, got=g, want=w, **detail)
        if lim:
            self.maxerr = max(self.maxerr, e / lim)

    def same(self, got, want, what, **detail):
        """bit for bit (or ==) equality of results"""
        self.ev('oracle_verdicts')
        if not deep_equal(got, want):
            self.fail(what, got=got, want=want, **detail)

    def raises(self, fun, what, types=(ValueError, TypeError, KeyError)):
        """the call has to be refused"""
        self.ev('oracle_verdicts')
        try:
            r = fun()
        except types as e:
            self.ev('refused_calls')
            return e
        except Exception as e:
            self.fail(what + f': raised {type(e).__name__} ({e})')
        self.fail(what + ': was not refused', result=r)


def deep_equal(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return list(a) == list(b) and all(deep_equal(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(deep_equal(x, y) for x, y in zip(a, b))
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        x, y = np.asarray(a), np.asarray(b)
        try:
            return x.shape == y.shape and bool(np.array_equal(x, y, equal_nan=x.dtype.kind in 'fc'))
        except TypeError:
            return x.shape == y.shape and bool(np.all(x == y))
    try:
        return bool(a == b) or (a != a and b != b)
    except Exception:
        return False


def jsonable(o):
    if isinstance(o, dict):
        return {str(k): jsonable(v) for k, v in o.items()}
    if isinstance(o, (list, tuple, set)):
        return [jsonable(v) for v in o]
    if isinstance(o, np.ndarray):
        return repr(o) if o.size > 64 else jsonable(o.tolist())
    if isinstance(o, (np.integer,)):
        return int(o)
    if isinstance(o, (np.floating, float)):
        return float(o) if np.isfinite(o) else repr(float(o))
    if isinstance(o, (complex, np.complexfloating)):
        return repr(complex(o))
    if isinstance(o, (str, int, bool)) or o is None:
        return o
    return repr(o)[:300]


def run_case(ctx, mod, idx):
    table = schedule(mod)
    name, fun = table[idx % len(table)]
    rng = np.random.default_rng([ctx.seed, int(mod.PID[1:]), idx])
    ctx._desc, ctx._nt, ctx._scn = dict(scenario=name, index=idx), False, name
    ctx.cases += 1
    out = io.StringIO()
    np.random.seed((ctx.seed * 1000003 + idx) % 2**32)
    signal.signal(signal.SIGALRM, _on_alarm)
    signal.alarm(120)
    try:
        with contextlib.redirect_stdout(out), warnings.catch_warnings(), np.errstate(all='ignore'):
            warnings.simplefilter('ignore')
            fun(ctx, rng)
        ctx.ev('scenario ' + name)
    except Skip as e:
        ctx.skipped += 1
        ctx.ev('skipped: ' + str(e))
        ctx._nt = False
        return
    except CaseViolation as e:
        record(ctx, name, idx, json.loads(str(e)))
        return
    except Alarm as e:
        record(ctx, name, idx, dict(what='hang: ' + str(e), trace=traceback.format_exc()[-1500:]))
        return
    except Exception as e:
        tb = traceback.format_exc()
        record(ctx, name, idx, dict(what=f'unexpected {type(e).__name__}: {str(e)[:300]}', trace=tb[-2500:]))
        return
    finally:
        signal.alarm(0)
    if ctx._nt and len(ctx.samples) < 2 and not any(s['scenario'] == name for s in ctx.samples):
        ctx.samples.append(jsonable(ctx._desc))


def record(ctx, name, idx, detail):
    text = json.dumps(detail)
    for k in ctx.known:
        if k['pid'] == ctx.pid and k['scenario'] == name and k['match'] in text:
            ctx.knownhits[k['text']] = ctx.knownhits.get(k['text'], 0) + 1
            return
    ctx.violations.append(dict(property=ctx.pid, scenario=name, index=idx, seed=ctx.seed,
                               tier=ctx.tier, case=jsonable(ctx._desc), **detail))


_tables = {}
def schedule(mod):
    """a deterministic round robin over the scenarios according to their weights"""
    if mod.PID not in _tables:
        t = []
        left = [[n, f, w] for n, f, w in mod.SCENARIOS]
        while any(w > 0 for *_, w in left):
            for e in left:
                if e[2] > 0:
                    t.append((e[0], e[1]))
                    e[2] -= 1
        _tables[mod.PID] = t
    return _tables[mod.PID]


def read_known():
    """KNOWN_FINDINGS: lines 'finding: property=<id> scenario=<s> match=<text> | <description>'
    (lines starting with 'fixed:' suppress nothing)"""
    res = []
    try:
        for line in open(os.path.join(HERE, 'KNOWN_FINDINGS')):
            if line.startswith('finding:'):
                head, text = line[8:].split('|', 1)
                d = dict(t.split('=', 1) for t in head.split(' ; ') if '=' in t)
                d = {k.strip(): v.strip() for k, v in d.items()}
                res.append(dict(pid=d['property'], scenario=d['scenario'],
                                match=d['match'], text=text.strip()))
    except FileNotFoundError:
        pass
    return res


def worker(pid, tier, seed, shard, nshards, ncases, budget, outfile, only=None):
    scratch = tempfile.mkdtemp(prefix=f'vh_{pid}_')
    cwd = os.getcwd()
    try:
        rf = load(scratch)
        import importlib
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))
        mod = importlib.import_module(f'vh.checks.{pid.lower()}')
        mod.PID = pid
        ctx = Ctx(pid, tier, seed, scratch, rf, read_known())
        t0 = time.time()
        truncated = False
        for idx in ([only] if only is not None else range(shard, ncases, nshards)):
            if time.time() - t0 > budget:
                truncated = True
                break
            run_case(ctx, mod, idx)
            if len(ctx.violations) >= Ctx.MAXVIOL:
                break
        res = dict(cases=ctx.cases, skipped=ctx.skipped, events=ctx.events,
                   sigs=sorted(ctx.sigs), samples=ctx.samples, violations=ctx.violations,
                   known=ctx.knownhits, truncated=truncated, maxerr=ctx.maxerr)
        with open(outfile, 'w') as f:
            json.dump(res, f)
    finally:
        os.chdir(cwd)
        shutil.rmtree(scratch, ignore_errors=True)
