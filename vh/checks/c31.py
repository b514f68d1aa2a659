"""C31: using the library leaves the rest of the process as it was"""
import os, re, sys, gc, io, json, random, signal, locale, logging, builtins, threading, warnings, importlib, functools, inspect
import subprocess, tempfile, shutil, contextlib
import numpy as np
from .. import core
from ..common import *
from ..elems import pick
from ..core import Skip, CaseViolation

RULE = ('every public function and method of the library is wrapped by a monitor that compares the state of the process before and '
        'after each call made from outside, refused ones included (directory, environment, import path, streams, hooks, warning filters, '
        'numerical error handling and print options, random generators, locale, signals, logging, figures, threads, open files, defaults of '
        'the package); an audit hook records what a call asks of the system meanwhile (files opened to write, removed, processes ...); '
        'random scenarios of all other checks are executed under it; the import and the end of processes of their own are observed as '
        'well; non-trivial: calls of the library were monitored')
ASSUMPTIONS = ['what other checks judge is not judged here', 'the documented log file and its clean up, the exception hook and the logger are set up by the import',
               'figures are made by plotVSWs and compareSs only; files are written by WriteTSF and write_tsf only']
QUICK, THOROUGH = 2600, 40000

WRITERS = ('WriteTSF', 'write_tsf')
DRAWERS = ('plotVSWs', 'compareSs')
DENIED = ('os.chdir', 'os.fchdir', 'os.remove', 'os.rename', 'os.mkdir', 'os.rmdir', 'os.chmod', 'os.chown', 'os.truncate', 'os.putenv',
          'os.unsetenv', 'os.system', 'os.exec', 'os.fork', 'os.forkpty', 'os.posix_spawn', 'os.spawn', 'os.kill', 'os.killpg', 'os.symlink',
          'os.link', 'os.utime', 'subprocess.Popen', 'socket.connect', 'socket.bind', 'shutil.rmtree', 'shutil.move', 'shutil.copyfile',
          'tempfile.mkstemp', 'tempfile.mkdtemp', 'signal.pthread_kill', 'webbrowser.open', 'os.setxattr')
SIGNALS = (signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGHUP, signal.SIGUSR1, signal.SIGPIPE, signal.SIGFPE)


class Monitor:
    def __init__(self, rf):
        import matplotlib
        matplotlib.use('Agg')
        import matplotlib.pyplot as plt, matplotlib._pylab_helpers as ph
        import scipy.integrate, scipy.interpolate, scipy.optimize, scipy.linalg
        fig = plt.figure()                       # (what is loaded at the first figure)
        fig.add_subplot().plot([1, 2], label='a')
        plt.legend()
        fig.canvas.draw()
        plt.close('all')
        self.gcf, self.mpl, self.rf = ph.Gcf, matplotlib, rf
        self.cfg = importlib.import_module('pyRFtk.config')
        self.depth, self.calls, self.problems, self.audited = 0, {}, [], 0
        self.op = self.may = None
        self.on = False
        self.me = threading.get_ident()
        self.wrap()
        sys.addaudithook(self.audit)

    # ------------------------------------------------------------------ state
    def state(self):
        w = np.random.get_state()
        um = os.umask(0o22)
        os.umask(um)
        return {
            'working directory': os.getcwd(), 'environment': dict(os.environ), 'sys.path': list(sys.path), 'sys.argv': list(sys.argv),
            'standard streams': (id(sys.stdin), id(sys.stdout), id(sys.stderr)),
            'hooks': (sys.excepthook, sys.displayhook, sys.gettrace(), sys.getprofile(), threading.excepthook),
            'interpreter limits': (sys.getrecursionlimit(), sys.getswitchinterval(), gc.isenabled(), gc.get_threshold(), sys.flags.int_max_str_digits),
            'warning filters': (list(warnings.filters), warnings.showwarning, warnings.formatwarning),
            'numpy error handling': (np.geterr(), np.geterrcall()), 'numpy print options': repr(np.get_printoptions()),
            'random generator of numpy': (w[1].tobytes(), w[2:]), 'random generator of python': random.getstate(),
            'locale': locale.setlocale(locale.LC_ALL), 'signals': [signal.getsignal(s) for s in SIGNALS], 'umask': um,
            'logging': (logging.root.level, list(logging.root.handlers), logging.root.manager.disable, logging.raiseExceptions,
                        logging.lastResort, logging.getLoggerClass(), self.cfg.tLogger.level, dict(self.cfg.logit), list(self.cfg.tLogger.handlers)),
            'threads': threading.active_count(), 'builtins': {k: id(v) for k, v in vars(builtins).items() if k != '_'},
            'figures': list(self.gcf.figs), 'defaults of the package': repr((self.cfg.rcparams, self.cfg.FUNITS)),
            'open files': self.files(),
        }

    def files(self):
        r = {}
        for fd in os.listdir('/proc/self/fd'):
            try:
                p = os.readlink('/proc/self/fd/' + fd)
                if not p.startswith((sys.prefix + os.sep, sys.base_prefix + os.sep)):    # (fonts kept open by matplotlib)
                    r[fd] = p
            except OSError:
                pass                             # the one of the list itself
        return r

    def slow(self):
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            return {k: repr(v) for k, v in dict.items(self.mpl.rcParams)}

    def compare(self, a, b, drop=()):
        return {k: dict(before=brief(a[k], b[k]), after=brief(b[k], a[k])) for k in a if k not in drop and a[k] != b[k]}

    # --------------------------------------------------------------- wrapping
    def wrap(self):
        rf = self.rf
        fun, cls = {}, set()
        for n, o in list(vars(rf).items()):
            if inspect.isclass(o) and o.__module__.startswith('pyRFtk'):
                cls.add(o)
            elif inspect.isfunction(o) and o.__module__.startswith('pyRFtk') and o.__module__ not in ('pyRFtk.config', 'pyRFtk.whoami', 'pyRFtk.tictoc'):
                fun[o] = self.wrapped(o, o.__name__)
        fun[self.cfg.setLogLevel] = self.wrapped(self.cfg.setLogLevel, 'setLogLevel')
        for c in list(cls):
            cls |= {b for b in c.__mro__ if b.__module__.startswith('pyRFtk')}
        for c in cls:
            for n, o in list(vars(c).items()):
                if inspect.isfunction(o) and (not n.startswith('_') or n in ('__init__', '__str__', '__repr__', '__len__', '__copy__', '__deepcopy__',
                                                                             '__eq__', '__getstate__', '__setstate__', '__call__')):
                    setattr(c, n, self.wrapped(o, n))
        for m in [m for k, m in list(sys.modules.items()) if k.split('.')[0] in ('pyRFtk', 'vh') and m is not None]:
            for n, o in list(vars(m).items()):
                if inspect.isfunction(o) and o in fun and m is not sys.modules[__name__]:
                    setattr(m, n, fun[o])

    def wrapped(self, fun, name):
        mon = self

        @functools.wraps(fun)
        def call(*args, **kwargs):
            if mon.depth or not mon.on or threading.get_ident() != mon.me:
                return fun(*args, **kwargs)
            mon.op = name
            mon.may = target(fun, args, kwargs) if name in WRITERS else []
            before = mon.state()
            there = listing(mon.may)
            mon.depth = 1
            error = None
            try:
                return fun(*args, **kwargs)
            except BaseException as e:
                error = e
                raise
            finally:
                mon.depth = 0
                if not isinstance(error, core.Alarm):
                    mon.calls[name] = mon.calls.get(name, 0) + 1
                    if error is not None:
                        mon.calls['(refused)'] = mon.calls.get('(refused)', 0) + 1
                    drop = (['open files'] if error is not None or name == 'getlines' else []) + \
                        (['figures'] if name in DRAWERS else []) + (['logging'] if name == 'setLogLevel' else [])
                    d = mon.compare(before, mon.state(), drop)
                    d.update({f'file {k}': 'created, modified or removed' for k, v in changed(there, listing(mon.may))
                              if os.path.basename(k) != 'rfCommon.log' and not any(re.fullmatch(re.escape(m) + r'(\.s\d+p)?', k) for m in mon.may)})
                    if d:
                        mon.problems.append(dict(call=name, error=repr(error)[:200] if error is not None else None, changed=d))
        return call

    def audit(self, event, args):
        if not self.depth or not self.on or threading.get_ident() != self.me:
            return
        if event == 'open':
            path, mode, flags = args
            self.audited += 1
            wr = any(c in mode for c in 'wax+') if isinstance(mode, str) else bool((flags or 0) & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND))
            if wr:
                p = os.path.abspath(path) if isinstance(path, str) else repr(path)
                if not self.may and p != '/dev/null':       # (what is written by those that write: see listing)
                    self.problems.append(dict(call=self.op, changed={'file opened to write': p}))
        elif event in DENIED and not (self.may and event.startswith(('os.re', 'os.chmod', 'os.utime', 'os.link', 'shutil', 'tempfile'))):
            self.problems.append(dict(call=self.op, changed={event: repr(args)[:300]}))


def target(fun, args, kwargs):
    """the file that is to be written"""
    try:
        b = inspect.signature(fun).bind_partial(*args, **kwargs).arguments
    except TypeError:
        return []
    return [os.path.abspath(b[k]) for k in ('tsbasename', 'path2tsf') if isinstance(b.get(k), (str, os.PathLike)) and b[k]]


def listing(paths):
    r = {}
    for d in {os.path.dirname(p) for p in paths}:
        try:
            for e in os.scandir(d):
                st = e.stat()
                if e.is_file():
                    r[e.path] = (st.st_mtime_ns, st.st_size, st.st_ino)
        except OSError:
            pass
    return r


def changed(a, b):
    return [(k, b.get(k)) for k in sorted({*a, *b}) if a.get(k) != b.get(k)]


def brief(a, b):
    if isinstance(a, dict):
        return {k: repr(v)[:200] for k, v in a.items() if k not in b or b[k] != v}
    return repr(a)[:300]


_mon = []


def monitor(ctx):
    if not _mon:
        scenarios()                              # (their modules are loaded before the functions are replaced)
        _mon.append(Monitor(ctx.rf))
    return _mon[0]


_scn = {}


def scenarios():
    if not _scn:
        for k in range(1, 31):
            if k in (16, 28):                    # (log levels and threads of their own)
                continue
            try:
                m = importlib.import_module(f'vh.checks.c{k:02d}')
            except ModuleNotFoundError:
                continue
            m.PID = f'C{k:02d}'
            _scn[m.PID] = [(n, f) for n, f, _ in m.SCENARIOS]
    return _scn


# what reads or writes files, draws, warns or refuses comes more often
OFTEN = ['C11', 'C12', 'C23', 'C23', 'C25', 'C26', 'C27', 'C17', 'C10', 'C29', 'C07', 'C30', 'C19']


def calls(ctx, rng):
    mon, mods = monitor(ctx), scenarios()
    n = pick(rng, OFTEN) if rng.random() < .5 else pick(rng, sorted(mods))
    name, fun = pick(rng, mods[n])
    seed = int(rng.integers(2**31))
    log = rng.random() < .1
    ctx.desc(executed=f'{n}.{name}', rngseed=seed, log=log)
    sub = core.Ctx(n, ctx.tier, ctx.seed, ctx.scratch, ctx.rf)
    sub._desc, sub._nt, sub._scn = {}, False, name
    np.random.seed(seed)
    random.seed(seed)
    # settings of the caller that are not those a library would fall back to
    opts, err, path = np.get_printoptions(), np.seterr(all='ignore'), list(sys.path)
    np.set_printoptions(precision=int(rng.integers(3, 8)), linewidth=int(rng.integers(60, 140)), suppress=bool(rng.random() < .5))
    np.seterr(**{k: pick(rng, ['ignore', 'warn']) for k in ('over', 'divide', 'invalid', 'under')})
    out, ended, cwd = io.StringIO(), 'held', os.getcwd()
    mon.calls, mon.problems, mon.audited = {}, [], 0
    rc, fds = mon.slow(), mon.files()
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out), warnings.catch_warnings():
            warnings.filterwarnings('ignore', category=pick(rng, [Warning, UserWarning]))
            if log:
                ctx.rf.setLogLevel('DEBUG')
            mon.on = True
            try:
                fun(sub, np.random.default_rng(seed))
            finally:
                mon.on = False
    except core.Alarm:
        raise
    except CaseViolation:
        ended = 'not held'
    except Skip:
        ended = 'undecided'
    except Exception as e:
        ended = 'error'
        del e
    finally:
        mon.on, mon.depth = False, 0
        if log:
            ctx.rf.setLogLevel('CRITICAL')
            fn = os.path.join(ctx.scratch, 'rfCommon.log')
            if os.path.exists(fn):
                os.truncate(fn, 0)
        np.set_printoptions(**opts)
        np.seterr(**err)
        os.chdir(cwd)
        sys.path[:] = path
    del sub
    import matplotlib.pyplot as plt
    plt.close('all')
    total = sum(mon.calls.values())
    ctx.ev('calls monitored', total - mon.calls.get('(refused)', 0))
    for k, v in mon.calls.items():
        ctx.ev('call ' + k, v)
    ctx.ev('files opened by calls', mon.audited)
    ctx.ev('scenarios ' + ended)
    ctx.ok(not mon.problems, f'a call changed the process ({n}.{name})', got=mon.problems[:3])
    ctx.ok(mon.compare(dict(r=rc), dict(r=mon.slow())) == {}, f'settings of matplotlib changed ({n}.{name})', got=mon.compare(dict(r=rc), dict(r=mon.slow())))
    now = mon.files()
    if now != fds:
        gc.collect()
        now = mon.files()
    left = {k: v for k, v in now.items() if fds.get(k) != v}
    ctx.ok(not left, f'files are left open ({n}.{name})', got=left)
    if total:
        ctx.nontrivial(n, name, seed)


# ------------------------------------------------------------------ processes
PROBE = r'''
import sys, os, json, random, locale, signal, warnings, logging, threading, gc
import numpy as np, scipy.interpolate, scipy.integrate, scipy.optimize
import matplotlib; matplotlib.use('Agg')
import matplotlib.pyplot as plt
sys.path.insert(0, SRC)
def state():
    w = np.random.get_state()
    u = os.umask(0o22); os.umask(u)
    return {'working directory': os.getcwd(), 'environment': dict(os.environ), 'sys.path': list(sys.path), 'sys.argv': list(sys.argv),
      'streams': [id(sys.stdin), id(sys.stdout), id(sys.stderr)], 'limits': [sys.getrecursionlimit(), sys.getswitchinterval(), gc.isenabled()],
      'warning filters': repr(warnings.filters), 'numpy error handling': np.geterr(), 'numpy print options': repr(np.get_printoptions()),
      'random generator of numpy': repr((w[1].tobytes(), w[2:])), 'random generator of python': repr(random.getstate()),
      'locale': locale.setlocale(locale.LC_ALL), 'signals': [repr(signal.getsignal(s)) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM)],
      'umask': u, 'threads': threading.active_count(), 'figures': plt.get_fignums(), 'tracing': repr((sys.gettrace(), sys.getprofile())),
      'matplotlib': {k: repr(v) for k, v in dict.items(matplotlib.rcParams)}}
np.set_printoptions(precision=5, linewidth=99)
np.seterr(invalid='ignore', over='warn')
random.seed(SEED); np.random.seed(SEED)
a = state()
import pyRFtk
b = state()
json.dump({k: [repr(a[k])[:500], repr(b[k])[:500]] for k in a if a[k] != b[k]}, open(OUT, 'w'))
'''


def child(text, d, log=True):
    env = {k: v for k, v in os.environ.items()}
    p = subprocess.run([sys.executable, '-c', text], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL,
                       env=dict(env, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg'), timeout=110, text=True, errors='replace')
    return p


def importing(ctx, rng):
    d = tempfile.mkdtemp(prefix='imp_', dir=ctx.scratch)
    out = os.path.join(ctx.scratch, 'imp.json')
    try:
        p = child(f'SRC, SEED, OUT = {os.path.join(core.REPO, "src")!r}, {int(rng.integers(1 << 30))}, {out!r}\n' + PROBE, d)
        ctx.ok(p.returncode == 0, 'importing the library fails', got=p.stderr[-800:])
        r = json.load(open(out))
        ctx.ok(not r, 'importing the library changed the process', got=r)
        ctx.ok(os.listdir(d) == [], 'files left by a process that only imported', got=os.listdir(d))
        ctx.ev('imports observed')
    finally:
        shutil.rmtree(d)
    ctx.nontrivial(int(rng.integers(1 << 30)))


USE = ['c = rfCircuit(Zbase=50.); c.addblock("L", rfTRL(L=1.2, Z0TL=30.), ports=["a", "b"]); c.terminate("L.b", Z=10.); c.getS(40e6)',
       'o = rfObject(ports=["a"]); o.setS([1e6, 2e6], [[[.1]], [[.2]]]); o.getS(1.5e6)', 'r = rfRLC(Rs=3., Ls=1e-8); r.getS(1e7)', 'pass']


def ending(ctx, rng):
    """the end of a process that used the library: status, message and log file"""
    d = tempfile.mkdtemp(prefix='end_', dir=ctx.scratch)
    other = os.path.join(d, 'other')
    how = pick(rng, ['normal', 'normal', 'exit', 'error', 'error', 'nested error'])
    log = bool(rng.random() < .4)
    move = bool(rng.random() < .4)
    own = bool(rng.random() < .5)             # a file of that name of somebody else
    code = int(rng.integers(1, 100))
    word = f'word{int(rng.integers(1e6))}'
    end = {'normal': 'pass', 'exit': f'import sys; sys.exit({code})', 'error': f'raise ValueError("{word}")',
           'nested error': f'def ff():\n    return {{}}["{word}"]\nff()'}[how]
    text = f'import sys\nsys.path.insert(0, {os.path.join(core.REPO, "src")!r})\nfrom pyRFtk import *\n' + (f'setLogLevel("DEBUG")\ntLogger.debug("{word}")\n' if log else '')
    u = pick(rng, USE)
    text += u + '\n'
    ctx.desc(how=how, log=log, move=move, own=own, text=u)
    try:
        if log and rng.random() < .5:
            text += 'setLogLevel("CRITICAL")\n'
        if move:
            os.mkdir(other)
            if own:
                open(os.path.join(other, 'rfCommon.log'), 'w').close()
            text += f'import os\nos.chdir({other!r})\n'
        p = child(text + end + '\n', d)
        want = {'normal': 0, 'exit': code}.get(how, 1)
        ctx.ok(p.returncode == want, 'exit status', got=(p.returncode, p.stdout[-300:], p.stderr[-600:]), want=want)
        txt = p.stdout + p.stderr
        if 'error' in how:
            ctx.ok(word in txt and ('ValueError' in txt if how == 'error' else 'KeyError' in txt) and (how == 'error' or 'ff' in txt),
                   'an uncaught error is not reported', got=txt[-800:])
        else:
            ctx.ok('Traceback' not in txt and 'Error' not in txt, 'an error is reported at the end', got=txt[-800:])
        fn = os.path.join(d, 'rfCommon.log')
        if log:
            ctx.ok(os.path.exists(fn) and word in open(fn).read(), 'the log is lost', got=os.listdir(d))
        elif not log:
            ctx.ok(not os.path.exists(fn), 'an empty log is left', got=os.listdir(d))
        if move:
            ctx.ok(os.listdir(other) == (['rfCommon.log'] if own else []), 'files of another directory', got=os.listdir(other))
        ctx.ev('ends observed')
    finally:
        shutil.rmtree(d)
    ctx.nontrivial(how, log, move, own, u, code)


SCENARIOS = [('calls', calls, 100), ('importing', importing, 1), ('ending', ending, 3)]
MIN_EVENTS = {'calls monitored': 20000, 'call (refused)': 1000, 'call WriteTSF': 20, 'call write_tsf': 50, 'call plotVSWs': 20, 'imports observed': 5,
              'ends observed': 20, 'files opened by calls': 500}
