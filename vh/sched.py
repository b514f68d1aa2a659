"""a seeded scheduler of threads: one thread runs at a time and hands over at points inside the library
(entries of its functions, or its lines), so that an interleaving is reproducible; every hand-over is recorded"""
import os, sys, threading, traceback, random
from . import core

LIB = os.path.join(os.path.abspath(core.REPO), 'src') + os.sep
OWN = core.HERE + os.sep
# frames below which other threads could wait for a lock held by this one, or which are not ours to interrupt
CLOSED = ('importlib', os.sep + 'logging' + os.sep, os.sep + 'matplotlib' + os.sep)


class Sched:
    """level: 'operation' (hand over when the harness calls the library), 'call' (at entries of library functions),
    'line' (between lines of the library)"""

    MAX = 600000                      # no hand-overs after that many points

    def __init__(self, seed, level, p):
        self.r, self.level, self.p = random.Random(seed), level, p
        self.switches = []            # (from, where, to)
        self.points = 0

    def run(self, jobs):
        n = len(jobs)
        self.sem = [threading.Semaphore(0) for _ in range(n)]
        self.alive = set(range(n))
        self.where = ['start'] * n
        self.done = threading.Semaphore(0)
        self.out = [None] * n
        ts = [threading.Thread(target=self.body, args=(k, jobs[k]), daemon=True) for k in range(n)]
        for t in ts:
            t.start()
        self.sem[self.r.randrange(n)].release()
        self.done.acquire()
        return self.out

    def body(self, k, job):
        self.sem[k].acquire()
        try:
            sys.settrace(self.tracer(k))
            try:
                self.out[k] = job()
            finally:
                sys.settrace(None)
        except BaseException:
            self.out[k] = traceback.format_exc()
        self.alive.discard(k)
        if self.alive:
            self.sem[self.r.choice(sorted(self.alive))].release()
        else:
            self.done.release()

    def tracer(self, k):
        op, line = self.level == 'operation', self.level == 'line'

        def local(frame, event, arg):
            if event == 'line':
                self.point(k, frame)
            return local if self.points < self.MAX else None

        def trace(frame, event, arg):
            if not frame.f_code.co_filename.startswith(LIB) or self.points > self.MAX:
                return None
            if not op or (frame.f_back is not None and frame.f_back.f_code.co_filename.startswith(OWN)):
                self.point(k, frame)
            return local if line else None
        return trace

    def point(self, k, frame):
        self.points += 1
        if len(self.alive) < 2 or self.r.random() >= self.p:
            return
        f = frame.f_back
        while f is not None:
            n = f.f_code.co_filename
            if any(c in n for c in CLOSED):
                return
            f = f.f_back
        j = self.r.choice(sorted(self.alive))
        if j == k:
            return
        self.where[k] = f'{os.path.basename(frame.f_code.co_filename)[:-3]}.{frame.f_code.co_name}'
        self.switches.append((k, self.where[k], j, self.where[j]))
        self.sem[j].release()
        self.sem[k].acquire()
