"""
Deterministic scheduler for simulated processes and threads.

Each task runs on its own OS thread, but only the task that holds the baton ever runs.  At every point (an operation
of the World, or for in-process interleavings a place where CPython itself may switch threads inside ccnpy: function
entry, a backward jump, the return of a C call) the plan decides whether the baton moves on.
"""
import gc
import random
import sys
import threading

from seams import R, SimCrash, SimHang
import seams


class Task:
    def __init__(self, name, fn, proc):
        self.name = name
        self.fn = fn
        self.proc = proc
        self.sem = threading.Semaphore(0)
        self.done = False
        self.result = None
        self.error = None
        self.crashed = False


class Sched:
    def __init__(self, world, spec, max_steps=50_000_000):
        """spec: {'mode': 'rand', 'seed': n, 'p': 1/k}  or {'mode': 'list', 'sw': [[step, task], ...]}"""
        self.world = world
        self.spec = spec
        self.tasks = []
        self.cur = None
        self.step = 0
        self.next_at = None
        self.next_to = None
        self.taken = []
        self.switches = 0
        self.max_steps = max_steps
        self.main = threading.Semaphore(0)
        self.pending = None
        if spec['mode'] == 'list':
            self.pending = [tuple(x) for x in spec['sw']]
        else:
            self.rng = random.Random(f"sched/{spec['seed']}")
            self.p = float(spec['p'])
        self._plan_next()

    def add(self, name, fn, proc):
        t = Task(name, fn, proc)
        self.tasks.append(t)
        return t

    def _plan_next(self):
        if self.pending is not None:
            while self.pending and self.pending[0][0] < self.step:
                self.pending.pop(0)
            if self.pending:
                self.next_at, self.next_to = self.pending[0]
            else:
                self.next_at = 1 << 62
        else:
            # geometric gaps keep the cost of a point at one comparison
            gap = 1
            if self.p < 1:
                gap = 1 + int(self.rng.expovariate(self.p))
            self.next_at = self.step + gap
            self.next_to = None

    def _alive(self):
        return [i for i, t in enumerate(self.tasks) if not t.done]

    def point(self):
        """A place where the baton may move."""
        cur = self.cur
        if cur is None or threading.get_ident() != cur.ident:
            return
        self.step += 1
        if self.step < self.next_at:
            return
        if self.step > self.max_steps:
            raise SimHang('scheduler steps')
        to = self.next_to
        if self.pending is not None:
            self.pending.pop(0)
        self._choose(to)

    def _choose(self, to):
        alive = self._alive()
        me = self.tasks.index(self.cur)
        if to is None:
            others = [i for i in alive if i != me]
            to = self.rng.choice(others) if others else me
        elif to not in alive:
            to = me
        at = self.step
        self._plan_next()
        if to != me:
            self.taken.append([at, to])
            self._switch(to)

    def _switch(self, to):
        self.switches += 1
        self.world.trace.update(b'>%d@%d' % (to, self.step))
        cur = self.cur
        nxt = self.tasks[to]
        self.cur = nxt
        nxt.sem.release()
        cur.sem.acquire()
        self.world.enter()

    def yield_other(self):
        """The current task cannot go on (a lock): run some other task."""
        me = self.tasks.index(self.cur)
        others = [i for i in self._alive() if i != me]
        if not others:
            return False
        self.step += 1
        nxt = [i for i in others if i > me] or others
        self._switch(nxt[0])
        return True

    def _body(self, t):
        t.sem.acquire()
        t.ident = threading.get_ident()
        self.world.set_proc(t.proc)
        try:
            t.result = t.fn()
        except SimCrash:
            t.crashed = True
        except BaseException as e:   # noqa - kept for the oracle
            t.error = e
        t.done = True
        alive = self._alive()
        if alive:
            me = self.tasks.index(t)
            nxt = [i for i in alive if i > me] or alive
            self.cur = self.tasks[nxt[0]]
            self.world.trace.update(b'|%d' % nxt[0])
            self.cur.sem.release()
        else:
            self.cur = None
            self.main.release()

    def run(self, first=0):
        threads = []
        for t in self.tasks:
            t.ident = None
            th = threading.Thread(target=self._body, args=(t,), daemon=True)
            t.thread = th
            threads.append(th)
            th.start()
        old = self.world.sched
        self.world.sched = self
        self.cur = self.tasks[first]
        # when the collector runs would depend on how the threads were started
        gc.disable()
        self.cur.sem.release()
        self.main.acquire()
        gc.enable()
        self.world.sched = old
        self.world.enter()
        for th in threads:
            th.join()
        return self.tasks


class Preempt:
    """Adds scheduling points inside ccnpy's own code, at the places CPython can switch threads."""
    TOOL = 4

    def __init__(self, sched, prefix):
        self.sched = sched
        self.prefix = prefix

    def __enter__(self):
        m = sys.monitoring
        E = m.events
        m.use_tool_id(self.TOOL, 'sim')
        sched = self.sched
        prefix = self.prefix
        D = m.DISABLE

        def start(code, off):
            if not code.co_filename.startswith(prefix):
                return D
            sched.point()

        def jump(code, off, dest):
            if not code.co_filename.startswith(prefix):
                return D
            if dest < off:
                sched.point()

        def call(code, off, fn, arg):
            if not code.co_filename.startswith(prefix):
                return D

        def c_return(code, off, fn, arg):
            if code.co_filename.startswith(prefix):
                sched.point()
        m.register_callback(self.TOOL, E.PY_START, start)
        m.register_callback(self.TOOL, E.JUMP, jump)
        m.register_callback(self.TOOL, E.CALL, call)
        m.register_callback(self.TOOL, E.C_RETURN, c_return)
        m.set_events(self.TOOL, E.PY_START | E.JUMP | E.CALL)
        return self

    def __exit__(self, *a):
        m = sys.monitoring
        m.set_events(self.TOOL, 0)
        m.free_tool_id(self.TOOL)
