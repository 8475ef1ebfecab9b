"""
A worker: imports ccnpy once behind the seams, then executes each run in a fork of that pristine image.

  worker.py run PROP TIER SEED W N COUNT     runs indexes W, W+N, ... < COUNT, one JSON line per execution
  worker.py serve PROP                       executes plans given as JSON lines on stdin
"""
import gc
import importlib
import json
import os
import random
import re
import resource
import select
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, 'props'))
REPO = os.environ.get('CCNSIM_REPO', '/repo')
sys.path.insert(2, REPO)

OUT = os.fdopen(os.dup(1), 'wb', 0)
os.dup2(2, 1)

import seams   # noqa: E402
from seams import R   # noqa: E402

seams.install()
import logging   # noqa: E402

logging.disable(logging.CRITICAL)
import ccnpy   # noqa: E402

CCNPY_DIR = os.path.dirname(os.path.abspath(ccnpy.__file__)) + os.sep
import refcodec as rc   # noqa: E402
import memory   # noqa: E402
import scen   # noqa: E402
# everything a run may import is imported before the fork
import ccnpy.apps.manifest_reader   # noqa: E402,F401
import ccnpy.apps.manifest_writer   # noqa: E402,F401
import ccnpy.apps.packet_reader   # noqa: E402,F401

seams.imported()
logging.disable(logging.CRITICAL)


class NullOut:
    """stdout of a simulated process that nobody reads"""
    encoding = 'utf-8'
    errors = 'strict'

    def write(self, s):
        return len(s)

    def flush(self):
        pass

    def isatty(self):
        return False


class LogAll(logging.Handler):
    """Formats every message, which fails like the application's own code would."""

    def handle(self, record):
        record.getMessage()
        return True

    @classmethod
    def on(cls):
        logging.disable(logging.NOTSET)
        root = logging.getLogger()
        root.handlers[:] = [cls()]
        root.setLevel(logging.DEBUG)
        for name in list(root.manager.loggerDict):
            if name.startswith('ccnpy'):
                logging.getLogger(name).setLevel(logging.NOTSET)


class Out:
    """What one execution found."""

    def __init__(self):
        self.violations = []
        self.known = []
        self.counts = {}
        self.fired = {}
        self.sim_ns = 0
        self.nontrivial = False
        self.trace = ''
        self.ops = None
        self.state = ''
        self.taken = None
        self.extra = {}
        self.sample = None

    def violate(self, kind, msg):
        if len(self.violations) < 5:
            self.violations.append({'kind': kind, 'msg': str(msg)[:600]})

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def absorb(self, world):
        """Take over what a world recorded."""
        for k, v in world.fired.items():
            self.fired[k] = self.fired.get(k, 0) + v
        self.sim_ns += world.sim_ns
        self.count('ops', world.nops)
        self.trace = world.trace.hexdigest()[:24]

    def dump(self):
        return {k: getattr(self, k) for k in ('violations', 'known', 'counts', 'fired', 'sim_ns', 'nontrivial', 'trace', 'ops', 'state', 'taken', 'extra', 'sample')}


def in_ccnpy(tb):
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(CCNPY_DIR):
            return True
        tb = tb.tb_next
    return False


def where(e):
    """Innermost ccnpy frame of an exception, for messages."""
    tb = e.__traceback__
    last = ''
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if fn.startswith(CCNPY_DIR):
            last = f'{fn[len(CCNPY_DIR):]}:{tb.tb_frame.f_code.co_name}'
        tb = tb.tb_next
    return last


class Zygote:
    """A second worker process with its own hash seed; forks one process per call."""

    def __init__(self, prop, hashseed):
        import subprocess
        env = dict(os.environ, PYTHONHASHSEED=str(hashseed))
        self.p = subprocess.Popen([sys.executable, os.path.abspath(__file__), 'zygote', prop],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env)

    def call(self, fn, args):
        self.p.stdin.write(json.dumps([fn, args]).encode() + b'\n')
        self.p.stdin.flush()
        return json.loads(self.p.stdout.readline())


class Ctx:
    def __init__(self, prop, scratch, zygotes=None):
        self.prop = prop
        self.scratch = scratch
        self.zygotes = zygotes or {}
        self.n = 0
        self.ccnpy_dir = CCNPY_DIR
        self.where = where

    def newdir(self, name):
        d = os.path.join(self.scratch, name)
        scen.mkdirs(d)
        return d

    def world(self, plan=None, root=None, **kw):
        plan = plan or {}
        ck = plan.get('clock') or {}
        w = seams.World(root or self.scratch, start_ns=ck.get('start'), tick_ns=ck.get('tick', 1000), **kw)
        for at, d in ck.get('jumps', []):
            w.jumps[int(at)] = int(d)
        if plan.get('mem'):
            w.memory = memory.Memory()
            w.enter()
        return w

    def dry(self, plan):
        """Execute a plan in a fork and return its outcome (used to learn its operations)."""
        self.n += 1
        sub = Ctx(self.prop, os.path.join(self.scratch, f'dry{self.n}'), self.zygotes)
        plan = dict(plan, _dry=True)
        r = run_forked(lambda: do_execute(self.prop, plan, sub), limit=60)
        rmtree(sub.scratch)
        return r

    def fork(self, fn, limit=60):
        """Run fn() -> JSON-able in a forked process (one simulated process incarnation with its own module state)."""
        return run_forked(fn, limit)


def rmtree(d):
    import shutil
    shutil.rmtree(d, ignore_errors=True)


class _CpuLimit(seams.SimHang):
    pass


def _on_prof(signum, frame):
    raise _CpuLimit('CPU time limit of the run')


FORK = ['', 0]


STUCK = 77


def settle():
    """
    Threads that ended for Python may still be on their way out of C code, with locks of OpenSSL or libc held, which a fork
    would leave locked for ever: wait until the kernel has no more threads than Python.
    """
    for k in range(2000):
        if len(R.listdir('/proc/self/task')) <= len(sys._current_frames()):
            return
        R.sleep(.0005)


def run_forked(fn, limit=60):
    """fn() in a fork; returns its JSON-able result, or {'died': ...}."""
    r, w = os.pipe()
    FORK[1] += 1
    sys.stdout.flush()
    depth = FORK[0].count('/')
    settle()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            R.os_close(r)
            # like CPython after a fork, but from the run's seed
            FORK[:] = [f'{FORK[0]}/{FORK[1]}', 0]
            random.seed(FORK[0])
            signal.signal(signal.SIGPROF, _on_prof)
            signal.setitimer(signal.ITIMER_PROF, limit)
            try:
                res = fn()
            except _CpuLimit:
                res = {'hang': f'no end after {limit} s of CPU time'}
            except seams.SimHang as e:
                res = {'hang': str(e)}
            except MemoryError:
                res = {'hang': 'memory limit'}
            except BaseException as e:  # noqa
                res = {'error': ''.join(traceback.format_exception(e))[-3000:], 'in_ccnpy': in_ccnpy(e.__traceback__) or isinstance(e, (rc.Bad, rc.Tamper, rc.NoKey)),
                       'etype': type(e).__name__, 'where': where(e)}
            signal.setitimer(signal.ITIMER_PROF, 0)
            b = json.dumps(res).encode()
            o = 0
            while o < len(b):
                o += R.os_write(w, b[o:o + 65536])
        except BaseException:  # noqa
            code = 3
        finally:
            os._exit(code)
    R.os_close(w)
    parts = []
    # the inner ones first
    deadline = R.monotonic() + max(60, limit * 5 - 50 * depth)
    died = None
    while True:
        left = deadline - R.monotonic()
        rl, _, _ = select.select([r], [], [], max(0.0, left))
        if not rl:
            os.kill(pid, signal.SIGKILL)
            died = 'wall-clock limit'
            break
        b = R.os_read(r, 1 << 20)
        if not b:
            break
        parts.append(b)
    R.os_close(r)
    _, st = os.waitpid(pid, 0)
    if died or os.WIFEXITED(st) and os.WEXITSTATUS(st) == STUCK:
        if depth:
            os._exit(STUCK)
        return {'hang': 'wall-clock limit', 'stuck': True}
    try:
        return json.loads(b''.join(parts))
    except ValueError:
        return {'died': f'process ended with status {st}'}


# the local time zones of the simulated hosts (no database of them is needed)
ZONES = ['UTC', 'PST8PDT,M3.2.0,M11.1.0', 'XXX-5:45', 'UTC', 'NZST-12NZDT,M9.5.0,M4.1.0/3', 'YYY12']


def zone(tz):
    os.environ['TZ'] = tz
    time.tzset()


def do_execute(prop, plan, ctx):
    FORK[:] = ['', 0]
    random.seed('run')
    zone(plan.get('tz', 'UTC'))
    if plan.get('log'):
        LogAll.on()
    scen.mkdirs(ctx.scratch)
    os.chdir(ctx.scratch)
    sys.stdout = NullOut()
    out = Out()
    prop.execute(plan, ctx, out)
    return out.dump()


def normalize(res):
    """Turn hangs, deaths and stray exceptions of an execution into violations or errors."""
    if 'hang' in res:
        return {'violations': [{'kind': 'hang', 'msg': res['hang']}], 'nontrivial': False, 'trace': 'hang'}
    if 'died' in res:
        return {'violations': [{'kind': 'process-death', 'msg': res['died']}], 'nontrivial': False, 'trace': 'died'}
    if 'error' in res:
        if res.get('in_ccnpy'):
            return {'violations': [{'kind': 'exception:' + res['etype'] + ('@' + res['where'] if res.get('where') else ''), 'msg': res['error'][-600:]}], 'nontrivial': False, 'trace': 'exc'}
        return {'error': res['error'], 'violations': [], 'nontrivial': False, 'trace': 'err'}
    return res


def execute_plan(prop, plan, scratch, zygotes):
    ctx = Ctx(prop, scratch, zygotes)
    limit = plan.get('cpu', 60)
    res = run_forked(lambda: do_execute(prop, plan, ctx), limit)
    rmtree(scratch)
    if res.get('stuck'):
        # a machine too busy, or a process that is stuck outside of the simulation, does not happen twice
        res = run_forked(lambda: do_execute(prop, plan, ctx), limit)
        rmtree(scratch)
    return normalize(res)


def emit(obj):
    b = json.dumps(obj).encode() + b'\n'
    mv = memoryview(b)
    while mv:
        n = OUT.write(mv)
        mv = mv[n:]


def setup(propname):
    prop = importlib.import_module(propname.lower())
    scen.load_keys()
    if hasattr(prop, 'warm'):
        prop.warm()
    memory.find()
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    zyg = {}
    return prop, zyg


def main():
    mode, propname = sys.argv[1], sys.argv[2]
    scratch = os.path.join(os.environ['CCNSIM_SCRATCH'], f'w{R.getpid()}')
    prop, zyg = setup(propname)
    if mode != 'zygote':
        for hs in getattr(prop, 'ZYGOTES', []):
            zyg[hs] = Zygote(propname, hs)
    gc.collect()
    gc.freeze()
    if mode == 'zygote':
        n = 0
        for line in sys.stdin.buffer:
            fn, args = json.loads(line)
            n += 1
            sub = os.path.join(scratch, f'z{n}')

            def job():
                # the call decides, not where this invocation keeps its scratch files
                FORK[:] = ['zygote/' + re.sub(re.escape(os.environ['CCNSIM_SCRATCH']) + r'/\w+', '', line.decode()), 0]
                random.seed(FORK[0])
                scen.mkdirs(sub)
                os.chdir(sub)
                sys.stdout = NullOut()
                return getattr(prop, fn)(Ctx(prop, sub), *args)
            res = run_forked(job)
            rmtree(sub)
            emit(res)
        return
    if mode == 'serve':
        emit({'ready': 1})
        for line in sys.stdin.buffer:
            plan = json.loads(line)
            emit(execute_plan(prop, plan, scratch, zyg))
        return
    tier, seed, w, n, count = sys.argv[3], int(sys.argv[4]), int(sys.argv[5]), int(sys.argv[6]), int(sys.argv[7])
    for i in range(w, count, n):
        t0 = R.monotonic()

        def gen_and_list():
            scen.mkdirs(scratch)
            sys.stdout = NullOut()
            rng = random.Random(f'{seed}/{propname}/{tier}/{i}' if tier == 'thorough' else f'{seed}/{propname}/{i}')
            plan = prop.gen(rng, tier, i, Ctx(prop, os.path.join(scratch, 'gen'), zyg))
            for q in plan if isinstance(plan, list) else [plan]:
                q.setdefault('tz', ZONES[i // 2 % len(ZONES)])
                # a process that logs all it can
                q.setdefault('log', i % 17 == 9)
                if getattr(prop, 'PROCESSES', False):
                    # simulated processes with a memory of their own, or users of one process one after another
                    q.setdefault('mem', i % 2 == 1)
            return plan
        plans = run_forked(gen_and_list, 120)
        if isinstance(plans, dict) and ('error' in plans or 'hang' in plans or 'died' in plans):
            # generation executes nothing but fault-free dry runs of the workload
            res = normalize(plans)
            res.update(i=i, j=0, plan=None)
            emit(res)
            continue
        if isinstance(plans, dict):
            plans = [plans]
        for j, plan in enumerate(plans):
            res = execute_plan(prop, plan, scratch, zyg)
            if (i + j) % 40 == 0 and plan.get('cpu', 60) <= 60:
                again = execute_plan(prop, plan, scratch, zyg)
                res['recheck'] = again == {k: v for k, v in res.items() if k != 'recheck'}
            res.update(i=i, j=j)
            if res['violations'] or res.get('error') or res.get('known') or i < 3 or res.get('sample'):
                res['plan'] = plan
            res['ops'] = None
            emit(res)
    emit({'end': w})


if __name__ == '__main__':
    main()
