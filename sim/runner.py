"""
Parent of a check: spreads runs over workers, minimises a failure, writes the replay file and the evidence.

  runner.py C01 quick|thorough        exit 0 held / 1 VIOLATION / 2 no answer
  runner.py C01 replay FILE           re-executes a replay file
"""
import copy
import glob
import importlib.util
import json
import os
import queue
import shutil
import subprocess
import sys
import threading
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
PY = os.environ.get('CCNSIM_PY', '/opt/venv/bin/python')
NW = int(os.environ.get('CCNSIM_WORKERS', str(min(8, os.cpu_count() or 8))))
from meta import COVERS  # noqa


def env_for(scratch):
    e = dict(os.environ)
    e.update(PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg', TZ='UTC', LC_ALL='C.UTF-8',
             MPLCONFIGDIR=os.path.join(scratch, 'mpl'), CCNSIM_SCRATCH=scratch, OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1')
    e.pop('PYTHONSTARTUP', None)
    return e


class Worker:
    """A worker in serve mode."""

    def __init__(self, prop, env):
        self.p = subprocess.Popen([PY, os.path.join(HERE, 'worker.py'), 'serve', prop], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env)
        self.ready = json.loads(self.p.stdout.readline() or b'{}')

    def run(self, plan):
        self.p.stdin.write(json.dumps(plan).encode() + b'\n')
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            return {'violations': [], 'error': 'worker died'}
        return json.loads(line)

    def stop(self):
        try:
            self.p.kill()
            self.p.wait()
        except OSError:
            pass


# ------------------------------------------------------------------------------------------------- shrinking

OPTIONAL = {'enc', 'sign', 'degree', 'mloc', 'dloc', 'mpre', 'dpre', 'salt', 'kdf', 'kdfinfo', 'clock'}
FIXED = {'seed', 'schema', 'kind', 'cpu', 'v', 'size', 'bits', 'num', 'key'}


def reductions(plan):
    """Smaller variants of a plan, most promising first."""
    out = []

    def at(path, value=None, delete=False):
        p = copy.deepcopy(plan)
        o = p
        for k in path[:-1]:
            o = o[k]
        if delete:
            del o[path[-1]]
        else:
            o[path[-1]] = value
        out.append(p)

    lists, ints, opts, bools = [], [], [], []

    def visit(o, path):
        if isinstance(o, dict):
            for k, v in o.items():
                if k in OPTIONAL and v is not None:
                    opts.append(path + [k])
                if k not in FIXED or isinstance(v, (dict, list)):
                    visit(v, path + [k])
        elif isinstance(o, list):
            lists.append((path, len(o)))
            for i, v in enumerate(o):
                visit(v, path + [i])
        elif isinstance(o, bool):
            if o:
                bools.append(path)
        elif isinstance(o, int):
            if o > 0:
                ints.append((path, o))
    visit(plan, [])
    for path, n in sorted(lists, key=lambda x: -x[1]):
        if not path or n == 0:
            continue
        o = plan
        for k in path:
            o = o[k]
        if path[-1] in ('exp', 'flags'):
            continue
        if n > 3:
            at(path, o[:n // 2])
            at(path, o[n // 2:])
        if n <= 24:
            for i in range(n):
                at(path, o[:i] + o[i + 1:])
    for path in opts:
        at(path, None)
    for path in bools:
        at(path, False)
    for path, v in ints:
        c = [1, v // 2, v * 3 // 4, v - 1] if path[-1] == 'len' else [0, 1, v // 2, v - 1]
        for x in c:
            if 0 <= x < v:
                at(path, x)
    return out


def kinds(res):
    return {v['kind'] for v in res.get('violations', [])}


def size_of(plan):
    return len(json.dumps(plan))


def shrink(plan, kind, workers, budget):
    """Greedy parallel reduction; keeps a candidate only if the same kind of violation shows again."""
    deadline = time.time() + budget
    best = plan
    steps = tried = 0
    seen = set()
    while time.time() < deadline:
        cands = []
        for c in reductions(best):
            k = json.dumps(c, sort_keys=True)
            if k not in seen:
                seen.add(k)
                cands.append(c)
        found = None
        for o in range(0, len(cands), len(workers)):
            if time.time() > deadline:
                break
            batch = cands[o:o + len(workers)]
            res = [None] * len(batch)

            def go(i):
                try:
                    res[i] = workers[i].run(batch[i])
                except Exception:  # noqa
                    res[i] = {'violations': []}
            ths = [threading.Thread(target=go, args=(i,)) for i in range(len(batch))]
            [t.start() for t in ths]
            [t.join() for t in ths]
            tried += len(batch)
            for i, r in enumerate(res):
                if r and kind in kinds(r):
                    found = batch[i]
                    break
            if found is not None:
                break
        if found is None:
            break
        best = found
        steps += 1
    return best, steps, tried


# ------------------------------------------------------------------------------------------------- known findings

def load_findings():
    known, fixed = {}, []
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('known: '):
                parts = line[len('known: '):].split(' ', 2)
                prop = parts[0].split('=')[1]
                fid = parts[1].split('=')[1]
                known[(prop, fid)] = parts[2]
            elif line.startswith('fixed: '):
                fixed.append(line)
    return known, fixed


def main():
    if sys.argv[1] == 'setup':
        # nothing to build: the checks import ccnpy from /repo's working tree
        return subprocess.call([PY, '-c', 'import cryptography, numpy'])
    propname = sys.argv[1]
    mode = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    base = '/dev/shm' if os.path.isdir('/dev/shm') and os.access('/dev/shm', os.W_OK) else '/tmp'
    scratch = os.path.join(base, f'ccnsim-{os.getpid()}')
    os.makedirs(scratch)
    try:
        if mode == 'replay':
            return replay(propname, sys.argv[3], scratch)
        return check(propname, mode, seed, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def replay(propname, path, scratch):
    rec = json.load(open(path))
    w = Worker(propname, env_for(scratch))
    try:
        res = w.run(rec['plan'])
    finally:
        w.stop()
    same = rec['kind'] in kinds(res)
    exact = res.get('trace') == rec.get('trace')
    for v in res.get('violations', []):
        print(f"  {v['kind']}: {v['msg']}")
    if same:
        print(f'replayed: same violation, trace {"identical" if exact else "differs"}')
        print(f'VIOLATION property={propname} replay={path}')
        return 1
    print('replayed: the violation does not show', res.get('error', ''))
    return 0


def prop_meta(propname):
    """Constants of the property module, read without importing ccnpy."""
    return COVERS[propname]


def check(propname, tier, seed, scratch):
    meta = prop_meta(propname)
    count = meta['runs'][tier]
    wall_cap = meta.get('wall', {}).get(tier, 600 if tier == 'quick' else 6 * 3600)
    if 'CCNSIM_RUNS' in os.environ:
        count = int(os.environ['CCNSIM_RUNS'])
    if 'CCNSIM_WALL' in os.environ:
        wall_cap = float(os.environ['CCNSIM_WALL'])
    env = env_for(scratch)
    t0 = time.time()
    q = queue.Queue()
    procs = []
    errlog = open(os.path.join(scratch, 'stderr.log'), 'ab')
    for w in range(NW):
        p = subprocess.Popen([PY, os.path.join(HERE, 'worker.py'), 'run', propname, tier, str(seed), str(w), str(NW), str(count)],
                             stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=errlog, env=env)
        procs.append(p)

        def pump(p=p, w=w):
            for line in p.stdout:
                try:
                    q.put((w, json.loads(line)))
                except ValueError:
                    q.put((w, {'error': 'unreadable worker output', 'violations': []}))
            q.put((w, None))
        threading.Thread(target=pump, daemon=True).start()

    live = NW
    runs = 0
    traces = set()
    states = set()
    nontrivial = set()
    counts, fired, samples = {}, {}, []
    sim_ns = 0
    rechecks = mismatches = 0
    violations, errors, known_seen = [], [], {}
    ended = set()
    stop_at = None
    last = 0
    while live:
        try:
            w, r = q.get(timeout=1.0)
        except queue.Empty:
            w, r = None, {}
        now = time.time()
        if r is None:
            live -= 1
        elif w is not None and 'end' in r:
            ended.add(w)
        elif w is not None:
            runs += 1
            last = max(last, r.get('i', 0))
            if r.get('error'):
                errors.append(r['error'])
            for k, v in (r.get('counts') or {}).items():
                counts[k] = counts.get(k, 0) + v
            for k, v in (r.get('fired') or {}).items():
                fired[k] = fired.get(k, 0) + v
            sim_ns += r.get('sim_ns') or 0
            traces.add(r.get('trace'))
            if r.get('state'):
                states.add(r['state'])
            if r.get('nontrivial'):
                nontrivial.add(r.get('trace'))
                if len(samples) < 6 and (r.get('sample') or r.get('i', 99) < 3):
                    samples.append(r.get('sample') or {'index': r.get('i'), 'plan': r.get('plan')})
            if 'recheck' in r:
                rechecks += 1
                if not r['recheck']:
                    mismatches += 1
            for kf in r.get('known') or []:
                known_seen.setdefault(kf['id'], kf)
            if r.get('violations'):
                violations.append(r)
                if stop_at is None:
                    stop_at = now + 2
        if len(errors) >= 20 and not violations:
            break
        if (stop_at is not None and now > stop_at) or now - t0 > wall_cap:
            break
    capped = live > 0 and not violations and len(errors) < 20
    for p in procs:
        try:
            p.kill()
        except OSError:
            pass
    for p in procs:
        p.wait()
    dead = [w for w in range(NW) if w not in ended] if not capped and stop_at is None and len(errors) < 20 else []
    run_wall = time.time() - t0

    findings, fixed = load_findings()
    unlisted = {k: v for k, v in known_seen.items() if (propname, k) not in findings}
    for k, v in unlisted.items():
        violations.append({'violations': [{'kind': 'unlisted-finding:' + k, 'msg': v['msg']}], 'plan': v.get('plan'), 'i': -1})

    report = None
    if violations:
        report = make_report(propname, tier, seed, violations, env)
    evidence = {
        'property': propname, 'tier': tier, 'seed': seed, 'level': meta.get('level', 'exploration'),
        'coverage': {
            'evaluations': runs,
            'distinct_nontrivial': len(nontrivial),
            'rule': meta['rule'],
            'samples': samples,
            'runs_planned': count,
            'stopped_by_wall_cap': bool(capped),
            'runs_per_hour': int(runs / run_wall * 3600) if run_wall > 0 else 0,
            'seeds_per_hour': int((last + 1) / run_wall * 3600) if run_wall > 0 else 0,
            'simulated_seconds': round(sim_ns / 1e9, 3),
            'faults_injected': dict(sorted(fired.items())),
            'distinct_traces': len(traces),
            'distinct_end_states': len(states),
            'measure': 'distinct traces = distinct hashes over the sequence of numbered operations (process, kind, object, size), '
                       'switches and answers of a run; distinct end states = distinct hashes of what the run left behind or delivered',
            'counters': dict(sorted(counts.items())),
            'determinism_rechecks': rechecks,
            'determinism_mismatches': mismatches,
            'components_real': meta['real'],
            'components_stub': meta['stub'],
            'known_findings_seen': sorted(known_seen),
        },
        'assumptions': meta['assumptions'],
        'wall_s': round(time.time() - t0, 2),
        'violations': [] if not report else [report['summary']],
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', propname + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1, sort_keys=True)
        f.write('\n')
    for k, v in sorted(known_seen.items()):
        if (propname, k) in findings:
            print(f'KNOWN-FINDING: property={propname} {k}: {findings[(propname, k)]}')
    print(f'{propname} {tier}: {runs} runs of {count} in {run_wall:.1f}s, {len(nontrivial)} distinct nontrivial, '
          f'{sum(fired.values())} faults, {rechecks} determinism rechecks ({mismatches} differ), {len(errors)} harness errors')
    if report:
        print(report['text'])
        print(f"VIOLATION property={propname} replay={report['path']}")
        return 1
    if errors or dead:
        for e in errors[:2]:
            print(e)
        if dead:
            print(f'workers {dead} ended early')
            errlog.flush()
            print(open(errlog.name, errors='replace').read()[-3000:])
        return 2
    if runs < min(count, meta.get('floor', 200)):
        print('too few runs for an answer')
        return 2
    return 0


def make_report(propname, tier, seed, violations, env):
    violations.sort(key=lambda r: (r['violations'][0]['kind'] in ('hang',), r.get('i', 0), r.get('j', 0)))
    # prefer a violation that reproduces in a fresh process
    workers = [Worker(propname, env) for _ in range(NW)]
    chosen = None
    try:
        for r in violations[:4]:
            if r.get('plan') is None:
                continue
            kind = r['violations'][0]['kind']
            res = workers[0].run(r['plan'])
            if kind in kinds(res):
                chosen = (r, kind, res)
                break
            if kinds(res):
                chosen = (r, sorted(kinds(res))[0], res)
                break
        if chosen is None:
            r = violations[0]
            kind = r['violations'][0]['kind']
            plan, res, steps, tried, repro = r.get('plan'), r, 0, 0, False
        else:
            r, kind, res = chosen
            plan = r['plan']
            if res.get('taken') is not None and plan.get('sched', {}).get('mode') == 'rand':
                p2 = copy.deepcopy(plan)
                p2['sched'] = {'mode': 'list', 'sw': res['taken']}
                r2 = workers[0].run(p2)
                if kind in kinds(r2):
                    plan, res = p2, r2
            steps = tried = 0
            if kind != 'hang':
                plan, steps, tried = shrink(plan, kind, workers, float(os.environ.get('CCNSIM_SHRINK', '40')))
            # final confirmation, twice, in fresh processes
            a = workers[-1].run(plan)
            b = workers[0].run(plan)
            repro = kind in kinds(a) and kind in kinds(b) and a.get('trace') == b.get('trace')
            if kind in kinds(a):
                res = a
    finally:
        for w in workers:
            w.stop()
    msg = next((v['msg'] for v in res.get('violations', []) if v['kind'] == kind), '')
    rec = {'property': propname, 'tier': tier, 'seed': seed, 'index': r.get('i'), 'sub': r.get('j'), 'kind': kind, 'msg': msg,
           'reproduced_exactly': repro, 'shrink_steps': steps, 'shrink_tried': tried, 'trace': res.get('trace'), 'plan': plan,
           'how': f'bash {os.path.join(VERIF, "check")} {propname} replay <this file>'}
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f'{propname}-{seed}-{r.get("i")}-{r.get("j", 0)}.json')
    with open(path, 'w') as f:
        json.dump(rec, f, indent=1, sort_keys=True)
        f.write('\n')
    text = f'  seed {seed} run {r.get("i")}: {kind}\n  {msg}\n  minimised in {steps} steps ({tried} tried), reproduces exactly: {repro}'
    return {'path': path, 'text': text, 'summary': {'kind': kind, 'msg': msg, 'replay': path}}


if __name__ == '__main__':
    try:
        code = main()
    except SystemExit:
        raise
    except BaseException:  # noqa
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    os._exit(code)
