"""C15: publishing is reproducible."""
import hashlib
import os
import random

import refcodec as rc
import scen
import seams
from sched import Preempt, Sched

ZYGOTES = [1, 77]

STARTS = [0, 1, 999_999, 86_400 * 10**9, 1_700_000_000_000_000_000, 2_147_483_648 * 10**9, 4_102_444_800 * 10**9, 253401000000 * 10**9]
ENVS = [{}, {'TZ': 'JST-9'}, {'TZ': 'NST3:30NDT,M3.2.0,M11.1.0', 'LC_ALL': 'tr_TR.UTF-8'}, {'LANG': 'C'}, {'HOME': '/nonexistent', 'USER': 'x', 'TZ': 'XXX-14'}]
SRC = ['file', 'bytesio', 'short', 'shortraw', 'bigbuf', 'unbuf', 'offset', 'memio']


def gen_env(rng):
    start = rng.choice(STARTS)
    jumps = []
    if rng.random() < .3:
        sign = 1 if start < 10**15 else -1 if start > 10**20 else rng.choice([-1, 1])
        jumps = [[rng.randrange(1, 60), sign * rng.randrange(10**14)]]
        if start < 10**15 or start > 10**20:
            jumps = []
    return {'z': rng.choice([0] + ZYGOTES), 'src': rng.choice(SRC), 'store': rng.choice(['wire', 'dir', 'mem', 'nested']),
            'clock': {'start': start, 'jumps': jumps, 'tick': rng.choice([1, 1000, 10**9])}, 'pid': rng.choice([1, 1000, 4194303]), 'api': rng.choice([None, None, None, 'graph', 'steps', 'meta']),
            'seed': rng.randrange(1 << 30), 'env': rng.choice(ENVS), 'link': rng.random() < .4, 'cwd': rng.random() < .3,
            'shorts': [{'at': rng.randrange(0, 60), 'kind': 'short', 'n': rng.choice([1, 5, 100, 1499])} for _ in range(rng.choice([0, 0, 1, 4, 12]))]}


def gen(rng, tier, i, ctx):
    cfg = scen.gen_cfg(rng, max_chunks=40, enc=0, sign=0, src=False)
    plan = {'cfg': cfg, 'envs': [gen_env(rng) for _ in range(rng.choice([2, 3]))], 'variants': []}
    for _ in range(rng.choice([1, 2, 3])):
        e = gen_env(rng)
        e.update(sign=rng.choice([None, 'crc', 'k1024_1', 'k2048_1']), enc=scen.gen_enc(rng) if rng.random() < .5 else None,
                 burn=rng.choice([0, 0, 1, 3, 254, 255, 256, 300]), before=rng.choice([0, 0, 1, 2]), reuse=rng.random() < .3,
                 failed=scen.gen_err(rng) if rng.random() < .3 else None,
                 beside=rng.random() < .35, sched={'mode': 'rand', 'seed': rng.randrange(1 << 30), 'p': rng.choice([.002, .01, .05, .3])},
                 other=scen.related_cfg(rng, dict(cfg, src='file')) if rng.random() < .6 else scen.gen_cfg(rng, max_chunks=10, enc=.3, src=False))
        plan['variants'].append(e)
    return plan


def sized(cfg, enc):
    """The same packet size must also fit encrypted manifests and a root."""
    c = dict(cfg, enc=enc)
    return c


def variant_cfg(cfg, e):
    c = dict(cfg, sign=e.get('sign'), enc=e.get('enc'))
    return c


def min_size(plan):
    n = plan['cfg']['size']
    for e in plan['variants']:
        c = variant_cfg(plan['cfg'], e)
        n = max(n, scen.manifest_overhead(c) + 110, scen.root_overhead(c))
    return n


def open_source(kind, cfg, w, data, seed):
    if kind in ('bigbuf', 'unbuf'):
        path = os.path.join(w.root, 'in/file.bin')
        if not os.path.exists(path):
            scen.write_input(w, 'in/file.bin', data)
        return open(path, 'rb', buffering=0 if kind == 'unbuf' else 1 << 20)
    return scen.source(dict(cfg, src=kind, data=dict(cfg['data'], seed=seed)), w, data)


def build(cfg, wr, w, data, e, opts=None):
    opts = opts or scen.options(cfg)
    with open_source(e['src'], cfg, w, data, e['seed']) as src:
        return scen.build_tree(src, wr, opts, e.get('api'))


def child(ctx, cfg, e):
    """One process that publishes cfg in environment e -> [root hash, [all hashes], [data hashes in order]]"""
    import time
    w = ctx.world({'clock': e['clock']})
    data = scen.content(cfg['data'])
    for k, v in e['env'].items():
        os.environ[k] = v
    time.tzset()
    with seams.activate(w):
        if e['cwd']:
            os.chdir(ctx.newdir('elsewhere'))
        p = w.new_proc('pub', seed=e['seed'], faults=e['shorts'], pid=e['pid'])
        w.set_proc(p)
        history(ctx, w, cfg, e)
        d = None
        st = e['store']
        if st == 'wire':
            wr = scen.WireStore()
        elif st == 'mem':
            wr = scen.TreeIO.PacketMemoryWriter()
        else:
            d = ctx.newdir('out')
            wr = scen.TreeIO.PacketDirectoryWriter(d, link_named_objects=e['link'], nested=st == 'nested', signer=scen.signer(cfg['sign']))
        switches = 0
        if e.get('beside'):
            res = {}
            oc = e['other']
            od = scen.content(oc['data'])
            q = w.new_proc('beside', seed=e['seed'] + 1, pid=e['pid'])
            s = Sched(w, e['sched'])
            s.add('main', lambda: build(cfg, wr, w, data, e), p)
            s.add('beside', lambda: scen.publish(oc, scen.TreeIO.PacketMemoryWriter(), w, od, rel='in/o.bin'), q)
            with Preempt(s, ctx.ccnpy_dir):
                s.run()
            for t in s.tasks:
                if t.error is not None:
                    raise t.error
            root = s.tasks[0].result
            switches = s.switches
        else:
            opts = scen.options(cfg)
            if e.get('reuse'):
                build(cfg, scen.TreeIO.PacketMemoryWriter(), w, data, e, opts)
            root = build(cfg, wr, w, data, e, opts)
        w.set_proc(None)
        if st == 'wire':
            objs = dict(wr.by_hash)
        elif st == 'mem':
            objs = {scen.phash(x): x.serialize().tobytes() for x in wr.packets}
        else:
            objs = scen.objects(d)
        ds = sorted(h.hex() for h, b in objs.items() if rc.parse_packet(b).ptype == rc.DATA)
        return {'root': scen.phash(root).hex(), 'all': sorted(h.hex() for h in objs), 'data': ds, 'fired': w.fired, 'sim': w.sim_ns,
                'nops': w.nops, 'switches': switches, 'trace': w.trace.hexdigest()[:16]}


def history(ctx, w, cfg, e):
    """What the process did before."""
    from ccnpy.flic.name_constructor.NameConstructorContext import NameConstructorContext
    if e.get('burn'):
        o = scen.options(dict(cfg, enc=None, sign=None))
        for _ in range(e['burn']):
            NameConstructorContext.create(o)
    for k in range(e.get('before', 0)):
        oc = e['other']
        scen.publish(oc, scen.TreeIO.PacketMemoryWriter(), w, scen.content(dict(oc['data'], seed=k)), rel=f'in/b{k}.bin')
    if e.get('failed'):
        q = w.new_proc('failed', seed=5, faults=[dict(e['failed'], at=abs(e['failed']['at']) % 40)], pid=e['pid'])
        p = w.proc()
        w.set_proc(q)
        try:
            scen.publish(dict(cfg, src='file'), scen.TreeIO.PacketDirectoryWriter(ctx.newdir('failed')), w, scen.content(cfg['data']), rel='in/failed.bin')
        except Exception:  # noqa - it is meant to fail
            w.count('failed_before')
        w.set_proc(p)


def run_env(ctx, cfg, e, tag):
    z = ctx.zygotes.get(e['z']) if e['z'] else None
    if z is not None:
        return z.call('child', [cfg, e])
    sub = type(ctx)(ctx.prop, os.path.join(ctx.scratch, tag), ctx.zygotes)

    def job():
        scen.mkdirs(sub.scratch)
        os.chdir(sub.scratch)
        return child(sub, cfg, e)
    return ctx.fork(job)


def execute(plan, ctx, out):
    cfg = dict(plan['cfg'], size=min_size(plan))
    h = hashlib.sha256()
    results = []
    for k, e in enumerate(plan['envs']):
        results.append(('env', k, e, run_env(ctx, cfg, e, f'e{k}')))
    for k, e in enumerate(plan['variants']):
        results.append(('variant', k, e, run_env(ctx, variant_cfg(cfg, e), e, f'v{k}')))
    first = None
    for what, k, e, r in results:
        if 'root' not in r:
            if 'hang' in r:
                out.violate('hang', r['hang'])
            else:
                last = str(r.get('error', r)).strip().splitlines()[-1]
                out.violate('publish-failed:' + str(r.get('etype', 'died')), f'{what} {k}: {last}')
            continue
        for f, n in r['fired'].items():
            out.fired[f] = out.fired.get(f, 0) + n
        out.sim_ns += r['sim']
        out.count('ops', r['nops'])
        out.count('switches', r['switches'])
        out.count('processes')
        h.update(r['trace'].encode())
        h.update(r['root'].encode())
        if first is None:
            first = r
            if what != 'env':
                break
            continue
        if what == 'env':
            if r['root'] != first['root']:
                out.violate('root-differs', f'process {k} ({describe(e)}) gives root {r["root"][:12]}, the first ({describe(plan["envs"][0])}) {first["root"][:12]}')
            elif r['all'] != first['all']:
                out.violate('objects-differ', f'process {k} ({describe(e)}) stores {len(r["all"])} objects, the first {len(first["all"])}; '
                                              f'{len(set(r["all"]) ^ set(first["all"]))} differ')
        if r['data'] != first['data']:
            out.violate('data-objects-differ', f'{what} {k} ({describe(e)}): {len(set(r["data"]) ^ set(first["data"]))} data objects differ')
    out.trace = h.hexdigest()[:24]
    out.state = first['root'][:16] if first else ''
    out.nontrivial = first is not None and len(first['data']) >= 2 and len(results) >= 3
    out.count('variants', len(plan['variants']))


def describe(e):
    s = f'hash seed {e["z"]}, source {e["src"]}, store {e["store"]}, clock {e["clock"]["start"]}'
    if 'burn' in e:
        s += f', sign {e["sign"]}, enc {e["enc"]["kind"] if e["enc"] else None}, {e["burn"]} ids used, {e["before"]} publishes before' + (', one beside' if e['beside'] else '')
    return s
