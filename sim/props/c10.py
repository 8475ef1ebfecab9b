"""C10: encrypted manifests never reuse an IV and never show pointers."""
import hashlib
import os

import refcodec as rc
import scen
import seams
from sched import Preempt, Sched


def gen_job(rng, nkeys, tag):
    c = scen.gen_cfg(rng, max_chunks=rng.choice([6, 14, 30]), enc=0, sign=.4, tag=tag)
    j = {'key': rng.randrange(nkeys), 'cfg': c, 'share': rng.choice(['enc', 'enc', 'opts', 'none', 'none']), 'fault': None, 'again': rng.choice([0, 0, 0, 1, 2])}
    r = rng.random()
    if r < .15:
        j['fault'] = dict(scen.gen_err(rng), at=rng.randrange(3, 60))
    elif r < .25:
        j['fault'] = {'at': rng.randrange(3, 80), 'kind': 'crash'}
    return j


def gen(rng, tier, i, ctx):
    if i < 4 and tier == 'quick' or tier == 'thorough' and i % 500 == 0:
        # one long-lived encryptor: how many manifests until an IV comes back
        e = scen.gen_enc(rng, kinds=[('gcm',), ('ccm',), ('oaep',), ('oaepnew',)][i % 4])
        if 'salt' in e:
            e['salt'] = [None, 7][i % 2]
        return {'bulk': e, 'n': 100000, 'cpu': 300, 'clock': {'start': None}}
    keys = [scen.gen_enc(rng, kinds=('gcm', 'gcm', 'ccm', 'oaep', 'oaepnew')) for _ in range(rng.choice([1, 1, 2, 3]))]
    for k in keys[1:]:
        if rng.random() < .5 and 'key' in keys[0] and 'key' in k:
            k.update(key=keys[0]['key'], bits=keys[0]['bits'], num=keys[0]['num'])
            if rng.random() < .6:
                k['salt'] = keys[0]['salt']
    procs = []
    for pi in range(rng.choice([1, 2, 2, 3])):
        p = {'pid': rng.choice([1, 77, 77, 1000 + pi]), 'seed': rng.randrange(1 << 30), 'back': rng.choice([0, 0, 1, 2]), 'amount': rng.randrange(10**rng.choice([4, 9, 13])),
             'server': rng.random() < .35, 'threads': rng.random() < .45, 'sched': {'mode': 'rand', 'seed': rng.randrange(1 << 30), 'p': rng.choice([.002, .01, .05, .3])},
             'jobs': [gen_job(rng, len(keys), f'j{pi}{k}') for k in range(rng.choice([1, 2, 2, 3]))], 'children': []}
        if p['server']:
            p['children'] = [[gen_job(rng, len(keys), f'c{pi}{k}{m}') for m in range(rng.choice([1, 1, 2]))] for k in range(rng.choice([1, 2, 3]))]
        if rng.random() < .3:
            # the very same file, by the same options, everywhere
            for l in [p['jobs']] + p['children']:
                for j in l:
                    j['cfg'] = p['jobs'][0]['cfg']
                    j['key'] = p['jobs'][0]['key']
        procs.append(p)
    if len(procs) > 1 and rng.random() < .4:
        procs[1] = dict(procs[0], seed=rng.randrange(1 << 30))
    return {'keys': keys, 'procs': procs, 'clock': {'start': rng.choice([None, 0, 10**18]), 'tick': rng.choice([1, 1000, 10**9])}}


def job_cfg(plan, j):
    c = dict(j['cfg'], enc=plan['keys'][j['key']])
    c['size'] = max(c['size'], scen.manifest_overhead(c) + 110, scen.root_overhead(c))
    return c


class Shared:
    """Encryptors and option objects that live as long as the process (children inherit them)."""

    def __init__(self, plan):
        self.plan = plan
        self.encs = {}
        self.opts = {}

    def options(self, cfg, k, how):
        if how == 'none':
            return scen.options(cfg)
        if k not in self.encs:
            self.encs[k] = scen.encryptor(cfg['enc'])
        if how == 'enc':
            return scen.options(cfg, manifest_encryptor=self.encs[k])
        key = repr(sorted((a, repr(b)) for a, b in cfg.items() if a not in ('data', 'src')))
        if key not in self.opts:
            self.opts[key] = scen.options(cfg, manifest_encryptor=self.encs[k])
        return self.opts[key]


def run_jobs(ctx, w, plan, sh, jobs, threads, sched, tag, pid, seed):
    """-> [[dir, root hash hex or None, error, job index]...], switches"""
    res = []
    todo = []
    for k, j in enumerate(jobs):
        cfg = job_cfg(plan, j)
        data = scen.content(cfg['data'])
        rel = f'in/{tag}-{k}.bin'
        scen.write_input(w, rel, data)
        for a in range(j['again'] + 1):
            d = ctx.newdir(f'{tag}-{k}-{a}')
            # made here, as the threads of a process share what was made before they started
            opts = sh.options(cfg, j['key'], j['share'])
            fault = [j['fault']] if j['fault'] and a == 0 and not (threads and j['fault']['kind'] == 'crash') else []
            p = w.new_proc(f'{tag}-{k}-{a}', seed=f'{seed}/{tag}/{k}/{a}', faults=fault, pid=pid)

            def fn(cfg=cfg, d=d, data=data, opts=opts, rel=rel):
                return scen.phash(scen.publish(cfg, scen.dir_writer(d, cfg), w, data, opts=opts, rel=rel)).hex()
            todo.append((fn, p, d, k, bool(fault)))
    if threads and len(todo) > 1:
        s = Sched(w, sched)
        for fn, p, d, k, f in todo:
            s.add(p.name, fn, p)
        with Preempt(s, ctx.ccnpy_dir):
            s.run()
        for t, (fn, p, d, k, f) in zip(s.tasks, todo):
            res.append([d, t.result, None if t.error is None else [type(t.error).__name__, str(t.error)[:200], ctx.where(t.error), f], k])
        return res, s.switches
    for fn, p, d, k, f in todo:
        w.set_proc(p)
        try:
            res.append([d, fn(), None, k])
        except seams.SimCrash:
            res.append([d, None, ['crash', '', '', True], k])
            break               # the process is gone
        except seams.SimHang:
            raise
        except Exception as e:  # noqa
            res.append([d, None, [type(e).__name__, str(e)[:200], ctx.where(e), f], k])
        finally:
            w.set_proc(None)
    return res, 0


def pack(w, fired0, res, switches):
    return {'res': res, 'switches': switches, 'trace': w.trace.hexdigest(), 'clock': w.clock_ns, 'nops': w.nops, 'sim': w.sim_ns,
            'fired': {k: v - fired0.get(k, 0) for k, v in w.fired.items() if v != fired0.get(k, 0)}}


def take(w, out, r, what):
    if 'res' not in r:
        if 'hang' in r:
            raise seams.SimHang(f'{what}: {r["hang"]}')
        raise RuntimeError(f'{what}: {r}')
    w.log(what, r['trace'])
    for k, v in r['fired'].items():
        w.fired[k] = w.fired.get(k, 0) + v
    w.sim_ns = r['sim']
    w.nops = r['nops']
    out.count('switches', r['switches'])


def execute(plan, ctx, out):
    if 'bulk' in plan:
        return bulk(plan, ctx, out)
    w = ctx.world(plan)
    with seams.activate(w):
        start = w.clock_ns
        all_res = []
        for pi, p in enumerate(plan['procs']):
            def job():
                f0 = dict(w.fired)
                sh = Shared(plan)
                res, sw = run_jobs(ctx, w, plan, sh, p['jobs'], p['threads'], p['sched'], f'p{pi}', p['pid'], p['seed'])
                kids = []
                if not any(r[2] and r[2][0] == 'crash' for r in res):
                    for ci, jobs in enumerate(p['children']):
                        # a forked child inherits everything the parent had in memory; only the system's entropy differs
                        def child():
                            f1 = dict(w.fired)
                            r2, s2 = run_jobs(ctx, w, plan, sh, jobs, p['threads'], dict(p['sched'], seed=p['sched'].get('seed', 0) + 1 + ci), f'p{pi}c{ci}',
                                              p['pid'] + 1 + ci, f'{p["seed"]}/{ci}')
                            return pack(w, f1, r2, s2)
                        kids.append(ctx.fork(child))
                return dict(pack(w, f0, res, sw), kids=kids)
            r = ctx.fork(job)
            take(w, out, r, f'process {pi}')
            out.count('processes')
            all_res += [(f'process {pi}', x, p['jobs'][x[3]]) for x in r['res']]
            for ci, k in enumerate(r['kids']):
                take(w, out, k, f'process {pi} child {ci}')
                out.count('forks')
                all_res += [(f'child {ci} of process {pi}', x, p['children'][ci][x[3]]) for x in k['res']]
            # the next process starts later, at the same instant, or after the clock was set back
            w.clock_ns = {0: r['clock'] + p['amount'], 1: start, 2: max(0, start - p['amount'])}[p['back']]
        ivs = {}
        n = failed = 0
        h = hashlib.sha256()
        for what, (d, rh, err, k), j in all_res:
            cfg = job_cfg(plan, j)
            if err is not None:
                failed += 1
                if not err[3]:
                    out.violate(f'publish-failed:{err[0]}:{err[2]}', f'{what} job {k}: {err[1]}')
            h.update(repr((what, rh)).encode())
            objs = scen.objects(d)
            n += look(out, ivs, what, cfg, objs, rh)
    out.absorb(w)
    out.count('manifests', n)
    out.count('failed', failed)
    out.state = h.hexdigest()[:16]
    out.nontrivial = n >= 4 and len(all_res) > 1


def look(out, ivs, what, cfg, objs, rh):
    """Every encrypted manifest that this publish stored, complete or not."""
    n = 0
    keys = scen.ref_keys(cfg)
    secrets = []
    if 'key' in cfg['enc']:
        secrets.append(('the content key', scen.aes_key_bytes(cfg['enc'])))
    for c in ('dpre', 'mpre', 'dloc', 'mloc', 'name'):
        if cfg[c]:
            nm = scen.comps(scen.mkname(cfg[c]))
            secrets.append((f'the name {cfg[c]}', b''.join(rc.tlv(t, v) for t, v in nm)))
    parsed = {}
    for oh, b in objs.items():
        try:
            parsed[oh] = rc.parse_packet(b)
        except rc.Bad as e:
            out.violate('malformed', f'{what}: {e}')
    # the wrapped key of a collection is in its root; manifests below only carry its number
    mans = {oh: o for oh, o in parsed.items() if o.ptype == rc.MANIFEST}
    cache = {}
    for oh, o in mans.items():
        try:
            m = rc.parse_manifest(o.payload)
        except rc.Bad as e:
            out.violate('malformed-manifest', f'{what}: {e}')
            continue
        if m['secctx'] is None or m['node'] is not None or m['enc'] is None:
            out.violate('plain-manifest', f'{what}: a manifest shows its node')
            continue
        n += 1
        if m['secctx']['wrapped'] is not None:
            try:
                rc.open_manifest(o, keys, cache)
            except (rc.NoKey, rc.Tamper, rc.Bad):
                pass
        body = bytes(o.payload)
        for x in parsed:
            if x in body:
                out.violate('pointer-visible', f'{what}: a manifest shows the hash of an object of its collection')
                break
        for label, s in secrets:
            if len(s) >= 12 and s in body:
                out.violate('secret-visible', f'{what}: a manifest shows {label}')
        sc = m['secctx']
        e = cfg['enc']
        if 'key' in e:
            key = scen.aes_key_bytes(e)
            salt = None if e['salt'] is None else e['salt'].to_bytes(4, 'big')
        else:
            key = salt = None
        if sc['kind'] == 'oaep':
            if sc['keynum'] in cache:
                key, salt = cache[sc['keynum']]
            elif key is not None and salt is None:
                key = None      # an unfinished collection without its root: the random salt is nowhere
        if key is None:
            continue
        iv = (salt or b'') + sc['nonce']
        ident = (hashlib.sha256(key).digest(), rc.MODES.get(sc['mode'], ('?',))[0], iv)
        ct = (m['enc'], m['tag'], sc['raw'])
        first = ivs.setdefault(ident, (what, ct))
        if first[1] != ct:
            out.violate('iv-reused', f'{what} encrypts a manifest with the IV {iv.hex()} that {first[0]} used for another one under the same key')
    if rh is not None:
        # the key opens all of it, and nothing else does
        try:
            r = rc.walk(objs.get, bytes.fromhex(rh), keys)
            if r.bytes() != scen.content(cfg['data']):
                out.violate('content', f'{what}: other content')
        except (rc.Bad, rc.NoKey, rc.Tamper, KeyError) as e:
            out.violate('unreadable', f'{what}: {type(e).__name__} {e}')
        try:
            rc.walk(objs.get, bytes.fromhex(rh), rc.Keys(pubs=keys.pubs))
            out.violate('readable-without-key', f'{what}: the root opens without a key')
        except (rc.NoKey, rc.Tamper):
            pass
        except rc.Bad as e:
            out.violate('malformed', f'{what}: {e}')
    return n


def bulk(plan, ctx, out):
    """One key through very many manifests, in several encryptors."""
    import array
    from ccnpy.flic.tlvs.HashGroup import HashGroup
    from ccnpy.flic.tlvs.Node import Node
    from ccnpy.flic.tlvs.Pointers import Pointers
    w = ctx.world(plan)
    w.max_ops = 10_000_000
    with seams.activate(w):
        w.log = lambda *a: None
        ptr = scen.hashvalue(bytes(range(32)))
        seen = set()
        encs = [scen.encryptor(plan['bulk']) for _ in range(1 if plan['bulk']['kind'] == 'oaepnew' else 3)]
        node = Node(node_data=None, hash_groups=[HashGroup(group_data=None, pointers=Pointers([ptr]))])
        salt = None
        for k in range(plan['n']):
            e = encs[k % len(encs)]
            ctx_tlv, _, _ = e.encrypt(node)
            sc = rc.parse_secctx(ctx_tlv.serialize().tobytes()[4:])
            # the salt differs only between encryptors, if at all
            iv = (k % len(encs) if plan['bulk'].get('salt') is None and plan['bulk']['kind'] == 'oaep' else 0, sc['nonce'])
            if iv in seen:
                out.violate('iv-reused', f'the {k + 1}th manifest under one key uses an IV again ({sc["nonce"].hex()})')
                break
            seen.add(iv)
    out.absorb(w)
    out.count('bulk_manifests', len(seen))
    out.nontrivial = True
    out.state = 'bulk' + plan['bulk']['kind']
