"""C13: packets respect the size limit and state their exact length."""
import hashlib

import hist
import refcodec as rc
import scen
import seams

PROCESSES = True        # its simulated processes may have separate memories


def tight(rng, c, lo=None):
    """Aim at the size where things just fit (or just do not)."""
    base = max(scen.manifest_overhead(c) + 36 * rng.choice([2, 2, 3, 4, 5, 10]), 120)
    c['size'] = base + rng.randrange(-40, 40)
    if scen.payload_size(c) < 1:
        c['size'] += 1 - scen.payload_size(c) + rng.randrange(0, 3)
    return c


def gen(rng, tier, i, ctx):
    if i == 0 or (tier == 'thorough' and i % 1500 == 0):
        # chunk numbers of three bytes
        c = scen.gen_cfg(rng, schemas=('Segmented',), enc=0, sign=0)
        c.update(size=260, degree=None, mpre='ccnx:/m', dpre='ccnx:/d', exp=[None, None, None], src='bytesio')
        p = scen.payload_size(c)
        c['data'].update(len=65540 * p + rng.choice([0, 0, rng.randrange(p)]) if i else 65540 * p, kind='rand')
        return {'pubs': [{'cfg': c, 'share': False, 'faults': [], 'shorts': []}], 'store': 'wire', 'cpu': 300}
    if rng.random() < .07:
        # many collections in one process, at sizes one apart: the names' id numbers grow past a byte and some sizes leave no slack
        c = scen.gen_cfg(rng, schemas=('Segmented', 'Segmented', 'Prefix'), enc=.2, sign=0, src=False)
        c.update(degree=None, src='bytesio', size=0)
        c['size'] = max(scen.manifest_overhead(c) + 36 * rng.choice([2, 3, 5]), scen.root_overhead(c), 230) + rng.randrange(0, 36)
        p = max(1, scen.payload_size(c))
        c['data'].update(len=rng.randrange(120, 400) * p, kind='rand')
        many = [dict(c, size=c['size'] + k) for k in range(rng.choice([6, 12]))]
        plan = hist.gen_history(rng, many)
        return dict(plan, burn=rng.choice([0, 100, 250, 252, 255, 300, 65530]))
    if rng.random() < .18:
        # sizes fitted to the largest manifest that a small collection has, for a collection with many manifests
        c = scen.gen_cfg(rng, schemas=('Segmented', 'Segmented', 'Prefix', 'Hashed'), enc=.3, sign=0, src=False)
        c.update(degree=None, src='bytesio', size=0)
        if rng.random() < .5:
            c['flags'] = [False, False, False]
        c['size'] = max(scen.manifest_overhead(c) + 36 * rng.choice([1, 2, 3]), 200) + rng.randrange(0, 36)
        if scen.payload_size(c) < 3:
            c['size'] += 3 - scen.payload_size(c)
        c['data'].update(len=12 * scen.payload_size(c), kind='rand')
        return {'pubs': [{'cfg': c, 'share': False, 'faults': [], 'shorts': []}], 'store': 'wire', 'burn': rng.choice([0, 0, 252, 255, 300]),
                'fit': [rng.choice([0, 0, 0, 0, 0, 1, 2])], 'many': rng.choice([270, 300, 400])}
    if rng.random() < .06:
        # numbers of two and three bytes from the start, a full last object whatever the writer reserves for them
        c = scen.gen_cfg(rng, schemas=('Segmented',), max_chunks=20, sign=0)
        c.update(api='meta', burn=rng.choice([252, 255, 65520, 65535, 65536, 70000, 0xFFF000]), src='bytesio')
        c['data']['len'] = rng.randrange(1, 40) * max(1, scen.payload_size(c) + rng.choice([0, 0, 1, 1, 2, 3, 4]))
        return hist.gen_history(rng, [c])
    cfgs = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        r = rng.random()
        if r < .2:
            c = scen.gen_cfg(rng, chunks=rng.choice([254, 255, 256, 257, 300, 600]), sizes=[260, 400, 700], schemas=('Segmented', 'Segmented', 'Prefix', 'Hashed'))
            if c['degree'] == 2:
                c['degree'] = 5
        else:
            c = scen.gen_cfg(rng, max_chunks=70)
        n = rng.random()
        long = '/'.join('x' * rng.randrange(1, 60) for _ in range(rng.randrange(1, 6)))
        if n < .3:
            for k in ('mpre', 'dpre', 'mloc', 'dloc'):
                if c[k] and rng.random() < .5:
                    c[k] = 'ccnx:/' + long + '/' + k
            if rng.random() < .4:
                c['name'] = 'ccnx:/' + long
        if rng.random() < .3:
            c['exp'] = [rng.randrange(1, 1 << 42) for _ in range(3)]
        if rng.random() < .6:
            p0 = max(1, scen.payload_size(c))
            chunks = max(1, c['data']['len'] // p0)
            tight(rng, c)
            p1 = max(1, scen.payload_size(c))
            c['data']['len'] = max(1, min(chunks, 200) * p1 - rng.randrange(0, 2))
        cfgs.append(c)
    if rng.random() < .3:
        cfgs.append(dict(cfgs[0], data=dict(cfgs[0]['data'], seed=rng.randrange(1 << 30))))
    if rng.random() < .4:
        cfgs.append(scen.related_cfg(rng, rng.choice(cfgs)))
        if rng.random() < .3:
            rng.shuffle(cfgs)
    return hist.gen_history(rng, cfgs)


def fit(plan, w, out):
    """Replaces the planned collection by one whose packet size just fits its largest manifests."""
    p = plan['pubs'][0]
    cfg = dict(p['cfg'])

    def manifests(size):
        """How many manifests forty chunks have at this packet size."""
        c = dict(cfg, size=size)
        c['data'] = dict(c['data'], len=40 * max(1, scen.payload_size(c)))
        w.set_proc(w.new_proc('probe', seed=6))
        st = scen.WireStore()
        try:
            scen.publish(c, st, w, scen.content(c['data']))
        except Exception:  # noqa - too small a packet
            return None
        finally:
            w.set_proc(None)
        return sum(rc.parse_packet(b).ptype == rc.MANIFEST for b in st.by_hash.values())
    lo = cfg['size']
    n = None
    while n is None and lo < cfg['size'] + 400:
        lo += 12
        n = manifests(lo)
    if n is None:
        return
    hi = lo + 38
    if manifests(hi) in (n, None):
        return
    while hi - lo > 1:
        mid = (lo + hi) // 2
        if manifests(mid) == n:
            lo = mid
        else:
            hi = mid
    cfg['size'] = hi + plan['fit'][0]
    cfg['data'] = dict(cfg['data'], len=min(3000, plan['many'] * 40 // n) * max(1, scen.payload_size(cfg)))
    plan['pubs'][0] = dict(p, cfg=cfg)
    out.count('fitted')


def execute(plan, ctx, out):
    w = ctx.world(plan)
    with seams.activate(w):
        if plan.get('fit'):
            fit(plan, w, out)
        for k, cfg, data, rh, objs, extra, err in hist.run_history(plan, ctx, w, out):
            if err is not None:
                # refusing a configuration is not this property's concern
                out.count('refused')
                continue
            size = cfg['size']
            nd = nm = 0
            for h, b in list(objs.items()) + [(None, v) for v in extra.values()]:
                try:
                    o = rc.parse_packet(b)
                except rc.Bad as e:
                    out.violate('malformed', f'publish {k}: {e}')
                    continue
                if int.from_bytes(b[2:4], 'big') != len(b):
                    out.violate('wrong-length', f'publish {k}: header says {int.from_bytes(b[2:4], "big")}, object has {len(b)} bytes')
                if h is None or h == rh:
                    continue
                if o.ptype == rc.DATA:
                    nd += 1
                    if len(b) > size:
                        out.violate('data-too-large', f'publish {k}: data object of {len(b)} bytes, maximum {size}')
                elif o.ptype == rc.MANIFEST:
                    nm += 1
                    if len(b) > size:
                        out.violate('manifest-too-large', f'publish {k}: manifest of {len(b)} bytes, maximum {size}')
            if nd >= 2 and nm >= 2:
                out.nontrivial = True
            out.count('data_objects', nd)
            out.count('manifests', nm)
            full = sum(1 for b in objs.values() if len(b) == size)
            out.count('objects_exactly_full', full)
            w.log(rh)
            out.state = hashlib.sha256(rh).hexdigest()[:16]
    out.absorb(w)
