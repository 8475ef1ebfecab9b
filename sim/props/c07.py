"""C07: name lookup switches atomically between complete versions."""
import hashlib
import os

import refcodec as rc
import scen
import seams
from seams import R
from sched import Sched
from ccnpy.core.ContentObject import ContentObject
from ccnpy.core.Payload import Payload

NEAR = ['ccnx:/a/b', 'ccnx:/a~b', 'ccnx:/a%7Eb', 'ccnx:/a%2Fb', 'ccnx:/a', 'ccnx:/a/b/c', 'ccnx:/a/Name=b', 'ccnx:/A/b', 'ccnx:/a/b~', 'ccnx:/a/~b',
        'ccnx:/a~Name=b', 'ccnx:/~a/b', 'ccnx:/a~/b', 'ccnx:/a%257Eb', 'ccnx:/b/a', 'ccnx:/a/b.link', 'ccnx:/a/%b', 'ccnx:/ab', 'ccnx:/a/b%00', 'ccnx:/a/ b']


PROCESSES = True        # its simulated processes may have separate memories


def family(rng):
    """Long names that differ in little: the end, the middle, the division into components (below the limit of a file name)."""
    n = rng.choice([40, 64, 100, 120, 128, 150, 160, 180, 190, 200])
    comps = []
    while sum(map(len, comps)) + len(comps) < n:
        comps.append(rng.choice('abxyz') * min(rng.choice([1, 16, 32, 64, 100, 170]), n - sum(map(len, comps))))
    base = '/'.join(comps)
    k = rng.randrange(1, len(base))
    out = {'ccnx:/' + base, 'ccnx:/' + base + 'A', 'ccnx:/' + base + 'B', 'ccnx:/' + base + '/A', 'ccnx:/' + base + '/B', 'ccnx:/' + base + '/a',
           'ccnx:/' + base[:-1] + 'C', 'ccnx:/C' + base[1:], 'ccnx:/' + base[:k] + 'D' + base[k + 1:], 'ccnx:/' + base.rsplit('/', 1)[0] + '/A',
           'ccnx:/' + base.replace('/', '', 1), 'ccnx:/' + base[:-2]}
    # a link's file name, of this name with something appended, has at most 255 bytes
    return sorted(x for x in out if '//' not in x and not x.endswith('/') and sum(len(c) + 6 for c in x[6:].split('/')) <= 210)


def small(rng, **kw):
    kw.setdefault('max_chunks', 10)
    c = scen.gen_cfg(rng, flags=False, src=False, enc=0, sign=0, sizes=[400, 512, 700, 1500], **kw)
    c['exp'] = [None, None, None]
    # prefixes are nobody's published name
    for k in ('mpre', 'dpre'):
        if c[k]:
            c[k] += '/x' + k
    return c


def fits(c):
    """The name became another, longer one."""
    c['size'] = max(c['size'], scen.manifest_overhead(c) + 120, scen.root_overhead(c))
    c['size'] += max(0, 60 - scen.payload_size(c))


def gen(rng, tier, i, ctx):
    share = rng.random() < .3       # data and manifests under the root's own name
    near = NEAR if rng.random() < .7 else family(rng)
    if len(near) < 4:
        near = NEAR
    name = rng.choice(near)
    keys = {'sign': rng.choice([None, None, 'crc', 'k1024_1']), 'enc': scen.gen_enc(rng, ('gcm', 'ccm')) if rng.random() < .2 else None}
    vs = []
    for k in range(rng.choice([2, 3, 4])):
        c = small(rng)
        c.update(keys)
        if c['schema'] == 'Prefix' and not share:
            c['mpre'] = c['mpre'] if c['mpre'] not in (None, name) else name + '/pm'
            c['dpre'] = c['dpre'] if c['dpre'] not in (None, name) else name + '/pd'
        if c['schema'] == 'Segmented' and c['mpre'] is None and c['dpre'] is None:
            c['mpre'] = name + '/m'
        if share and rng.random() < .7:
            c.update(schema='Prefix', mpre=None, dpre=None, mloc=None, dloc=None)
        c['name'] = name
        fits(c)
        c['same_data'] = False
        fault = None
        if k and rng.random() < .45:
            fault = scen.gen_crash(rng) if rng.random() < .7 else scen.gen_err(rng)
        v = {'cfg': c, 'fault': fault, 'link_sign': rng.random() < .5}
        if k and rng.random() < .3:
            # an earlier version again: a new process makes the very same objects
            v['same_as'] = rng.randrange(k)
            v['cfg'] = vs[v['same_as']]['cfg']
        vs.append(v)
    others = []
    for n in rng.sample([x for x in near if x != name], rng.choice([0, 1, 2, 3])):
        c = small(rng, schemas=('Hashed', 'Segmented'), max_chunks=4)
        c['name'] = n
        if c['schema'] == 'Segmented':
            c['mpre'], c['dpre'] = n + '/m', n + '/d'
        fits(c)
        others.append({'cfg': c, 'when': rng.choice(['before', 'during', 'after'])})
    readers = []
    for _ in range(rng.choice([1, 2, 2, 3, 4])):
        readers.append({'reads': rng.choice([1, 2, 4, 8]), 'same': rng.random() < .4, 'pause': rng.choice([0, 0, 5, 40]), 'other': rng.random() < .2})
    misplaced = []
    if rng.random() < .3:
        known = [name] + [o['cfg']['name'] for o in others]
        for _ in range(rng.choice([1, 2])):
            a, b = rng.choice(known), rng.choice([x for x in near if x != name])
            if a != b:
                misplaced.append([a, b])
    return {'name': name, 'versions': vs, 'misplaced': misplaced, 'others': others, 'readers': readers, 'split': rng.random() < .25,
            'unpublished': [x for x in near if x != name and x not in [o['cfg']['name'] for o in others]][:rng.choice([0, 3])],
            'sched': {'mode': 'rand', 'seed': rng.randrange(1 << 30), 'p': rng.choice([.01, .03, .1, .3, .8])}}


def tagged(k, cfg):
    """Contents that say which version they belong to."""
    b = bytearray(scen.content(cfg['data']))
    return bytes(b) + b'|version %d' % k


def execute(plan, ctx, out):
    w = ctx.world(plan)
    name = plan['name']
    with seams.activate(w):
        d = ctx.newdir('out')
        vs = []
        for k, v in enumerate(plan['versions']):
            while v.get('same_as') is not None:
                v = plan['versions'][v['same_as']]
            data = tagged(plan['versions'].index(v), v['cfg'])
            scen.write_input(w, f'in/v{k}.bin', data)
            vs.append({'cfg': v['cfg'], 'data': data, 'begin': None, 'end': None, 'ret': None, 'k': k})
        others = []
        for k, o in enumerate(plan['others']):
            data = tagged(100 + k, o['cfg'])
            scen.write_input(w, f'in/o{k}.bin', data)
            others.append({'cfg': o['cfg'], 'data': data, 'begin': None, 'end': None, 'ret': None, 'k': 100 + k, 'when': o['when']})
        kcfgs = [v['cfg'] for v in vs] + [o['cfg'] for o in others]

        def store():
            ks = scen.InsecureKeystore()
            done = set()
            for c in kcfgs:
                if c['enc'] and 'enc' not in done:
                    done.add('enc')
                    scen.add_keys(ks, c, sign=False)
                if c['sign'] and c['sign'] not in done:
                    done.add(c['sign'])
                    scen.add_keys(ks, c, enc=False)
            return ks

        def publish(v, rel, link_sign=True):
            cfg = dict(v['cfg'], lsign=link_sign)
            v['begin'] = w.nops
            try:
                v['root'] = scen.phash(scen.publish(cfg, scen.dir_writer(d, cfg), w, v['data'], rel=rel))
                v['ret'] = w.nops
            finally:
                v['end'] = w.nops
                w.log('pub', v['k'], v['ret'] is not None)
        reads = []

        def read(nm, t=None):
            """one read by name -> record"""
            r = {'name': nm, 'start': w.nops}
            if t is None or t[0] is None:
                sink = scen.Sink()
                rd = scen.TreeIO.PacketDirectoryReader(d)
                tr = scen.Traversal(packet_input=rd, data_writer=sink, keystore=store())
                if t is not None:
                    t[0] = (tr, sink)
            else:
                tr, sink = t[0]
                sink.parts.clear()
            try:
                tr.traverse(root_name=scen.mkname(nm))
                r['got'] = sink.value()
            except Exception as e:  # noqa
                r['err'] = f'{type(e).__name__}: {str(e)[:120]}'
                r['part'] = sink.value()
            r['stop'] = w.nops
            w.log('read', nm, hashlib.sha256(r.get('got', b'')).digest()[:8], r.get('err', '')[:20])
            return r

        def judge(r, who):
            cands = [v for v in vs + others if v['cfg']['name'] == r['name']]
            begun = [v for v in cands if v['begin'] is not None and v['begin'] <= r['stop']]
            valid = [v for v in begun if not any(x['ret'] is not None and x['ret'] <= r['start'] and v['end'] is not None and x['begin'] >= v['end'] for x in begun)]
            if any(v['ret'] is not None and v['ret'] <= r['start'] for v in begun):
                need = True
            else:
                need = False
            if 'got' in r:
                m = [v for v in cands if v['data'] == r['got']]
                if any(v in valid for v in m):
                    r['v'] = [v['k'] for v in m if v in valid]
                    return
                if m:
                    kind, msg = 'old-version', f'{who} delivered version {m[0]["k"]} after a later version had returned'
                else:
                    x = [v for v in vs + others if v['data'] == r['got']]
                    if x:
                        kind, msg = 'other-name', f'{who} delivered what was published as {x[0]["cfg"]["name"]}'
                    else:
                        kind, msg = 'no-version', f'{who} delivered {len(r["got"])} bytes that are no complete version'
            else:
                if not need:
                    if r['part'] and not any(v['data'].startswith(r['part']) for v in valid):
                        kind, msg = 'no-version', f'{who} failed but delivered {len(r["part"])} bytes of no version'
                    else:
                        return
                else:
                    kind, msg = 'read-failed', f'{who}: {r["err"]} although a version was completely published'
            msg += f' (name {r["name"]}, operations {r["start"]}..{r["stop"]})'
            out.violate(kind, msg)

        # first version and what else is there from the start
        publish(vs[0], 'in/v0.bin')
        for k, o in enumerate(others):
            if o['when'] == 'before':
                publish(o, f'in/o{k}.bin')
        judge(read(name), 'the first read')
        s = Sched(w, plan['sched'])
        pubs = vs[1:]
        groups = [pubs] if not plan['split'] or len(pubs) < 2 else [pubs[::2], pubs[1::2]]
        for gi, g in enumerate(groups):
            def run_group(g=g, gi=gi):
                for v in g:
                    # a publisher that dies is followed by a new process
                    f = plan['versions'][v['k']]['fault']
                    p = w.new_proc(f'pub{v["k"]}', seed=50, faults=[resolved[v['k']]] if f else [])
                    w.set_proc(p)
                    try:
                        publish(v, f'in/v{v["k"]}.bin', plan['versions'][v['k']]['link_sign'])
                    except seams.SimCrash:
                        pass
                    except seams.SimHang:
                        raise
                    except Exception as e:  # noqa
                        if not f:
                            out.violate(f'publish-failed:{type(e).__name__}', f'{e} at {ctx.where(e)}')
            s.add(f'publisher{gi}', run_group, w.new_proc(f'g{gi}', seed=90 + gi))
        resolved = {}
        for k, v in enumerate(plan['versions']):
            if k and v['fault']:
                dd = ctx.newdir(f'dry{k}')
                dry = scen.incarnation(ctx, w, f'dry{k}', lambda p: scen.publish_dir(dict(v['cfg'], lsign=v['link_sign']), dd, w, vs[k]['data'], rel=f'in/v{k}.bin'),
                                       seed=50, record=True)
                resolved[k] = scen.place(v['fault'], dry['ops'])
        during = [(k, o) for k, o in enumerate(others) if o['when'] == 'during']
        if during:
            def run_others():
                for k, o in during:
                    publish(o, f'in/o{k}.bin')
            s.add('others', run_others, w.new_proc('others', seed=70))
        for ri, rd in enumerate(plan['readers']):
            def run_reader(rd=rd, ri=ri):
                t = [None] if rd['same'] else None
                got = []
                for n in range(rd['reads']):
                    nm = name
                    if rd['other'] and others and n % 2:
                        nm = others[(ri + n) % len(others)]['cfg']['name']
                    got.append(read(nm, t))
                    for _ in range(rd['pause']):
                        w.op('pause')
                return got
            s.add(f'reader{ri}', run_reader, w.new_proc(f'reader{ri}', seed=200 + ri))
        s.run(first=plan['sched'].get('seed', 0) % len(s.tasks))
        for t in s.tasks:
            if t.error is not None:
                raise t.error
        nreads = 0
        for t in s.tasks:
            if not t.name.startswith('reader'):
                continue
            last = -1
            for n, r in enumerate(t.result or []):
                judge(r, f'{t.name} read {n}')
                nreads += 1
                # one publisher: what was seen once stays
                if len(groups) == 1 and 'v' in r and r['name'] == name:
                    if max(r['v']) < last:
                        out.violate('went-back', f'{t.name} read version {r["v"]} after version {last}')
                    # the earliest that it can have been
                    last = min([k for k in r['v'] if k >= last] or [last])
        for k, o in enumerate(others):
            if o['when'] == 'after':
                publish(o, f'in/o{k}.bin')
        w.set_proc(w.new_proc('final', seed=5))
        judge(read(name), 'the last read')
        for o in others:
            judge(read(o['cfg']['name']), 'the last read')
        where = {}
        for nm in plan['unpublished']:
            r = read(nm)
            if 'got' in r:
                out.violate('other-name', f'reading {nm}, which was never published, delivered {len(r["got"])} bytes')
            elif r['part']:
                out.violate('other-name', f'reading {nm}, which was never published, delivered {len(r["part"])} bytes before failing')
        # links that a file system without case, a careless copy or a restored backup left under another name
        for a, b in plan.get('misplaced', []):
            def linkfile(nm):
                if nm not in where:
                    t = ctx.newdir('l%d' % len(where))
                    wr = scen.TreeIO.PacketDirectoryWriter(t, link_named_objects=True)
                    wr.put(scen.Packet.create_content_object(ContentObject.create_data(name=scen.mkname(nm), payload=Payload([1]))))
                    where[nm] = next((f for f in os.listdir(t) if f.endswith('.link')), None)
                return where[nm]
            fa, fb = linkfile(a), linkfile(b)
            if not fa or not fb or fa == fb or not os.path.exists(f'{d}/{fa}'):
                continue
            with R.open(f'{d}/{fa}', 'rb') as f:
                raw = f.read()
            with R.open(f'{d}/{fb}', 'wb') as f:
                f.write(raw)
            r = read(b)
            out.count('misplaced_links')
            if ('got' in r or r['part']) and not any(v['cfg']['name'] == b and v['data'] == r.get('got') for v in vs + others):
                out.violate('other-name', f'a link of {a} under the name {b} delivered {len(r.get("got") or r["part"])} bytes')
    out.absorb(w)
    out.taken = None
    out.count('reads', nreads)
    out.count('switches', s.switches)
    out.state = hashlib.sha256(repr([v['ret'] for v in vs]).encode()).hexdigest()[:16]
    out.nontrivial = nreads > 0 and s.switches >= 2 and len(vs) >= 2

