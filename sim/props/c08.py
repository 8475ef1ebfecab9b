"""C08: concurrent and consecutive work in one process is isolated."""
import hashlib
import os
import random

import c16
import refcodec as rc
import scen
import seams
from ccnpy.flic.tlvs.Manifest import Manifest
from sched import Preempt, Sched


def gen(rng, tier, i, ctx):
    cfgs = []
    for k in range(rng.choice([2, 2, 3, 4])):
        c = scen.gen_cfg(rng, max_chunks=rng.choice([6, 12, 24]), enc=.6, sign=.6, tag=f'q{k}')
        for x in ('mpre', 'dpre'):
            # no collection's objects carry the name of another collection
            if c[x]:
                c[x] += f'/p{k}'
        if k and rng.random() < .35:
            # differs from the first in little; everything has its own names still
            c = scen.related_cfg(rng, dict(cfgs[0], src=c['src']), keep=('name', 'mpre', 'dpre'))
            c['name'] = c['name'].replace('q0', f'q{k}')
            for x in ('mpre', 'dpre'):
                if c[x]:
                    c[x] = (scen.respell(rng, c[x][:-3]) if rng.random() < .5 else c[x][:-3]) + f'/p{k}'
        cfgs.append(c)
    if rng.random() < .6:
        # one key, one signer for all
        for c in cfgs[1:]:
            c['enc'] = cfgs[0]['enc']
            c['sign'] = cfgs[0]['sign']
    if rng.random() < .3:
        # other keys under one key number
        for c in cfgs[1:]:
            if c['enc'] and cfgs[0]['enc'] and 'num' in c['enc'] and 'num' in cfgs[0]['enc'] and 'oaep' in (c['enc']['kind'], cfgs[0]['enc']['kind']):
                c['enc'] = dict(c['enc'], num=cfgs[0]['enc']['num'])
    if rng.random() < .3:
        # one option object for several files
        cfgs[1] = dict(cfgs[0], data=dict(cfgs[0]['data'], seed=rng.randrange(1 << 30), len=rng.randrange(1, 6000)))
    for c in cfgs:
        c['size'] = max(c['size'], scen.manifest_overhead(c) + 110, scen.root_overhead(c))
    nums = {}
    for k, c in enumerate(cfgs):
        # one keystore holds all pre-shared keys, so their numbers differ unless it is the same key
        e = c['enc']
        if e and e['kind'] in ('gcm', 'ccm'):
            key = (e['key'], e['bits'], e['kind'], e['salt'])
            while nums.setdefault(e['num'], key) != key:
                c['enc'] = e = dict(e, num=(e['num'] + 1) % (1 << 48))
    phases = []
    for _ in range(rng.choice([1, 2, 2, 3, 4])):
        tasks = []
        for _ in range(rng.choice([1, 1, 2, 2, 3, 4])):
            t = {'c': rng.randrange(len(cfgs)), 'fault': None}
            if rng.random() < .5:
                t.update(k='pub', to=rng.choice(['own', 'dir', 'dirwr', 'nest', 'nest', 'mem', 'ownmem', 'wire']), opts=rng.choice(['own', 'shared', 'shared', 'reused']),
                         other=rng.choice([None, None, rng.randrange(1 << 30)]), len=rng.randrange(1, 5000))
                if rng.random() < .15:
                    t['fault'] = scen.gen_err(rng)
            elif rng.random() < .25:
                t.update(k=rng.choice(['look', 'look', 'copy']), to=rng.choice(['own', 'own', 'nest', 'wire', 'ownmem']), seed=rng.randrange(1 << 30))
            else:
                t.update(k='read', src=rng.choice(['dir', 'reader', 'mem', 'mem', 'packets']), ks=rng.choice(['shared', 'shared', 'own', 'wrong']),
                         graph=rng.random() < .2, twice=rng.random() < .3, sink=rng.random() < .1)
            tasks.append(t)
        if len(tasks) > 1 and rng.random() < .3:
            tasks = [dict(tasks[0]) for _ in tasks]
            if tasks[0]['k'] == 'pub' and rng.random() < .4:
                # the same objects into the same nested directories
                tasks = [dict(t, to='nest') for t in tasks]
        phases.append({'tasks': tasks, 'conc': rng.random() < .75, 'sched': {'mode': 'rand', 'seed': rng.randrange(1 << 30), 'p': rng.choice([.0005, .002, .01, .05, .2])}})
    for ph in phases:
        if ph['conc']:
            # who changes an options object does not do so while another publish uses it
            for t in [t for t in ph['tasks'] if t.get('opts') == 'reused'][1:]:
                t['opts'] = 'shared'
    return {'cfgs': cfgs, 'phases': phases, 'reused': rng.random() < .3, 'clock': {'jumps': [[rng.randrange(1, 400), rng.choice([-1, 1]) * rng.randrange(10**12)]] if rng.random() < .2 else []}}


FIELDS = {'name': ['name'], 'schema_type': ['schema'], 'signer': ['sign'], 'manifest_prefix': ['mpre'], 'data_prefix': ['dpre'], 'manifest_locators': ['mloc'],
          'data_locators': ['dloc'], 'root_expiry_time': ['exp'], 'manifest_expiry_time': ['exp'], 'data_expiry_time': ['exp'], 'manifest_encryptor': ['enc'],
          'add_node_subtree_size': ['flags'], 'add_group_subtree_size': ['flags'], 'add_group_leaf_size': ['flags'], 'max_tree_degree': ['degree'],
          'max_packet_size': ['size']}


class Broken(scen.Sink):
    def write(self, data):
        super().write(data)
        if len(self.parts) > 1:
            raise OSError('the sink is full')
        return len(data)


def data_hashes(objs, rh, cfg):
    return [o.hash.hex() for o in rc.walk(objs.get, rh, scen.ref_keys(cfg)).data]


class State:
    """What the process shares between its work."""

    def __init__(self, ctx, w, plan):
        self.ctx, self.w = ctx, w
        self.cfgs = plan['cfgs']
        self.signers, self.encs, self.opts = {}, {}, {}
        self.dir = ctx.newdir('shared')
        self.nest = ctx.newdir('nest')
        self.mem = scen.TreeIO.PacketMemoryWriter()
        self.ks = scen.InsecureKeystore()
        done = set()
        for c in self.cfgs:
            for n in scen.rsa_names(c):
                if n not in done:
                    done.add(n)
                    self.ks.add_rsa_key('k-' + n, scen.KEYS[n].rsakey())
            e = c['enc']
            if e and e['kind'] in ('gcm', 'ccm'):
                self.ks.add_aes_key(scen.aead_params(e))
        self.writer = scen.TreeIO.PacketDirectoryWriter(self.dir, link_named_objects=True, signer=self.signer(self.cfgs[0]['sign']))
        self.reader = scen.TreeIO.PacketDirectoryReader(self.dir)
        self.pubs = []          # (cfg, data, root hash, place)
        self.first = []
        self.reused = None      # one options object for changing work, and the values it was last given
        self.given = None
        self.alones = {}

    def look(self):
        """What the first packets look like while nothing else is at work; the manifests are parsed once, for all to share."""
        self.looked, self.parsed = {}, {}
        for p in list(self.mem.packets):
            h = scen.phash(p)
            m = None
            if p.body().is_manifest():
                m = Manifest.from_content_object(p.body())
                if m.is_encrypted():
                    m = None
            self.parsed[h] = (p, m)
            self.looked[h] = looked_at(p, m)

    def packets_of(self, rh):
        objs = scen.objects(self.dir)
        hs = []
        cfg = next(c for c, _, h in self.first if h == rh)
        r = rc.walk(objs.get, rh, scen.ref_keys(cfg))
        for o in [m['obj'] for m in r.manifests] + r.data:
            if o.hash not in hs:
                hs.append(o.hash)
        return [self.parsed[h] for h in hs]

    def signer(self, s):
        if s not in self.signers:
            self.signers[s] = scen.signer(s)
        return self.signers[s]

    def encryptor(self, e):
        k = repr(sorted(e.items(), key=str)) if e else None
        if k not in self.encs:
            self.encs[k] = scen.encryptor(e)
        return self.encs[k]

    def options(self, cfg, shared):
        if not shared:
            return scen.options(cfg, signer=self.signer(cfg['sign']), manifest_encryptor=self.encryptor(cfg['enc']))
        k = repr(sorted((a, repr(b)) for a, b in cfg.items() if a not in ('data', 'src')))
        if k not in self.opts:
            self.opts[k] = scen.options(cfg, signer=self.signer(cfg['sign']), manifest_encryptor=self.encryptor(cfg['enc']))
        return self.opts[k]

    def reuse(self, cfg):
        """The one options object, with those fields assigned that differ from the work before."""
        new = dict(cfg)
        new.pop('data')
        if self.reused is None:
            self.reused = self.options(cfg, False)
        else:
            fresh = self.options(cfg, False)
            for f, keys in FIELDS.items():
                if any(new[k] != self.given[k] for k in keys):
                    setattr(self.reused, f, getattr(fresh, f))
        self.given = new
        return self.reused

    def alone(self, cfg, data):
        """The data objects that the same publish gives as the only work of a process."""
        k = repr((sorted(cfg.items(), key=str), len(data), hashlib.sha256(data).hexdigest()))
        if k not in self.alones:
            def job():
                m = scen.TreeIO.PacketMemoryWriter()
                c = dict(cfg, enc=None, sign=None)
                root = scen.publish(dict(c, src='bytesio'), m, self.w, data)
                objs = {scen.phash(x): x.serialize().tobytes() for x in m.packets}
                return data_hashes(objs, scen.phash(root), c)
            sched, self.w.sched = self.w.sched, None
            self.alones[k] = self.ctx.fork(job)
            self.w.sched = sched
        return self.alones[k]


def make_task(st, t, tag):
    """Everything a task needs is prepared before the threads start -> (fn, check, label)"""
    cfg = st.cfgs[t['c']]
    w = st.w
    if t['k'] == 'pub':
        if t['other'] is not None:
            cfg = dict(cfg, data=dict(cfg['data'], seed=t['other'], len=t['len']))
        data = scen.content(cfg['data'])
        rel = f'in/{tag}.bin'
        scen.write_input(w, rel, data)
        opts = None if t['opts'] == 'reused' else st.options(cfg, t['opts'] == 'shared')
        own = st.ctx.newdir('o-' + tag) if t['to'] == 'own' else None
        wr = {'own': lambda: scen.TreeIO.PacketDirectoryWriter(own, link_named_objects=True, signer=st.signer(cfg['sign'])),
              'dir': lambda: scen.TreeIO.PacketDirectoryWriter(st.dir, link_named_objects=True, signer=st.signer(cfg['sign'])),
              'nest': lambda: scen.TreeIO.PacketDirectoryWriter(st.nest, nested=True, signer=st.signer(cfg['sign'])),
              'dirwr': lambda: st.writer, 'mem': lambda: st.mem, 'ownmem': scen.TreeIO.PacketMemoryWriter, 'wire': scen.WireStore}[t['to']]()

        def fn():
            return scen.phash(scen.publish(cfg, wr, w, data, opts=opts or st.reuse(cfg), rel=rel))

        def objs():
            if t['to'] in ('own', 'dir', 'dirwr', 'nest'):
                return scen.objects(st.nest if t['to'] == 'nest' else own or st.dir)
            if t['to'] == 'wire':
                return wr.by_hash
            return {scen.phash(x): x.serialize().tobytes() for x in wr.packets}
        return fn, (cfg, data, objs), f'publish {tag} into {t["to"]} with {t["opts"]} options'
    c, data, rh = st.first[t['c']]
    if t['k'] in ('look', 'copy'):
        return shared_packets(st, t, tag, rh)
    wrong = t['ks'] == 'wrong'
    if t['ks'] == 'shared':
        ks = st.ks
    elif wrong:
        ks = scen.keystore(c, enc=False)
    else:
        ks = scen.keystore(c)
    src = {'dir': lambda: scen.TreeIO.PacketDirectoryReader(st.dir), 'reader': lambda: st.reader,
           'mem': lambda: st.mem, 'packets': lambda: scen.TreeIO.PacketMemoryReader(list(st.mem.packets))}[t['src']]()
    sink = Broken() if t['sink'] else scen.Sink()
    trav = scen.Traversal(packet_input=src, data_writer=sink, keystore=ks, build_graph=t['graph'])
    name = scen.mkname(c['name'])
    h = scen.hashvalue(rh)

    def fn():
        for _ in range(2 if t['twice'] else 1):
            trav.traverse(root_name=name, hash_restriction=h)
        return None
    return fn, (c, data, sink, trav, wrong and c['enc'] is not None), f'read {tag} from {t["src"]} with {t["ks"]} keys'


def looked_at(packet, manifest):
    """What a program sees in a packet and its manifest, through every way to look at them."""
    seen = [packet.serialize().tobytes(), packet.content_object_hash().serialize().tobytes(), bytes(iter(packet.content_object_hash())), len(packet), repr(packet)]
    if manifest is not None:
        seen.append([(x.nc_id, x.segment_id, scen.hv(x.hash_value), bytes(iter(x.hash_value))) for x in manifest.hash_values()])
        seen.append([[scen.hv(y) for y in g.pointers()] for g in manifest.node().hash_groups()])
        seen.append([[(scen.hv(y), scen.hv(z)) for y in g.pointers() for z in g.pointers()] for g in manifest.node().hash_groups() if len(list(g.pointers())) < 5])
        seen.append(manifest.serialize().tobytes())
    return seen


def shared_packets(st, t, tag, rh):
    """Packet objects that other tasks use at the same time are looked at, or stored once more elsewhere."""
    rng = random.Random(t['seed'])
    mine = st.packets_of(rh)
    if t['k'] == 'look':
        few = [x for x in mine if x[1] is not None][:3] + rng.sample(mine, min(3, len(mine)))
        want = [st.looked[scen.phash(p)] for p, _ in few]

        def fn():
            for (p, m), x in zip(few, want):
                if looked_at(p, m) != x:
                    return 'a packet or manifest looks different'
            return None
        return fn, (None,), f'look {tag}'
    own = st.ctx.newdir('c-' + tag)
    wr = {'own': lambda: scen.TreeIO.PacketDirectoryWriter(own), 'nest': lambda: scen.TreeIO.PacketDirectoryWriter(own, nested=True), 'wire': scen.WireStore,
          'ownmem': scen.TreeIO.PacketMemoryWriter}[t['to']]()

    def fn():
        for p, _ in mine:
            wr.put(p)
        return None

    def objs():
        return scen.objects(own) if t['to'] in ('own', 'nest') else wr.by_hash if t['to'] == 'wire' else {scen.phash(x): x.serialize().tobytes() for x in wr.packets}
    return fn, (objs, {scen.phash(p): st.looked[scen.phash(p)][0] for p, _ in mine}), f'copy {tag} to {t["to"]}'


def execute(plan, ctx, out):
    w = ctx.world(plan)
    with seams.activate(w):
        st = State(ctx, w, plan)
        before = {}
        switches = conc = 0
        pubs = []

        def judge(t, chk, label, err, res, faulted):
            w.log(label, type(err).__name__, res)
            if t['k'] == 'pub':
                cfg, data, objs = chk
                if err is not None:
                    if not faulted:
                        out.violate(f'publish-failed:{type(err).__name__}:{ctx.where(err)}', f'{label}: {err}')
                    return
                pubs.append((label, cfg, data, objs, res))
                return
            if t['k'] in ('look', 'copy'):
                if err is not None:
                    out.violate(f'{t["k"]}-failed:{type(err).__name__}:{ctx.where(err)}', f'{label}: {err}')
                elif t['k'] == 'look' and res is not None:
                    out.violate('look-differs', f'{label}: {res}')
                elif t['k'] == 'copy' and chk[0]() != chk[1]:
                    out.violate('copy-differs', f'{label}: other objects are stored')
                out.count(t['k'])
                return
            cfg, data, sink, trav, wrong = chk
            got = sink.value()
            want = data + data if t['twice'] else data
            if wrong:
                if err is None or got:
                    out.violate('read-without-key', f'{label}: {len(got)} bytes, {err}')
                return
            if t['sink'] and isinstance(err, OSError):
                if not want.startswith(got):
                    out.violate('read-differs', f'{label}: delivered other bytes before the sink failed')
                return
            if err is not None:
                out.violate(f'read-failed:{type(err).__name__}:{ctx.where(err)}', f'{label}: {err}')
            elif got != want:
                out.violate('read-differs', f'{label}: {len(got)} bytes of {len(want)}, first difference at '
                                            f'{next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))}')
            else:
                rd[0] += 1
                n = objcount[t['c']] * (2 if t['twice'] else 1)
                if trav.count() != n:
                    out.violate('visit-count', f'{label}: visited {trav.count()} objects of {n}')
        rd = [0]
        objcount = []
        # what every reader needs is published first, into the shared directory and the shared memory
        try:
            for k, cfg in enumerate(st.cfgs):
                data = scen.content(cfg['data'])
                opts = st.reuse(cfg) if plan['reused'] else st.options(cfg, True)
                pr = w.new_proc(f'first{k}', seed=50 + k, pid=1000)
                w.set_proc(pr)
                n0 = len(st.mem.packets)
                root = scen.publish(cfg, st.mem, w, data, opts=opts, rel=f'in/first{k}.bin')
                wr = scen.TreeIO.PacketDirectoryWriter(st.dir, link_named_objects=True, signer=st.signer(cfg['sign']))
                for p in st.mem.packets[n0:]:
                    wr.put(p)
                rh = scen.phash(root)
                st.first.append((cfg, data, rh))
                r = rc.walk(scen.objects(st.dir).get, rh, scen.ref_keys(cfg))
                objcount.append(len(r.reqs) + 1)
                w.set_proc(None)
        except Exception as e:  # noqa
            w.set_proc(None)
            out.violate(f'publish-failed:{type(e).__name__}:{ctx.where(e)}', f'first publishes: {e}')
            out.absorb(w)
            return
        for k, (cfg, data, rh) in enumerate(st.first):
            pubs.append((f'first publish {k}', cfg, data, lambda: scen.objects(st.dir), rh))
        st.look()
        for p in st.mem.packets:
            before[scen.phash(p)] = p.serialize().tobytes()
        for pi, ph in enumerate(plan['phases']):
            tasks = []
            for ti, t in enumerate(ph['tasks']):
                fn, chk, label = make_task(st, t, f'{pi}-{ti}')
                pr = w.new_proc(f't{pi}-{ti}', seed=100 + 10 * pi + ti, pid=1000,
                                faults=[dict(t['fault'], at=abs(t['fault']['at']) % 60)] if t['fault'] else None)
                tasks.append((t, fn, chk, label, pr))
            if ph['conc'] and len(tasks) > 1:
                s = Sched(w, ph['sched'])
                for t, fn, chk, label, pr in tasks:
                    s.add(label, fn, pr)
                with Preempt(s, ctx.ccnpy_dir):
                    s.run()
                switches += s.switches
                conc += 1
                done = [(x.result, x.error) for x in s.tasks]
            else:
                done = []
                for t, fn, chk, label, pr in tasks:
                    w.set_proc(pr)
                    try:
                        done.append((fn(), None))
                    except Exception as e:  # noqa
                        done.append((None, e))
                    w.set_proc(None)
            for (t, fn, chk, label, pr), (res, err) in zip(tasks, done):
                if isinstance(err, seams.SimHang):
                    raise err
                judge(t, chk, label, err, res, bool(t['fault']))
        # every publish gave what it gives alone, and nothing that came later changed it
        for label, cfg, data, objs, rh in pubs:
            o = objs()
            try:
                res, _ = c16.check(cfg, data, rh, o, lambda kind, msg: out.violate('metadata:' + kind, f'{label}: {msg}'))
            except (rc.Bad, rc.NoKey, rc.Tamper, KeyError) as e:
                out.violate('unreadable', f'{label}: {type(e).__name__} {e}')
                continue
            if res.bytes() != data:
                out.violate('content-differs', f'{label}: {len(res.bytes())} bytes of {len(data)}')
                continue
            v = rc.check_validation(res.root, [scen.KEYS[cfg['sign']].pub] if cfg['sign'] and cfg['sign'] != 'crc' else [])
            if v != ('ok' if cfg['sign'] else None):
                out.violate('signature', f'{label}: signer {cfg["sign"]}, verification says {v}')
            if any(m['plain'] for m in res.manifests) if cfg['enc'] else not all(m['plain'] for m in res.manifests):
                out.violate('encryption', f'{label}: manifests are not encrypted as the options say')
            if max((len(x['obj'].raw) for x in res.manifests[1:]), default=0) > cfg['size'] or max(len(x.raw) for x in res.data) > cfg['size']:
                out.violate('size', f'{label}: an object is larger than {cfg["size"]}')
            al = st.alone(cfg, data)
            if isinstance(al, list) and [x.hash.hex() for x in res.data] != al:
                out.violate('data-objects-differ', f'{label}: other data objects than alone')
            out.count('publishes')
            try:
                got, _ = scen.read(MapReader(o), cfg, rh)
                if got != data:
                    out.violate('content-differs', f'{label}: read again {len(got)} bytes of {len(data)}')
            except Exception as e:  # noqa
                out.violate(f'read-failed:{type(e).__name__}:{ctx.where(e)}', f'{label}, read alone afterwards: {e}')
        now = {scen.phash(p): p.serialize().tobytes() for p in st.mem.packets}
        for h, b in before.items():
            if now.get(h) != b:
                out.violate('packet-changed', f'a packet object in memory changed after it was published')
                break
        junk = [f for f in list(scen.dir_files(st.dir)) + [os.path.basename(x) for x in scen.dir_files(st.nest)] if not scen.HASHNAME.match(f) and not f.endswith('.link')]
        if junk:
            out.violate('left-over', f'{len(junk)} other files are left in the directory, e.g. {junk[0]!r}'[:100].replace(str(os.getpid()), '@'))
    out.absorb(w)
    out.count('reads', rd[0])
    out.count('switches', switches)
    out.count('concurrent_phases', conc)
    out.state = hashlib.sha256(b''.join(p[4] or b'' for p in pubs)).hexdigest()[:16]
    out.nontrivial = switches > 1 and (rd[0] > 0 or len(pubs) > len(plan['cfgs']))


class MapReader(scen.PacketReader):
    def __init__(self, objs):
        self.objs = objs

    def get(self, name, hash_restriction, forwarding_hints=None):
        import array
        return scen.Packet.deserialize(array.array('B', self.objs[scen.hv(hash_restriction)]))

    def close(self):
        pass
