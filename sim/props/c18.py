"""C18: collections can be composed under one parent."""
import array
import hashlib
import os
import random
import re

import refcodec as rc
import scen
import seams
from sched import Preempt, Sched

from ccnpy.core.ContentObject import ContentObject
from ccnpy.core.Name import Name, NameComponent
from ccnpy.core.Payload import Payload
from ccnpy.flic.ManifestFactory import ManifestFactory
from ccnpy.flic.tlvs.GroupData import GroupData
from ccnpy.flic.tlvs.HashGroup import HashGroup
from ccnpy.flic.tlvs.Manifest import Manifest
from ccnpy.flic.tlvs.NcDef import NcDef
from ccnpy.flic.tlvs.NcId import NcId
from ccnpy.flic.tlvs.NcSchema import HashSchema, PrefixSchema, SegmentedSchema
from ccnpy.flic.tlvs.Node import Node
from ccnpy.flic.tlvs.NodeData import NodeData
from ccnpy.flic.tlvs.Pointers import Pointers
from ccnpy.flic.tlvs.StartSegmentId import StartSegmentId
from ccnpy.flic.tlvs.SubtreeSize import SubtreeSize

CHUNK, MID = 5, 16

# nameless data objects with these payloads have hashes that are equal in their first five bytes
ALIKE = [(1038112, 1235153), (11305, 1682172), (453143, 2161725), (2071912, 2292757), (2222909, 2512919), (2723734, 2919665), (2870132, 3044086)]


# --------------------------------------------------------------------------------------------------- plans

def gen_def(rng, kind):
    s = rng.choice(['Hashed', 'Prefix', 'Segmented', 'Segmented'])
    d = {'schema': s, 'name': None, 'loc': None, 'suffix': None}
    if s == 'Hashed':
        d['loc'] = scen.gen_name(rng, odd=.08)
    else:
        d['name'] = rng.choice(['ccnx:/lib', 'ccnx:/lib/x', scen.gen_name(rng, odd=.08), scen.gen_name(rng, odd=.08)])
        if s == 'Segmented':
            d['suffix'] = rng.choice([CHUNK, MID, CHUNK if kind == 'data' else MID])
    return d


def gen_node(rng, ncol, cfgs, nenc, depth, budget, adopted, named):
    """A composed manifest.  adopted: the collection whose name constructors an ancestor defines."""
    n = {'enc': rng.randrange(nenc) if nenc and rng.random() < .35 else None, 'adopt': None, 'groups': [], 'size': rng.random() < .4,
         'how': rng.choice(['node', 'node', 'node', 'list', 'group', 'pointers', 'direct', 'content']), 'pad': rng.choice([None, None, None, 0, 3, 4, 5, 100, 1000]),
         'seed': rng.randrange(1 << 30)}
    if adopted is None and rng.random() < .35:
        ok = [k for k, c in enumerate(cfgs) if not (c['enc'] and c['enc'].get('wrap'))]
        if ok:
            n['adopt'] = adopted = rng.choice(ok)
    for _ in range(rng.choice([1, 2, 2, 3, 3, 4, 6])):
        r = rng.random()
        if r < .4 or budget[0] <= 0:
            n['groups'].append({'t': 'root', 'c': rng.randrange(ncol), 'n': rng.choice([1, 1, 1, 2])})
        elif r < .6:
            n['groups'].append({'t': 'data', 'def': gen_def(rng, 'data'), 'inherit': rng.random() < .4, 'start': rng.choice([0, 1, 254, 255, 65535, 1 << 24, rng.randrange(1 << 40)]),
                                'items': [[rng.randrange(1 << 30), rng.choice([0, 1, 5, 300])] for _ in range(rng.choice([1, 1, 2, 3]))], 'nameless': rng.random() < .1})
            if rng.random() < .12:
                # two objects whose hashes begin alike
                n['groups'][-1].update(nameless=True, items=[[x, 'alike'] for x in rng.choice(ALIKE)])
        elif r < .75 and adopted is not None:
            n['groups'].append({'t': 'inner', 'c': adopted})
        elif depth > 0:
            k = rng.choice([1, 1, 2, 3])
            budget[0] -= k
            n['groups'].append({'t': 'sub', 'def': gen_def(rng, 'sub'), 'inherit': rng.random() < .4, 'start': rng.choice([0, 1, 255, 300, rng.randrange(1 << 34)]),
                                'nameless': rng.random() < .1,
                                'items': [gen_node(rng, ncol, cfgs, nenc, depth - 1, budget, adopted if rng.random() < .8 else None, False) for _ in range(k)]})
        else:
            n['groups'].append({'t': 'root', 'c': rng.randrange(ncol), 'n': 1})
    return n


def gen(rng, tier, i, ctx):
    cfgs = []
    for k in range(rng.choice([1, 2, 2, 3, 4, 5])):
        c = scen.gen_cfg(rng, max_chunks=rng.choice([3, 8, 20]), enc=.4, sign=.4, src=False, tag=f's{k}')
        if rng.random() < .3 and cfgs:
            # prefixes of another collection: equal names for other objects
            for x in ('schema', 'mpre', 'dpre', 'mloc', 'dloc'):
                c[x] = cfgs[-1][x]
            c['size'] = max(c['size'], scen.manifest_overhead(c) + 110, scen.root_overhead(c))
        cfgs.append(c)
    encs = []
    for _ in range(rng.choice([0, 1, 2])):
        encs.append(scen.gen_enc(rng))
    # the pre-shared keys of one reader have their own numbers; a wrapped key may have any
    used = {}
    for e in [c['enc'] for c in cfgs] + encs:
        if e and 'num' in e and not e.get('wrap'):
            key = (e['key'], e['bits'], e['kind'], e['salt'])
            while used.setdefault(e['num'], key) != key:
                e['num'] = (e['num'] + 1) % (1 << 48)
    if used and rng.random() < .5:
        for e in [c['enc'] for c in cfgs] + encs:
            if e and 'num' in e and e.get('wrap'):
                e['num'] = sorted(used)[0]
    tops = []
    for _ in range(rng.choice([1, 1, 2])):
        budget = [rng.choice([2, 4, 8])]
        t = gen_node(rng, len(cfgs), cfgs, len(encs), rng.choice([1, 2, 2, 3, 4]), budget, None, True)
        t['name'] = scen.gen_name(rng, tag='top', odd=.08)
        t['sign'] = rng.choice([None, 'crc', 'k1024_1', 'k2048_1', 'k2048_2'])
        if t['sign'] and rng.random() < .3:
            # the options are those of other work
            t['optsign'] = rng.choice(['none', 'crc', 'k1024_1', 'k2048_1'])
        tops.append(t)
    phases = []
    for _ in range(rng.choice([2, 3, 4])):
        reads = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            reads.append({'t': rng.randrange(len(tops)), 'col': rng.randrange(len(cfgs)) if rng.random() < .15 else None,
                          'src': rng.choice(['strict', 'strict', 'strict', 'dir', 'mem']), 'reuse': rng.random() < .4, 'graph': rng.random() < .15,
                          'byname': rng.random() < .3, 'faults': [[rng.randrange(0, 90), rng.choice(['error', 'none', 'wrong', 'sink'])]] if rng.random() < .3 else []})
        conc = len(reads) > 1 and rng.random() < .6
        phases.append({'reads': reads, 'conc': conc, 'sched': {'mode': 'rand', 'seed': rng.randrange(1 << 30), 'p': rng.choice([.001, .005, .02, .1])}})
    return {'cfgs': cfgs, 'encs': encs, 'tops': tops, 'phases': phases, 'procs': rng.choice(['fresh', 'fresh', 'fresh', 'one'])}


# --------------------------------------------------------------------------------------------------- composing

def mkname(comps):
    return None if comps is None else Name([NameComponent(t, array.array('B', v)) for t, v in comps])


def mkdef(ncid, d):
    """d: {'schema', 'name' (comps), 'loc' (uri), 'suffix'}"""
    if d['schema'] == 'Hashed':
        s = HashSchema(locators=scen.Locators.from_name(mkname(d['loc'])) if isinstance(d['loc'], tuple) else scen.mklocators(d['loc']))
    elif d['schema'] == 'Prefix':
        s = PrefixSchema(name=mkname(d['name']))
    else:
        s = (SegmentedSchema.create_for_manifest if d['suffix'] == MID else SegmentedSchema.create_for_data)(name=mkname(d['name']))
    return NcDef(NcId(ncid), s)


class Comp:
    """Builds the composed manifests of a plan out of published collections."""

    def __init__(self, plan, roots, objs, datas):
        self.plan, self.roots, self.objs, self.datas = plan, roots, objs, datas
        self.encs = [scen.encryptor(e) for e in plan['encs']]
        self.packets = []
        self.inner = {}
        self.missigned = None
        self.hows = {}
        self.total = 0
        self.collisions = 0
        self.depth = 0

    def root_node(self, c):
        """(defs, groups) of a collection's root as the reference codec sees them."""
        if c not in self.inner:
            o = rc.parse_packet(self.objs[self.roots[c]])
            node, _, _ = rc.open_manifest(o, scen.ref_keys(self.plan['cfgs'][c]))
            self.inner[c] = node
        return self.inner[c]

    def put(self, packet):
        self.packets.append(packet)
        b = packet.serialize().tobytes()
        self.objs[rc.parse_packet(b).hash] = b
        return rc.parse_packet(b).hash

    def build(self, n, scope, name, depth, sign=None, optsign=None):
        """-> (hash, content) of the composed manifest n; scope: the definitions of its ancestors"""
        rng = random.Random(n['seed'])
        self.depth = max(self.depth, depth)
        defs, taken = {}, set()
        if n['adopt'] is not None:
            for d in self.root_node(n['adopt'])['ncdefs']:
                loc = None if not d['locators'] else stored_locator(d['locators'])
                defs[d['ncid']] = {'schema': d['schema'], 'name': d['name'], 'loc': loc, 'suffix': d['suffix']}
        pool = [x for x in range(1, 30) if x not in defs]
        keep = {x for x, o in scope.items() if o.get('adopted')}
        head = [x for x in pool if x not in keep][:6]
        # ids of a process that has published much are large, and may look alike when cut short
        head = [x if rng.random() < .8 else x + rng.choice([32, 128, 256, 65536, 1 << 32, 256 * rng.randrange(1, 1000)]) for x in head]
        rng.shuffle(head)
        pool = [x for x in head if x not in defs and x not in keep] + [x for x in range(30, 60)]
        own = []
        for g in n['groups']:
            if g['t'] == 'inner':
                own.append(None)
                continue
            if g['t'] == 'root':
                cfg = self.plan['cfgs'][g['c']]
                d = {'schema': 'Prefix', 'name': scen.comps(scen.mkname(cfg['name'])), 'loc': None, 'suffix': None}
            else:
                d = dict(g['def'], name=g['def']['name'] and scen.comps(scen.mkname(g['def']['name'])))
                if g['inherit']:
                    usable = sorted(x for x, o in scope.items() if x not in defs)
                    if usable:
                        own.append((rng.choice(usable), None))
                        continue
            same = [x for x in defs if defs[x] == d]
            if same and rng.random() < .7:
                own.append((same[0], d))
                continue
            ncid = pool.pop(0)
            defs[ncid] = d
            own.append((ncid, d))
        # a group that inherits must not find its definition replaced by a later group of this node
        for k, g in enumerate(own):
            if g is not None and g[1] is None and g[0] in defs:
                own[k] = (g[0], defs[g[0]])
        self.collisions += len([x for x in defs if x in scope])
        adopted = set()
        if n['adopt'] is not None:
            adopted = {d['ncid'] for d in self.root_node(n['adopt'])['ncdefs']}
        inner_scope = dict(scope)
        for x, d in defs.items():
            inner_scope[x] = dict(d, adopted=x in adopted)
        hgs, content = [], []
        for g, o in zip(n['groups'], own):
            if g['t'] == 'inner':
                node = self.root_node(g['c'])
                if any(x['ncid'] not in inner_scope or not inner_scope[x['ncid']].get('adopted') for x in node['groups']):
                    continue
                for x in node['groups']:
                    hgs.append(self.group(x['ncid'], x['start'], x['ptrs']))
                content.append(self.datas[g['c']])
                continue
            ncid, d = o
            d = inner_scope[ncid] if d is None else d
            if g['t'] == 'root':
                hgs.append(self.group(ncid, None, [self.roots[g['c']]] * g['n']))
                content += [self.datas[g['c']]] * g['n']
                continue
            start = g['start'] if d['schema'] == 'Segmented' else (g['start'] if rng.random() < .2 else None)
            ptrs = []
            for k, item in enumerate(g['items']):
                nm = mkname(None if g['nameless'] else rc.request_name(d, g['start'] + k))
                if g['t'] == 'data':
                    b = b'collide-%08d' % item[0] if item[1] == 'alike' else random.Random(item[0]).randbytes(item[1])
                    ptrs.append(self.put(scen.Packet.create_content_object(ContentObject.create_data(name=nm, payload=Payload(array.array('B', b))))))
                    content.append(b)
                else:
                    h, b = self.build(item, inner_scope, nm, depth + 1)
                    ptrs.append(h)
                    content.append(b)
            hgs.append(self.group(ncid, start, ptrs))
        if not hgs:
            c = 0
            nm = scen.comps(scen.mkname(self.plan['cfgs'][c]['name']))
            defs[61] = {'schema': 'Prefix', 'name': nm, 'loc': None, 'suffix': None}
            hgs.append(self.group(61, None, [self.roots[c]]))
            content.append(self.datas[c])
        data = b''.join(content)
        order = list(defs)
        rng.shuffle(order)
        nd = None
        if defs or n['size']:
            nd = NodeData(subtree_size=SubtreeSize(len(data)) if n['size'] else None, nc_defs=[mkdef(x, defs[x]) for x in order] or None)
        enc = self.encs[n['enc']] if n['enc'] is not None else None
        opts = scen.ManifestTreeOptions(name=name, schema_type=scen.SchemaType.HASHED, signer=scen.signer(None if optsign == 'none' else optsign or sign),
                                        manifest_encryptor=enc, max_packet_size=60000)
        p = self.packet(n, opts, nd, hgs, len(data), name, sign, enc)
        h = self.put(p)
        o = rc.parse_packet(self.objs[h])
        if sign is None or sign == 'crc':
            ok = (o.valg or {}).get('alg') == (sign and 'crc32c')
        else:
            ok = rc.check_validation(o, [scen.KEYS[sign].pub]) == 'ok' and o.valg['alg'] == 'rsa'
        if not ok:
            self.missigned = f'signer {sign}, validation {o.valg}'
        return h, data

    def packet(self, n, opts, nd, hgs, size, name, sign, enc):
        """The ways the library offers to make one manifest."""
        how = n.get('how', 'node')
        self.hows[how] = self.hows.get(how, 0) + 1
        defs = None if nd is None else nd.nc_defs()
        more = {'name': name, 'signer': scen.signer(sign), 'include_full_security_context': True}
        if how in ('list', 'group', 'pointers'):
            opts.add_node_subtree_size = n['size']
            src = hgs
            if len(hgs) == 1 and how != 'list':
                src = hgs[0]
                if how == 'pointers':
                    gd = src.group_data()
                    src = src.pointers()
                    more.update(nc_id=gd.nc_id(), start_segment_id=gd.start_segment_id())
            return ManifestFactory(opts).build_packet(src, nc_defs=defs, node_subtree_size=size, **more)
        node = Node(node_data=nd, hash_groups=hgs)
        if n.get('pad') is not None:
            node = Node(node_data=nd, hash_groups=hgs, pad_length=len(node) + n['pad'])
        if how in ('direct', 'content') and sign is None:
            if enc is None:
                m = Manifest(node=node)
            else:
                ctx, body, tag = enc.encrypt(node=node, include_wrapper=True)
                m = Manifest(security_ctx=ctx, node=body, auth_tag=tag)
            if how == 'direct':
                return m.packet(name=name)
            return scen.Packet.create_content_object(ContentObject.create_manifest(m, name=name))
        return ManifestFactory(opts).build_packet(node, **more)

    @staticmethod
    def group(ncid, start, ptrs):
        gd = GroupData(nc_id=NcId(ncid), start_segment_id=None if start is None else StartSegmentId(start))
        return HashGroup(group_data=gd, pointers=Pointers([scen.hashvalue(p) for p in ptrs]))


def stored_locator(locs):
    return rc.parse_name(locs[0][4:4 + int.from_bytes(locs[0][2:4], 'big')])


# --------------------------------------------------------------------------------------------------- reading

class Recorder(scen.PacketReader):
    """Answers like a network: by hash, and only when the name asked for is the object's."""

    def __init__(self, objs, under=None):
        self.objs, self.under = objs, under
        self.log = []
        self.faults = {}
        self.named = {}

    def get(self, name, hash_restriction, forwarding_hints=None):
        k = len(self.log)
        h = None if hash_restriction is None else scen.hv(hash_restriction)
        nm = scen.comps(name)
        self.log.append((nm, h))
        f = self.faults.get(k)
        if f == 'error':
            raise OSError('no answer')
        if f == 'none':
            return None
        if f == 'wrong':
            o = sorted(x for x in self.objs if x != h)
            return scen.Packet.deserialize(array.array('B', self.objs[o[k % len(o)]]))
        if self.under is not None:
            return self.under.get(name, hash_restriction)
        if h is None:
            h = self.named[nm]
        b = self.objs[h]
        o = rc.parse_packet(b)
        if o.name is not None and o.name != nm:
            raise KeyError(f'nothing named {rc.uri(nm)} has the hash {h.hex()[:12]} of {rc.uri(o.name)}')
        return scen.Packet.deserialize(array.array('B', b))

    def close(self):
        pass


class Sink(scen.Sink):
    limit = None

    def write(self, data):
        if self.limit is not None and len(self.parts) >= self.limit:
            raise OSError('the sink is full')
        return super().write(data)


def collection(ctx, w, k, cfg, fresh, out):
    """Publish one collection in a process of its own -> {hash: bytes}, root hash"""
    data = scen.content(cfg['data'])
    graph = scen.ManifestGraph() if cfg.get('api') == 'graph' else None
    dot = os.path.join(ctx.scratch, f'pub{k}.dot')

    def job():
        st = scen.WireStore()
        p = w.new_proc(f'pub{k}', seed=60 + k, pid=1000 + k)
        w.set_proc(p)
        root = scen.publish(cfg, st, w, data, rel=f'in/f{k}.bin', graph=graph)
        if graph is not None:
            graph.save(dot)
        w.set_proc(None)
        return {'root': scen.phash(root).hex(), 'objs': {h.hex(): b.hex() for h, b in st.order}}
    r = ctx.fork(job) if fresh else job()
    if 'root' not in r:
        raise RuntimeError(str(r)[:300])
    root, objs = bytes.fromhex(r['root']), {bytes.fromhex(h): bytes.fromhex(b) for h, b in r['objs'].items()}
    if graph is not None:
        bad = graph_differs(open(dot, encoding='utf-8').read(), *shape(rc.walk(objs.get, root, scen.ref_keys(cfg), check_names=False)))
        if bad:
            out.violate('publish-graph-differs', f'collection {k}: {bad}')
        out.count('graphs')
    return data, root, objs


def shape(res):
    """The objects and pointers of a tree."""
    return ({m['obj'].hash.hex() for m in res.manifests} | {o.hash.hex() for o in res.data},
            {(m['obj'].hash.hex(), p.hex()) for m in res.manifests for g in m['node']['groups'] for p in g['ptrs']})


def graph_differs(text, nodes, edges):
    """What is wrong with the graph (a DOT file), whatever number of digits it shows of each hash, as long as they tell the objects apart."""
    short = {}
    for n in nodes:
        for k in range(4, 65):
            short.setdefault(n[:k], set()).add(n)
    shown, arcs = set(), set()
    for line in text.splitlines():
        m = re.match(r'\s*"?(?:0x)?([0-9a-f]+)"?(?:\s*->\s*"?(?:0x)?([0-9a-f]+)"?)?\s*(?:\[|;|$)', line)
        if m is None:
            continue
        a, b = m.group(1), m.group(2)
        if a not in short or b is not None and b not in short:
            return f'{m.group(0)!r} is no object of the tree'
        if len(short[a]) > 1 or b is not None and len(short[b]) > 1:
            return f'{m.group(0)!r} may be one object or another'
        if b is None:
            shown |= short[a]
        else:
            arcs |= {(x, y) for x in short[a] for y in short[b]}
    if shown != nodes:
        return f'{len(nodes - shown)} of {len(nodes)} objects are missing'
    if edges - arcs:
        return f'{len(edges - arcs)} of {len(edges)} pointers are missing'
    return None


def run_phases(plan, ctx, w, out, objs, tops, cols, ks, rkeys, excuse=None):
    """The reads of a plan's phases, judged by the reference reader.  tops, cols: (name, root hash, content)."""
    targets, shapes = {}, {}

    def expect(name, h, content):
        """What the reference reader delivers and requests."""
        if h not in targets:
            try:
                res = rc.walk(objs.get, h, rkeys, check_names=False)
            except (rc.Bad, rc.NoKey, rc.Tamper, KeyError) as e:
                out.violate(f'composed-unreadable:{type(e).__name__}', f'{name}: the reference reader fails: {e!r}')
                targets[h] = None
                return None
            if res.bytes() != content:
                out.violate('composed-differs', f'{name}: the reference reader delivers {len(res.bytes())} bytes of {len(content)}')
            targets[h] = [(x, p) for x, p, _ in res.reqs]
            shapes[h] = shape(res)
        return targets[h]
    store = d = None
    trav = {}
    fresh = set()       # readers that read one thing
    switches = good = refused = 0

    def prepare(r, tag):
        nonlocal store, d
        if r['col'] is None:
            name, h, content = tops[r['t']]
        else:
            name, h, content = cols[r['col']]
        reqs = expect(name, h, content)
        under = None
        if r['src'] == 'mem':
            if store is None:
                store = scen.TreeIO.PacketMemoryReader([scen.Packet.deserialize(array.array('B', b)) for b in objs.values()])
            under = store
        elif r['src'] == 'dir':
            if d is None:
                d = ctx.newdir('d')
                wr = scen.TreeIO.PacketDirectoryWriter(d, link_named_objects=False)
                for b in objs.values():
                    wr.put(scen.Packet.deserialize(array.array('B', b)))
                kept = scen.objects(d)
                bad = [x for x, b in objs.items() if kept.get(x) != b]
                if bad:
                    out.violate('stored-differently', f'{len(bad)} objects are stored as other bytes than they were received, e.g. {bad[0].hex()[:8]}')
            under = scen.TreeIO.PacketDirectoryReader(d)
        return name, h, content, reqs, under
    for pi, ph in enumerate(plan['phases']):
        jobs = []
        for ri, r in enumerate(ph['reads']):
            name, h, content, reqs, under = prepare(r, f'{pi}-{ri}')
            if reqs is None:
                continue
            key = r['src']
            if r['reuse'] and not ph['conc'] and key in trav:
                rec, sink, tr = trav[key]
                fresh.discard(id(tr))
            else:
                rec, sink = Recorder(objs, under), Sink()
                tr = scen.Traversal(packet_input=rec, data_writer=sink, keystore=ks, build_graph=r['graph'])
                trav[key] = (rec, sink, tr)
                fresh.add(id(tr))
            jobs.append((r, name, h, content, reqs, rec, sink, tr))

        def run(job, faults):
            r, name, h, content, reqs, rec, sink, tr = job
            rec.log, sink.parts, sink.limit = [], [], None
            rec.faults = {}
            for at, kind in faults:
                if kind == 'sink':
                    sink.limit = at
                else:
                    rec.faults[at % (len(reqs) + 1)] = kind
            byname = r['byname'] and r['src'] == 'strict'
            if byname:
                rec.named[scen.comps(scen.mkname(name))] = h
                # a plain answer without a hash to compare with cannot be told from a wrong one
                if rec.faults.get(0) == 'wrong':
                    rec.faults[0] = 'error'
            tr.traverse(root_name=scen.mkname(name), hash_restriction=None if byname else scen.hashvalue(h))

        def judge(job, err, faults, label):
            nonlocal good, refused
            r, name, h, content, reqs, rec, sink, tr = job
            got = sink.value()
            w.log(label, type(err).__name__, len(got), len(rec.log))
            hit = (bool(rec.faults) or sink.limit is not None) and err is not None and faults
            if hit:
                refused += 1
                if not content.startswith(got):
                    out.violate('wrong-prefix', f'{label}: delivered {len(got)} bytes that do not begin the content')
                for _, kind in faults:
                    out.fired[f'get_{kind}'] = out.fired.get(f'get_{kind}', 0) + 1
                return True
            if err is not None and excuse is not None and excuse(h, err, got, content):
                return True
            if err is not None:
                out.violate(f'read-failed:{type(err).__name__}:{ctx.where(err)}', f'{label}: {err}')
                return False
            if got != content:
                out.violate('content-differs', f'{label}: {len(got)} bytes of {len(content)}')
            want = [(scen.comps(scen.mkname(name)), rec.log[0][1] if rec.log else None)] + reqs
            if rec.log != want:
                k = next((k for k, (a, b) in enumerate(zip(rec.log, want)) if a != b), min(len(want), len(rec.log)))
                a = rec.log[k] if k < len(rec.log) else None
                b = want[k] if k < len(want) else None
                out.violate('requests-differ', f'{label}: request {k} of {len(want)} was {a and (a[0] and rc.uri(a[0]), a[1] and a[1].hex()[:8])}, '
                                               f'not {b and (b[0] and rc.uri(b[0]), b[1] and b[1].hex()[:8])}')
            if r['graph'] and id(tr) in fresh:
                dot = os.path.join(ctx.scratch, 'g.dot')
                tr.get_graph().save(dot)
                bad = graph_differs(open(dot, encoding='utf-8').read(), *shapes[h])
                if bad:
                    out.violate('graph-differs', f'{label}: {bad}')
                out.count('graphs')
            good += 1
            return False
        if ph['conc'] and jobs:
            s = Sched(w, ph['sched'])
            for k, job in enumerate(jobs):
                s.add(f'r{pi}-{k}', lambda job=job: run(job, job[0]['faults']), w.new_proc(f'r{pi}-{k}', seed=200 + 10 * pi + k))
            with Preempt(s, ctx.ccnpy_dir):
                s.run()
            switches += s.switches
            errs = [x.error for x in s.tasks]
            for job, err in zip(jobs, errs):
                if isinstance(err, seams.SimHang):
                    raise err
                judge(job, err, job[0]['faults'], f'concurrent read {pi} of {job[1]} from {job[0]["src"]}')
            continue
        for k, job in enumerate(jobs):
            w.set_proc(w.new_proc(f'r{pi}-{k}', seed=200 + 10 * pi + k))
            for faults in (job[0]['faults'], []):
                err = None
                try:
                    run(job, faults)
                except Exception as e:  # noqa
                    err = e
                if not judge(job, err, faults, f'read {pi}.{k} of {job[1]} from {job[0]["src"]}' + (' after a failed one' if job[0]['faults'] and not faults else '')):
                    break
            w.set_proc(None)
    return good, refused, switches, targets


def execute(plan, ctx, out):
    w = ctx.world(plan)
    cfgs = plan['cfgs']
    with seams.activate(w):
        objs, roots, datas = {}, [], []
        for k, cfg in enumerate(cfgs):
            data, rh, o = collection(ctx, w, k, cfg, plan['procs'] == 'fresh', out)
            w.log(rh)
            datas.append(data)
            roots.append(rh)
            objs.update(o)
        comp = Comp(plan, roots, objs, datas)
        w.set_proc(w.new_proc('compose', seed=90))
        tops = []
        for t in plan['tops']:
            h, content = comp.build(t, {}, scen.mkname(t['name']), 1, sign=t['sign'], optsign=t.get('optsign'))
            if comp.missigned:
                out.violate('composed-signature', comp.missigned)
            tops.append((t['name'], h, content))
            w.log(h)
        w.set_proc(None)
        # what a reader holds
        ks = scen.InsecureKeystore()
        rkeys = rc.Keys(pubs=[v.pub for v in scen.KEYS.values()], privs=[v.priv for v in scen.KEYS.values()])
        for n, key in scen.KEYS.items():
            ks.add_rsa_key('k-' + n, key.rsakey())
        nums = set()
        for e in [c['enc'] for c in cfgs] + plan['encs']:
            if e and not e.get('wrap') and e['num'] not in nums:
                nums.add(e['num'])
                ks.add_aes_key(scen.aead_params(e))
                rkeys.aes[e['num']] = (scen.aes_key_bytes(e), None if e['salt'] is None else e['salt'].to_bytes(4, 'big'))
        good, refused, switches, targets = run_phases(plan, ctx, w, out, objs, tops, list(zip([c['name'] for c in cfgs], roots, datas)), ks, rkeys)
    out.absorb(w)
    out.count('reads', good)
    out.count('failed_reads', refused)
    out.count('switches', switches)
    out.count('shadowed_ids', comp.collisions)
    for how, k in comp.hows.items():
        out.count('made_by_' + how, k)
    out.count('composed', len(comp.packets))
    out.count('requests', sum(len(x or ()) for x in targets.values()))
    out.state = hashlib.sha256(b''.join(t[1] for t in tops)).hexdigest()[:16]
    out.nontrivial = good > 0 and any(x and len(x) > 4 for x in targets.values()) and len(comp.packets) > 0
