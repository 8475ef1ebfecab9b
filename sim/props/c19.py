"""C19: collections interoperate with an independent implementation."""
import hashlib
import os
import random

import refcodec as rc
import scen
import seams
from props import c17, c18

from ccnpy.core.Name import Name

PROCESSES = True        # its simulated processes may have separate memories

KDFS = {'sha256': 1, 'sha384': 2, 'sha512': 3}


# --------------------------------------------------------------------------------------------------- plans

def gen_fenc(rng, k):
    """The key material of a foreign publisher."""
    e = {'bits': rng.choice([128, 256]), 'mode': rng.choice(['gcm', 'ccm']), 'key': rng.randrange(1, 1 << 30),
         'num': rng.choice([1, 9, 255, 256, 65536, rng.randrange(1, 1 << 32), rng.randrange(1, 1 << 60)]) * 8 + k,
         'wrap': rng.choice([None, None, 'k2048_1', 'k2048_2', 'k1024_1']), 'wrapall': rng.random() < .3, 'kdf': None, 'kdfinfo': None, 'kdfsalt': None,
         'salt': rng.choice([None, 0, 1, 0xFFFFFFFF, rng.getrandbits(32)])}
    if e['wrap'] and e['salt'] is None:
        e['salt'] = rng.getrandbits(32)
    if rng.random() < .12:
        e['kdf'] = rng.choice(sorted(KDFS))
        e['kdfinfo'] = rng.choice([None, 'tree', 'x' * 40])
        if not e['wrap']:
            e['kdfsalt'] = rng.choice([None, None, 5, 0xFFFFFFFF])
    return e


def gen_tree(rng, nenc, ncol, depth, budget, scope, root):
    n = {'enc': rng.randrange(nenc) if nenc and rng.random() < .4 else None, 'defs': [], 'groups': [], 'size': rng.random() < .4, 'exp': rng.choice([None, None, scen.gen_expiry(rng)]),
         'pad': rng.choice([None, None, None, 0, 1, 37]), 'vendor': rng.choice([None, None, None, 0, 5]), 'sign': rng.choice([None] * 12 + ['crc', 'k1024_1', 'k2048_2']),
         'wide': rng.choice([0, 0, 0, 0, 0, 2, 4, 8]), 'digest': rng.random() < .1, 'nvendor': rng.choice([1, 1, 2]),
         'locs': [[scen.gen_name(rng, tag='l', odd=.08), rng.random() < .3, rng.random() < .3] for _ in range(rng.choice([0, 0, 0, 0, 1, 2, 3]))]}
    scope = dict(scope)
    for _ in range(rng.choice([1, 1, 2, 3]) if root or not scope else rng.choice([0, 0, 0, 1, 2])):
        d = c18.gen_def(rng, rng.choice(['data', 'sub']))
        d['id'] = rng.choice([rng.randrange(0, 6), rng.randrange(0, 6), rng.choice([127, 128, 255, 256, 65535, 65536, 1 << 31, 1 << 32])])
        if any(x['id'] == d['id'] for x in n['defs']):
            continue
        if rng.random() < .15:
            d['restr'] = [rng.random() < .5, rng.random() < .5]
        if rng.random() < .1:
            d['flags'] = rng.choice([0, 1, 8])
        n['defs'].append(d)
        scope[d['id']] = d
    for _ in range(rng.choice([1, 1, 1, 2, 2, 3, 5])):
        if ncol and rng.random() < .12:
            n['groups'].append({'root': rng.randrange(ncol)})
            continue
        g = {'wide': rng.choice([0, 0, 0, 0, 0, 3, 8]), 'id': rng.choice(sorted(scope)), 'start': rng.choice([0, 0, 1, 254, 65534, (1 << 24) - 1, (1 << 32) - 2, rng.randrange(1 << 60)]), 'items': [],
             'leaf': rng.random() < .3, 'sub': rng.random() < .3, 'digest': rng.random() < .1, 'extra': rng.random() < .1}
        budget[1] += 1
        mix = rng.choice(['data', 'data', 'mix', 'tree'])
        for _ in range(rng.choice([1, 1, 2, 3, 4, 9]) if rng.random() < .97 else rng.choice([60, 300])):
            if depth > 0 and budget[0] > 0 and (mix == 'tree' or mix == 'mix' and rng.random() < .4) and len(g['items']) < 12:
                budget[0] -= 1
                g['items'].append({'n': gen_tree(rng, nenc, ncol, depth - 1, budget, scope, False)})
            else:
                g['items'].append({'d': [rng.randrange(1 << 30), rng.choice([0, 1, 2, 50, 300]) if rng.random() < .98 else rng.choice([9000, 60000])],
                                   'exp': rng.choice([None, None, None, 5, 1_700_000_000_123]), 'fcid': rng.random() < .1, 'ptype': rng.random() < .8,
                                   'sign': rng.choice([None] * 15 + ['crc', 'k2048_1']), 'nameless': rng.random() < .05, 'order': rng.random() < .1})
        if rng.random() < .1 and len(g['items']) > 1:
            g['again'] = rng.randrange(len(g['items']))         # one object pointed to twice
        n['groups'].append(g)
    return n


def gen(rng, tier, i, ctx):
    cfgs = []
    for k in range(rng.choice([0, 1, 1, 2, 3])):
        c = scen.gen_cfg(rng, max_chunks=rng.choice([3, 8, 25]), enc=.8, sign=.4, src=False, tag=f's{k}')
        e = c['enc']
        if e and e.get('kdf') and not e.get('wrap') and rng.random() < .5:
            e['kdfsalt'] = rng.choice([0, 1, 0x999999, 0xFFFFFFFF])
        cfgs.append(c)
    encs = [gen_fenc(rng, k) for k in range(rng.choice([0, 1, 1, 2, 3]))]
    used = {}
    for e in [c['enc'] for c in cfgs] + encs:
        if e and 'num' in e and not e.get('wrap'):
            key = (e['key'], e['bits'], e.get('mode') or e['kind'], e['salt'], e.get('kdfsalt'))
            while used.setdefault(e['num'], key) != key:
                e['num'] = (e['num'] + 8) % (1 << 48)
    tops = []
    for _ in range(rng.choice([1, 1, 2])):
        t = gen_tree(rng, len(encs), len(cfgs), rng.choice([0, 1, 2, 3, 5]), [rng.choice([2, 5, 12]), 0], {}, True)
        t['name'] = scen.gen_name(rng, tag='top', odd=.08)
        t['rsign'] = rng.choice([None, 'crc', 'k1024_1', 'k2048_1', 'k2048_2'])
        t['sigtime'] = rng.choice([0, 1, 1_700_000_000_123, rng.randrange(1 << 47)])
        tops.append(t)
    phases = []
    for _ in range(rng.choice([1, 2, 3])):
        reads = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            reads.append({'t': rng.randrange(len(tops)), 'col': rng.randrange(len(cfgs)) if cfgs and rng.random() < .25 else None,
                          'src': rng.choice(['strict', 'strict', 'strict', 'dir', 'mem']), 'reuse': rng.random() < .5, 'graph': rng.random() < .15,
                          'byname': rng.random() < .3, 'faults': [[rng.randrange(0, 60), rng.choice(['error', 'none', 'wrong', 'sink'])]] if rng.random() < .3 else []})
        conc = len(reads) > 1 and rng.random() < .6
        phases.append({'reads': reads, 'conc': conc, 'sched': {'mode': 'rand', 'seed': rng.randrange(1 << 30), 'p': rng.choice([.001, .005, .02, .1])}})
    tools = []
    if rng.random() < .25:
        tools = [{'t': rng.randrange(len(tops)), 'app': rng.choice(['packet_reader', 'packet_reader', 'manifest_reader']), 'n': rng.randrange(1 << 30), 'pretty': rng.random() < .3,
                  'proc': dict(c17.gen_proc(rng), z=0)} for _ in range(rng.choice([1, 2, 4]))]
    return {'cfgs': cfgs, 'encs': encs, 'tops': tops, 'phases': phases, 'tools': tools, 'procs': rng.choice(['fresh', 'fresh', 'one'])}


# --------------------------------------------------------------------------------------------------- the foreign publisher

class Foreign:
    """Publishes trees with the reference codec alone."""

    def __init__(self, plan, roots, objs, datas, seed):
        self.plan, self.roots, self.objs, self.datas = plan, roots, objs, datas
        self.rng = random.Random(seed)
        self.count = self.enc = 0
        self.derived = False        # below this root something is sealed with a derived key
        self.made, self.ptrs = [], {}
        self.rsa = False            # something is signed
        self.keys = []
        for e in plan['encs']:
            d = {'key': scen.aes_key_bytes(e), 'salt': None if e['salt'] is None else e['salt'].to_bytes(4, 'big'), 'num': e['num'],
                 'mode': {('gcm', 128): 1, ('gcm', 256): 2, ('ccm', 128): 3, ('ccm', 256): 4}[e['mode'], e['bits']],
                 'kdf': KDFS.get(e['kdf']), 'kdfinfo': None if e['kdfinfo'] is None else e['kdfinfo'].encode(),
                 'kdfsalt': None if e['kdfsalt'] is None else e['kdfsalt'].to_bytes(4, 'big'), 'priv': scen.KEYS[e['wrap']].priv if e['wrap'] else None,
                 'all': e['wrapall']}
            self.keys.append(d)

    def put(self, *a, sign=None, sigtime=0, **kw):
        if sign not in (None, 'crc'):
            sign = (scen.KEYS[sign].priv, sigtime)
            self.rsa = True
        # headers are no part of what is hashed
        x = (self.count * 2654435761 + len(self.objs)) % 97
        if x < 8:
            kw['fields'] = bytes([x * 36 % 256, x, 255 - x])
            kw['hop'] = rc.tlv(2, (1_700_000_000_000 + x).to_bytes(8, 'big')) + (rc.tlv(0xFF0, bytes(x)) if x > 5 else b'')
        b = rc.enc_packet(*a, sign=sign, **kw)
        if len(b) > 65535:
            raise AssertionError('the plan makes an object that no header can describe')
        h = rc.parse_packet(b).hash
        self.objs[h] = b
        self.made.append(h)
        self.count += 1
        return h

    def build(self, n, scope, name, opened, root=None):
        """-> (hash, content)"""
        scope = dict(scope)
        nd = b''
        e = self.keys[n['enc']] if n['enc'] is not None and n['enc'] < len(self.keys) else None
        wrap = False
        if e is not None and e['priv'] is not None:
            # the manifests of a tree below one that carries the wrapped key may leave it out
            wrap = e['all'] or n['enc'] not in opened
            opened = opened | {n['enc']}
        defs = []
        for d in n['defs']:
            d = dict(d, name=d['name'] and scen.comps(scen.mkname(d['name'])), loc=d['loc'] and scen.comps(scen.mkname(d['loc'])))
            if 'restr' in d:
                d['restr'] = [bytes([7 * j]) * 32 if x else None for j, x in enumerate(d['restr'])]
            scope[d['id']] = d
            defs.append(rc.enc_ncdef(d, n['wide']))
        groups, content = [], []
        extra = 1 << 40
        for g in n['groups']:
            if 'root' in g:
                cfg = self.plan['cfgs'][g['root']]
                d = {'id': extra, 'schema': 'Prefix', 'name': scen.comps(scen.mkname(cfg['name'])), 'loc': None}
                extra += 1
                defs.append(rc.enc_ncdef(d))
                groups.append(rc.tlv(1, rc.tlv(0xB, rc.tlv(5, rc.uint(d['id']))) + rc.tlv(7, rc.enc_hash(self.roots[g['root']]))))
                content.append(self.datas[g['root']])
                continue
            if g['id'] not in scope or not g['items']:
                continue
            d = scope[g['id']]
            seg = d['schema'] == 'Segmented'
            ptrs, parts, sizes = [], [], []
            for k, item in enumerate(g['items']):
                nm = rc.request_name(d, g['start'] + k)
                if 'n' in item:
                    h, b = self.build(item['n'], scope, nm, opened)
                else:
                    b = random.Random(item['d'][0]).randbytes(item['d'][1])
                    h = self.put(rc.DATA if item['ptype'] else None, b if b or item['order'] else None, name=None if item['nameless'] else nm, expiry=item['exp'],
                                 fcid=g['start'] + k if item['fcid'] else None, sign=item['sign'], sigtime=1_700_000_000_000 + k, other_order=item['order'])
                    sizes.append(len(b))
                ptrs.append(h)
                parts.append(b)
            if g.get('again') is not None and g['again'] < len(ptrs) and not seg:
                ptrs.append(ptrs[g['again']])
                parts.append(parts[g['again']])
            gd = b''
            if g['sub']:
                gd += rc.tlv(2, rc.uint(sum(map(len, parts)), g['wide']))
                if g['digest']:
                    gd += rc.tlv(3, rc.enc_hash(hashlib.sha256(b''.join(parts)).digest()))
            if g['leaf'] and sizes:
                gd += rc.tlv(0, rc.uint(max(sizes), g['wide']))
                if g['digest'] and len(sizes) == len(g['items']):
                    gd += rc.tlv(1, rc.enc_hash(hashlib.sha256(b''.join(parts)).digest()))
            gd += rc.tlv(5, rc.uint(g['id'], g['wide']))
            if seg or g['extra']:
                gd += rc.tlv(4, rc.uint(g['start'], g['wide']))
            groups.append(rc.tlv(1, rc.tlv(0xB, gd) + rc.tlv(7, b''.join(map(rc.enc_hash, ptrs)))))
            content += parts
        if not groups:
            defs.append(rc.enc_ncdef({'id': extra, 'schema': 'Hashed', 'loc': None}))
            h = self.put(rc.DATA, b'only')
            groups.append(rc.tlv(1, rc.tlv(0xB, rc.tlv(5, rc.uint(extra))) + rc.tlv(7, rc.enc_hash(h))))
            content.append(b'only')
        data = b''.join(content)
        if n['size']:
            nd += rc.tlv(2, rc.uint(len(data), n['wide']))
        if n['digest']:
            nd += rc.tlv(3, rc.enc_hash(hashlib.sha256(data).digest()))
        if n['locs']:
            nd += rc.tlv(6, b''.join(rc.tlv(0xD, rc.enc_link(u and scen.comps(scen.mkname(u)), b'k' * 32 if a else None, b'd' * 32 if b else None))
                                     for u, a, b in n['locs']))
        nd += b''.join(defs)
        if n['vendor'] is not None:
            nd += rc.tlv(0xFFF, b'\x00\x01\x02' + bytes(n['vendor'])) * n['nvendor']
        node = (rc.tlv(0, nd) if nd else b'') + b''.join(groups)
        if n['pad'] is not None:
            node += rc.tlv(0xFFE, bytes(n['pad']))
        if e is None:
            payload = rc.tlv(1, node)
        else:
            self.enc += 1
            if e['kdf'] is not None:
                self.derived = True
            payload = rc.seal(node, e, self.rng, wrap)
        if root is not None:
            h = self.put(rc.MANIFEST, payload, name=name, expiry=n['exp'], sign=root['rsign'], sigtime=root['sigtime'])
        else:
            h = self.put(rc.MANIFEST, payload, name=name, expiry=n['exp'], sign=n['sign'], sigtime=1_700_000_000_000)
        if e is None:
            self.ptrs[h] = [p.hex() for g in rc.parse_node(node)['groups'] for p in g['ptrs']]
        return h, data


def execute(plan, ctx, out):
    w = ctx.world(plan)
    cfgs = plan['cfgs']
    encs = [c['enc'] for c in cfgs] + plan['encs']
    base = set()
    with seams.activate(w):
        objs, roots, datas = {}, [], []
        for k, cfg in enumerate(cfgs):
            data, rh, o = c18.collection(ctx, w, k, cfg, plan['procs'] == 'fresh', out)
            w.log(rh)
            datas.append(data)
            roots.append(rh)
            objs.update(o)
        ks = scen.InsecureKeystore()
        rkeys = rc.Keys(pubs=[v.pub for v in scen.KEYS.values()], privs=[v.priv for v in scen.KEYS.values()])
        for n, key in scen.KEYS.items():
            ks.add_rsa_key('k-' + n, key.rsakey())
        nums = set()
        for e in encs:
            if e and not e.get('wrap') and e['num'] not in nums:
                nums.add(e['num'])
                # a reader holds the key and its salts, the rest is stated in each object
                ks.add_aes_key(scen.aead_params(dict(e, kdf=None)))
                rkeys.aes[e['num']] = scen.ref_aes(e)
        # what the library published, as an independent reader with the keys sees it
        opened = 0
        for cfg, rh, data in zip(cfgs, roots, datas):
            try:
                res = rc.walk(objs.get, rh, rkeys)
            except (rc.Bad, rc.NoKey, rc.Tamper, KeyError) as e:
                out.violate(f'foreign-reader:{type(e).__name__}', f'{cfg["name"]}: an independent reader with the keys fails: {e!r}')
                continue
            if res.bytes() != data:
                out.violate('foreign-reader-content', f'{cfg["name"]}: an independent reader finds {len(res.bytes())} bytes of {len(data)}')
            for m in res.manifests:
                v = rc.check_validation(m['obj'], rkeys.pubs)
                if v not in (None, 'ok'):
                    out.violate('foreign-validation', f'{cfg["name"]}: {v}')
                if not m['plain']:
                    opened += 1
                    if m['secctx']['kdfalg'] is not None and m['secctx']['sealed'] != 'derived':
                        base.add(rh)
                        out.known.append({'id': 'KDF-WRITER', 'msg': f'{cfg["name"]}: a manifest that states KDF {m["secctx"]["kdfalg"]} is sealed with the base key'})
        # what an independent publisher made, as the library's reader sees it
        tops, derived = [], set()
        made = sealed = 0
        pubs = []
        for k, t in enumerate(plan['tops']):
            f = Foreign(plan, roots, objs, datas, 1000 + k)
            h, content = f.build(t, {}, scen.comps(scen.mkname(t['name'])), frozenset(), root=t)
            pubs.append(f)
            made += f.count
            sealed += f.enc
            if f.derived:
                derived.add(h)
            tops.append((t['name'], h, content))
            w.log(h)

        def excuse(h, err, got, content):
            if h not in derived or not content.startswith(got):
                return False
            out.known.append({'id': 'KDF-READER', 'msg': f'a manifest sealed with a key derived as it states cannot be read: {err!r}'[:200]})
            return True
        good, refused, switches, targets = c18.run_phases(plan, ctx, w, out, objs, tops, list(zip([c['name'] for c in cfgs], roots, datas)), ks, rkeys, excuse)
    show(plan, ctx, out, objs, tops, pubs)
    out.known[:] = list({k['id']: k for k in out.known}.values())
    out.absorb(w)
    out.count('reads', good)
    out.count('failed_reads', refused)
    out.count('switches', switches)
    out.count('foreign_objects', made)
    out.count('foreign_sealed', sealed)
    out.count('opened_by_reference', opened)
    out.count('requests', sum(len(x or ()) for x in targets.values()))
    out.state = hashlib.sha256(b''.join(t[1] for t in tops)).hexdigest()[:16]
    out.nontrivial = good > 0 and made > 4


def show(plan, ctx, out, objs, tops, pubs):
    """The tools, given what another publisher made."""
    d = None
    out.hash = hashlib.sha256(out.trace.encode())
    for k, t in enumerate(plan['tools']):
        if d is None:
            d = ctx.newdir('tools')
            for h, b in objs.items():
                c17.put(os.path.join(d, h.hex()), b)
        f = pubs[t['t'] % len(tops)]
        name, root, content = tops[t['t'] % len(tops)]
        if t['app'] == 'manifest_reader':
            if '{' in name or f.rsa or f.enc or any('root' in g for g in groups(plan['tops'][t['t'] % len(tops)])):
                continue            # keys are for C17 to give, and not every name can be typed
            of = os.path.join(ctx.scratch, f'tool{k}.bin')
            code, text = c17.run_tool(ctx, out, t['proc'], 'manifest_reader', ['--name', name, '-i', d, '--hash', root.hex(), '--output', of], [], d)
            got = scen.rawfile(of) if os.path.exists(of) else b''
            if code not in (0, None):
                out.violate('tool-failed:' + str(code).split(':')[0], f'manifest_reader on {name}: {code}')
            elif code == 0 and got != content:
                out.violate('tool-differs', f'manifest_reader on {name}: {len(got)} bytes of {len(content)}')
            continue
        h = f.made[t['n'] % len(f.made)] if t['n'] % 3 else root
        code, text = c17.run_tool(ctx, out, t['proc'], 'packet_reader', ['-i', d] + (['--pretty'] if t['pretty'] else []) + [h.hex()], [], d)
        text = text.decode()
        if code not in (0, None):
            out.violate('display-failed:' + str(code).split(':')[0], f'packet_reader on {h.hex()[:8]}: {code}')
            continue
        va = rc.parse_packet(objs[h]).valg
        if not text.strip() or ('Packet validation success' in text) != (va is not None and va['alg'] == 'crc32c'):
            out.violate('display-validation', f'packet_reader on {h.hex()[:8]}, validation {va and va["alg"]}: {text[-200:]!r}')
        if any(p not in text for p in f.ptrs.get(h, [])):
            out.violate('display-pointers', f'packet_reader on {h.hex()[:8]} does not show each pointer')
    out.trace = out.hash.hexdigest()[:24]


def groups(n):
    for g in n['groups']:
        yield g
        for item in g.get('items', []):
            if 'n' in item:
                yield from groups(item['n'])
