"""C11: reading encrypted collections depends only on the keys held, and altered encrypted manifests are rejected."""
import array
import hashlib
import random

from cryptography.hazmat.primitives import hashes
from cryptography.hazmat.primitives.asymmetric import padding

import refcodec as rc
import scen
import seams
from c09 import co_parts, header, make_co
from c18 import Comp, ManifestFactory, Node, NodeData, mkdef, stored_locator

WRAPS = ['k1024_1', 'k2048_1', 'k2048_2']
TAMPERS = ['flip_ct', 'flip_ct', 'flip_tag', 'flip_nonce', 'flip_ctx', 'flip_ctx', 'keynum_held', 'mode', 'kdf', 'ct_trunc', 'ct_extend', 'tag_trunc', 'tag_extend',
           'tag_empty', 'tag_zero', 'shift', 'shift', 'tag_of', 'ctx_of', 'ct_of', 'nonce_of', 'ctx_unknown', 'ctx_order', 'ctx_pad', 'ctx_trail', 'ctx_type', 'wrapper_drop',
           'wrapper_add', 'wrapper_flip', 'wrapper_of', 'keyid', 'keylink', 'hashalg', 'tag_second', 'tag_drop', 'ctx_drop', 'nonce_len']


def rel_num(num, rng):
    """Another key number that only the whole number tells from num."""
    while True:
        b = num.to_bytes(max(1, (num.bit_length() + 7) // 8), 'big')
        new = rng.choice([num ^ (1 << rng.randrange(60)), num + (1 << rng.choice([8, 16, 24, 31, 32, 40, 48, 53])), num & 0xFFFFFFFF, num & 0xFFFF, num & 0xFF,
                          num + (1 << 8 * rng.randrange(1, 7)) - 1, num >> 8, num << 8, num ^ 0x80, int.from_bytes(b[::-1], 'big'), num % 1009, -num & 0xFFFFFFFF])
        if 0 < new < 1 << 63 and new != num:
            return new


def gen_coll(rng, k, nums, keys, salts):
    c = scen.gen_cfg(rng, max_chunks=14, enc=1, sign=.3, src=False, tag=f'c{k}')
    if c['enc'].get('num') is not None:
        c['enc']['num'] = rng.choice(nums)
        c['enc']['key'] = rng.choice(keys)
        c['enc']['salt'] = rng.choice(salts)
    if c['enc'].get('wrap'):
        c['enc']['wrap'] = rng.choice(WRAPS)
    if c['sign'] not in (None, 'crc'):
        c['sign'] = 'k1024_2'
    if rng.random() < .12:
        c['enc'] = None
    return c


def gen(rng, tier, i, ctx):
    nums = [rng.randrange(1, 1 << 40), 7] if rng.random() < .8 else [7]
    if rng.random() < .6:
        # numbers that differ from the first only in some bits
        nums += [rel_num(nums[0], rng) for _ in range(2)]
    keys = [rng.randrange(1, 1 << 30) for _ in range(2)]
    salts = [None, 0, 1, rng.getrandbits(32)]
    colls = [gen_coll(rng, k, nums, keys, salts) for k in range(rng.choice([1, 2, 3, 3, 4, 5]))]
    if len(colls) > 1 and rng.random() < .4:
        # one key under the same number for a pre-shared and a wrapped collection, or two collections of one key
        a, b = rng.sample(range(len(colls)), 2)
        if colls[a]['enc'] and colls[b]['enc']:
            e = dict(colls[a]['enc'])
            if rng.random() < .5 and 'num' in e and e['salt'] is not None:
                if e['kind'] == 'oaep':
                    e.update(kind=e['mode'])
                    e.pop('mode')
                    e.pop('wrap')
                else:
                    e.update(kind='oaep', mode=e['kind'], wrap=rng.choice(WRAPS))
            colls[b]['enc'] = e
            colls[b]['size'] += 400
    n = len(colls)
    ev = [{'ev': 'key', 'c': c, 'ks': 0, 'how': 'right'} for c in range(n) if rng.random() < .45]
    for _ in range(rng.choice([6, 12, 20, 30])):
        r = rng.random()
        c = rng.randrange(n)
        ks = 0 if rng.random() < .75 else 1
        if r < .22:
            ev.append({'ev': 'key', 'c': c, 'ks': ks, 'how': rng.choice(['right', 'right', 'right', 'pub', 'content'])})
        elif r < .34:
            ev.append({'ev': 'wrong', 'c': c, 'ks': ks, 'how': rng.choice(['bytes', 'salt', 'mode', 'bits', 'swap', 'all'])})
        elif r < .42:
            ev.append({'ev': 'inner', 'c': c, 'ks': rng.choice([0, 1, 1, 2]), 't': rng.choice([0, 0, 1, 'new']), 'm': rng.randrange(1, 40), 'how': rng.choice(['parent', 'parent', 'parent', 'preorder', 'hash'])})
        elif r < .74:
            ev.append({'ev': 'read', 'c': c, 'ks': ks, 't': rng.choice([0, 0, 0, 1, 2, 'new']),
                       'fault': None if rng.random() < .7 else [rng.choice(['raise', 'none', 'flip', 'sink']), rng.randrange(0, 12)]})
        else:
            ev.append({'ev': 'tamper', 'c': c, 'ks': ks, 't': rng.choice([0, 0, 1, 2, 'new']), 'kind': rng.choice(TAMPERS), 'm': rng.choice([0, 0, rng.randrange(0, 40)]),
                       'n': rng.randrange(1 << 30), 'keyed': rng.random() < .8})
    return {'colls': colls, 'ev': ev, 'threads': rng.random() < .2}


# ------------------------------------------------------------------------------------------------ an independent sealer

class Opened:
    """One encrypted collection, opened with its keys: manifests in traversal order with their places."""

    def __init__(self, objs, rh, cfg):
        self.objs = objs
        self.rh = rh
        self.keys = scen.ref_keys(cfg)
        self.cache = {}
        self.mans = []      # (hash, parent index, bytes delivered before it)
        self.node = None    # the root's node
        n = 0
        stack = [(rh, None)]
        while stack:
            h, parent = stack.pop()
            o = rc.parse_packet(objs[h])
            if o.ptype != rc.MANIFEST:
                n += len(o.payload or b'')
                continue
            node, plain, sc = rc.open_manifest(o, self.keys, self.cache)
            k = len(self.mans)
            if k == 0:
                self.node = node
            self.mans.append((h, parent, n))
            kids = [p for g in node['groups'] for p in g['ptrs']]
            stack.extend((p, k) for p in reversed(kids))

    def keyfor(self, sc):
        return self.keys.aes[sc['keynum']][:2] if sc['kind'] == 'aead' else self.cache[sc['keynum']]

    def cipher(self, sc):
        key, salt = self.keyfor(sc)
        c = (rc._aesgcm if rc.MODES[sc['mode']][0] == 'GCM' else rc._aesccm)(key)
        return c, sc['nonce'] if salt is None else salt + sc['nonce']

    def repl(self, k, raw):
        """The collection with manifest k's packet replaced, all its ancestors sealed again: ({hash: bytes}, root hash)."""
        new = dict(self.objs)
        h, parent, _ = self.mans[k]
        while True:
            nh = rawhash(raw)
            new[nh] = raw
            if parent is None:
                return new, nh
            old, old_nh = h, nh
            h, parent, _ = self.mans[parent]
            o = rc.parse_packet(self.objs[h])
            m = rc.parse_manifest(o.payload)
            sc = m['secctx']
            c, iv = self.cipher(sc)
            pt = c.decrypt(iv, m['enc'] + m['tag'], sc['aad'])
            assert pt.count(old) >= 1
            ct = c.encrypt(iv, pt.replace(old, old_nh), sc['aad'])
            raw = rebuild(o, [sc['aad'], rc.tlv(2, ct[:-16]), rc.tlv(3, ct[-16:])])


def rawhash(raw):
    try:
        return rc.parse_packet(raw).hash
    except rc.Bad:
        return hashlib.sha256(raw[8:]).digest()


def rebuild(o, payload_tlvs):
    parts = [(t, b''.join(payload_tlvs) if t == 1 else v) for t, v, _ in rc.tlvs(o.co_tlv[4:])]
    co = make_co(parts)
    # an altered root cannot keep its signature; C09 decides those
    return header(co, o.raw)


def flip(b, n):
    b = bytearray(b)
    i = n % (len(b) * 8)
    b[i // 8] ^= 1 << (i % 8)
    return bytes(b)


def tamper(f, op, k, others):
    """-> the altered packet of manifest k, or None when this alteration does not apply.  May ask for more keys: (raw, extra)"""
    rnd = random.Random(f['n'])
    n = f['n']
    o = rc.parse_packet(op.objs[op.mans[k][0]])
    m = rc.parse_manifest(o.payload)
    sc = m['secctx']
    ct, tag = m['enc'], m['tag']
    t0, inner, _ = rc.one(sc['raw'], 'ctx')
    fields = [(t, v) for t, v, _ in rc.tlvs(inner)]
    kind = f['kind']
    extra = None
    aead = None

    def ctx(fs, typ=None, trail=b''):
        return rc.tlv(0, rc.tlv(t0 if typ is None else typ, b''.join(rc.tlv(t, v) for t, v in fs)) + trail)

    def field(t, v):
        return [(a, v if a == t else b) for a, b in fields]
    have = {t for t, _ in fields}
    tail = None
    if kind == 'flip_ct':
        ct = flip(ct, n)
    elif kind == 'flip_tag':
        tag = flip(tag, n)
    elif kind == 'flip_nonce':
        aead = ctx(field(1, flip(sc['nonce'], n)))
    elif kind == 'nonce_len':
        aead = ctx(field(1, rnd.choice([sc['nonce'][:-1], sc['nonce'] + b'\0', b'', b'\0' + sc['nonce']])))
    elif kind == 'flip_ctx':
        whole = sc['aad']
        aead = whole[:4] + flip(whole[4:], n)
    elif kind == 'keynum_held':
        # the same key is held under another number as well
        if sc['kind'] != 'aead':
            return None
        new = sc['keynum'] + 1 + n % 1000 if n & 1 else rel_num(sc['keynum'], rnd)
        aead = ctx(field(0, new.to_bytes(max(1, (new.bit_length() + 7) // 8), 'big')))
        extra = new
    elif kind == 'mode':
        aead = ctx(field(2, bytes([(sc['mode'] + n % 3) % 4 + 1])))
    elif kind == 'kdf':
        if 5 in have:
            v = dict(fields)[5]
            aead = ctx([x for x in fields if x[0] != 5] if n % 3 == 0 else field(5, flip(v, n)))
        else:
            kd = rc.tlv(6, b'\0\1') + (rc.tlv(7, b'info') if n % 2 else b'')
            aead = ctx(fields[:3] + [(5, kd)] + fields[3:])
    elif kind == 'ct_trunc':
        ct = ct[:n % len(ct)] if n % 2 else ct[:-1]
    elif kind == 'ct_extend':
        ct = ct + rnd.randbytes(1 + n % 20)
    elif kind == 'tag_trunc':
        tag = tag[:n % 16]
    elif kind == 'tag_extend':
        tag = tag + rnd.randbytes(1 + n % 4)
    elif kind == 'tag_empty':
        tag = b''
    elif kind == 'tag_zero':
        tag = bytes(16)
    elif kind == 'shift':
        a = ct + tag
        cut = rnd.choice([1, 2, 8, 15, 16, -1, -2, -8]) + len(ct)
        if not 0 <= cut <= len(a) or cut == len(ct):
            return None
        ct, tag = a[:cut], a[cut:]
    elif kind in ('tag_of', 'ctx_of', 'ct_of', 'nonce_of'):
        pool = [(x, y) for x in others for y in range(len(x.mans)) if not (x is op and y == k)]
        if not pool:
            return None
        x, y = pool[n % len(pool)]
        om = rc.parse_manifest(rc.parse_packet(x.objs[x.mans[y][0]]).payload)
        if kind == 'tag_of':
            tag = om['tag']
        elif kind == 'ct_of':
            ct = om['enc']
        elif kind == 'ctx_of':
            aead = om['secctx']['aad']
        else:
            aead = ctx(field(1, om['secctx']['nonce']))
    elif kind == 'ctx_unknown':
        fs = list(fields)
        fs.insert(n % (len(fs) + 1), (rnd.choice([0x0FFE, 0x1000, 0x22, 0x7F]), rnd.randbytes(n % 5)))
        aead = ctx(fs)
    elif kind == 'ctx_order':
        fs = list(fields)
        a = n % (len(fs) - 1)
        fs[a], fs[a + 1] = fs[a + 1], fs[a]
        aead = ctx(fs)
    elif kind == 'ctx_pad':
        t = rnd.choice([0, 2])
        v = dict(fields)[t]
        if len(v) > 6:
            return None
        aead = ctx(field(t, b'\0' + v))
    elif kind == 'ctx_trail':
        aead = ctx(fields, trail=rnd.choice([rc.tlv(0, b''), rc.tlv(0x0FFE, b'abc'), rc.tlv(t0, inner)]))
    elif kind == 'ctx_type':
        aead = ctx([x for x in fields if x[0] in (0, 1, 2, 5)] if n % 2 else fields, typ=1 - t0)
        if sc['kind'] == 'oaep':
            extra = sc['keynum']
    elif kind == 'wrapper_drop':
        if sc['wrapped'] is None:
            return None
        aead = ctx([x for x in fields if x[0] in (0, 1, 2, 5)])
    elif kind == 'wrapper_add':
        if sc['kind'] != 'oaep' or sc['wrapped'] is not None:
            return None
        rs = rc.parse_manifest(rc.parse_packet(op.objs[op.rh]).payload)['secctx']
        _, rin, _ = rc.one(rs['raw'], 'ctx')
        aead = ctx(fields + [(t, v) for t, v, _ in rc.tlvs(rin) if t in (9, 3, 4)])
    elif kind == 'wrapper_flip':
        if sc['wrapped'] is None:
            return None
        aead = ctx(field(4, flip(sc['wrapped'], n)))
    elif kind == 'wrapper_of':
        if sc['wrapped'] is None:
            return None
        if n % 2:
            # anyone can wrap a key of his own for the reader
            kn = [x for x in scen.KEYS if scen.KEYS[x].id == sc['keyid']][0]
            key, salt = op.keyfor(sc)
            label = b'FLIC RSA-OAEP' + sc['keynum_tlv'] + sc['mode_tlv'] + (sc['kdfinfo'] or b'') + sc['keyid_tlv'] + sc['hashalg_tlv']
            pt = (rnd.randbytes(4) if n % 3 == 0 else salt) + (key if n % 3 == 0 else rnd.randbytes(len(key)))
            aead = ctx(field(4, scen.KEYS[kn].pub.encrypt(pt, padding.OAEP(mgf=padding.MGF1(hashes.SHA256()), algorithm=hashes.SHA256(), label=label))))
        else:
            pool = [rc.parse_manifest(rc.parse_packet(x.objs[x.rh]).payload)['secctx'] for x in others if x is not op]
            pool = [x for x in pool if x['wrapped'] is not None]
            if not pool:
                return None
            w = pool[n // 2 % len(pool)]
            aead = ctx([(t, w['wrapped'] if t == 4 else rc.tlv(1, w['keyid']) if t == 9 else v) for t, v in fields])
    elif kind == 'keyid':
        if sc['wrapped'] is None:
            return None
        other = [scen.KEYS[x].id for x in scen.KEYS if scen.KEYS[x].id != sc['keyid']]
        aead = ctx(field(9, rc.tlv(1, other[n % 3] if n % 4 else rnd.randbytes(32))))
    elif kind == 'keylink':
        if sc['kind'] != 'oaep':
            return None
        i = [j for j, x in enumerate(fields) if x[0] == 9]
        fs = list(fields)
        fs.insert(i[0] + 1 if i else len(fs), (0xE, rc.tlv(0, rc.tlv(1, b'x'))))
        aead = ctx(fs)
    elif kind == 'hashalg':
        if sc['wrapped'] is None:
            return None
        aead = ctx(field(3, bytes([2 + n % 3])))
    elif kind == 'tag_second':
        tail = [rc.tlv(3, tag), rc.tlv(3, flip(tag, n))]
        if n % 2:
            tail.reverse()
    elif kind == 'tag_drop':
        tail = []
    elif kind == 'ctx_drop':
        aead = b''
    else:
        raise ValueError(kind)
    if aead is None:
        aead = sc['aad']
    if tail is None:
        tail = [rc.tlv(3, tag)]
    raw = rebuild(o, [aead, rc.tlv(2, ct)] + tail)
    if raw == rebuild(o, [sc['aad'], rc.tlv(2, m['enc']), rc.tlv(3, m['tag'])]):
        return None
    return raw, extra


# ------------------------------------------------------------------------------------------------ the model of a keystore

def ident(e):
    return (e['key'], e['bits'], e.get('mode') or e['kind'], e['salt'], e['num'])


class Model:
    def __init__(self):
        self.ks = scen.InsecureKeystore()
        self.aes = {}       # number -> identity of the latest key given
        self.rsa = {}       # wrapping key -> 'priv' or 'pub'
        self.auto = set()   # collections and identities once unwrapped here
        self.ever = set()   # collections whose key was held at some time

    def right(self, k, cfg):
        """'yes', 'no' or 'maybe' (an earlier unwrapping may have left the content key in the key store)."""
        e = cfg['enc']
        if cfg['sign'] not in (None, 'crc') and self.rsa.get(cfg['sign']) is None:
            return 'nosig'
        if e is None:
            return 'yes'
        i = ident(e) if 'num' in e and not (e['kind'] == 'oaep' and e['salt'] is None) else None
        if e.get('wrap') and self.rsa.get(e['wrap']) == 'priv':
            return 'yes'
        if i is not None and self.aes.get(e['num']) == i:
            return 'yes'
        if k in self.auto or (i is not None and i in self.auto):
            return 'maybe'
        return 'no'

    def unwrapped(self, k, cfg):
        e = cfg['enc']
        if e and e.get('wrap'):
            self.auto.add(k)
            if 'num' in e and e['salt'] is not None:
                self.auto.add(ident(e))


class Store(scen.PacketReader):
    def __init__(self):
        self.objs = {}
        self.fault = None
        self.n = 0

    def get(self, name, hash_restriction, forwarding_hints=None):
        n = self.n
        self.n += 1
        b = self.objs[scen.hv(hash_restriction)]
        if self.fault and self.fault[0] != 'sink' and n == self.fault[1]:
            if self.fault[0] == 'raise':
                raise OSError(5, 'store failed')
            if self.fault[0] == 'none':
                return None
            b = flip(b, 8 * len(b) - 77)
        return scen.Packet.deserialize(array.array('B', b))

    def close(self):
        pass


class FSink(scen.Sink):
    fault = None

    def write(self, data):
        if self.fault and self.fault[0] == 'sink' and len(self.parts) == self.fault[1]:
            raise OSError(28, 'output full')
        return super().write(data)


def parent(op, h, cfg):
    """A plain manifest with the collection's name constructors that points at its manifest h: (hash, packet)"""
    defs = [mkdef(d['ncid'], {'schema': d['schema'], 'name': d['name'], 'loc': stored_locator(d['locators']) if d['locators'] else None, 'suffix': d['suffix']})
            for d in op.node['ncdefs']]
    opts = scen.ManifestTreeOptions(name=scen.mkname('ccnx:/parent'), schema_type=scen.SchemaType.HASHED, signer=None, max_packet_size=60000)
    node = Node(node_data=NodeData(nc_defs=defs), hash_groups=[Comp.group(op.node['ncdefs'][0]['ncid'], None if cfg['schema'] != 'Segmented' else 3, [h])])
    b = ManifestFactory(opts).build_packet(node, name=opts.name).serialize().tobytes()
    return rc.parse_packet(b).hash, b


def execute(plan, ctx, out):
    w = ctx.world(plan)
    with seams.activate(w):
        store = Store()
        colls = []
        for k, cfg in enumerate(plan['colls']):
            ws = scen.WireStore()
            data = scen.content(cfg['data'])
            p = w.new_proc(f'pub{k}', seed=70 + k)
            w.set_proc(p)
            root = scen.publish(cfg, ws, w, data, rel=f'in/f{k}.bin')
            w.set_proc(None)
            store.objs.update(ws.by_hash)
            op = Opened(ws.by_hash, scen.phash(root), cfg) if cfg['enc'] else None
            colls.append((cfg, data, scen.phash(root), ws.by_hash, op))
        models = [Model(), Model(), Model()]
        models[2].ks = None     # a reader without a key store
        travs = {}
        ok = refused = rejected = inner = inner_ok = 0
        opened = [c[4] for c in colls if c[4]]

        def reader(e):
            mk = (e['ks'], e['t'])
            if e['t'] == 'new' or mk not in travs:
                sink = FSink()
                st = Store()
                travs[mk] = (scen.Traversal(packet_input=st, data_writer=sink, keystore=models[e['ks']].ks), sink, st)
            t, sink, st = travs[mk]
            sink.parts.clear()
            sink.fault = st.fault = None
            st.n = 0
            return t, sink, st

        def read(t, cfg, rh):
            try:
                t.traverse(root_name=scen.mkname(cfg['name']), hash_restriction=scen.hashvalue(rh))
                return None
            except Exception as x:  # noqa
                return x
        for en, e in enumerate(plan['ev']):
            for m in models:
                m.ever.update(k for k, c in enumerate(colls) if m.right(k, dict(c[0], sign=None)) != 'no')
            cfg, data, rh, objs, op = colls[e['c'] % len(colls)]
            k = e['c'] % len(colls)
            mod = models[e['ks']]
            enc = cfg['enc']
            if e['ev'] == 'key':
                if cfg['sign'] not in (None, 'crc') and cfg['sign'] not in mod.rsa:
                    mod.ks.add_rsa_key('s' + cfg['sign'], scen.KEYS[cfg['sign']].rsapub())
                    mod.rsa[cfg['sign']] = 'pub'
                if not enc:
                    continue
                if enc.get('wrap') and e['how'] != 'content':
                    how = 'pub' if e['how'] == 'pub' else 'priv'
                    mod.ks.add_rsa_key('w' + enc['wrap'], scen.KEYS[enc['wrap']].rsapub() if how == 'pub' else scen.KEYS[enc['wrap']].rsakey())
                    mod.rsa[enc['wrap']] = how
                elif 'num' in enc and (not enc.get('wrap') or enc['salt'] is not None):
                    mod.ks.add_aes_key(scen.aead_params(enc))
                    mod.aes[enc['num']] = ident(enc)
                w.log('key', k, e['how'])
            elif e['ev'] == 'wrong':
                if not enc or 'num' not in enc:
                    continue
                bad = dict(enc)
                bad.pop('wrap', None)
                mode = enc.get('mode') or enc['kind']
                if e['how'] in ('bytes', 'all'):
                    bad['key'] = enc['key'] + 1
                if e['how'] in ('salt', 'all'):
                    bad['salt'] = 5 if enc['salt'] != 5 else None
                if e['how'] in ('mode', 'all'):
                    mode = 'ccm' if mode == 'gcm' else 'gcm'
                if e['how'] == 'bits':
                    bad['bits'] = 384 - enc['bits']
                if e['how'] == 'swap':
                    o = [c[0]['enc'] for c in colls if c[0]['enc'] and 'num' in c[0]['enc']]
                    o = o[en % len(o)]
                    bad.update(key=o['key'], bits=o['bits'], salt=o['salt'])
                    mode = o.get('mode') or o['kind']
                bad.update(kind=mode, mode=mode)
                mod.ks.add_aes_key(scen.aead_params(bad))
                mod.aes[bad['num']] = ident(bad)
                w.log('wrong', k, e['how'])
            elif e['ev'] == 'inner':
                # starting in the middle: nothing says that this works, but it takes the key all the same
                if op is None or len(op.mans) < 2:
                    continue
                h, _, before = op.mans[1 + e['m'] % (len(op.mans) - 1)]
                t, sink, st = reader(e)
                st.objs = store.objs
                err = None
                try:
                    if e['how'] == 'parent':
                        # anyone can point at what is published
                        ph, raw = parent(op, h, cfg)
                        st.objs = dict(store.objs)
                        st.objs[ph] = raw
                        t.traverse(root_name=scen.mkname('ccnx:/parent'), hash_restriction=scen.hashvalue(ph))
                    elif e['how'] == 'preorder':
                        t.preorder(packet=scen.Packet.deserialize(array.array('B', objs[h])))
                    else:
                        t.traverse(root_name=scen.mkname(cfg['name']), hash_restriction=scen.hashvalue(h))
                except Exception as x:  # noqa
                    err = x
                got = sink.value()
                desc = f'read {en} of {describe(cfg)} from an inner manifest'
                if k not in mod.ever and (got or err is None):
                    out.violate('read-without-key', f'{desc}: {len(got)} bytes, {"success" if err is None else type(err).__name__}, without the key')
                elif data[before:before + len(got)] != got:
                    out.violate('wrong-bytes', f'{desc}: {len(got)} bytes that are not the file\'s from {before} on')
                w.log('inner', k, type(err).__name__, len(got))
                inner += 1
                inner_ok += err is None
            elif e['ev'] == 'read':
                t, sink, st = reader(e)
                st.objs = store.objs
                st.fault = sink.fault = e['fault']
                can = mod.right(k, cfg)
                held = bool(enc and enc.get('wrap') and mod.rsa.get(enc['wrap']) == 'priv')
                err = read(t, cfg, rh)
                got = sink.value()
                ran = st.fault and (st.n > st.fault[1] if st.fault[0] != 'sink' else len(sink.parts) >= st.fault[1] and err is not None)
                desc = f'read {en} of {describe(cfg)} (key {can}{", fault " + st.fault[0] if ran else ""})'
                if data[:len(got)] != got or len(got) > len(data):
                    out.violate('wrong-bytes', f'{desc}: {len(got)} bytes that are not the file\'s')
                elif err is None and got != data:
                    out.violate('short-success', f'{desc}: success with {len(got)} of {len(data)} bytes')
                elif can in ('no', 'nosig') and (got or err is None):
                    out.violate('read-without-key', f'{desc}: {len(got)} bytes delivered without the key')
                elif can == 'yes' and err is not None and not ran:
                    out.violate(f'right-key-refused:{type(err).__name__}:{ctx.where(err)}', f'{desc}: {err}')
                if held and can == 'yes' and st.n > 0:
                    mod.unwrapped(k, cfg)
                w.log('read', k, can, type(err).__name__, len(got))
                if err is None:
                    ok += 1
                elif ran:
                    w.count('read_' + st.fault[0])
                else:
                    refused += 1
            else:
                if op is None:
                    continue
                mi = e['m'] % len(op.mans)
                if e['kind'].startswith('wrapper') and e['kind'] != 'wrapper_add' or e['kind'] in ('keyid', 'hashalg'):
                    mi = 0
                if e['kind'] == 'wrapper_add' and mi == 0:
                    mi = len(op.mans) - 1
                x = tamper(e, op, mi, opened)
                if x is None:
                    continue
                raw, extra = x
                new, nh = op.repl(mi, raw)
                t, sink, st = reader(e)
                st.objs = dict(store.objs)
                st.objs.update(new)
                if e['keyed']:
                    # the reader holds everything
                    ks = scen.keystore(cfg)
                    if extra is not None:
                        key, salt = op.keyfor(rc.parse_manifest(rc.parse_packet(objs[rh]).payload)['secctx'])
                        mode = rc.MODES[rc.parse_manifest(rc.parse_packet(objs[rh]).payload)['secctx']['mode']][0]
                        ks.add_aes_key(scen.AeadParameters(key=(scen.AeadGcm if mode == 'GCM' else scen.AeadCcm)(key), key_number=extra,
                                                           aead_salt=None if salt is None else int.from_bytes(salt, 'big')))
                    t = scen.Traversal(packet_input=st, data_writer=sink, keystore=ks)
                    if e['n'] % 2:
                        # after it has read the genuine collection
                        err = read(t, cfg, rh)
                        if err is not None or sink.value() != data:
                            out.violate('right-key-refused', f'{en}: genuine {describe(cfg)} with all keys: {err}')
                        sink.parts.clear()
                err = read(t, cfg, nh)
                got = sink.value()
                before = op.mans[mi][2]
                desc = f'{e["kind"]} on manifest {mi} of {len(op.mans)} of {describe(cfg)}'
                if err is None:
                    out.violate(f'tampered-accepted:{e["kind"]}', f'{desc}: success reported, {len(got)} bytes')
                elif len(got) > before or data[:len(got)] != got:
                    out.violate(f'tampered-delivered:{e["kind"]}', f'{desc}: {len(got)} bytes delivered, the altered manifest comes after {before}; then {type(err).__name__}')
                else:
                    rejected += 1
                if enc.get('wrap') and not e['keyed'] and mod.rsa.get(enc['wrap']) == 'priv':
                    mod.unwrapped(k, cfg)
                w.count('tamper_' + e['kind'])
                w.log('tamper', k, mi, type(err).__name__, len(got))
    out.absorb(w)
    out.count('reads_ok', ok)
    out.count('reads_refused', refused)
    out.count('tampered_rejected', rejected)
    out.count('reads_inside', inner)
    out.count('reads_inside_ok', inner_ok)
    out.nontrivial = ok > 0 and (refused > 0 or rejected > 0)
    out.state = hashlib.sha256(b''.join(c[2] for c in colls)).hexdigest()[:16]


def describe(cfg):
    e = cfg['enc']
    return 'a plain collection' if not e else f'a {e["kind"]} collection number {e.get("num")}'
