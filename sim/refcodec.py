"""
An independent reading of the CCNx / FLIC wire format: strict parser, decryptor, signature checks and a reference
traversal.  Shares no code with ccnpy; this is the oracle's view of what was stored.
"""
import hashlib
import hmac
import struct

from cryptography.exceptions import InvalidSignature, InvalidTag
from cryptography.hazmat.primitives import hashes, serialization
from cryptography.hazmat.primitives.asymmetric import padding
import cryptography.hazmat.primitives.ciphers.aead as _aead

import seams

DATA, KEY, LINK, MANIFEST = 0, 1, 2, 3


def _aesgcm(k):
    return getattr(seams.R, 'AESGCM', _aead.AESGCM)(k)


def _aesccm(k):
    return getattr(seams.R, 'AESCCM', _aead.AESCCM)(k)


class Bad(Exception):
    """The bytes are not a well-formed object."""


def tlvs(b):
    out = []
    o = 0
    while o < len(b):
        if o + 4 > len(b):
            raise Bad('truncated TLV header')
        t, n = struct.unpack_from('!HH', b, o)
        if o + 4 + n > len(b):
            raise Bad('TLV longer than its container')
        out.append((t, b[o + 4:o + 4 + n], b[o:o + 4 + n]))
        o += 4 + n
    return out


def one(b, what):
    ts = tlvs(b)
    if len(ts) != 1:
        raise Bad(f'{what}: expected one TLV, got {len(ts)}')
    return ts[0]


def num(v):
    return int.from_bytes(v, 'big')


def tlv(t, v):
    return struct.pack('!HH', t, len(v)) + v


def hash_value(v):
    """The value of a T_HASH-like TLV holding <sha256, digest>."""
    t, d, _ = one(v, 'hash')
    if t != 1 or len(d) != 32:
        raise Bad('not a sha-256 hash value')
    return bytes(d)


def parse_name(v):
    comps = []
    for t, d, _ in tlvs(v):
        comps.append((t, bytes(d)))
    return tuple(comps)


class Obj:
    """One parsed packet."""
    __slots__ = ('raw', 'hash', 'name', 'ptype', 'payload', 'expiry', 'fcid', 'fcid_raw', 'valg', 'valg_tlv', 'vpay',
                 'co_tlv', 'kind')


def uri(comps):
    if comps is None:
        return None
    return '/'.join('%x=%s' % (t, d.hex()) for t, d in comps)


def parse_packet(raw):
    raw = bytes(raw)
    if len(raw) < 8:
        raise Bad('shorter than a fixed header')
    ver, ptype, plen, f1, f2, f3, hlen = struct.unpack('!BBHBBBB', raw[:8])
    if ver != 1:
        raise Bad(f'version {ver}')
    if hlen < 8 or hlen > len(raw):
        raise Bad(f'header length {hlen}')
    tlvs(raw[8:hlen])       # hop-by-hop headers
    if plen != len(raw):
        raise Bad(f'header says {plen} bytes, packet has {len(raw)}')
    if ptype != 1:
        raise Bad(f'packet type {ptype} is not a content object')
    o = Obj()
    o.raw = raw
    ts = tlvs(raw[hlen:])
    types = [t for t, _, _ in ts]
    if types not in ([2], [2, 3, 4]):
        raise Bad(f'top-level TLVs {types}')
    o.co_tlv = ts[0][2]
    o.valg = o.valg_tlv = o.vpay = None
    h = hashlib.sha256(o.co_tlv)
    if len(ts) == 3:
        o.valg_tlv = ts[1][2]
        h.update(ts[1][2])
        h.update(ts[2][2])
        o.vpay = ts[2][1]
        o.valg = parse_valg(ts[1][1])
    o.hash = h.digest()
    o.name = o.ptype = o.payload = o.expiry = o.fcid = o.fcid_raw = None
    seen = set()
    for t, v, _ in tlvs(ts[0][1]):
        if t in seen:
            raise Bad(f'repeated TLV {t} in content object')
        seen.add(t)
        if t == 0:
            o.name = parse_name(v)
        elif t == 1:
            o.payload = bytes(v)
        elif t == 5:
            o.ptype = num(v)
        elif t == 6:
            if len(v) != 8:
                raise Bad('expiry time is not 8 bytes')
            o.expiry = num(v)
        elif t == 7:
            o.fcid = num(v)
            o.fcid_raw = bytes(v)
        else:
            raise Bad(f'unknown TLV {t} in content object')
    if o.ptype is None:
        o.ptype = DATA
    return o


def parse_valg(v):
    t, d, _ = one(v, 'validation alg')
    if t == 2:
        if len(d):
            raise Bad('crc32c with dependent data')
        return {'alg': 'crc32c'}
    if t == 4:
        r = {'alg': 'rsa', 'keyid': None, 'sigtime': None}
        for t2, d2, _ in tlvs(d):
            if t2 == 9:
                r['keyid'] = hash_value(d2)
            elif t2 == 0xF:
                r['sigtime'] = num(d2)
                if len(d2) != 8:
                    raise Bad('signature time is not 8 bytes')
            elif t2 == 0xB:
                r['pubkey'] = bytes(d2)
            elif t2 == 0xE:
                r['keylink'] = bytes(d2)
            else:
                raise Bad(f'unknown TLV {t2} in RSA alg')
        return r
    raise Bad(f'unknown validation alg {t}')


def parse_link(o):
    r = {'name': None, 'keyid': None, 'digest': None}
    for t, v, _ in tlvs(o.payload):
        if t == 0:
            r['name'] = parse_name(v)
        elif t == 2:
            r['keyid'] = hash_value(v)
        elif t == 3:
            r['digest'] = hash_value(v)
        else:
            raise Bad(f'unknown TLV {t} in link')
    return r


# -------------------------------------------------------------------------------------------------- checksums

def _crc32c_table():
    tab = []
    for i in range(256):
        c = i
        for _ in range(8):
            c = (c >> 1) ^ 0x82F63B78 if c & 1 else c >> 1
        tab.append(c)
    return tab


_TAB = _crc32c_table()


def crc32c(data):
    c = 0xFFFFFFFF
    for b in data:
        c = _TAB[(c ^ b) & 0xFF] ^ (c >> 8)
    return c ^ 0xFFFFFFFF


def load_public(pem):
    load = getattr(seams.R, 'load_pub', serialization.load_pem_public_key)
    return load(pem)


def key_id(pub):
    der = pub.public_bytes(serialization.Encoding.DER, serialization.PublicFormat.SubjectPublicKeyInfo)
    return hashlib.sha256(der).digest()


def check_validation(o, pubs=()):
    """None if the packet is unsigned, else a string: 'ok', or what is wrong."""
    if o.valg is None:
        return None
    buf = o.co_tlv + o.valg_tlv
    if o.valg['alg'] == 'crc32c':
        return 'ok' if num(o.vpay) == crc32c(buf) and len(o.vpay) == 4 else 'bad crc32c'
    for pub in pubs:
        if key_id(pub) == o.valg['keyid']:
            try:
                pub.verify(bytes(o.vpay), buf, padding.PKCS1v15(), hashes.SHA256())
                return 'ok'
            except InvalidSignature:
                return 'bad signature'
    return 'no key'


# -------------------------------------------------------------------------------------------------- manifests

MODES = {1: ('GCM', 16), 2: ('GCM', 32), 3: ('CCM', 16), 4: ('CCM', 32)}


class Keys:
    """What a reader holds: pre-shared keys by number (key, salt), private keys."""

    def __init__(self, aes=None, privs=(), pubs=()):
        self.aes = dict(aes or {})
        self.privs = list(privs)
        self.pubs = list(pubs)


def parse_secctx(v):
    t, d, raw = one(v, 'security context')
    r = {'aad': tlv(0, v), 'raw': bytes(v)}
    if t == 0:
        r['kind'] = 'aead'
    elif t == 1:
        r['kind'] = 'oaep'
    else:
        raise Bad(f'unknown security context {t}')
    r.update(keynum=None, nonce=None, mode=None, kdf=None, wrapped=None, keyid=None, hashalg=None, kdfinfo=None, kdfalg=None)
    for t2, d2, raw2 in tlvs(d):
        if t2 == 0:
            r['keynum'] = num(d2)
            r['keynum_tlv'] = bytes(raw2)
        elif t2 == 1:
            r['nonce'] = bytes(d2)
        elif t2 == 2:
            r['mode'] = num(d2)
            r['mode_tlv'] = bytes(raw2)
        elif t2 == 3:
            r['hashalg'] = num(d2)
            r['hashalg_tlv'] = bytes(raw2)
        elif t2 == 4:
            r['wrapped'] = bytes(d2)
        elif t2 == 5:
            r['kdf'] = bytes(d2)
            for t3, d3, raw3 in tlvs(d2):
                if t3 == 6:
                    r['kdfalg'] = num(d3)
                elif t3 == 7:
                    r['kdfinfo'] = bytes(raw3)
                else:
                    raise Bad(f'unknown TLV {t3} in kdf data')
        elif t2 == 9:
            r['keyid'] = hash_value(d2)
            r['keyid_tlv'] = bytes(raw2)
        elif t2 == 0xE:
            r['keylink'] = bytes(d2)
        else:
            raise Bad(f'unknown TLV {t2} in security context')
    return r


def parse_manifest(payload):
    """payload TLV value -> dict(secctx, node (bytes) or enc, tag)"""
    r = {'secctx': None, 'node': None, 'enc': None, 'tag': None}
    for t, v, raw in tlvs(payload):
        if t == 0:
            r['secctx'] = parse_secctx(v)
        elif t == 1:
            r['node'] = bytes(v)
        elif t == 2:
            r['enc'] = bytes(v)
        elif t == 3:
            r['tag'] = bytes(v)
        else:
            raise Bad(f'unknown TLV {t} in manifest')
    return r


def parse_locators(v):
    out = []
    for t, d, _ in tlvs(v):
        if t == 0xD:
            out.append(bytes(d))
        elif t == 1:
            out.append(('flag', bytes(d)))
        else:
            out.append((t, bytes(d)))
    return out


def parse_node(v):
    r = {'subtree': None, 'ncdefs': [], 'groups': [], 'locators': None}
    for t, d, _ in tlvs(v):
        if t == 0:
            for t2, d2, _ in tlvs(d):
                if t2 == 2:
                    r['subtree'] = num(d2)
                elif t2 == 3:
                    r['digest'] = bytes(d2)
                elif t2 == 4:
                    r['ncdefs'].append(parse_ncdef(d2))
                elif t2 == 6:
                    r['locators'] = parse_locators(d2)
                elif t2 != 0x0FFF:
                    raise Bad(f'unknown TLV {t2} in node data')
        elif t == 1:
            g = {'subtree': None, 'leaf': None, 'ncid': None, 'start': None, 'ptrs': []}
            for t2, d2, _ in tlvs(d):
                if t2 == 0xB:
                    for t3, d3, _ in tlvs(d2):
                        if t3 == 2:
                            g['subtree'] = num(d3)
                        elif t3 == 0:
                            g['leaf'] = num(d3)
                        elif t3 == 1:
                            g['leafdigest'] = bytes(d3)
                        elif t3 == 3:
                            g['digest'] = bytes(d3)
                        elif t3 == 4:
                            g['start'] = num(d3)
                        elif t3 == 5:
                            g['ncid'] = num(d3)
                        else:
                            raise Bad(f'unknown TLV {t3} in group data')
                elif t2 == 7:
                    for t3, d3, raw3 in tlvs(d2):
                        g['ptrs'].append(_ptr(t3, d3))
                else:
                    raise Bad(f'unknown TLV {t2} in hash group')
            r['groups'].append(g)
        elif t in (0x0FFE, 0x0FFF):
            pass
        else:
            raise Bad(f'unknown TLV {t} in node')
    return r


def _ptr(t, d):
    if t != 1 or len(d) != 32:
        raise Bad('pointer is not a sha-256 hash')
    return bytes(d)


def parse_ncdef(v):
    r = {'ncid': None, 'schema': None, 'name': None, 'suffix': None, 'locators': None}
    for t, d, _ in tlvs(v):
        if t == 5:
            r['ncid'] = num(d)
        elif t in (0x10, 0x11, 0x12):
            r['schema'] = {0x10: 'Hashed', 0x11: 'Prefix', 0x12: 'Segmented'}[t]
            for t2, d2, _ in tlvs(d):
                if t2 == 0:
                    r['name'] = parse_name(d2)
                elif t2 == 2:
                    r['suffix'] = num(d2)
                elif t2 == 6:
                    r['locators'] = parse_locators(d2)
                elif t2 == 1:
                    r['flags'] = bytes(d2)
                else:
                    raise Bad(f'unknown TLV {t2} in schema')
        else:
            raise Bad(f'unknown TLV {t} in nc def')
    return r


class NoKey(Exception):
    pass


class Tamper(Exception):
    pass


def open_manifest(o, keys, wrapped_cache=None):
    """Returns (node dict, plain: bool, secctx)."""
    m = parse_manifest(o.payload)
    sc = m['secctx']
    if sc is None:
        if m['node'] is None:
            raise Bad('manifest without node')
        return parse_node(m['node']), True, None
    if m['enc'] is None or m['tag'] is None or len(m['tag']) != 16:
        raise Bad('encrypted manifest without ciphertext or tag')
    if sc['mode'] not in MODES:
        raise Bad('unknown AEAD mode')
    alg, klen = MODES[sc['mode']]
    if sc['kind'] == 'aead':
        if keys is None or sc['keynum'] not in keys.aes:
            raise NoKey()
        key, salt, kdf_salt = (tuple(keys.aes[sc['keynum']]) + (None,))[:3]
    else:
        kdf_salt = None
        cache = wrapped_cache if wrapped_cache is not None else {}
        if sc['wrapped'] is not None:
            priv = None
            for p in (keys.privs if keys else ()):
                if key_id(p.public_key()) == sc['keyid']:
                    priv = p
            if priv is None:
                raise NoKey()
            label = b'FLIC RSA-OAEP' + sc['keynum_tlv'] + sc['mode_tlv'] + (sc['kdfinfo'] or b'') + sc['keyid_tlv'] + sc['hashalg_tlv']
            try:
                pt = priv.decrypt(sc['wrapped'], padding.OAEP(mgf=padding.MGF1(hashes.SHA256()), algorithm=hashes.SHA256(), label=label))
            except ValueError:
                raise Tamper('oaep')
            cache[sc['keynum']] = (pt[4:], pt[:4])
        if sc['keynum'] not in cache:
            raise NoKey()
        key, salt = cache[sc['keynum']]
    if len(key) != klen:
        raise Tamper('mode does not fit the key')
    iv = sc['nonce'] if salt is None else salt + sc['nonce']
    # the key it states to derive, or (see the known findings of C19) the base key
    tries = [('base', key)] if sc['kdfalg'] is None else [('derived', derive_key(sc, key, kdf_salt)), ('base', key)]
    for sealed, k in tries:
        if k is None:
            continue
        c = _aesgcm(k) if alg == 'GCM' else _aesccm(k)
        try:
            pt = c.decrypt(iv, m['enc'] + m['tag'], sc['aad'])
        except (InvalidTag, ValueError):
            continue
        sc['sealed'] = sealed
        return parse_node(pt), False, sc
    raise Tamper('aead')


# -------------------------------------------------------------------------------------------------- key derivation

HKDF = {1: 'sha256', 2: 'sha384', 3: 'sha512'}


def hkdf(alg, ikm, salt, info, length):
    n = hashlib.new(alg).digest_size
    prk = hmac.digest(salt or bytes(n), ikm, alg)
    out = block = b''
    i = 1
    while len(out) < length:
        block = hmac.digest(prk, block + info + bytes([i]), alg)
        out += block
        i += 1
    return out[:length]


def derive_key(sc, key, salt=None):
    """The key of a security context that states a KDF, None for one that is not defined."""
    if sc['kdfalg'] not in HKDF:
        return None
    return hkdf(HKDF[sc['kdfalg']], key, salt, b'FLIC' + sc['keynum_tlv'] + sc['mode_tlv'] + (sc['kdfinfo'] or b''), len(key))


# -------------------------------------------------------------------------------------------------- writing

def uint(n, wide=0):
    k = max(1, (n.bit_length() + 7) // 8)
    return n.to_bytes(min(8, max(k if k <= 4 else 8, wide)), 'big')


def enc_name(comps):
    return tlv(0, b''.join(tlv(t, v) for t, v in comps))


def enc_hash(d):
    return tlv(1, d)


def enc_packet(ptype, payload, name=None, expiry=None, fcid=None, sign=None, other_order=False, fields=b'\0\0\0', hop=b''):
    """sign: None, 'crc', or (private key, signing time in ms); hop: hop-by-hop headers"""
    co = b'' if name is None else enc_name(name)
    meta = [b'' if expiry is None else tlv(6, expiry.to_bytes(8, 'big')), b'' if ptype is None else tlv(5, bytes([ptype])), b'' if payload is None else tlv(1, payload),
            b'' if fcid is None else tlv(7, uint(fcid))]
    if other_order:
        # other encodings of the same fields
        if fcid is not None:
            meta[3] = tlv(7, fcid.to_bytes(max(1, (fcid.bit_length() + 7) // 8), 'big'))
        meta = [meta[1], meta[3], meta[0], meta[2]]
    co += b''.join(meta)
    body = tlv(2, co)
    if sign == 'crc':
        alg = tlv(3, tlv(2, b''))
        body += alg + tlv(4, crc32c(body + alg).to_bytes(4, 'big'))
    elif sign is not None:
        priv, ms = sign
        alg = tlv(3, tlv(4, tlv(9, enc_hash(key_id(priv.public_key()))) + tlv(0xF, ms.to_bytes(8, 'big'))))
        body += alg + tlv(4, priv.sign(body + alg, padding.PKCS1v15(), hashes.SHA256()))
    return struct.pack('!BBH3sB', 1, 1, 8 + len(hop) + len(body), fields, 8 + len(hop)) + hop + body


def enc_link(name, keyid=None, digest=None):
    return (b'' if name is None else enc_name(name)) + (b'' if keyid is None else tlv(2, enc_hash(keyid))) + (b'' if digest is None else tlv(3, enc_hash(digest)))


def enc_ncdef(d, wide=0):
    loc = b'' if not d.get('loc') else tlv(6, tlv(0xD, enc_link(d['loc'], *d.get('restr', (None, None)))))
    if d.get('flags') is not None:
        loc += tlv(1, bytes(d['flags']))
    if d['schema'] == 'Hashed':
        s = tlv(0x10, loc)
    elif d['schema'] == 'Prefix':
        s = tlv(0x11, enc_name(d['name']) + loc)
    else:
        s = tlv(0x12, enc_name(d['name']) + tlv(2, uint(d['suffix'], wide)) + loc)
    return tlv(4, tlv(5, uint(d['id'], wide)) + s)


def oaep(pub, data, label, seed):
    """RFC 8017 OAEP with SHA-256 and a given seed."""
    def mgf1(z, n):
        return b''.join(hashlib.sha256(z + c.to_bytes(4, 'big')).digest() for c in range(n // 32 + 1))[:n]

    def xor(a, b):
        return bytes(x ^ y for x, y in zip(a, b))
    k = (pub.key_size + 7) // 8
    db = hashlib.sha256(label).digest() + bytes(k - len(data) - 66) + b'\1' + data
    mdb = xor(db, mgf1(seed, k - 33))
    ms = xor(seed, mgf1(mdb, 32))
    n = pub.public_numbers()
    return pow(int.from_bytes(b'\0' + ms + mdb, 'big'), n.e, n.n).to_bytes(k, 'big')


def seal(node, e, rng, wrap=False):
    """The payload of an encrypted manifest; e: key, salt (bytes or None), num, mode, kdf (alg), kdfinfo, kdfsalt, priv"""
    sc = {'keynum_tlv': tlv(0, uint(e['num'])), 'mode_tlv': tlv(2, uint(e['mode'])), 'kdfalg': e.get('kdf'),
          'kdfinfo': None if e.get('kdfinfo') is None else tlv(7, e['kdfinfo'])}
    nonce = rng.randbytes(12 - len(e['salt'] or b''))
    d = sc['keynum_tlv'] + tlv(1, nonce) + sc['mode_tlv']
    if sc['kdfalg'] is not None:
        d += tlv(5, tlv(6, uint(sc['kdfalg'])) + (sc['kdfinfo'] or b''))
    priv = e.get('priv')
    if priv is not None and wrap:
        keyid_tlv, alg_tlv = tlv(9, enc_hash(key_id(priv.public_key()))), tlv(3, uint(1))
        label = b'FLIC RSA-OAEP' + sc['keynum_tlv'] + sc['mode_tlv'] + (sc['kdfinfo'] or b'') + keyid_tlv + alg_tlv
        w = oaep(priv.public_key(), e['salt'] + e['key'], label, rng.randbytes(32))
        d += keyid_tlv + alg_tlv + tlv(4, w)
    aad = tlv(0, tlv(0 if priv is None else 1, d))
    k = e['key'] if sc['kdfalg'] is None else derive_key(sc, e['key'], e.get('kdfsalt'))
    c = _aesgcm(k) if MODES[e['mode']][0] == 'GCM' else _aesccm(k)
    ct = c.encrypt((e['salt'] or b'') + nonce, node, aad)
    return aad + tlv(2, ct[:-16]) + tlv(3, ct[-16:])


class Leaf:
    __slots__ = ('hash', 'obj', 'size', 'group', 'req')


class Result:
    def __init__(self):
        self.data = []        # data Objs in traversal order
        self.reqs = []        # (requested name, hash, obj) of every child
        self.manifests = []   # dicts: obj, node, depth, plain, secctx, bytes (total below), groups' direct/indirect
        self.root = None

    def bytes(self):
        return b''.join(o.payload or b'' for o in self.data)


def request_name(nc, seg):
    if nc['schema'] == 'Hashed':
        return None
    if nc['schema'] == 'Prefix':
        return nc['name']
    if seg is None:
        raise Bad('segmented group without start segment id')
    n = seg
    enc = n.to_bytes(max(1, (n.bit_length() + 7) // 8), 'big') if n < 1 << 24 else n.to_bytes(4 if n < 1 << 32 else 8, 'big')
    return nc['name'] + ((nc['suffix'], enc),)


def walk(get, root_hash, keys=None, limit=1_000_000, check_names=True):
    """
    Reference traversal.  get(hash) -> bytes or None.  Raises Bad/NoKey/Tamper/KeyError.  Iterative, so depth is no limit.
    """
    res = Result()
    cache = {}

    def fetch(h):
        raw = get(h)
        if raw is None:
            raise KeyError(h.hex())
        o = parse_packet(raw)
        if o.hash != h:
            raise Bad('object hash differs from its pointer')
        return o
    root = fetch(root_hash)
    res.root = root
    if root.ptype != MANIFEST:
        raise Bad('root is not a manifest')
    n = 0
    # frames: [manifest record, list of (group index, pointer, ncid, seg), position, nc scope]

    def enter(o, scope, depth):
        node, plain, sc = open_manifest(o, keys, cache)
        if node['ncdefs']:
            scope = dict(scope)
            for d in node['ncdefs']:
                scope[d['ncid']] = d
        rec = {'obj': o, 'node': node, 'depth': depth, 'plain': plain, 'secctx': sc, 'bytes': 0,
               'direct': [0] * len(node['groups']), 'indirect': [0] * len(node['groups']), 'kids': [], 'scope': scope}
        res.manifests.append(rec)
        items = []
        for gi, g in enumerate(node['groups']):
            for k, p in enumerate(g['ptrs']):
                items.append((gi, p, g['ncid'], None if g['start'] is None else g['start'] + k))
        return [rec, items, 0, scope]
    stack = [enter(root, {}, 0)]
    while stack:
        fr = stack[-1]
        rec, items, pos, scope = fr
        if pos == len(items):
            stack.pop()
            if stack:
                prec, pitems, ppos, _ = stack[-1]
                gi = pitems[ppos - 1][0]
                prec['indirect'][gi] += rec['bytes']
                prec['bytes'] += rec['bytes']
            continue
        fr[2] += 1
        gi, p, ncid, seg = items[pos]
        n += 1
        if n > limit:
            raise Bad('traversal does not end')
        if ncid is None:
            raise Bad('hash group without name constructor id')
        if ncid not in scope:
            raise Bad(f'name constructor {ncid} is not defined on this branch')
        want = request_name(scope[ncid], seg)
        o = fetch(p)
        res.reqs.append((want, p, o))
        if check_names and o.name is not None and o.name != want:
            raise Bad(f'object named {uri(o.name)} requested as {uri(want)}')
        rec['kids'].append((gi, p, o, want, seg))
        if o.ptype == MANIFEST:
            stack.append(enter(o, scope, rec['depth'] + 1))
        elif o.ptype == DATA:
            k = len(o.payload or b'')
            rec['direct'][gi] += k
            rec['bytes'] += k
            res.data.append(o)
        else:
            raise Bad(f'child has payload type {o.ptype}')
    return res
