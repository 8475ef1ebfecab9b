"""
Workloads: publishing configurations (as JSON), their construction through ccnpy's public API, stores and readers.
Import only after seams.install().
"""
import array
import hashlib
import io
import os
import random
import re

import memory
import seams
from seams import R
import refcodec as rc

HERE = os.path.dirname(os.path.abspath(__file__))
KEYDIR = os.path.join(HERE, 'keys')

from ccnpy.core.ExpiryTime import ExpiryTime
from ccnpy.core.HashValue import HashValue
from ccnpy.core.Name import Name, NameComponent
from ccnpy.core.Packet import Packet, PacketReader, PacketWriter
from ccnpy.crypto.AeadKey import AeadCcm, AeadGcm
from ccnpy.crypto.Crc32c import Crc32cSigner
from ccnpy.crypto.InsecureKeystore import InsecureKeystore
from ccnpy.crypto.RsaKey import RsaKey
from ccnpy.crypto.RsaSha256 import RsaSha256Signer
from ccnpy.flic.aeadctx.AeadEncryptor import AeadEncryptor
from ccnpy.flic.aeadctx.AeadParameters import AeadParameters
from ccnpy.flic.RsaOaepCtx.RsaOaepEncryptor import RsaOaepEncryptor
from ccnpy.flic.ManifestTree import ManifestTree
from ccnpy.flic.ManifestTreeOptions import ManifestTreeOptions
from ccnpy.flic.name_constructor.SchemaType import SchemaType
from ccnpy.flic.tlvs.KdfAlg import KdfAlg
from ccnpy.flic.tlvs.KdfData import KdfData
from ccnpy.flic.tlvs.KdfInfo import KdfInfo
from ccnpy.flic.tlvs.Locators import Locators
from ccnpy.flic.name_constructor.NameConstructorContext import NameConstructorContext
from ccnpy.flic.tree.ManifestGraph import ManifestGraph
from ccnpy.flic.tree.Traversal import Traversal
from ccnpy.flic.tree.TreeIO import TreeIO


class KeyFile:
    def __init__(self, name):
        self.name = name
        self.path = os.path.join(KEYDIR, name + '.pem')
        with R.open(self.path, 'rb') as f:
            self.pem = f.read()
        with R.open(os.path.join(KEYDIR, name + '.pub.pem'), 'rb') as f:
            self.pub_pem = f.read()
        self.priv = R.load_priv(self.pem, None)
        self.pub = R.load_pub(self.pub_pem)
        self.id = rc.key_id(self.pub)
        RsaKey(self.pem)        # warms the loader cache
        RsaKey(self.pub_pem)

    def rsakey(self):
        return RsaKey(self.pem)

    def rsapub(self):
        return RsaKey(self.pub_pem)


KEYS = {}


def load_keys():
    for n in ('k1024_1', 'k1024_2', 'k2048_1', 'k2048_2'):
        KEYS[n] = KeyFile(n)


# -------------------------------------------------------------------------------------------------- content

def content(spec):
    """spec: {'len': n, 'kind': k, 'seed': s} -> bytes"""
    n = spec['len']
    kind = spec['kind']
    rng = random.Random(f"content/{spec['seed']}")
    if kind == 'rand':
        return rng.randbytes(n)
    if kind == 'zero':
        return bytes(n)
    if kind == 'text':
        s = ('Ünïcode line %d\r\n' * (n // 12 + 2))
        out = ''.join('Ünïcode línea %d\r\n' % i for i in range(n // 14 + 2)).encode()
        return out[:n] if len(out) >= n else (out * (n // len(out) + 1))[:n]
    if kind == 'period':
        p = rng.randbytes(rng.choice([1, 7, 64, 1000]))
        return (p * (n // len(p) + 1))[:n]
    if kind == 'tlv':
        # looks like packets and TLVs
        unit = b'\x01\x01\x00\x20\x00\x00\x00\x08\x00\x02\x00\x14\x00\x05\x00\x01\x03\x00\x01\x00\x0b'
        return (unit * (n // len(unit) + 1))[:n]
    if kind == 'mixed':
        # runs of text and of bytes that are no text, longer and shorter than a chunk
        out = bytearray()
        size = rng.choice([3, 40, 400, 1500])
        while len(out) < n:
            k = rng.randrange(1, 2 * size)
            out += rng.choice([bytes(rng.choice(b'abc \r\n\t') for _ in range(k)), 'é€😀'.encode() * (k // 9 + 1), rng.randbytes(k), b'\xff' * k])
        return bytes(out[:n])
    raise ValueError(kind)


def mkdirs(d):
    if not os.path.isdir(d):
        mkdirs(os.path.dirname(d))
        R.mkdir(d)
    return d


def write_input(world, rel, data):
    path = os.path.join(world.root, rel)
    mkdirs(os.path.dirname(path))
    with R.open(path, 'wb') as f:
        f.write(data)
    return path


# -------------------------------------------------------------------------------------------------- generation

WORDS = ['a', 'b', 'c', 'data', 'file', 'video', 'x' * 20, 'Ünï', 'n0', 'seg-1', 'v.2', 'manifest', 'A_B', 'path=1', '%41']


ODD = ['{1:ff}', '{1:00}', '{1:}', '{1:c3a9ff2f7e}', '{1:612f62}', '{1:2e2e}', '{2:0001}', '{5:05}', '{10:0100}', '{1001:deadbeef}', '{1:80}', '{1:5c783830}']


def gen_name(rng, lo=1, hi=4, tag=None, odd=0):
    n = rng.randint(lo, hi)
    comps = [rng.choice(WORDS) for _ in range(n)]
    if tag is not None:
        comps[-1] = comps[-1][:12] + tag
    if odd and rng.random() < odd:
        # components that no URI of this library spells
        comps.insert(rng.randrange(n), rng.choice(ODD))
    return 'ccnx:/' + '/'.join(comps)


def odd_comp(c):
    """{type:hex} -> (type, bytes), or None"""
    if c[:1] == '{' and c[-1:] == '}' and ':' in c:
        t, v = c[1:-1].split(':')
        return int(t, 16), bytes.fromhex(v)
    return None


def mkname(uri):
    if uri is None or '{' not in uri:
        return Name.from_uri(uri)
    out = []
    for c in uri[len('ccnx:/'):].split('/'):
        x = odd_comp(c)
        if x is not None:
            out.append(NameComponent(*x))
        elif c:
            out.append(NameComponent.create_name_segment(c.encode()))
    return Name(out)


def mklocators(uri):
    return None if uri is None else Locators.from_name(mkname(uri))


def name_len(uri):
    if uri is None:
        return 0
    p = uri[len('ccnx:/'):]
    return 4 + sum(4 + (len(c.encode()) if odd_comp(c) is None else len(odd_comp(c)[1])) for c in p.split('/') if c)


def payload_size(cfg):
    """How many file bytes one data object holds (derived from the wire format, only used to aim at boundaries)."""
    n = 8 + 4 + 5 + 4
    if cfg['exp'][2] is not None:
        n += 12
    if cfg['schema'] == 'Prefix':
        n += name_len(cfg['dpre'] or cfg['name'])
    elif cfg['schema'] == 'Segmented':
        n += name_len(cfg['dpre'] or cfg['name']) + 4 + 3 + 4 + 3
    return cfg['size'] - n


def manifest_overhead(cfg):
    n = 8 + 4 + 12 + 5 + 4 + 4          # headers, expiry, payload type, payload, node
    if cfg['schema'] == 'Prefix':
        n += name_len(cfg['mpre'] or cfg['name'])
    elif cfg['schema'] == 'Segmented':
        n += name_len(cfg['mpre'] or cfg['name']) + 8
    if cfg['enc']:
        n += 4 + 4 + 12 + 16 + 5 + 20
        if cfg['enc'].get('kdf'):
            n += 4 + 6 + 4 + 40
    n += 4 + 12                         # node data
    n += 2 * (4 + 4 + 12 + 12 + 8 + 8 + 4)
    return n


def root_overhead(cfg):
    """The root manifest must fit too: name constructor definitions and the wrapped key."""
    n = 4 + 4 + 4 + 12 + 4 + 4 + 12 + 8 + 8 + 4 + 36
    for x in (cfg['mpre'] or cfg['mloc'] or cfg['name'], cfg['dpre'] or cfg['dloc'] or cfg['name']):
        n += 4 + 8 + 4 + 16 + 8 + name_len(x)
    if cfg['enc']:
        n += 4 + 4 + 12 + 16 + 5 + 20
        if cfg['enc'].get('kdf'):
            n += 4 + 6 + 4 + 40
        if cfg['enc'].get('wrap'):
            n += 5 + 4 + 256 + 44
    return n


def gen_enc(rng, kinds=('gcm', 'ccm', 'oaep', 'oaepnew')):
    k = rng.choice(kinds)
    kdf = rng.choice([None, None, 'sha256', 'sha384', 'sha512'])
    kdfinfo = rng.choice([None, 'info', '0x0102']) if kdf else None
    e = {'kind': k, 'kdf': kdf, 'kdfinfo': kdfinfo}
    if k != 'oaepnew':
        e.update(bits=rng.choice([128, 256]), key=rng.randrange(1, 1 << 30),
                 num=rng.choice([1, 7, 200, 255, 256, 65535, 70000, (1 << 32) - 1, rng.randrange(1, 1 << 48)]),
                 salt=rng.choice([None, 0, 1, 0x01020304, 0xFFFFFFFF, rng.getrandbits(32)]))
        if k == 'oaep':
            e['mode'] = rng.choice(['gcm', 'ccm'])
    if k.startswith('oaep'):
        e['wrap'] = rng.choice(['k2048_1', 'k2048_2', 'k1024_1', 'k1024_2'])
    return e


def gen_expiry(rng):
    return rng.choice([None, None, None, rng.randrange(0, 4_000_000_000_000), 1_700_000_000_123, 1, 999, 253402300799999, 253402300800000, rng.randrange(1, 1 << 47)])


def gen_cfg(rng, max_chunks=60, enc=0.4, sign=0.5, schemas=('Hashed', 'Prefix', 'Segmented'), sizes=None, tag=None,
            chunks=None, flags=True, src=True, big_degree=True, odd=.05):
    c = {}
    c['schema'] = rng.choice(schemas)
    c['name'] = gen_name(rng, tag=tag, odd=odd)
    c['mpre'] = c['dpre'] = c['mloc'] = c['dloc'] = None
    if c['schema'] == 'Prefix':
        k = rng.randrange(4)
        if k == 1:
            c['mpre'] = gen_name(rng, odd=odd)
        elif k == 2:
            c['dpre'] = gen_name(rng, odd=odd)
        elif k == 3:
            c['mpre'] = gen_name(rng, odd=odd)
            c['dpre'] = rng.choice([c['mpre'], gen_name(rng, odd=odd)])
    elif c['schema'] == 'Segmented':
        c['mpre'] = gen_name(rng, odd=odd) + '/m'
        c['dpre'] = gen_name(rng, odd=odd) + '/d'
        if rng.random() < .2:
            c['mpre'] = None
        elif rng.random() < .2:
            c['dpre'] = None
    else:
        k = rng.randrange(4)
        if k & 1:
            c['mloc'] = gen_name(rng, odd=odd)
        if k & 2:
            c['dloc'] = rng.choice([c['mloc'] or gen_name(rng, odd=odd), gen_name(rng)])
    c['exp'] = [gen_expiry(rng) for _ in range(3)]
    c['enc'] = gen_enc(rng) if rng.random() < enc else None
    c['sign'] = rng.choice(['crc', 'k1024_1', 'k2048_1', 'k2048_2']) if rng.random() < sign else None
    c['flags'] = [rng.random() < .6, rng.random() < .5, rng.random() < .5] if flags else [True, False, False]
    if rng.random() < .04:
        c['debug'] = True
    lo = max(manifest_overhead(c) + 36 * rng.choice([3, 3, 4, 6]), 230)
    lo = max(lo, root_overhead(c))
    c['size'] = lo if sizes is None and rng.random() < .25 else rng.choice(sizes or [lo + rng.randrange(0, 300), 512, 700, 1000, 1280, 1500, 1500, 4096, 9000])
    if sizes is None and chunks is None and max_chunks >= 20 and rng.random() < .03:
        # up to the largest packet there is
        c['size'] = rng.choice([32767, 32768, 32776, 50000, 65535, 65535])
        chunks = rng.choice([1, 2, 3, 4])
    c['size'] = max(c['size'], lo)
    # degree
    c['degree'] = None
    p = payload_size(c)
    if p < 1:
        c['size'] += 1 - p
        p = 1
    if chunks is None:
        r = rng.random()
        if r < .15:
            chunks = rng.choice([1, 1, 2, 3])
        elif r < .6:
            chunks = rng.randint(1, max(2, max_chunks // 3))
        else:
            chunks = rng.randint(1, max_chunks)
    if rng.random() < .5:
        c['degree'] = rng.choice([2, 3, 3, 4, 5, 7, 8, 11, 20])
        if c['degree'] == 2 and chunks > 150:
            c['degree'] = 3
    n = chunks * p + rng.choice([0, 0, 0, 1, -1, -rng.randrange(0, max(p, 1))])
    c['data'] = {'len': max(1, n), 'kind': rng.choice(['rand', 'rand', 'rand', 'zero', 'text', 'period', 'tlv', 'mixed', 'mixed']),
                 'seed': rng.randrange(1 << 30)}
    if src:
        c['src'] = rng.choice(['file', 'file', 'file', 'bytesio', 'short', 'shortraw', 'offset', 'memio'])
        if rng.random() < .3:
            c['api'] = rng.choice(['graph', 'steps', 'meta'])
            if c['api'] == 'meta' and c['schema'] == 'Segmented':
                # the numbers of the names go on from earlier work with the same name context
                c['burn'] = rng.choice([0, 253, 255, 65531, 65535, 65536, 0xFFF000])
                if rng.random() < .5:
                    # the last object full, also when a writer reserves less for the numbers
                    c['data']['len'] = max(1, min(chunks, 50)) * (p + rng.choice([0, 1, 1, 2]))
    else:
        c['src'] = 'file'
    return c


def respell(rng, uri):
    """A name that a careless comparison takes for this one: as many components, or as many bytes, or the same bytes."""
    comps = uri[len('ccnx:/'):].split('/')
    k = rng.randrange(len(comps))
    r = rng.randrange(6)
    if r == 0:
        comps[k] = comps[k] + 'x' * rng.choice([1, 1, 5, 30])
    elif r == 1:
        comps[k] = comps[k][:-1] or 'zz'
    elif r == 2:
        comps[k] = ('y' if comps[k][0] != 'y' else 'w') + comps[k][1:]
    elif r == 3 and len(comps) > 1:
        comps[0], comps[-1] = comps[-1], comps[0]
    elif r == 4 and len(comps) > 1:
        # the same letters, otherwise divided
        a, b = comps[-2], comps[-1]
        comps[-2:] = [a + b[:1], b[1:]] if len(b) > 1 else [a[:1], a[1:] + b] if len(a) > 1 else [a + b]
    else:
        comps.append('x')
    return 'ccnx:/' + '/'.join(comps)


def related_cfg(rng, cfg, keep=(), n=None):
    """Work that differs from cfg in little: what a cache with too small a key would take for the same."""
    c = dict(cfg, exp=list(cfg['exp']), flags=list(cfg['flags']), data=dict(cfg['data']))
    can = [k for k in ('name', 'mpre', 'dpre', 'mloc', 'dloc', 'exp', 'flags', 'degree', 'size', 'len', 'seed', 'key', 'sign') if k not in keep]
    for k in rng.sample(can, min(len(can), n or rng.choice([1, 1, 2, 3, 5]))):
        if k in ('name', 'mpre', 'dpre', 'mloc', 'dloc'):
            if c[k]:
                c[k] = respell(rng, c[k])
        elif k == 'exp':
            j = rng.randrange(3)
            c['exp'][j] = None if c['exp'][j] is not None and rng.random() < .5 else (c['exp'][j] or 0) + rng.choice([1, 1000, 86400000])
        elif k == 'flags':
            j = rng.randrange(3)
            c['flags'][j] = not c['flags'][j]
        elif k == 'degree':
            c['degree'] = rng.choice([None, 3, 4, 5, 9])
        elif k == 'size':
            c['size'] += rng.choice([-1, 1, 1, 2, 12, 36, 40])
        elif k == 'len':
            c['data']['len'] = max(1, c['data']['len'] + rng.choice([-1, 1, payload_size(c), -payload_size(c)]))
        elif k == 'seed':
            c['data']['seed'] = rng.randrange(1 << 30)
        elif k == 'key' and c['enc'] and 'key' in c['enc']:
            c['enc'] = dict(c['enc'], **rng.choice([{'key': rng.randrange(1, 1 << 30)}, {'salt': rng.getrandbits(32)}, {'num': rng.randrange(1, 1 << 48)}]))
        elif k == 'sign':
            c['sign'] = rng.choice([None, 'crc', 'k1024_1', 'k2048_1'])
    c['size'] = max(c['size'], manifest_overhead(c) + 108, root_overhead(c), 230)
    p = payload_size(c)
    if p < 1:
        c['size'] += 1 - p
    return c


# -------------------------------------------------------------------------------------------------- construction

def _ms(v):
    return None if v is None else ExpiryTime(v / 1000.0)


def aes_key_bytes(e):
    return random.Random(f"aes/{e['key']}/{e['bits']}").randbytes(e['bits'] // 8)


def kdf_data(e):
    if not e.get('kdf'):
        return None
    alg = {'sha256': KdfAlg.create_hkdf_sha256, 'sha384': KdfAlg.create_hkdf_sha384, 'sha512': KdfAlg.create_hkdf_sha512}[e['kdf']]()
    return KdfData(alg, None if e.get('kdfinfo') is None else KdfInfo(e['kdfinfo'].encode()))


def aead_params(e):
    mode = e.get('mode') or e['kind']
    key = (AeadGcm if mode == 'gcm' else AeadCcm)(aes_key_bytes(e))
    return AeadParameters(key=key, key_number=e['num'], aead_salt=e.get('salt'), kdf_data=kdf_data(e), kdf_salt=e.get('kdfsalt'))


def encryptor(e):
    if e is None:
        return None
    if e['kind'] in ('gcm', 'ccm'):
        return AeadEncryptor(aead_params(e))
    wk = KEYS[e['wrap']].rsakey()
    if e['kind'] == 'oaep':
        return RsaOaepEncryptor(wrapping_key=wk, params=aead_params(e))
    return RsaOaepEncryptor.create_with_new_content_key(wrapping_key=wk, kdf_data=kdf_data(e))


def signer(s):
    if s is None:
        return None
    if s == 'crc':
        return Crc32cSigner()
    return RsaSha256Signer(KEYS[s].rsakey())


def options(cfg, **over):
    kw = dict(name=mkname(cfg['name']),
              schema_type=SchemaType.parse(cfg['schema']),
              signer=None,
              manifest_prefix=mkname(cfg['mpre']),
              data_prefix=mkname(cfg['dpre']),
              manifest_locators=mklocators(cfg['mloc']),
              data_locators=mklocators(cfg['dloc']),
              root_expiry_time=_ms(cfg['exp'][0]),
              manifest_expiry_time=_ms(cfg['exp'][1]),
              data_expiry_time=_ms(cfg['exp'][2]),
              manifest_encryptor=None,
              add_node_subtree_size=cfg['flags'][0],
              add_group_subtree_size=cfg['flags'][1],
              add_group_leaf_size=cfg['flags'][2],
              max_tree_degree=cfg['degree'],
              max_packet_size=min(cfg['size'], 65535), debug=cfg.get('debug', False))
    kw.update(over)
    if 'signer' not in over:
        kw['signer'] = signer(cfg['sign'])
    if 'manifest_encryptor' not in over:
        kw['manifest_encryptor'] = encryptor(cfg['enc'])
    return ManifestTreeOptions(**kw)


class ShortRaw(io.RawIOBase):
    """A raw source (a pipe, a socket) that delivers what it likes, never nothing before the end."""

    def __init__(self, data, seed):
        self._d = data
        self._o = 0
        self._rng = random.Random(f'short/{seed}')

    def readable(self):
        return True

    def readinto(self, b):
        n = len(b)
        left = len(self._d) - self._o
        if left <= 0 or n == 0:
            return 0
        k = min(left, n, self._rng.choice([1, 3, n // 2 + 1, n, n, n]))
        b[:k] = self._d[self._o:self._o + k]
        self._o += k
        return k


def source(cfg, world, data, rel='in/file.bin'):
    """A context manager giving the data_input."""
    k = cfg.get('src', 'file')
    if k == 'bytesio':
        return io.BytesIO(data)
    if k == 'offset':
        # a file positioned behind a header that is not part of what is published
        head = hashlib.sha256(b'head' + len(data).to_bytes(8, 'big')).digest() * (1 + len(data) % 5)
        path = os.path.join(world.root, rel + '.off')
        if not os.path.exists(path):
            write_input(world, rel + '.off', head + data)
        f = open(path, 'rb')
        f.seek(len(head))
        return f
    if k == 'memio':
        f = io.BytesIO(b'header' + data)
        f.seek(6)
        return f
    if k == 'short':
        return io.BufferedReader(ShortRaw(data, cfg['data']['seed']), 512)
    if k == 'shortraw':
        return ShortRaw(data, cfg['data']['seed'])
    path = os.path.join(world.root, rel)
    if not os.path.exists(path):
        write_input(world, rel, data)
    return open(path, 'rb')


def publish(cfg, writer, world, data=None, opts=None, rel='in/file.bin', graph=None):
    if data is None:
        data = content(cfg['data'])
    if opts is None:
        opts = options(cfg)
    with source(cfg, world, data, rel) as src:
        burn = cfg.get('burn', 0)
        if burn + len(data) // max(1, payload_size(cfg)) > 0xFFFE00:
            burn = 0    # numbers end at 0xFFFFFF
        return build_tree(src, writer, opts, cfg.get('api'), burn, graph)


def burn_names(impl, n):
    """Chunks other data first, as far as that can be done in reasonable time."""
    if n > 10 and type(getattr(impl, '_next_chunk_id', None)) is int:
        # what so many calls leave behind
        impl._next_chunk_id += n - 3
        n = 3
    for _ in range(min(n, 260)):
        impl.chunk_data(io.BytesIO(b'x'), TreeIO.PacketMemoryWriter())


def build_tree(src, writer, opts, api=None, burn=0, graph=None):
    """The ways the library offers to publish one source."""
    if api == 'graph':
        return ManifestTree(data_input=src, packet_output=writer, tree_options=opts, manifest_graph=ManifestGraph() if graph is None else graph).build()
    if api == 'steps':
        tree = ManifestTree(src, writer, opts)
        return tree.build_root(tree.build_top())
    if api == 'meta':
        # the caller chunks the file first, then builds over the chunks it knows
        nc = NameConstructorContext.create(opts)
        burn_names(nc.data_schema_impl, burn)
        meta = nc.data_schema_impl.chunk_data(src, TreeIO.ChildPacketWriter(writer, opts.name))
        return ManifestTree(meta, writer, opts, name_context=nc).build()
    return ManifestTree(data_input=src, packet_output=writer, tree_options=opts).build()


def rsa_names(cfg):
    out = []
    if cfg['sign'] and cfg['sign'] != 'crc':
        out.append(cfg['sign'])
    if cfg['enc'] and cfg['enc'].get('wrap'):
        out.append(cfg['enc']['wrap'])
    return out


def keystore(cfg, sign=True, enc=True, extra=()):
    """What a reader needs: the signer's public key, the pre-shared key or the unwrapping private key."""
    ks = InsecureKeystore()
    add_keys(ks, cfg, sign, enc)
    return ks


def add_keys(ks, cfg, sign=True, enc=True):
    wrap = None
    if enc and cfg['enc']:
        e = cfg['enc']
        if e['kind'] in ('gcm', 'ccm'):
            ks.add_aes_key(aead_params(e))
        else:
            wrap = e['wrap']
    if sign and cfg['sign'] and cfg['sign'] != 'crc' and cfg['sign'] != wrap:
        ks.add_rsa_key('sign-' + cfg['sign'], KEYS[cfg['sign']].rsapub())
    if wrap:
        ks.add_rsa_key('wrap-' + wrap, KEYS[wrap].rsakey())
    return ks


def ref_aes(e):
    """(key, salt, salt of the KDF) for the reference codec"""
    return (aes_key_bytes(e), None if e['salt'] is None else e['salt'].to_bytes(4, 'big'), None if e.get('kdfsalt') is None else e['kdfsalt'].to_bytes(4, 'big'))


def ref_keys(cfg):
    e = cfg['enc']
    k = rc.Keys(pubs=[v.pub for v in KEYS.values()])
    if e:
        if e['kind'] in ('gcm', 'ccm'):
            k.aes[e['num']] = ref_aes(e)
        else:
            k.privs.append(KEYS[e['wrap']].priv)
    return k


class Sink:
    """Collects what a reader delivers; optionally faulted through the World."""

    def __init__(self):
        self.parts = []

    def write(self, data):
        b = data.tobytes() if isinstance(data, (array.array, memoryview)) else bytes(data)
        self.parts.append(b)
        return len(b)

    def value(self):
        return b''.join(self.parts)


class WireStore(PacketWriter, PacketReader):
    """A store that keeps only bytes, like a network: every get parses afresh."""

    def __init__(self):
        self.order = []
        self.by_hash = {}
        self.named = {}

    def put(self, packet):
        b = packet.serialize().tobytes()
        h = packet.content_object_hash().value()
        h = h.tobytes() if hasattr(h, 'tobytes') else bytes(h)
        self.order.append((h, b))
        self.by_hash[h] = b

    def add_raw(self, h, b):
        self.order.append((h, b))
        self.by_hash[h] = b

    def get(self, name, hash_restriction, forwarding_hints=None):
        if hash_restriction is None:
            for h, b in reversed(self.order):
                p = Packet.deserialize(array.array('B', b))
                if p.body().name() == name:
                    return p
            raise KeyError('no object with that name')
        h = hv(hash_restriction)
        return Packet.deserialize(array.array('B', self.by_hash[h]))

    def close(self):
        pass


def hv(x):
    v = x.value()
    return v.tobytes() if hasattr(v, 'tobytes') else bytes(v)


def phash(packet):
    return hv(packet.content_object_hash())


def hashvalue(b):
    return HashValue.create_sha256(b)


def read(packet_input, cfg, root_hash=None, ks='need', sink=None, name=None, traversal=None):
    """Reads through ccnpy's Traversal.  Returns (bytes, traversal)."""
    sink = sink if sink is not None else Sink()
    if ks == 'need':
        ks = keystore(cfg) if (cfg['sign'] or cfg['enc']) else None
    t = traversal or Traversal(packet_input=packet_input, data_writer=sink, keystore=ks)
    t.traverse(root_name=name or mkname(cfg['name']), hash_restriction=None if root_hash is None else hashvalue(root_hash))
    return sink.value(), t


# -------------------------------------------------------------------------------------------------- directory view

HASHNAME = re.compile(r'^[0-9a-f]{64}$')


def rawfile(path):
    with R.open(path, 'rb') as f:
        return f.read()


def dir_files(d):
    """{relative path: bytes} of everything visible below d (real file system, no simulated operation)."""
    out = {}
    for base, dirs, files in _walk(d):
        for f in files:
            p = os.path.join(base, f)
            out[os.path.relpath(p, d)] = rawfile(p)
    return out


def _walk(d):
    dirs, files = [], []
    with R.scandir(d) as it:
        for e in sorted(it, key=lambda e: e.name):
            (dirs if e.is_dir(follow_symlinks=False) else files).append(e.name)
    yield d, dirs, files
    for x in dirs:
        yield from _walk(os.path.join(d, x))


def objects(d):
    """{hash: bytes} of the hash-named files below d."""
    return {bytes.fromhex(os.path.basename(k)): v for k, v in dir_files(d).items() if HASHNAME.match(os.path.basename(k))}


def links(d):
    return {k: v for k, v in dir_files(d).items() if k.endswith('.link')}


def link_file(name_uri):
    return TreeIO.get_link_name(mkname(name_uri))


def ref_walk_dir(d, root_hash, keys):
    objs = {}

    def get(h):
        if h not in objs:
            x = h.hex()
            objs[h] = None
            for p in (os.path.join(d, x), os.path.join(d, x[:2], x[2:4], x)):
                if os.path.exists(p):
                    objs[h] = rawfile(p)
                    break
        return objs[h]
    return rc.walk(get, root_hash, keys)


def comps(name):
    """ccnpy Name -> tuple of (type, bytes) as refcodec has it."""
    if name is None:
        return None
    return rc.parse_name(name.serialize().tobytes()[4:])


# -------------------------------------------------------------------------------------------------- process incarnations

def incarnation(ctx, w, name, fn, seed=0, faults=(), skew_ns=0, pid=None, record=False, limit=60, after_op=None, entropy=None):
    """
    One simulated process: a fork of the pristine image that runs fn(proc) and then is gone.  Only the directory (and
    what fn returns) survives.  -> {'status': 'ok'|'crash'|'error', 'res', 'nops', 'ops', 'etype', 'where', 'msg'}
    """
    def job():
        before = dict(w.fired)
        sim0 = w.sim_ns
        n0 = w.nops
        p = w.new_proc(name, seed=seed, faults=list(faults), skew_ns=skew_ns, pid=pid)
        if entropy is not None:
            p.entropy_script = entropy
        w.record_ops = record
        w.after_op = after_op
        w.memory = memory.Memory()
        w.set_proc(p)
        r = {'status': 'ok', 'res': None, 'etype': None, 'where': '', 'msg': ''}
        try:
            r['res'] = fn(p)
        except seams.SimCrash:
            r['status'] = 'crash'
        except seams.SimHang:
            raise
        except Exception as e:  # noqa
            r.update(status='error', etype=type(e).__name__, where=ctx.where(e), msg=str(e)[:200])
        r.update(nops=p.nops, ops=p.ops if record else None, clock=w.clock_ns, mono=w.mono_ns, sim=w.sim_ns - sim0, wn=w.nops - n0,
                 fired={k: v - before.get(k, 0) for k, v in w.fired.items() if v != before.get(k, 0)}, trace=w.trace.hexdigest())
        return r
    r = ctx.fork(job, limit)
    if 'status' not in r:
        if 'hang' in r:
            raise seams.SimHang(f'{name}: {r["hang"]}')
        raise RuntimeError(f'incarnation {name}: {r}')
    # ids keep counting as they would on one machine
    w.procs.append(None)
    w.clock_ns, w.mono_ns = r['clock'], r['mono']
    w.sim_ns += r['sim']
    w.nops += r['wn']
    for k, v in r['fired'].items():
        w.fired[k] = w.fired.get(k, 0) + v
    w.log(name, r['status'], r['etype'], r['trace'])
    return r


def dir_writer(d, cfg, link=True, nested=False):
    s = signer(cfg['sign']) if cfg.get('lsign', True) else None
    return TreeIO.PacketDirectoryWriter(d, link_named_objects=link, nested=nested, signer=s)


def publish_dir(cfg, d, w, data, link=True, nested=False, rel='in/file.bin'):
    """publish into a directory, returns the root hash as hex"""
    root = publish(cfg, dir_writer(d, cfg, link, nested), w, data, rel=rel)
    return phash(root).hex()


def ref_dir(d, rh, cfg):
    """Reads a collection in a directory with the reference reader; bytes or the reason why not."""
    try:
        return ref_walk_dir(d, bytes.fromhex(rh) if isinstance(rh, str) else rh, ref_keys(cfg)).bytes()
    except KeyError as e:
        return f'missing object {e}'
    except (rc.Bad, rc.NoKey, rc.Tamper) as e:
        return f'{type(e).__name__} {e}'


def visible(d, h):
    if isinstance(h, bytes):
        h = h.hex()
    return any(os.path.exists(p) for p in (os.path.join(d, h), os.path.join(d, h[:2], h[2:4], h)))


def read_dir(d, cfg, rh=None, traversal=None, sink=None):
    """('ok', bytes) or ('error', type, msg, delivered)"""
    sink = sink or Sink()
    try:
        b, _ = read(TreeIO.PacketDirectoryReader(d), cfg, bytes.fromhex(rh) if isinstance(rh, str) else rh, sink=sink)
        return ('ok', b)
    except Exception as e:  # noqa
        return ('error', type(e).__name__, str(e)[:160], sink.value())


def gen_crash(rng):
    """One crash of a process, at an operation counted from the end when negative."""
    k = rng.choice(['crash', 'crash', 'crash_after', 'torn', 'torn'])
    return {'at': rng.choice([-1, -2, -3, -4, -5, -6, -8, -10, -12, -rng.randrange(1, 40), rng.randrange(0, 400), rng.randrange(0, 60)]),
            'kind': k, 'n': rng.choice([0, 1, 7, 8, 100, rng.randrange(0, 1600)])}


ERRS = ['eio', 'eio', 'enospc', 'enospc', 'eacces', 'emfile', 'torneio', 'short', 'nomem']


def gen_err(rng):
    k = rng.choice(ERRS)
    f = {'at': rng.choice([-1, -2, -3, -4, -5, -6, -8, -rng.randrange(1, 40), rng.randrange(0, 400), rng.randrange(0, 60)]),
         'kind': k, 'n': rng.choice([0, 1, 7, 100, rng.randrange(0, 1600)])}
    if k == 'enospc':
        f['sticky'] = rng.random() < .5
    return f


FITS = {'torn': ('write',), 'torneio': ('write',), 'enospc': ('write', 'creat', 'mkdir', 'rename', 'close', 'fsync', 'link'),
        'eacces': ('open', 'creat', 'rename', 'mkdir', 'link'), 'emfile': ('open', 'creat'), 'short': ('read', 'write', 'send'),
        'nomem': None, 'eio': ('open', 'creat', 'read', 'write', 'close', 'rename', 'unlink', 'mkdir', 'link', 'listdir', 'scandir', 'fsync',
                               'ftruncate', 'connect', 'socket', 'send', 'shutdown', 'sockclose'),
        'reset': ('send',), 'slow': ('send',), 'refuse': ('connect',), 'stall': ('connect',), 'lost': ('open',), 'eof': ('read',), 'flip': ('read',)}


def place(f, ops):
    """Resolve a fault's position against the operations [(kind, path, n)] of a dry run: the nearest operation it can hit."""
    n = len(ops)
    if n == 0:
        return dict(f, at=0)
    at = f['at'] % n if f['at'] >= 0 else max(0, n + f['at'])
    fits = FITS.get(f['kind'])
    if fits is not None and ops[at][0] not in fits:
        for delta in range(1, n):
            for x in (at - delta, at + delta):
                if 0 <= x < n and ops[x][0] in fits:
                    return dict(f, at=x)
    return dict(f, at=at)


# -------------------------------------------------------------------------------------------------- command line tools

def gen_cli_cfg(rng, max_chunks=30, enc=.5, sign=.6, schemas=('Hashed', 'Prefix', 'Segmented'), **kw):
    """A configuration the manifest_writer's options can express."""
    c = gen_cfg(rng, max_chunks=max_chunks, enc=enc, sign=0, schemas=schemas, flags=False, src=False, odd=0, **kw)
    if c['schema'] == 'Segmented':
        c['mpre'] = c['mpre'] or gen_name(rng) + '/m'
        c['dpre'] = c['dpre'] or gen_name(rng) + '/d'
    else:
        c['mpre'] = c['dpre'] = None
    c['size'] = max(c['size'], manifest_overhead(c) + 120, root_overhead(c))
    c['sign'] = rng.choice(['k1024_1', 'k2048_1', 'k2048_2']) if rng.random() < sign else None
    c['exp'] = [None if e is None else min(e, rng.choice([4102444800000, 253402300799999])) for e in c['exp']]
    if c['enc']:
        if c['enc'].get('salt') is None and 'salt' in c['enc'] and rng.random() < .5:
            c['enc']['salt'] = rng.getrandbits(32)
        if 'num' in c['enc'] and rng.random() < .3:
            c['enc']['num'] = None           # derived from the key
    c['pw'] = [rng.choice(['arg', 'prompt']), rng.choice(['arg', 'prompt'])]
    return c


def iso(ms):
    import datetime
    dt = R.datetime(1970, 1, 1, tzinfo=datetime.timezone.utc) + datetime.timedelta(milliseconds=ms)
    return dt.isoformat(timespec='milliseconds')


ENC_PEM = {'k2048_1': ('k2048_1.enc.pem', 's3cret-pass')}


def key_args(cfg, side, pub=False, enc_pem=False):
    """-> (argv, passphrases)"""
    a, pw = [], []
    if cfg['sign']:
        f, p = cfg['sign'] + ('.pub.pem' if pub else '.pem'), ''
        if enc_pem and not pub and cfg['sign'] in ENC_PEM:
            f, p = ENC_PEM[cfg['sign']]
        a += ['-k', os.path.join(KEYDIR, f)]
        if p and (side == 'reader' or cfg['pw'][0] == 'arg'):
            a += ['-p', p]
        else:
            pw.append(p)
    else:
        pw.append('')
    e = cfg['enc']
    if e:
        if e.get('wrap'):
            f, p = e['wrap'] + '.pem', ''
            if enc_pem and e['wrap'] in ENC_PEM:
                f, p = ENC_PEM[e['wrap']]
            if side == 'writer' and not p and cfg['data']['seed'] % 2:
                f = e['wrap'] + '.pub.pem'
            a += ['--wrap-key', os.path.join(KEYDIR, f)]
            if p and (side == 'reader' or cfg['pw'][1] == 'arg'):
                a += ['--wrap-pass', p]
            else:
                pw.append(p)
        if 'key' in e and (side == 'writer' or not e.get('wrap')):
            hexkey = aes_key_bytes(e).hex()
            a += ['--enc-key', ('0x' if e['key'] % 2 else '') + hexkey]
            mode = e.get('mode') or e['kind']
            if mode == 'ccm' or e['key'] % 3 == 0:
                a += ['--aes-mode', mode.upper() if e['key'] % 5 else mode]
            if e.get('num') is not None:
                a += ['--key-num', str(e['num'])]
            if e.get('salt') is not None:
                a += ['--salt', hex(e['salt']) if e['key'] % 2 else str(e['salt'])]
        if side == 'writer' and e.get('kdf'):
            a += ['--kdf', 'hkdf-' + e['kdf']]
            if e.get('kdfinfo'):
                a += ['--kdf-info', e['kdfinfo']]
            elif e.get('uuid'):
                a += ['--kdf-uuid']
    return a, pw


def writer_argv(cfg, infile, out_dir=None, link=False, tcp=False, enc_pem=False):
    a = ['--schema', cfg['schema'], '--name', cfg['name']]
    for o, k in (('--manifest-locator', 'mloc'), ('--data-locator', 'dloc'), ('--manifest-prefix', 'mpre'), ('--data-prefix', 'dpre')):
        if cfg[k]:
            a += [o, cfg[k]]
    if cfg['degree']:
        a += ['-d', str(cfg['degree'])]
    a += ['-s', str(min(cfg['size'], 65535))]
    for o, e in zip(('--root-expiry', '--node-expiry', '--data-expiry'), cfg['exp']):
        if e is not None:
            a += [o, iso(e)]
    k, pw = key_args(cfg, 'writer', enc_pem=enc_pem)
    a += k
    if tcp:
        a += ['-T']
    else:
        a += ['-o', out_dir]
        if link:
            a += ['--link']
    return a + [infile], pw


def reader_argv(cfg, in_dir, rh=None, outfile=None, pub=False, enc_pem=False):
    a = ['--name', cfg['name'], '-i', in_dir]
    if rh is not None:
        a += ['--hash', rh]
    k, _ = key_args(cfg, 'reader', pub=pub, enc_pem=enc_pem)
    a += k
    if outfile:
        a += ['--output', outfile]
    return a


def run_cli(app, argv, passphrases=(), w=None):
    """Runs a tool's run() in this process -> [exit, stdout bytes].  exit 0 is a normal end; 'Type: message' an uncaught error."""
    import importlib
    import sys
    mod = importlib.import_module('ccnpy.apps.' + app)
    old = sys.argv, sys.stdout
    raw = io.BytesIO()
    sys.argv = [app] + list(argv)
    # as when it is a pipe or a file: text stays in the wrapper until it is flushed
    sys.stdout = io.TextIOWrapper(raw, encoding='utf-8')
    if w is not None:
        w.passphrases = list(passphrases)
    code = 0
    try:
        try:
            mod.run()
        except SystemExit as e:
            code = e.code if e.code is not None else 0
        except Exception as e:  # noqa - the interpreter prints a traceback and exits with 1
            code = f'{type(e).__name__}: {str(e)[:200]}'
        try:
            sys.stdout.flush()
        except ValueError:
            pass
        return [code, raw.getvalue()]
    finally:
        sys.argv, sys.stdout = old
