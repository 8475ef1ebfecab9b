"""C02: a reader never delivers bytes that were not published."""
import array
import hashlib
import os
import random

import refcodec as rc
import scen
import seams
from seams import R

KINDS = ['drop', 'missing', 'none', 'flip', 'flip', 'flip', 'trunc', 'extend', 'swap_own', 'swap_own', 'swap_other', 'stale', 'delayed', 'delayed',
         'dup', 'forge_data', 'forge_data', 'forge_node', 'forge_link', 'garbage', 'slow', 'twin', 'twin']
DISK = ['flip', 'trunc', 'swap_own', 'swap_other', 'delete', 'empty', 'forge_data', 'forge_node', 'twin', 'append', 'dir']
OPF = ['eio', 'short', 'flip', 'eof', 'lost', 'eacces', 'emfile']


def gen(rng, tier, i, ctx):
    cfg = scen.gen_cfg(rng, max_chunks=25, flags=False, src=False, enc=.3)
    store = rng.choice(['wire', 'wire', 'mem', 'dir'])
    plan = {'cfg': cfg, 'store': store, 'other_seed': rng.randrange(1 << 30), 'reads': []}
    for _ in range(rng.choice([2, 4, 6])):
        rd = {'faults': [], 'same': rng.random() < .3, 'retry': rng.choice([0, 0, 1, 3])}
        for _ in range(rng.choice([0, 1, 1, 1, 1, 2, 3, 6])):
            if store == 'dir' and rng.random() < .5:
                rd['faults'].append({'at': rng.randrange(0, 60), 'kind': rng.choice(OPF), 'n': rng.randrange(0, 12000), 'op': True})
            else:
                kind = rng.choice(DISK if store == 'dir' else KINDS)
                # an object is hit for good (pos counts objects), or the answer of one request is
                rd['faults'].append({'at': rng.choice([0, 1, 2, rng.randrange(0, 40)]), 'kind': kind, 'n': rng.randrange(0, 20000),
                                     'm': rng.randrange(0, 1000), 'persist': rng.random() < .4})
        plan['reads'].append(rd)
    return plan


def header(body):
    n = len(body) + 8
    return bytes([1, 1, n >> 8 & 255, n & 255, 64, 0, 0, 8]) + body


def enc_name(comps):
    return rc.tlv(0, b''.join(rc.tlv(t, v) for t, v in comps))


def forge(like, ptype, payload, seed=0):
    """A well-formed, unsigned object with the name and kind of `like` and other contents."""
    co = b''
    if like.name is not None:
        co += enc_name(like.name)
    co += rc.tlv(5, bytes([ptype])) + rc.tlv(1, payload)
    return header(rc.tlv(2, co))


def forge_twin(o):
    """Same object, extra or changed parts around it that a lenient parser may drop."""
    ts = rc.tlvs(o.raw[8:])
    return header(b''.join(r for _, _, r in ts[:1]) + rc.tlv(0x0FFF, b'pad') + b''.join(r for _, _, r in ts[1:]))


class Answers:
    """What comes back for a request: the stored bytes, changed by the faults of this read."""

    def __init__(self, w, order, objs, other, faults):
        self.w = w
        self.order = order
        self.objs = objs
        self.other = other
        self.n = 0
        self.prev = None
        self.by_req = {}
        self.by_obj = {}
        for f in faults:
            if f.get('op'):
                continue
            if f['persist']:
                if order:
                    self.by_obj.setdefault(order[f['at'] % len(order)], f)
            else:
                self.by_req.setdefault(f['at'], f)

    def answer(self, h):
        f = self.by_req.get(self.n) or self.by_obj.get(h)
        self.n += 1
        raw = self.objs.get(h)
        got = raw
        if f is not None:
            got = self.change(f, h, raw)
            self.w.count(f['kind'] + ('@store' if f['persist'] else '@reply'))
        self.w.log('ans', h[:4], hashlib.sha256(got or b'').digest()[:4])
        if raw is not None:
            self.prev = raw
        if got is None:
            raise KeyError('no such object')
        return got

    def change(self, f, h, raw):
        k = f['kind']
        if raw is None:
            return None
        n, m = f['n'], f['m']
        o = rc.parse_packet(raw)
        if k == 'drop':
            self.w.sleep(4)
            raise TimeoutError('no answer')
        if k == 'missing':
            return None
        if k == 'none':
            raise NoneAnswer()
        if k == 'flip':
            b = bytearray(raw)
            i = n % (len(b) * 8)
            b[i // 8] ^= 1 << (i % 8)
            return bytes(b)
        if k == 'trunc':
            return raw[:n % len(raw)]
        if k in ('extend', 'append'):
            return raw + raw[:1 + n % 50]
        if k == 'swap_own':
            return self.objs[self.order[n % len(self.order)]]
        if k == 'swap_other':
            return self.other[n % len(self.other)]
        if k == 'stale':
            # the object that stands in the same place of another collection
            pos = self.order.index(h)
            return self.other[pos % len(self.other)]
        if k in ('delayed', 'dup'):
            return self.prev if self.prev is not None else raw
        if k == 'forge_data':
            pay = o.payload or b''
            if o.ptype == rc.DATA and m % 2:
                pay = bytes([pay[0] ^ 1]) + pay[1:] if pay else b'x'
            else:
                pay = random.Random(n).randbytes(len(pay) or 1)
            return forge(o, rc.DATA, pay)
        if k == 'forge_node':
            # a plain manifest over data of this collection in another order, or over the attacker's data
            datas = [x for x in self.order if rc.parse_packet(self.objs[x]).ptype == rc.DATA]
            rnd = random.Random(n)
            ptrs = [rnd.choice(datas) for _ in range(1 + m % 5)]
            ncid = m % 6
            grp = rc.tlv(0xB, rc.tlv(5, bytes([ncid])) + rc.tlv(4, b'\0')) + rc.tlv(7, b''.join(rc.tlv(1, p) for p in ptrs))
            return forge(o, rc.MANIFEST, rc.tlv(1, rc.tlv(1, grp)))
        if k == 'forge_link':
            return forge(o, rc.LINK, (enc_name(o.name) if o.name else b'') + rc.tlv(3, rc.tlv(1, h)))
        if k == 'garbage':
            return random.Random(n).randbytes(m % 300)
        if k == 'twin':
            return forge_twin(o) if m % 2 else raw[:4] + bytes([m % 256, n % 256, n // 256 % 256]) + raw[7:]
        if k == 'slow':
            self.w.sleep(n % 300)
            return raw
        if k == 'empty':
            return b''
        raise ValueError(k)


class NoneAnswer(Exception):
    pass


class FaultyReader(scen.PacketReader):
    """A network: parses whatever arrives, as a forwarder client would; retries lost answers a few times."""

    def __init__(self, retry):
        self.ans = None
        self.retry = retry
        self.gets = 0

    def get(self, name, hash_restriction, forwarding_hints=None):
        self.gets += 1
        if self.gets > 5000:
            raise seams.SimHang('endless requests')
        h = scen.hv(hash_restriction)
        for k in range(self.retry + 1):
            try:
                return scen.Packet.deserialize(array.array('B', self.ans.answer(h)))
            except NoneAnswer:
                if k == self.retry:
                    return None
            except (TimeoutError, KeyError):
                if k == self.retry:
                    raise

    def close(self):
        pass


def execute(plan, ctx, out):
    cfg = plan['cfg']
    data = scen.content(cfg['data'])
    w = ctx.world(plan)
    with seams.activate(w):
        st = scen.WireStore()
        root = scen.publish(cfg, st, w, data)
        rh = scen.phash(root)
        # another collection and an older version with the same names
        cfg2 = dict(cfg, data=dict(cfg['data'], seed=plan['other_seed'], kind='rand'))
        st2 = scen.WireStore()
        scen.publish(cfg2, st2, w, rel='in/other.bin')
        other = [b for _, b in st2.order]
        order = []
        for h, _ in st.order:
            if h not in order:
                order.append(h)
        order.reverse()      # root first
        t = sink = rdr = None
        full = faulty = 0
        for ri, rd in enumerate(plan['reads']):
            faults = rd['faults']
            ans = Answers(w, order, st.by_hash, other, faults)
            if t is None or not rd['same']:
                sink = scen.Sink()
                if plan['store'] == 'dir':
                    d = ctx.newdir(f'r{ri}')
                    for h in order:
                        with R.open(os.path.join(d, h.hex()), 'wb') as f:
                            f.write(st.by_hash[h])
                    rdr = scen.TreeIO.PacketDirectoryReader(d)
                elif plan['store'] == 'mem':
                    rdr = None
                else:
                    rdr = FaultyReader(rd['retry'])
                t = None
            else:
                sink.parts.clear()
            if plan['store'] == 'dir':
                for f in faults:
                    if not f.get('op'):
                        hit_file(w, ans, d, order, f)
                p = w.new_proc(f'reader{ri}', seed=ri, faults=[f for f in faults if f.get('op')])
                w.set_proc(p)
            elif plan['store'] == 'mem':
                rdr = memory_reader(ans, order)
                t = None
                sink.parts.clear()
            else:
                rdr.ans = ans
                rdr.gets = 0
            err = None
            try:
                if t is None:
                    t = scen.Traversal(packet_input=rdr, data_writer=sink, keystore=scen.keystore(cfg) if cfg['sign'] or cfg['enc'] else None)
                t.traverse(root_name=scen.mkname(cfg['name']), hash_restriction=scen.hashvalue(rh))
            except Exception as e:  # noqa - every error is a legitimate end of a faulted read
                err = e
            w.set_proc(None)
            got = sink.value()
            w.log(hashlib.sha256(got).digest(), type(err).__name__)
            if not data.startswith(got):
                n = next((k for k in range(min(len(got), len(data))) if got[k] != data[k]), len(data))
                out.violate('delivered-unpublished', f'read {ri}: {len(got)} bytes delivered, not a prefix of the file from byte {n} '
                                                     f'({"error " + type(err).__name__ if err else "success reported"})')
            elif err is None and got != data:
                out.violate('success-without-whole-file', f'read {ri}: success reported with {len(got)} of {len(data)} bytes')
            elif err is not None and not faults and plan['store'] != 'dir':
                out.violate('clean-read-failed', f'read {ri} (no faults): {type(err).__name__}: {err} at {ctx.where(err)}')
            if err is None:
                full += 1
            else:
                faulty += 1
        out.count('reads_full', full)
        out.count('reads_error', faulty)
    out.absorb(w)
    out.nontrivial = len(order) >= 3 and faulty > 0
    out.count('store_' + plan['store'])


def memory_reader(ans, order):
    """PacketMemoryReader over objects some of which arrived changed."""
    packets = []
    for h in order:
        try:
            packets.append(scen.Packet.deserialize(array.array('B', ans.answer(h))))
        except Exception:  # noqa
            pass
    r = scen.TreeIO.PacketMemoryReader(packets)
    # a table that was filled under the requested hash, not the object's own
    for h, p in zip(order, packets):
        r.by_hash.setdefault(scen.hashvalue(h), p)
    return r


def hit_file(w, ans, d, order, f):
    h = order[f['at'] % len(order)]
    path = os.path.join(d, h.hex())
    w.count(f['kind'] + '@disk')
    try:
        if f['kind'] == 'delete':
            R.unlink(path)
        elif f['kind'] == 'dir':
            R.unlink(path)
            R.mkdir(path)
        else:
            b = ans.change(f, h, ans.objs[h])
            with R.open(path, 'wb') as fh:
                fh.write(b)
    except OSError:
        pass
