"""C09: signatures cover what is stored, and forged roots are rejected."""
import array
import hashlib
import os
import random

from cryptography.hazmat.primitives import hashes
from cryptography.hazmat.primitives.asymmetric import padding

import refcodec as rc
import scen
import seams
from seams import R

STARTS = [0, 1_000_000, 999_999_999, 1_000_000_000, 1_700_000_000_000_000_000, 1_700_000_000_999_999_999, 1_709_208_000_123_456_789,
          2_147_483_647_999_000_000, 4_294_967_296_000_000_000, 951_782_399_999_000_000, 253401000000 * 10**9]
KINDS = ['flip_body', 'flip_body', 'flip_body', 'flip_alg', 'flip_alg', 'flip_sig', 'flip_sig', 'trunc_sig', 'empty_sig', 'long_sig', 'zero_sig', 'payload',
         'payload', 'name', 'expiry', 'sigtime', 'keyid_other', 'keyid_random', 'resign_other', 'resign_other', 'resign_named', 'resign_named', 'sig_of_other', 'sig_of_link', 'alg_of_other',
         'add_tlv', 'drop_tlv', 'swap_tlv', 'child', 'child', 'double_alg', 'late_body']

PROCESSES = True        # its simulated processes may have separate memories


def gen(rng, tier, i, ctx):
    pubs = []
    sign = rng.choice(['crc', 'k1024_1', 'k1024_2', 'k2048_1', 'k2048_2', 'k2048_1'])
    for k in range(rng.choice([1, 2, 3])):
        c = scen.gen_cfg(rng, max_chunks=10, enc=.3, sign=1, src=False, flags=False)
        c['sign'] = sign if rng.random() < .8 else rng.choice(['crc', 'k1024_1', 'k2048_2'])
        if c['enc'] and c['enc'].get('wrap') and rng.random() < .5:
            c['enc']['wrap'] = c['sign'] if c['sign'] != 'crc' else c['enc']['wrap']
        pubs.append({'cfg': c, 'link': rng.random() < .8, 'share_signer': rng.random() < .7, 'jump': rng.choice([0, 0, 1, -1]) * rng.randrange(10**rng.choice([6, 9, 12, 15])),
                     'fork': rng.random() < .2, 'skew': rng.choice([0, 0, 0, 37 * 60 * 10**9, -10**9])})
    start = rng.choice(STARTS)
    if start < 10**15 or start > 10**20:
        for p in pubs:
            p['jump'] = abs(p['jump']) if start < 10**15 else -abs(p['jump'])
            p['skew'] = 0
    forg = []
    for _ in range(rng.choice([4, 8, 14])):
        forg.append({'kind': rng.choice(KINDS), 'pos': rng.randrange(0, 20000), 'n': rng.randrange(0, 1 << 30), 'by': rng.choice(['hash', 'hash', 'name']),
                     'same': rng.random() < .5, 'after_good': rng.random() < .5, 'both_keys': rng.random() < .3})
    jumps = [[rng.randrange(1, 80), rng.choice([-1, 1]) * rng.randrange(1, 10**rng.choice([3, 6, 9, 11]))] for _ in range(rng.choice([0, 0, 1, 3]))]
    if start < 10**15 or start > 10**20:
        jumps = []
    return {'pubs': pubs, 'forge': forg, 'clock': {'start': start, 'tick': rng.choice([1, 1000, 999_999, 10**9]), 'jumps': jumps}}


def header(body, like):
    n = len(body) + 8
    return bytes(like[:2]) + bytes([n >> 8 & 255, n & 255]) + bytes(like[4:8]) + body


def split(o):
    """[content object TLV, alg TLV, payload TLV] raw"""
    return [r for _, _, r in rc.tlvs(o.raw[8:])]


def sign(keyname, *bufs):
    return scen.KEYS[keyname].priv.sign(b''.join(bufs), padding.PKCS1v15(), hashes.SHA256())


def flip(b, n, lo=0):
    b = bytearray(b)
    i = lo * 8 + n % ((len(b) - lo) * 8)
    b[i // 8] ^= 1 << (i % 8)
    return bytes(b)


def co_parts(co):
    return [list(x) for x in rc.tlvs(co[4:])]


def make_co(parts):
    return rc.tlv(2, b''.join(rc.tlv(t, v) for t, v in parts))


def forge(f, o, cfg, other, link, objs):
    """The altered root's bytes, or None when this alteration does not apply."""
    co, alg, pay = split(o)
    k, n = f['kind'], f['n']
    rsa = cfg['sign'] != 'crc'
    rnd = random.Random(n)
    raw = None
    if k == 'flip_body':
        co = flip(co, f['pos'] * 7 + n, 4)
    elif k == 'flip_alg':
        if len(alg) <= 8:
            return None
        alg = flip(alg, n, 8)
    elif k == 'flip_sig':
        pay = flip(pay, n, 4)
    elif k == 'trunc_sig':
        pay = rc.tlv(4, pay[4:4 + n % max(1, len(pay) - 5)])
    elif k == 'empty_sig':
        pay = rc.tlv(4, b'')
    elif k == 'long_sig':
        pay = rc.tlv(4, pay[4:] + rnd.randbytes(1 + n % 8))
    elif k == 'zero_sig':
        pay = rc.tlv(4, bytes(len(pay) - 4))
    elif k in ('payload', 'name', 'expiry', 'add_tlv', 'drop_tlv', 'swap_tlv', 'child'):
        parts = [(t, v) for t, v, _ in rc.tlvs(co[4:])]
        if k == 'payload':
            if other is None:
                return None
            parts = [(t, rc.parse_packet(other).payload if t == 1 else v) for t, v in parts]
        elif k == 'child':
            # lead to another object of the collection, or make up pointers
            hs = sorted(objs)
            m = bytes(o.payload)
            for h in hs:
                p = m.find(h)
                if p >= 0:
                    new = hs[n % len(hs)]
                    if new == h:
                        new = hs[(n + 1) % len(hs)]
                    m = m[:p] + new + m[p + 32:]
                    break
            else:
                return None
            parts = [(t, m if t == 1 else v) for t, v in parts]
        elif k == 'name':
            parts = [(t, rc.tlv(1, b'evil') if t == 0 else v) for t, v in parts]
        elif k == 'expiry':
            if o.expiry is None:
                parts.insert(1, (6, rnd.randbytes(8)))
            else:
                parts = [(t, (o.expiry ^ 1 << n % 40).to_bytes(8, 'big') if t == 6 else v) for t, v in parts]
        elif k == 'add_tlv':
            parts.insert(n % (len(parts) + 1), (rnd.choice([7, 7, 0x0FFE, 0x1000, 0x13]), rnd.randbytes(1 + n % 3)))
        elif k == 'drop_tlv':
            keep = [x for x in range(len(parts)) if parts[x][0] not in (1, 5)]
            if not keep:
                return None
            parts.pop(keep[n % len(keep)])
        else:
            if len(parts) < 2:
                return None
            a = n % (len(parts) - 1)
            parts[a], parts[a + 1] = parts[a + 1], parts[a]
        co = make_co(parts)
    elif k == 'sigtime':
        if not rsa:
            return None
        i = alg.find(b'\x00\x0f\x00\x08')
        if i < 0:
            return None
        alg = alg[:i + 4] + ((o.valg['sigtime'] + 1 + n % 10**6) & (1 << 41) - 1).to_bytes(8, 'big') + alg[i + 12:]
    elif k in ('keyid_other', 'keyid_random', 'resign_other', 'resign_named'):
        if not rsa:
            return None
        oth = [x for x in scen.KEYS if x != cfg['sign']][n % 3]
        kid = o.valg['keyid']
        if k == 'keyid_random':
            alg = alg.replace(kid, rnd.randbytes(32))
        elif k == 'keyid_other':
            alg = alg.replace(kid, scen.KEYS[oth].id)
        elif k == 'resign_named':
            # the key that the reader holds signs in the name of another, held or not
            alg = alg.replace(kid, scen.KEYS[oth].id)
            if f['both_keys']:
                co = flip(co, n, len(co) - 1)
            pay = rc.tlv(4, sign(cfg['sign'], co, alg))
        else:
            pay = rc.tlv(4, sign(oth, co, alg))
    elif k == 'sig_of_other':
        if other is None:
            return None
        pay = split(rc.parse_packet(other))[2] if len(split(rc.parse_packet(other))) == 3 else None
        if pay is None:
            return None
    elif k == 'sig_of_link':
        if link is None:
            return None
        ls = split(rc.parse_packet(link))
        alg, pay = ls[1], ls[2]
    elif k == 'alg_of_other':
        if other is None or len(split(rc.parse_packet(other))) != 3:
            return None
        alg = split(rc.parse_packet(other))[1]
    elif k == 'double_alg':
        raw = header(co + alg + alg + pay, o.raw)
    elif k == 'late_body':
        raw = header(co + alg + pay + rc.tlv(2, co[4:]), o.raw)
    else:
        raise ValueError(k)
    if raw is None:
        raw = header(co + alg + pay, o.raw)
    return None if raw == o.raw else raw


def cohash(raw):
    """The hash a store would file these bytes under, whatever they are."""
    try:
        return rc.parse_packet(raw).hash
    except rc.Bad:
        try:
            return hashlib.sha256(raw[8:]).digest()
        except Exception:  # noqa
            return hashlib.sha256(raw).digest()


def execute(plan, ctx, out):
    w = ctx.world(plan)
    with seams.activate(w):
        reads = []
        real_now = w.now_ns

        def now():
            v = real_now()
            reads.append(v)
            return v
        w.now_ns = now
        signers = {}
        done = []
        for k, p in enumerate(plan['pubs']):
            cfg = p['cfg']
            d = ctx.newdir(f'o{k}')
            data = scen.content(cfg['data'])
            scen.write_input(w, f'in/f{k}.bin', data)
            w.clock_ns += p['jump']
            s = signers.get(cfg['sign']) if p['share_signer'] else None
            if s is None:
                s = signers[cfg['sign']] = scen.signer(cfg['sign'])
            pr = w.new_proc(f'pub{k}', seed=300 + k, skew_ns=p['skew'])
            w.set_proc(pr)
            reads.clear()
            saved = {}

            def after(proc, kind, paths):
                for x in paths:
                    if x.startswith(d) and x.endswith('.link'):
                        saved[os.path.relpath(x, d)] = None
            try:
                wr = scen.TreeIO.PacketDirectoryWriter(d, link_named_objects=p['link'], signer=s)
                opts = scen.options(cfg, signer=s)
                # what the options' set-up read is not this publish
                root = scen.publish(cfg, wr, w, data, opts=opts, rel=f'in/f{k}.bin')
            except Exception as e:  # noqa
                w.set_proc(None)
                out.violate(f'publish-failed:{type(e).__name__}:{ctx.where(e)}', f'publish {k}: {e} (clock {w.clock_ns})')
                continue
            finally:
                w.set_proc(None)
            times = sorted(set(reads))
            # what is stored, read by an independent verifier
            rh = scen.phash(root)
            pubs = [scen.KEYS[cfg['sign']].pub] if cfg['sign'] != 'crc' else []
            stored = [('root', scen.rawfile(os.path.join(d, rh.hex())))] + [('link ' + n, b) for n, b in scen.links(d).items()]
            for what, b in stored:
                check_stored(out, k, what, b, pubs, times, cfg, p)
            done.append({'cfg': cfg, 'd': d, 'data': data, 'rh': rh, 'raw': stored[0][1], 'link': stored[1][1] if len(stored) > 1 else None,
                         'linked': p['link'], 'objs': scen.objects(d)})
            out.count('signed_objects', len(stored))
        w.now_ns = real_now
        rejected = 0
        trav = {}
        for fi, f in enumerate(plan['forge']):
            if not done:
                break
            c = done[f['pos'] % len(done)]
            cfg, d = c['cfg'], c['d']
            others = [x for x in done if x is not c]
            other = others[f['n'] % len(others)]['raw'] if others else None
            o = rc.parse_packet(c['raw'])
            raw = forge(f, o, cfg, other, c['link'], c['objs'])
            if raw is None:
                continue
            h = cohash(raw)
            # the forger's directory: the whole collection, with the forged root beside or in place of the root
            fd = ctx.newdir(f'forged{fi}')
            for x, b in c['objs'].items():
                if x != c['rh']:
                    with R.open(os.path.join(fd, x.hex()), 'wb') as fh:
                        fh.write(b)
            for x in others:
                for y, b in x['objs'].items():
                    with R.open(os.path.join(fd, y.hex()), 'wb') as fh:
                        fh.write(b)
            with R.open(os.path.join(fd, h.hex()), 'wb') as fh:
                fh.write(raw)
            byname = f['by'] == 'name'
            if byname:
                name = scen.enc_name(o.name) if hasattr(scen, 'enc_name') else rc.tlv(0, b''.join(rc.tlv(t, v) for t, v in o.name))
                lco = rc.tlv(2, name + rc.tlv(5, bytes([rc.LINK])) + rc.tlv(1, name + rc.tlv(3, rc.tlv(1, h))))
                with R.open(os.path.join(fd, scen.link_file(cfg['name'])), 'wb') as fh:
                    fh.write(header(lco, o.raw))
            # the reader holds the signer's key (and the decryption keys)
            key = (id(c), f['both_keys'])
            ks = scen.keystore(cfg)
            if f['both_keys']:
                for kn in scen.KEYS:
                    if kn != cfg['sign'] and not (cfg['enc'] and cfg['enc'].get('wrap') == kn):
                        ks.add_rsa_key('x' + kn, scen.KEYS[kn].rsapub())
            sink = scen.Sink()
            rd = Switch(scen.TreeIO.PacketDirectoryReader(d))
            t = scen.Traversal(packet_input=rd, data_writer=sink, keystore=ks)
            if f['same'] and key in trav:
                t, sink, rd = trav[key]
                sink.parts.clear()
            trav[key] = (t, sink, rd)
            nm = scen.mkname(cfg['name'])
            good = scen.hashvalue(c['rh'])

            def read_good(when):
                rd.to = scen.TreeIO.PacketDirectoryReader(d)
                try:
                    t.traverse(root_name=nm, hash_restriction=good)
                    if sink.value() != c['data']:
                        out.violate('genuine-differs', f'the genuine root read {when} a forged one gives other bytes')
                except Exception as e:  # noqa
                    out.violate(f'genuine-rejected:{type(e).__name__}', f'the genuine root read {when} a forged one: {e} at {ctx.where(e)}')
                sink.parts.clear()
            if f['after_good']:
                read_good('before')
            rd.to = scen.TreeIO.PacketDirectoryReader(fd)
            err = None
            try:
                t.traverse(root_name=nm, hash_restriction=None if byname else scen.hashvalue(h))
            except Exception as e:  # noqa
                err = e
            got = sink.value()
            sink.parts.clear()
            desc = f'{f["kind"]} on a root signed with {cfg["sign"]}, read by {f["by"]}'
            if got:
                out.violate('forged-delivered', f'{desc}: {len(got)} bytes delivered' + ('' if err is None else f', then {type(err).__name__}'))
            elif err is None:
                out.violate('forged-accepted', f'{desc}: success reported')
            else:
                rejected += 1
                out.count('rejected_' + f['kind'])
            w.log(f['kind'], type(err).__name__)
            w.count('forged_' + f['kind'])
            if f['n'] % 3 == 0:
                read_good('after')
    out.absorb(w)
    out.count('rejected', rejected)
    out.nontrivial = rejected > 0 and bool(done)
    out.state = hashlib.sha256(b''.join(x['rh'] for x in done)).hexdigest()[:16]


class Switch(scen.PacketReader):
    """One reader whose store changes below it."""

    def __init__(self, to):
        self.to = to

    def get(self, name, hash_restriction, forwarding_hints=None):
        return self.to.get(name=name, hash_restriction=hash_restriction, forwarding_hints=forwarding_hints)

    def close(self):
        pass


def check_stored(out, k, what, b, pubs, times, cfg, p):
    try:
        o = rc.parse_packet(b)
    except rc.Bad as e:
        out.violate('malformed', f'publish {k} {what}: {e}')
        return
    if o.valg is None:
        out.violate('unsigned', f'publish {k}: {what[:40]} carries no signature')
        return
    v = rc.check_validation(o, pubs)
    if v != 'ok':
        out.violate('signature-invalid', f'publish {k}: {what[:40]}: {v}')
    if o.valg['alg'] != ('crc32c' if cfg['sign'] == 'crc' else 'rsa'):
        out.violate('wrong-algorithm', f'publish {k}: {what[:40]} is protected with {o.valg["alg"]}, the signer is {cfg["sign"]}')
    if o.valg['alg'] == 'rsa':
        st = o.valg['sigtime']
        if st is None:
            out.violate('no-signing-time', f'publish {k}: {what[:40]}')
        elif not any(abs(st - t / 1e6) <= 1.001 for t in times):
            near = min(times, key=lambda t: abs(st - t / 1e6)) // 10**6 if times else None
            out.violate('signing-time', f'publish {k}: {what[:40]} signed at {st} ms, the clock gave {near} ms nearest')
