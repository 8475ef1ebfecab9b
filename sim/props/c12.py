"""C12: publishing over TCP sends whole packets, children first."""
import hashlib

import refcodec as rc
import scen
import seams
from seams import R


def gen(rng, tier, i, ctx):
    cli = rng.random() < .3
    cfg = scen.gen_cli_cfg(rng, max_chunks=25) if cli else scen.gen_cfg(rng, max_chunks=40, enc=.35, src=False)
    if i % 30 == 3 and not cli:
        cfg = scen.gen_cfg(rng, chunks=rng.randrange(200, 500), enc=.2, src=False)
        cfg['degree'] = rng.choice([3, None])
    plan = {'cfg': cfg, 'cli': cli, 'tries': [[]]}
    for _ in range(rng.choice([2, 4, 8])):
        fs = []
        for _ in range(rng.choice([1, 1, 2, 5, 12])):
            k = rng.choice(['short', 'short', 'short', 'slow', 'reset', 'reset', 'refuse', 'stall', 'eio', 'crash'])
            fs.append({'at': rng.choice([0, 1, 2, -1, -2, rng.randrange(0, 200)]), 'kind': k, 'n': rng.choice([0, 1, 4, 7, 8, rng.randrange(0, 60), rng.randrange(0, 9000)]),
                       'part': rng.choice([0, 0, 1, 8, 50, rng.randrange(1, 3000)]), 'lose': rng.choice([0, 0, 0, 3, 700, 10 ** 6])})
        plan['tries'].append(fs)
    return plan


def execute(plan, ctx, out):
    cfg = plan['cfg']
    data = scen.content(cfg['data'])
    w = ctx.world(plan)
    with seams.activate(w):
        infile = scen.write_input(w, 'in/file.bin', data)

        def pub(p):
            w.net = seams.SimNet()
            w.net.listen('127.0.0.1', 9896)
            res = {'err': None, 'root': None}
            try:
                if plan['cli']:
                    argv, pw = scen.writer_argv(cfg, infile, tcp=True)
                    code, _ = scen.run_cli('manifest_writer', argv, pw, w)
                    if code:
                        res['err'] = str(code)
                else:
                    writer = scen.TreeIO.PacketNetworkWriter('127.0.0.1', 9896)
                    try:
                        res['root'] = scen.phash(scen.publish(cfg, writer, w, data)).hex()
                    finally:
                        writer.close()
            except seams.SimCrash:
                res['err'] = 'crash'
            except Exception as e:  # noqa
                res['err'] = f'{type(e).__name__}: {e} at {ctx.where(e)}'
            res['conns'] = [[bytes(c.accepted).hex(), bytes(c.received).hex(), c.reset] for c in w.net.conns()]
            res['open'] = sum(1 for s in w.net.sockets if s._conn is not None and not s._closed)
            return res
        dry = scen.incarnation(ctx, w, 'pub', pub, seed=4, record=True)
        if dry['status'] != 'ok' or dry['res']['err'] or len(dry['res']['conns']) != 1:
            out.violate('publish-failed', str(dry['res'] and dry['res']['err'] or dry)[:300])
            out.absorb(w)
            return
        # what the collection is made of, from the fault-free run
        whole = bytes.fromhex(dry['res']['conns'][0][1])
        try:
            pk, rest = packets(whole)
            if rest:
                raise rc.Bad(f'{len(rest)} bytes follow the last packet')
            if not pk:
                raise rc.Bad('no packet')
            root = pk[-1].hash
            res = rc.walk({o.hash: o.raw for o in pk}.get, root, keys_of(cfg))
            if res.bytes() != data:
                out.violate('stream-differs', 'the collection in the stream is not the file')
        except (rc.Bad, rc.NoKey, rc.Tamper, KeyError) as e:
            out.violate('stream-unreadable', f'without faults: {type(e).__name__} {e}')
            out.absorb(w)
            return
        kids = {m['obj'].hash: [k[1] for k in m['kids']] for m in res.manifests}
        known = set(kids) | {o.hash for o in res.data}
        broken = 0
        for n, fs in enumerate(plan['tries']):
            placed = [scen.place(f, dry['ops']) for f in fs]
            r = scen.incarnation(ctx, w, 'pub', pub, seed=4, faults=placed)
            x = r['res']
            what = ', '.join(f"{f['kind']} at operation {f['at']} of {len(dry['ops'])}" for f in placed) or 'no fault'
            if x['open'] and x['err'] != 'crash':
                out.violate('connection-left-open', f'{what}: publish ended ({x["err"]}) with an open connection')
            for acc, rec, reset in x['conns']:
                acc, rec = bytes.fromhex(acc), bytes.fromhex(rec)
                if not acc.startswith(rec):
                    continue
                # an interrupted fork-run publishes the same objects as the fault-free one
                try:
                    pk, rest = packets(rec)
                except rc.Bad as e:
                    out.violate('stream-malformed', f'{what}: {e}')
                    continue
                if rest and not (reset or x['err']):
                    out.violate('stream-ends-inside-packet', f'{what}: {len(rest)} bytes of an unfinished packet, publish returned normally')
                sent = set()
                done = False
                for o in pk:
                    # the clock is part of a signed root, so its hash may differ from the fault-free one
                    h = o.hash
                    if h not in known and o.ptype == rc.MANIFEST and o.name == res.root.name:
                        h = root
                    if done:
                        out.violate('root-not-last', f'{what}: objects follow the root')
                        break
                    for k in kids.get(h, ()):
                        if k not in sent:
                            out.violate('parent-before-child', f'{what}: object {h.hex()[:12]} was sent before {k.hex()[:12]} that it points to')
                            break
                    sent.add(h)
                    done = h == root
                    if h not in known:
                        out.violate('foreign-object', f'{what}: the stream holds an object of payload type {o.ptype} that is not part of the collection')
                        break
                if x['err'] is None:
                    miss = known - sent
                    if miss:
                        out.violate('returned-without-sending-all', f'{what}: publish returned normally, {len(miss)} objects were never sent')
                    if acc != rec and not reset:
                        out.violate('returned-without-sending-all', f'{what}: bytes were not handed over')
            if x['err'] is not None:
                broken += 1
            if not fs and x['err']:
                out.violate('publish-failed', x['err'])
    out.absorb(w)
    out.nontrivial = broken > 0 and len(res.data) > 1
    out.count('broken', broken)
    out.count('cli' if plan['cli'] else 'api')


def keys_of(cfg):
    if cfg['enc'] and 'num' in cfg['enc'] and cfg['enc']['num'] is None:
        # the tool derives the number from the key: find it by trying
        k = scen.ref_keys(dict(cfg, enc=dict(cfg['enc'], num=-1)))
        if -1 in k.aes:
            k.aes = AnyNumber(k.aes[-1])
        return k
    return scen.ref_keys(cfg)


class AnyNumber(dict):
    def __init__(self, v):
        super().__init__()
        self.v = v

    def __contains__(self, k):
        return True

    def __getitem__(self, k):
        return self.v


def packets(stream):
    """(complete packets, rest); Bad when a complete packet is malformed."""
    o = 0
    out = []
    while len(stream) - o >= 8:
        n = int.from_bytes(stream[o + 2:o + 4], 'big')
        if n < 8:
            raise rc.Bad(f'packet length {n} at byte {o}')
        if o + n > len(stream):
            break
        out.append(rc.parse_packet(stream[o:o + n]))
        o += n
    return out, stream[o:]
