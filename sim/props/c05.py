"""C05: once faults stop, one retry succeeds."""
import array
import hashlib
import os

import refcodec as rc
import scen
import seams
from seams import R


def gen(rng, tier, i, ctx):
    mode = rng.choice(['publish', 'publish', 'publish', 'read', 'net'])
    cfg = scen.gen_cfg(rng, max_chunks=25, enc=.35, src=mode == 'publish' and rng.random() < .3)
    if i % 50 == 7:
        cfg = scen.gen_cfg(rng, chunks=rng.randrange(200, 600), enc=.2, src=False)
        if cfg['degree'] == 2:
            cfg['degree'] = 3
    plan = {'mode': mode, 'cfg': cfg, 'link': rng.random() < .75, 'nested': rng.random() < .2, 'attempts': []}
    n = rng.choice([1, 1, 2, 3, 5])
    for k in range(n):
        a = {'faults': [], 'proc': rng.choice(['new', 'new', 'same'])}
        for _ in range(rng.choice([1, 1, 2, 4])):
            if mode == 'net':
                a['faults'].append({'at': rng.randrange(0, 60), 'kind': rng.choice(['refuse', 'stall', 'reset', 'short', 'slow', 'eio']),
                                    'n': rng.randrange(0, 3000), 'lose': rng.choice([0, 0, 5, 1000])})
            elif mode == 'read':
                a['faults'].append({'at': rng.choice([rng.randrange(0, 120), rng.randrange(0, 36)]),
                                    'kind': rng.choice(['eio', 'eacces', 'emfile', 'lost', 'eof', 'flip', 'short', 'nomem', 'sinkerr', 'drop', 'drop', 'wrong', 'wrong', 'damaged', 'stranger']),
                                    'n': rng.randrange(0, 3000)})
            else:
                f = scen.gen_crash(rng) if rng.random() < .5 else scen.gen_err(rng)
                a['faults'].append(f)
        plan['attempts'].append(a)
    return plan


def execute(plan, ctx, out):
    cfg = plan['cfg']
    data = scen.content(cfg['data'])
    w = ctx.world(plan)
    with seams.activate(w):
        scen.write_input(w, 'in/file.bin', data)
        {'publish': publishing, 'read': reading, 'net': network}[plan['mode']](plan, ctx, out, w, cfg, data)
    out.absorb(w)
    out.count('mode_' + plan['mode'])


def publishing(plan, ctx, out, w, cfg, data):
    link, nested = plan['link'], plan['nested']
    dd = ctx.newdir('dry')
    dry = scen.incarnation(ctx, w, 'dry', lambda p: scen.publish_dir(cfg, dd, w, data, link, nested), seed=1, record=True)
    if dry['status'] != 'ok':
        out.violate('publish-failed:' + str(dry['etype']), f"{dry['msg']} at {dry['where']}")
        return
    d = ctx.newdir('out')
    failed = 0
    groups = []
    for a in plan['attempts']:
        if a['proc'] == 'same' and groups:
            groups[-1].append(a)
        else:
            groups.append([a])
    last = groups.pop()
    # the final, fault-free attempt runs in a new process or in the process whose earlier attempt failed
    tail = last if last and last[-1]['proc'] == 'same' else None
    if tail is None:
        groups.append(last)
    seed = 10

    def several(attempts, clean):
        def run(p):
            res = []
            writer = None
            for a in attempts:
                if a is not None:
                    base = p.nops
                    for f in a['faults']:
                        g = scen.place(f, dry['ops'])
                        p.faults[base + g['at']] = g
                try:
                    if writer is None:
                        writer = scen.dir_writer(d, cfg, link, nested)
                    root = scen.publish(cfg, writer, w, data)
                    res.append(['ok', scen.phash(root).hex()])
                except Exception as e:  # noqa
                    res.append(['error', type(e).__name__])
                p.faults.clear()
                p.sticky = None
            if clean:
                n0 = p.nops
                if writer is None:
                    writer = scen.dir_writer(d, cfg, link, nested)
                root = scen.publish(cfg, writer, w, data)
                res.append(['ok', scen.phash(root).hex(), p.nops - n0])
            return res
        return run
    for g in groups:
        seed += 1
        r = scen.incarnation(ctx, w, f'try{seed}', several(g, False), seed=seed)
        failed += 1 if r['status'] != 'ok' or any(x[0] != 'ok' for x in r['res']) else 0
    if tail is not None:
        # faults that crash cannot be followed by work in the same process
        t2 = [dict(a, faults=[f for f in a['faults'] if f['kind'] not in ('crash', 'crash_after', 'torn')]) for a in tail]
        r = scen.incarnation(ctx, w, 'retry', several(t2, True), seed=99)
        if r['status'] == 'ok':
            failed += any(x[0] != 'ok' for x in r['res'][:-1])
    else:
        r = scen.incarnation(ctx, w, 'retry', several([], True), seed=99)
    if r['status'] != 'ok':
        out.violate('retry-failed', f"after {failed} failed attempts the fault-free publish gives {r['etype']}: {r['msg']} at {r['where']}")
        return
    rh, nops = r['res'][-1][1], r['res'][-1][2]
    bound = 3 * len(dry['ops']) + 60
    if nops > bound:
        out.violate('retry-too-long', f"the retry took {nops} operations, a first publish takes {len(dry['ops'])}")
    b = scen.ref_dir(d, rh, cfg)
    if b != data:
        out.violate('retry-unreadable', f'collection of the retry: {b if isinstance(b, str) else "reads differently"}')
    if not nested:
        x = scen.read_dir(d, cfg, rh)
        if x != ('ok', data):
            out.violate('retry-read-fails', f'reading the retry by hash: {x[:3] if x[0] == "error" else "other bytes"}')
        if link:
            x = scen.read_dir(d, cfg)
            if x != ('ok', data):
                out.violate('retry-name-read-fails', f'reading the retry by name: {x[:3] if x[0] == "error" else "%d bytes of %d" % (len(x[1]), len(data))}')
    out.nontrivial = failed > 0
    out.count('failed_attempts', failed)


REPLIES = ('drop', 'wrong', 'damaged', 'stranger')


class CountingReader(scen.PacketReader):
    def __init__(self, inner, w):
        self.inner = inner
        self.n = 0
        self.w = w
        self.faults = {}
        self.last = None
        self.stranger = None

    def get(self, name, hash_restriction, forwarding_hints=None):
        k = self.n
        self.n += 1
        if self.n > 20000:
            raise seams.SimHang('endless requests')
        f = self.faults.get(k)
        if f is not None:
            self.w.count(f['kind'] + '@request')
        if f is not None and f['kind'] == 'drop':
            raise TimeoutError('no answer')
        p = self.inner.get(name=name, hash_restriction=hash_restriction, forwarding_hints=forwarding_hints)
        if hash_restriction is None:
            return p                # without a hash any object of that name is an answer
        if f is not None and f['kind'] == 'wrong' and self.last is not None:
            return self.last        # a duplicated answer to an earlier request
        if f is not None and f['kind'] == 'stranger':
            return self.stranger    # an object of another collection
        if f is not None and f['kind'] == 'damaged':
            b = bytearray(p.serialize().tobytes())
            b[8 + f['n'] % (len(b) - 8)] ^= 1 << f['n'] % 8
            return scen.Packet.deserialize(array.array('B', bytes(b)))
        self.last = p
        return p

    def close(self):
        pass


class FailingSink(scen.Sink):
    def __init__(self, w):
        super().__init__()
        self.fail = set()
        self.n = 0
        self.w = w

    def write(self, data):
        k = self.n
        self.n += 1
        if k in self.fail:
            self.w.count('eio@sink')
            raise OSError(5, 'Input/output error')
        return super().write(data)


def reading(plan, ctx, out, w, cfg, data):
    link = plan['link']
    d = ctx.newdir('out')
    rh = bytes.fromhex(scen.publish_dir(cfg, d, w, data, link))
    nobj = len(scen.objects(d))
    rdr = CountingReader(scen.TreeIO.PacketDirectoryReader(d), w)
    om = scen.TreeIO.PacketMemoryWriter()
    scen.publish(dict(cfg, src='bytesio', enc=None), om, w, b'another file entirely ' * 9)
    rdr.stranger = om.packets[plan['cfg']['data']['seed'] % len(om.packets)]
    sink = FailingSink(w)
    name = scen.mkname(cfg['name'])
    t = scen.Traversal(packet_input=rdr, data_writer=sink, keystore=scen.keystore(cfg) if cfg['sign'] or cfg['enc'] else None)
    failed = 0
    for n, a in enumerate(plan['attempts'] + [None]):
        by_name = link and n % 2 == 1
        if a is not None:
            p = w.new_proc(f'r{n}', seed=n, faults=[f for f in a['faults'] if f['kind'] not in REPLIES + ('sinkerr',)])
            w.set_proc(p)
            sink.fail = {f['at'] // 3 for f in a['faults'] if f['kind'] == 'sinkerr'}
            rdr.faults = {f['at'] // 3: f for f in a['faults'] if f['kind'] in REPLIES}
        else:
            w.set_proc(w.new_proc('clean', seed=n))
            sink.fail = set()
            rdr.faults = {}
        sink.parts.clear()
        sink.n = 0
        rdr.n = 0
        err = None
        try:
            t.traverse(root_name=name, hash_restriction=None if by_name else scen.hashvalue(rh))
        except Exception as e:  # noqa
            err = e
        w.set_proc(None)
        w.log(type(err).__name__, len(sink.value()))
        if a is not None:
            failed += err is not None
            if err is None and sink.value() != data:
                out.violate('success-with-other-bytes', f'read {n} reports success with {len(sink.value())} of {len(data)} bytes')
        else:
            if err is not None:
                out.violate('reread-failed', f'after {failed} failed reads the fault-free read gives {type(err).__name__}: {err} at {ctx.where(err)}')
            elif sink.value() != data:
                out.violate('reread-differs', f'after {failed} failed reads the fault-free read gives {len(sink.value())} bytes of {len(data)}')
            elif rdr.n > 2 * expected(d, rh, cfg) + 10:
                out.violate('reread-too-long', f'{rdr.n} requests')
    out.nontrivial = failed > 0 and nobj > 2
    out.count('failed_attempts', failed)


def expected(d, rh, cfg):
    return len(scen.ref_walk_dir(d, rh, scen.ref_keys(cfg)).reqs) + 1


def network(plan, ctx, out, w, cfg, data):
    w.net = seams.SimNet()
    w.net.listen('127.0.0.1', 9896)
    failed = 0

    def attempt(faults):
        def run(p):
            for f in faults:
                p.faults.setdefault(f['at'], f)
            n0 = p.nops
            writer = None
            try:
                writer = scen.TreeIO.PacketNetworkWriter('127.0.0.1', 9896)
                root = scen.publish(cfg, writer, w, data)
            finally:
                if writer is not None:
                    writer.close()
            c = w.net.conns()[-1]
            return [scen.phash(root).hex(), bytes(c.received).hex(), p.nops - n0]
        return run
    for n, a in enumerate(plan['attempts']):
        r = scen.incarnation(ctx, w, f'net{n}', attempt(a['faults']), seed=n)
        failed += r['status'] != 'ok'
    r = scen.incarnation(ctx, w, 'retry', attempt([]), seed=77)
    if r['status'] != 'ok':
        out.violate('net-retry-failed', f"the fault-free publish over TCP gives {r['etype']}: {r['msg']} at {r['where']}")
        return
    rh, stream = bytes.fromhex(r['res'][0]), bytes.fromhex(r['res'][1])
    try:
        objs = {o.hash: o.raw for o in split(stream)}
        b = rc.walk(objs.get, rh, scen.ref_keys(cfg)).bytes()
        if b != data:
            out.violate('net-retry-differs', 'the forwarder holds another file')
    except (rc.Bad, KeyError, rc.Tamper, rc.NoKey) as e:
        out.violate('net-retry-unreadable', f'{type(e).__name__}: {e}')
    out.nontrivial = failed > 0
    out.count('failed_attempts', failed)


def split(stream):
    """The packets of a byte stream; Bad if it does not end at a packet boundary."""
    o = 0
    out = []
    while o < len(stream):
        if o + 8 > len(stream):
            raise rc.Bad('stream ends inside a header')
        n = int.from_bytes(stream[o + 2:o + 4], 'big')
        if n < 8 or o + n > len(stream):
            raise rc.Bad('stream ends inside a packet')
        out.append(rc.parse_packet(stream[o:o + n]))
        o += n
    return out
