"""C06: I/O failures are reported, never swallowed."""
import hashlib
import io
import os
import types

import refcodec as rc
import scen
import seams
from seams import R
from c05 import split


def gen(rng, tier, i, ctx):
    mode = rng.choice(['dir', 'dir', 'dir', 'tcp', 'read', 'read', 'cli', 'sink', 'src', 'src'])
    cfg = scen.gen_cfg(rng, max_chunks=20, enc=.3, src=False, odd=0)
    plan = {'mode': mode, 'cfg': cfg, 'link': rng.random() < .6, 'nested': rng.random() < .2, 'tries': []}
    for _ in range(rng.choice([3, 6, 10])):
        t = {'faults': []}
        for _ in range(rng.choice([1, 1, 1, 2])):
            if mode == 'tcp':
                k = rng.choice(['refuse', 'stall', 'reset', 'reset', 'eio', 'short', 'slow', 'nomem'])
                t['faults'].append({'at': rng.choice([-1, -2, -3, rng.randrange(0, 80)]), 'kind': k, 'n': rng.randrange(0, 2000), 'lose': rng.choice([0, 0, 1, 500, 100000])})
            elif mode == 'src':
                # a source of one's own that has nothing at the moment, is interrupted or breaks
                t['faults'].append({'at': rng.choice([0, 1, 2, -1, -2, -3, rng.randrange(0, 60)]),
                                    'kind': rng.choice(['none', 'none', 'again', 'eio', 'intr', 'timeout', 'closed', 'value'])})
                t['kind'] = rng.choice(['raw', 'raw', 'buffered', 'file'])
                t['put'] = [rng.choice([0, 1, -1, -2, -3, rng.randrange(0, 60)]), rng.choice(['again', 'eio', 'intr', 'timeout', 'closed', 'value'])] if rng.random() < .4 else None
                if t['put'] and rng.random() < .8:
                    t['faults'] = []
            elif mode == 'sink':
                # an output of one's own that refuses, takes a part and says how much, or is interrupted
                t['faults'].append({'at': rng.choice([0, 1, 2, -1, rng.randrange(0, 30)]), 'n': rng.choice([0, 1, 10, rng.randrange(0, 2000)]),
                                    'kind': rng.choice(['again', 'again', 'eio', 'enospc', 'pipe', 'intr', 'timeout', 'closed', 'value'])})
            elif mode == 'dir':
                t['faults'].append(scen.gen_err(rng))
            else:
                k = rng.choice(['eio', 'eio', 'eacces', 'emfile', 'lost', 'eof', 'flip', 'short', 'nomem', 'enospc', 'enospc', 'torneio'])
                t['faults'].append({'at': rng.choice([-1, -2, -3, -4, -5, rng.randrange(0, 200)]), 'kind': k, 'n': rng.choice([0, 1, 8, rng.randrange(0, 9000)]),
                                    'sticky': rng.random() < .5})
        plan['tries'].append(t)
    return plan


def desc(f, ops):
    return f"{f['kind']} at operation {f['at']} of {len(ops)} ({ops[f['at']][0]} {ops[f['at']][1]})" if f['at'] < len(ops) else str(f)


def execute(plan, ctx, out):
    cfg = plan['cfg']
    data = scen.content(cfg['data'])
    w = ctx.world(plan)
    with seams.activate(w):
        scen.write_input(w, 'in/file.bin', data)
        {'dir': to_dir, 'tcp': to_tcp, 'read': reads, 'cli': reads, 'sink': sinks, 'src': sources}[plan['mode']](plan, ctx, out, w, cfg, data)
    out.absorb(w)
    out.count('mode_' + plan['mode'])


def to_dir(plan, ctx, out, w, cfg, data):
    link, nested = plan['link'], plan['nested']

    def pub(d):
        return lambda p: scen.publish_dir(cfg, d, w, data, link, nested)
    dd = ctx.newdir('dry')
    dry = scen.incarnation(ctx, w, 'pub', pub(dd), seed=3, record=True)
    if dry['status'] != 'ok':
        out.violate('publish-failed:' + str(dry['etype']), f"{dry['msg']} at {dry['where']}")
        return
    rh = dry['res']
    raised = 0
    for n, t in enumerate(plan['tries']):
        d = ctx.newdir(f'd{n}')
        fs = [scen.place(f, dry['ops']) for f in t['faults']]
        r = scen.incarnation(ctx, w, 'pub', pub(d), seed=3, faults=fs)
        what = ', '.join(desc(f, dry['ops']) for f in fs)
        if r['status'] == 'ok':
            b = scen.ref_dir(d, r['res'], cfg)
            if b != data:
                out.violate('success-but-incomplete', f'publish returned normally after {what}: {b if isinstance(b, str) else "reads differently"}')
            elif link and r['res']:
                x = scen.read_dir(d, cfg) if not nested else ('ok', data)
                if x != ('ok', data):
                    out.violate('success-but-name-unreadable', f'publish returned normally after {what}: {x[:3]}')
        else:
            raised += 1
            if scen.visible(d, rh):
                b = scen.ref_dir(d, rh, cfg)
                if b != data:
                    out.violate('failed-but-root-exposed', f'publish failed with {r["etype"]} after {what}: root visible, {b if isinstance(b, str) else "reads differently"}')
    out.nontrivial = raised > 0
    out.count('reported', raised)


def to_tcp(plan, ctx, out, w, cfg, data):
    w.net = seams.SimNet()
    w.net.listen('127.0.0.1', 9896)

    def pub(p):
        p.nops = 0
        res = [None, None]
        writer = scen.TreeIO.PacketNetworkWriter('127.0.0.1', 9896)
        try:
            try:
                res[0] = scen.phash(scen.publish(cfg, writer, w, data)).hex()
            finally:
                writer.close()
        except Exception as e:  # noqa
            res = [None, type(e).__name__]
        return res + [bytes(w.net.conns()[-1].received).hex()]
    dry = scen.incarnation(ctx, w, 'pub', pub, seed=3, record=True)
    if dry['status'] != 'ok' or dry['res'][0] is None:
        out.violate('publish-failed', f"{dry}"[:300])
        return
    raised = 0
    for n, t in enumerate(plan['tries']):
        fs = [scen.place(f, dry['ops']) for f in t['faults']]
        r = scen.incarnation(ctx, w, 'pub', pub, seed=3, faults=fs)
        what = ', '.join(desc(f, dry['ops']) for f in fs)
        if r['status'] == 'ok' and r['res'][0]:
            try:
                objs = {o.hash: o.raw for o in split(bytes.fromhex(r['res'][2]))}
                ok = rc.walk(objs.get, bytes.fromhex(r['res'][0]), scen.ref_keys(cfg)).bytes() == data
                why = 'reads differently'
            except (rc.Bad, KeyError, rc.Tamper, rc.NoKey) as e:
                ok, why = False, f'{type(e).__name__}: {e}'
            if not ok:
                out.violate('tcp-success-but-incomplete', f'publish over TCP returned normally after {what}: {why}')
        else:
            raised += 1
    out.nontrivial = raised > 0
    out.count('reported', raised)


class OwnSink(scen.Sink):
    def __init__(self, w, faults):
        super().__init__()
        self.w = w
        self.n = 0
        self.faults = {f['at']: f for f in faults}

    def write(self, data):
        k = self.n
        self.n += 1
        f = self.faults.get(k)
        if f is None:
            return super().write(data)
        self.w.count(f['kind'] + '@sink')
        b = bytes(data)
        part = b[:min(f['n'], len(b))]
        if f['kind'] in ('again', 'eio', 'enospc', 'timeout'):
            super().write(part)
        if f['kind'] == 'again':
            raise BlockingIOError(11, 'Resource temporarily unavailable', len(part))
        raise {'eio': OSError(5, 'Input/output error'), 'enospc': OSError(28, 'No space left on device'), 'pipe': BrokenPipeError(32, 'Broken pipe'),
               'intr': InterruptedError(4, 'Interrupted system call'), 'timeout': TimeoutError(110, 'timed out'), 'closed': ValueError('write to closed file'),
               'value': RuntimeError('the consumer gave up')}[f['kind']]


def trouble(kind):
    return {'again': BlockingIOError(11, 'Resource temporarily unavailable'), 'eio': OSError(5, 'Input/output error'),
            'intr': InterruptedError(4, 'Interrupted system call'), 'timeout': TimeoutError(110, 'timed out'),
            'closed': ValueError('I/O operation on closed file'), 'value': RuntimeError('the other side gave up')}[kind]


class OwnStore(scen.WireStore):
    """A store of one's own that fails once."""

    def __init__(self, w, at, kind):
        super().__init__()
        self.w, self.at, self.kind, self.n = w, at, kind, 0

    def put(self, packet):
        k = self.n
        self.n += 1
        if k == self.at:
            self.w.count(self.kind + '@put')
            raise trouble(self.kind)
        super().put(packet)


class OwnSource(io.RawIOBase):
    def __init__(self, w, data, step, faults):
        self.w, self.d, self.step = w, data, step
        self.o = self.n = 0
        self.faults = {f['at']: f for f in faults}

    def readable(self):
        return True

    def readinto(self, b):
        f = self.faults.get(self.n)
        self.n += 1
        if f is not None:
            self.w.count(f['kind'] + '@source')
            if f['kind'] == 'none':
                return None
            raise trouble(f['kind'])
        k = min(len(b), len(self.d) - self.o, self.step)
        b[:k] = self.d[self.o:self.o + k]
        self.o += k
        return k


class PlainSource:
    """Only has what publishing needs."""

    def __init__(self, raw):
        self.raw = raw

    def read(self, n):
        return self.raw.read(n)


def sources(plan, ctx, out, w, cfg, data):
    raised, total = 0, 1
    for k, t in enumerate([{'faults': [], 'kind': 'raw'}] + plan['tries']):
        step = [1 << 20, 700, 97][(len(data) + k) % 3]
        reads = -(-len(data) // min(step, max(1, scen.payload_size(cfg)))) + 2
        fs = [dict(f, at=f['at'] % reads) for f in t['faults']]
        raw = OwnSource(w, data, step, fs)
        src = {'raw': lambda: raw, 'buffered': lambda: io.BufferedReader(raw, 600), 'file': lambda: PlainSource(raw)}[t['kind']]()
        at, how = t.get('put') or [None, None]
        store = OwnStore(w, None if at is None else at % total, how)
        err = root = None
        w.set_proc(w.new_proc('pub', seed=3))
        try:
            root = scen.phash(scen.build_tree(src, store, scen.options(cfg), cfg.get('api')))
        except Exception as e:  # noqa
            err = e
        w.set_proc(None)
        what = ', '.join([f"{f['kind']} at read {f['at']} of a {t['kind']} source" for f in fs] + ([] if at is None else [f'{how} at put {at % total} of {total}'])) or 'no fault'
        if k == 0:
            total = max(1, store.n)
        if err is None:
            try:
                ok = rc.walk(store.by_hash.get, root, scen.ref_keys(cfg)).bytes() == data
                why = 'reads differently'
            except (rc.Bad, KeyError, rc.Tamper, rc.NoKey) as e:
                ok, why = False, f'{type(e).__name__}: {e}'
            if not ok:
                out.violate('success-but-incomplete', f'publish returned normally after {what}: {why}')
        elif not fs and at is None:
            out.violate('publish-failed', repr(err))
            return
        else:
            raised += 1
            # manifests below the root may have its name
            if cfg['schema'] != 'Prefix' and [1 for h, b in store.order if rc.parse_packet(b).name == scen.comps(scen.mkname(cfg['name'])) and rc.parse_packet(b).ptype == rc.MANIFEST]:
                out.violate('failed-but-root-exposed', f'publish failed with {err!r} after {what} and stored a root')
    out.nontrivial = raised > 0
    out.count('reported', raised)


def sinks(plan, ctx, out, w, cfg, data):
    d = ctx.newdir('out')
    rh = scen.publish_dir(cfg, d, w, data, plan['link'])
    raised = 0

    def go(faults):
        sink = OwnSink(w, faults)
        err = None
        w.set_proc(w.new_proc('rd', seed=3))
        try:
            t = scen.Traversal(packet_input=scen.TreeIO.PacketDirectoryReader(d), data_writer=sink, keystore=scen.keystore(cfg))
            t.traverse(root_name=scen.mkname(cfg['name']), hash_restriction=scen.hashvalue(bytes.fromhex(rh)))
        except Exception as e:  # noqa
            err = e
        w.set_proc(None)
        return sink, err
    sink, err = go([])
    if err is not None or sink.value() != data:
        out.violate('read-failed', f'read without faults: {err!r}')
        return
    n = sink.n
    for t in plan['tries']:
        fs = [dict(f, at=(f['at'] + n) if f['at'] < 0 else f['at'] % max(n, 1)) for f in t['faults']]
        sink, err = go(fs)
        what = ', '.join(f"{f['kind']} at write {f['at']} of {n}" for f in fs)
        if err is None:
            if sink.value() != data:
                out.violate('read-success-but-incomplete', f'read returned normally after {what}: output has {len(sink.value())} of {len(data)} bytes')
        else:
            raised += 1
            if not data.startswith(sink.value()):
                out.violate('read-wrote-other-bytes', f'read failed after {what} and left bytes that are no prefix of the file')
    out.nontrivial = raised > 0
    out.count('reported', raised)


def reads(plan, ctx, out, w, cfg, data):
    d = ctx.newdir('out')
    rh = scen.publish_dir(cfg, d, w, data, plan['link'])
    byname = plan['link'] and len(plan['tries']) % 2

    def rd(o):
        def go(p):
            h = None if byname else scen.hashvalue(bytes.fromhex(rh))
            ks = scen.keystore(cfg)
            if plan['mode'] == 'cli':
                from ccnpy.apps.manifest_reader import ManifestDirectoryReader
                args = types.SimpleNamespace(name=cfg['name'], hash_restriction=h, in_dir=d, output_file_name=o)
                with ManifestDirectoryReader(args, ks) as m:
                    m.read()
            else:
                with open(o, 'wb', [-1, 0, 100][len(cfg['name']) % 3]) as f:
                    t = scen.Traversal(packet_input=scen.TreeIO.PacketDirectoryReader(d), data_writer=f, keystore=ks)
                    t.traverse(root_name=scen.mkname(cfg['name']), hash_restriction=h)
            return True
        return go
    od = ctx.newdir('o')
    dry = scen.incarnation(ctx, w, 'rd', rd(os.path.join(od, 'dry')), seed=3, record=True)
    if dry['status'] != 'ok' or scen.rawfile(os.path.join(od, 'dry')) != data:
        out.violate('read-failed', f"read without faults: {dry['etype']} {dry['msg']} at {dry['where']}")
        return
    raised = 0
    for n, t in enumerate(plan['tries']):
        fs = [scen.place(f, dry['ops']) for f in t['faults']]
        # an unbuffered file may legally take only a part of a write: the caller of an unbuffered file asked for it
        if plan['mode'] == 'read' and len(cfg['name']) % 3 == 1:
            fs = [f for f in fs if not (f['kind'] == 'short' and dry['ops'][f['at']][0] == 'write')]
        o = os.path.join(od, str(n))
        r = scen.incarnation(ctx, w, 'rd', rd(o), seed=3, faults=fs)
        what = ', '.join(desc(f, dry['ops']) for f in fs)
        have = scen.rawfile(o) if os.path.exists(o) else b''
        if r['status'] == 'ok':
            if have != data:
                out.violate('read-success-but-incomplete', f'read returned normally after {what}: output has {len(have)} of {len(data)} bytes')
        else:
            raised += 1
            if not data.startswith(have) and not any(f['kind'] == 'torneio' for f in fs):
                out.violate('read-wrote-other-bytes', f'read failed after {what} and left bytes that are no prefix of the file')
    out.nontrivial = raised > 0
    out.count('reported', raised)
