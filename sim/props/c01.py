"""C01: a published file reads back byte for byte."""
import hashlib
import io
import random

import refcodec as rc
import scen
import seams


def gen(rng, tier, i, ctx):
    if i == 0 or (tier == 'thorough' and i % 2000 == 0):
        # more than 65 536 chunks: three-byte chunk numbers
        cfg = scen.gen_cfg(rng, schemas=('Segmented',), enc=0, sign=0, flags=False)
        cfg.update(size=240, degree=None, mpre='ccnx:/m', dpre='ccnx:/d', exp=[None, None, None], src='file')
        p = scen.payload_size(cfg)
        cfg['data']['len'] = 65600 * p + (rng.choice([0, rng.randrange(p)]) if i else 0)
        cfg['data']['kind'] = 'rand'
        return {'cfg': cfg, 'store': 'mem', 'burn': 0, 'cpu': 300, 'faults': []}
    if i in (1, 2, 3) or (tier == 'thorough' and i % 100 == 1):
        # deep chains
        cfg = scen.gen_cfg(rng, chunks=rng.randrange(600, 1500), enc=.2)
        cfg['degree'] = 2 if i != 3 else 3
        store = 'mem'
    elif i % 40 == 4 or i < 8:
        # more than 256 chunks and manifests
        cfg = scen.gen_cfg(rng, chunks=rng.choice([255, 256, 257, 258, rng.randrange(259, 1200)]), sizes=[300, 512, 700, 1500])
        if cfg['degree'] == 2:
            cfg['degree'] = 4
        store = rng.choice(['mem', 'dir', 'wire'])
    else:
        cfg = scen.gen_cfg(rng, max_chunks=100)
        store = rng.choice(['mem', 'dir', 'dir', 'wire', 'nested'])
    plan = {'cfg': cfg, 'store': store, 'link': rng.random() < .5, 'sink': rng.choice(['list', 'list', 'buffer', 'bytesio']), 'view': rng.choice(['writer', 'of-writer', 'of-list']),
            'burn': rng.choice([0, 0, 0, 0, rng.randrange(250, 258), rng.randrange(65530, 65538) if rng.random() < .05 else 0]),
            'faults': []}
    if cfg['src'] == 'file':
        n = rng.choice([0, 0, 3, 10])
        plan['faults'] = [{'at': rng.randrange(0, 120), 'kind': 'short', 'n': rng.choice([1, 7, 100, 1499])} for _ in range(n)]
    if cfg['enc'] and 'num' in cfg['enc'] and rng.random() < .04:
        cfg['enc']['num'] = rng.choice([(1 << 63) - 1, 1 << 63, (1 << 64) - 1, 1 << 64, (1 << 64) + 5, (1 << 72) + 7, 1 << 200])
    if rng.random() < .3:
        plan['clock'] = {'start': rng.choice([0, 1_700_000_000_000_000_000, 253401000000 * 10**9]),
                         'jumps': [[rng.randrange(1, 60), rng.choice([-1, 1]) * rng.randrange(10**12)]] if rng.random() < .5 else []}
        if plan['clock']['start'] == 0:
            plan['clock']['jumps'] = []
        elif plan['clock']['start'] > 10**20:
            plan['clock']['jumps'] = [[a, -abs(b)] for a, b in plan['clock']['jumps']]
    return plan


def execute(plan, ctx, out):
    cfg = plan['cfg']
    data = scen.content(cfg['data'])
    w = ctx.world(plan)
    for f in plan['faults']:
        w.main_proc.faults[f['at']] = f
    from ccnpy.flic.name_constructor.NameConstructorContext import NameConstructorContext
    with seams.activate(w):
        scen.write_input(w, 'in/file.bin', data)
        if plan['burn']:
            o = scen.options(dict(cfg, enc=None, sign=None))
            for _ in range(plan['burn']):
                NameConstructorContext.create(o)
        store = plan['store']
        d = None
        if store == 'mem':
            writer = reader = scen.TreeIO.PacketMemoryWriter()
        elif store == 'wire':
            writer = reader = scen.WireStore()
        else:
            d = ctx.newdir('out')
            writer = scen.TreeIO.PacketDirectoryWriter(d, link_named_objects=plan['link'], nested=store == 'nested',
                                                       signer=None)
            reader = None if store == 'nested' else scen.TreeIO.PacketDirectoryReader(d)
        try:
            root = scen.publish(cfg, writer, w, data)
            rh = scen.phash(root)
        except Exception as e:  # noqa
            out.absorb(w)
            if isinstance(e, ValueError) and cfg['enc'] and cfg['enc'].get('num', 0) >= 1 << 64:
                out.count('refused_large_number')       # no object can carry it
                return
            out.violate(f'publish-failed:{type(e).__name__}:{ctx.where(e)}', e)
            return
        got = None
        if reader is not None:
            try:
                if store == 'mem' and plan.get('view') == 'of-writer':
                    reader = scen.TreeIO.PacketMemoryReader(writer)
                elif store == 'mem' and plan.get('view') == 'of-list':
                    reader = scen.TreeIO.PacketMemoryReader(list(writer))
                got, _ = scen.read(reader, cfg, rh, sink=SINKS[plan.get('sink', 'list')]())
                if store == 'dir' and plan['link']:
                    again, _ = scen.read(scen.TreeIO.PacketDirectoryReader(d), cfg, None)
                    if again != data:
                        out.violate('name-read-differs', diff(again, data))
            except Exception as e:  # noqa
                out.violate(f'read-failed:{type(e).__name__}:{ctx.where(e)}', e)
        if got is not None and got != data:
            out.violate('content-differs', diff(got, data))
        # the same collection through the independent reader
        if store == 'mem':
            objs = {}
            for p in writer.packets:
                b = p.serialize().tobytes()
                objs[scen.phash(p)] = b
        elif store == 'wire':
            objs = writer.by_hash
        else:
            objs = scen.objects(d)
        try:
            res = rc.walk(objs.get, rh, scen.ref_keys(cfg))
            if res.bytes() != data:
                out.violate('reference-reader-differs', diff(res.bytes(), data))
            out.count('data_objects', len(res.data))
            out.count('manifests', len(res.manifests))
            out.nontrivial = len(res.data) >= 2 and len(res.manifests) >= 2
            out.state = hashlib.sha256(rh).hexdigest()[:16]
            out.extra['depth'] = max(m['depth'] for m in res.manifests)
        except (rc.Bad, rc.NoKey, rc.Tamper, KeyError) as e:
            out.violate('reference-reader-failed', f'{type(e).__name__}: {e}')
    w.log(rh, hashlib.sha256(got or b'').digest())
    out.absorb(w)
    out.count('store_' + store)
    out.count('schema_' + cfg['schema'])
    out.count('enc_' + (cfg['enc']['kind'] if cfg['enc'] else 'none'))


class Buffer(scen.TreeIO.DataBuffer):
    def value(self):
        return self.buffer.tobytes()


class BytesSink(io.BytesIO):
    def value(self):
        return self.getvalue()


SINKS = {'list': scen.Sink, 'buffer': Buffer, 'bytesio': BytesSink}


def diff(a, b):
    n = next((k for k in range(min(len(a), len(b))) if a[k] != b[k]), min(len(a), len(b)))
    return f'{len(a)} bytes delivered, {len(b)} published, first difference at {n}'
