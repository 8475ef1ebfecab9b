"""Histories of publishes in one process, shared by the checks that look at what was stored (C13, C16)."""
import random

import refcodec as rc
import scen
import seams


def gen_history(rng, cfgs):
    """One process publishing several collections; option objects may be shared, attempts may fail."""
    pubs = []
    for k, c in enumerate(cfgs):
        p = {'cfg': c, 'share': rng.random() < .3, 'faults': []}
        if rng.random() < .25:
            p['faults'] = [scen.gen_err(rng)]
        if c.get('src') == 'file':
            p['shorts'] = [{'at': rng.randrange(0, 80), 'kind': 'short', 'n': rng.choice([1, 7, 100, 1499])} for _ in range(rng.choice([0, 0, 2, 6]))]
        else:
            p['shorts'] = []
        pubs.append(p)
    return {'pubs': pubs, 'store': rng.choice(['wire', 'dir', 'dir', 'nested', 'mem'])}


def run_history(plan, ctx, w, out, report_errors=True):
    """Yields (k, cfg, data, root hash, {hash: bytes}, error) for every publish without error faults."""
    store = plan['store']
    shared = {}
    if plan.get('burn'):
        # a process that has made that many names before
        from ccnpy.flic.name_constructor.NameConstructorContext import NameConstructorContext
        o = scen.options(dict(plan['pubs'][0]['cfg'], enc=None, sign=None))
        for _ in range(plan['burn']):
            NameConstructorContext.create(o)
    for k, p in enumerate(plan['pubs']):
        cfg = p['cfg']
        data = scen.content(cfg['data'])
        rel = f'in/f{k}.bin'
        scen.write_input(w, rel, data)
        key = repr(sorted((a, repr(b)) for a, b in cfg.items() if a not in ('data', 'src')))
        opts = shared.get(key) if p['share'] else None
        if opts is None:
            opts = scen.options(cfg)
            shared[key] = opts
        for attempt in ([p['faults']] if p['faults'] else []) + [[]]:
            d = None
            if store == 'wire':
                wr = scen.WireStore()
            elif store == 'mem':
                wr = scen.TreeIO.PacketMemoryWriter()
            else:
                d = ctx.newdir(f'o{k}-{len(attempt)}')
                wr = scen.TreeIO.PacketDirectoryWriter(d, link_named_objects=k % 2 == 0, nested=store == 'nested', signer=opts.signer)
            pr = w.new_proc(f'pub{k}', seed=1000 + k, faults=attempt or p['shorts'])
            w.set_proc(pr)
            err = root = None
            try:
                root = scen.publish(cfg, wr, w, data, opts=opts, rel=rel)
            except Exception as e:  # noqa
                err = e
            w.set_proc(None)
            if attempt:
                out.count('failed_attempts', 1 if err is not None else 0)
                continue
            if err is not None:
                yield k, cfg, data, None, None, None, err
                continue
            if store == 'wire':
                objs = wr.by_hash
            elif store == 'mem':
                objs = {scen.phash(q): q.serialize().tobytes() for q in wr.packets}
            else:
                objs = scen.objects(d)
            extra = scen.links(d) if d else {}
            yield k, cfg, data, scen.phash(root), objs, extra, None
