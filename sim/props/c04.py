"""C04: a failed publish never harms what was already published."""
import hashlib
import os

import refcodec as rc
import scen
import seams
from seams import R


def gen(rng, tier, i, ctx):
    cfg = scen.gen_cfg(rng, max_chunks=20, enc=.35)
    plan = {'base': cfg, 'link': rng.random() < .75, 'nested': rng.random() < .2, 'reuse': rng.random() < .2, 'later': []}
    for _ in range(rng.choice([2, 3, 5, 8])):
        kind = rng.choice(['same', 'same', 'same', 'content', 'content', 'schema', 'name', 'size'])
        lt = {'kind': kind, 'seed': rng.randrange(1 << 30), 'len': rng.randrange(1, 9000),
              'cfg': scen.gen_cfg(rng, max_chunks=15, enc=.3) if kind in ('schema', 'name') else None,
              'fault': None}
        r = rng.random()
        if r < .45:
            lt['fault'] = scen.gen_crash(rng)
        elif r < .9:
            lt['fault'] = scen.gen_err(rng)
        plan['later'].append(lt)
    # below the root nothing has the name another collection is published under
    for k, c in enumerate([cfg] + [lt['cfg'] for lt in plan['later'] if lt['cfg']]):
        for x in ('mpre', 'dpre'):
            if c[x]:
                c[x] += f'/x{k}{x}'
    return plan


def later_cfg(plan, lt):
    cfg = plan['base']
    if lt['kind'] == 'same':
        return dict(cfg)
    if lt['kind'] == 'content':
        return dict(cfg, data={'len': lt['len'], 'kind': 'rand', 'seed': lt['seed']})
    if lt['kind'] == 'size':
        return dict(cfg, size=cfg['size'] + 1 + lt['seed'] % 300)
    c = dict(lt['cfg'])
    if lt['kind'] == 'schema':
        c['name'] = cfg['name']
    return c


def execute(plan, ctx, out):
    w = ctx.world(plan)
    with seams.activate(w):
        d = ctx.newdir('out')
        link, nested = plan['link'], plan['nested']
        versions = {}          # name -> list of (cfg, data, root) that may be read under it
        maybe = {}             # versions whose publish failed, perhaps after its last step
        snapshot = {}          # relative path -> bytes of every object completely published
        hit = 0

        def complete(cfg, data, rh):
            versions.setdefault(cfg['name'], []).append((cfg, data, rh))
            snapshot.update({k: v for k, v in scen.dir_files(d).items() if scen.HASHNAME.match(os.path.basename(k))})
        cfg = plan['base']
        data = scen.content(cfg['data'])
        scen.write_input(w, 'in/base.bin', data)
        r = scen.incarnation(ctx, w, 'base', lambda p: scen.publish_dir(cfg, d, w, data, link, nested, rel='in/base.bin'), seed=1)
        if r['status'] != 'ok':
            out.violate('publish-failed:' + str(r['etype']), f"{r['msg']} at {r['where']}")
            out.absorb(w)
            return
        complete(cfg, data, r['res'])
        for n, lt in enumerate(plan['later']):
            c = later_cfg(plan, lt)
            dat = scen.content(c['data'])
            rel = f'in/l{n}.bin'
            scen.write_input(w, rel, dat)
            seed = 1 if lt['kind'] == 'same' and plan['reuse'] else 100 + n
            faults = []
            if lt['fault']:
                dd = ctx.newdir(f'dry{n}')
                dry = scen.incarnation(ctx, w, f'dry{n}', lambda p: scen.publish_dir(c, dd, w, dat, link, nested, rel=rel), seed=seed, record=True)
                faults = [scen.place(lt['fault'], dry['ops'])]
            bad = []

            def after(proc, kind, paths):
                if kind in ('read', 'open', 'listdir', 'scandir'):
                    return
                for p in paths:
                    if not p.startswith(d):
                        continue
                    rel_ = os.path.relpath(p, d)
                    want = snapshot.get(rel_)
                    if want is not None:
                        try:
                            have = scen.rawfile(p)
                        except OSError:
                            have = None
                        if have != want and not bad:
                            bad.append(f'{rel_[-64:][:12]} after {kind}: ' + ('gone' if have is None else f'{len(have)} bytes, was {len(want)}'))

            def pub(p):
                try:
                    return [scen.publish_dir(c, d, w, dat, link, nested, rel=rel), bad]
                except Exception as e:  # noqa
                    return [None, bad, type(e).__name__]
            r = scen.incarnation(ctx, w, f'later{n}', pub, seed=seed, faults=faults, after_op=after)
            f = faults[0] if faults else None
            desc = f"publish {n} ({lt['kind']}, {f['kind'] + ' at operation %d' % f['at'] if f else 'no fault'})"
            if r['status'] == 'crash' or (r['res'] and r['res'][0] is None):
                hit += 1
            if r['res'] and r['res'][1]:
                out.violate('object-changed-during', f'{desc}: {r["res"][1][0]}')
            # every object published before is still there, byte for byte
            now = scen.dir_files(d)
            for k, v in snapshot.items():
                if now.get(k) != v:
                    out.violate('object-lost' if k not in now else 'object-changed', f'{desc}: object {os.path.basename(k)[:12]} of an earlier publish '
                                + ('is gone' if k not in now else f'has other bytes ({len(now[k])}, was {len(v)})'))
                    break
            if r['status'] == 'ok' and r['res'][0]:
                complete(c, dat, r['res'][0])
            # a name that resolved still resolves to a complete collection
            if not nested and link:
                # a publish that failed late may have got as far as its root and link
                if r['status'] != 'ok' or not r['res'][0]:
                    maybe.setdefault(c['name'], []).append((c, dat, None))
                for m in list(versions):
                    vs = versions[m] + maybe.get(m, [])
                    res = None
                    for vc, vd, _ in vs:
                        res = scen.read_dir(d, vc)
                        if res == ('ok', vd):
                            break
                    else:
                        msg = f'{desc}: name {m} now gives {res[:3] if res[0] == "error" else "%d bytes of no published version" % len(res[1])}'
                        out.violate('name-lost', msg)
                        break
            for vs in list(versions.values()):
                vc, vd, rh = vs[-1]
                b = scen.ref_dir(d, rh, vc)
                if b != vd:
                    out.violate('collection-lost', f'{desc}: collection {rh[:12]} no longer reads: {b if isinstance(b, str) else "other bytes"}')
    out.absorb(w)
    out.nontrivial = hit > 0
    out.count('failed_publishes', hit)
    out.count('objects_watched', len(snapshot))

