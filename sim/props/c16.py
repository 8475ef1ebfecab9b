"""C16: stored metadata tells the truth about the file."""
import hashlib

import hist
import refcodec as rc
import scen
import seams

CHUNK, MID = 0x0010, 0x0011

PROCESSES = True        # its simulated processes may have separate memories


def gen(rng, tier, i, ctx):
    cfgs = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        r = rng.random()
        kw = dict(schemas=('Segmented', 'Segmented', 'Prefix', 'Hashed'), enc=.25)
        if r < .15:
            c = scen.gen_cfg(rng, chunks=rng.choice([254, 255, 256, 257, 300, 700]), sizes=[300, 512, 900], **kw)
        elif r < .3:
            c = scen.gen_cfg(rng, chunks=rng.randrange(1, 6), **kw)
        else:
            c = scen.gen_cfg(rng, max_chunks=90, **kw)
        if rng.random() < .5:
            c['flags'] = [True, True, True]
        if rng.random() < .5:
            c['exp'] = [rng.choice([None, rng.randrange(1, 4_000_000_000_000)]) for _ in range(3)]
        cfgs.append(c)
    if rng.random() < .4:
        # the same options for another file
        cfgs.append(dict(cfgs[0], data=dict(cfgs[0]['data'], seed=rng.randrange(1 << 30), len=rng.randrange(1, 20000))))
    if rng.random() < .4:
        cfgs.append(scen.related_cfg(rng, rng.choice(cfgs)))
        if rng.random() < .3:
            rng.shuffle(cfgs)
    return hist.gen_history(rng, cfgs)


def want_prefix(cfg, what):
    return scen.comps(scen.mkname(cfg[what] or cfg['name']))


def check(cfg, data, rh, objs, bad):
    """Everything C16 says about one stored collection; bad(kind, msg) reports."""
    res = rc.walk(objs.get, rh, scen.ref_keys(cfg), check_names=False)
    schema = cfg['schema']
    root = res.manifests[0]
    exp_root, exp_man, exp_data = cfg['exp']
    if root['obj'].name != scen.comps(scen.mkname(cfg['name'])):
        bad('root-name', f'root is named {rc.uri(root["obj"].name)}')
    if root['obj'].expiry != exp_root:
        bad('root-expiry', f'root expires at {root["obj"].expiry}, options say {exp_root}')
    if root['bytes'] != len(data):
        bad('total', f'{root["bytes"]} bytes below the root of a file of {len(data)}')
    nsizes = 0
    for m in res.manifests:
        node, o = m['node'], m['obj']
        where = f'manifest at depth {m["depth"]}'
        if node['subtree'] is not None:
            nsizes += 1
            if node['subtree'] != m['bytes']:
                bad('node-subtree-size', f'{where} says {node["subtree"]} bytes, {m["bytes"]} are below it')
        for gi, g in enumerate(node['groups']):
            below = m['direct'][gi] + m['indirect'][gi]
            if g['subtree'] is not None:
                nsizes += 1
                if g['subtree'] != below:
                    bad('group-subtree-size', f'{where} group {gi} says {g["subtree"]} bytes, {below} are below it')
            if g['leaf'] is not None:
                nsizes += 1
                if g['leaf'] != m['direct'][gi]:
                    bad('group-leaf-size', f'{where} group {gi} says {g["leaf"]} bytes, {m["direct"][gi]} are directly below it')
        if m is not root:
            if o.expiry != exp_man:
                bad('manifest-expiry', f'{where} expires at {o.expiry}, options say {exp_man}')
            if schema == 'Hashed' and o.name is not None:
                bad('manifest-name', f'{where} has a name under the hashed schema')
            if schema == 'Prefix' and o.name != want_prefix(cfg, 'mpre'):
                bad('manifest-name', f'{where} is named {rc.uri(o.name)}')
            if schema == 'Segmented' and (o.name is None or o.name[:-1] != want_prefix(cfg, 'mpre')):
                bad('manifest-name', f'{where} is named {rc.uri(o.name)}')
        if o.fcid is not None:
            bad('final-chunk-on-manifest', where)
    for o in res.data:
        if o.expiry != exp_data:
            bad('data-expiry', f'data object expires at {o.expiry}, options say {exp_data}')
            break
    for o in res.data:
        if schema == 'Hashed' and o.name is not None or schema == 'Prefix' and o.name != want_prefix(cfg, 'dpre') or \
                schema == 'Segmented' and (o.name is None or o.name[:-1] != want_prefix(cfg, 'dpre')):
            bad('data-name', f'data object is named {rc.uri(o.name)}')
            break
    if schema == 'Hashed':
        # where the nameless objects are to be found
        want = {rc.DATA: cfg['dloc'] or cfg['name'], rc.MANIFEST: cfg['mloc'] or cfg['name']}
        want = {t: bytes(scen.mkname(u).serialize()) for t, u in want.items()}
        for m in res.manifests:
            for gi, h, o, _, seg in m['kids']:
                loc = m['scope'][m['node']['groups'][gi]['ncid']]['locators']
                if loc != [want[o.ptype]]:
                    bad('locator', f'{"data" if o.ptype == rc.DATA else "manifest"} below a manifest at depth {m["depth"]} has the locators {loc}')
                    break
    if schema == 'Segmented':
        ids = {}
        for m in res.manifests:
            for gi, h, o, want, seg in m['kids']:
                # the number the pointer's position gives is the object's own
                if seg is None:
                    bad('no-start-segment', f'group {gi} of a manifest at depth {m["depth"]} has no start segment id')
                    break
                suffix = o.name[-1] if o.name else None
                if suffix is None or int.from_bytes(suffix[1], 'big') != seg:
                    bad('wrong-number', f'pointer {seg} leads to an object named {rc.uri(o.name)}')
                elif o.name != want:
                    bad('wrong-request-name', f'object {rc.uri(o.name)} is requested as {rc.uri(want)}')
                key = (o.ptype, seg)
                if ids.setdefault(key, h) != h:
                    bad('number-reused', f'{"data" if o.ptype == rc.DATA else "manifest"} number {seg} names two objects')
                if ids.setdefault(('name', o.name), h) != h:
                    bad('name-reused', f'{rc.uri(o.name)} names two objects')
        carriers = [o for o in res.data if o.fcid is not None]
        if len(carriers) != 1 or carriers[0] is not res.data[-1]:
            bad('final-chunk', f'{len(carriers)} data objects carry a final chunk number' if len(carriers) != 1 else 'it is not the last data object that carries the final chunk number')
        elif carriers[0].name and carriers[0].fcid != int.from_bytes(carriers[0].name[-1][1], 'big'):
            bad('final-chunk-value', f'final chunk {carriers[0].fcid} on the object {rc.uri(carriers[0].name)}')
    return res, nsizes


def execute(plan, ctx, out):
    w = ctx.world(plan)
    with seams.activate(w):
        for k, cfg, data, rh, objs, extra, err in hist.run_history(plan, ctx, w, out):
            if err is not None:
                out.violate(f'publish-failed:{type(err).__name__}:{ctx.where(err)}', err)
                continue
            try:
                res, n = check(cfg, data, rh, objs, lambda kind, msg: out.violate(kind, f'publish {k}: {msg}'))
            except (rc.Bad, rc.NoKey, rc.Tamper, KeyError) as e:
                out.violate('unreadable', f'publish {k}: {type(e).__name__} {e}')
                continue
            out.count('sizes_checked', n)
            out.count('manifests', len(res.manifests))
            out.count('schema_' + cfg['schema'])
            if len(res.manifests) > 2 and len(res.data) > 2:
                out.nontrivial = True
            w.log(rh)
            out.state = hashlib.sha256(rh).hexdigest()[:16]
    out.absorb(w)
