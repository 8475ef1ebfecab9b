"""C03: a crash while publishing never exposes an unreadable collection."""
import hashlib
import os

import refcodec as rc
import scen
import seams
from seams import R


def gen(rng, tier, i, ctx):
    cfg = scen.gen_cfg(rng, max_chunks=30 if rng.random() < .9 else 300, enc=.35)
    plan = {'cfg': cfg, 'link': rng.random() < .75, 'nested': rng.random() < .25, 'pre': None, 'crashes': []}
    if rng.random() < .4:
        plan['pre'] = {'same': rng.random() < .3, 'len': rng.randrange(1, 6000), 'seed': rng.randrange(1 << 30)}
    for _ in range(rng.choice([3, 6, 10])):
        plan['crashes'].append(scen.gen_crash(rng))
    return plan


def execute(plan, ctx, out):
    cfg = plan['cfg']
    data = scen.content(cfg['data'])
    w = ctx.world(plan)
    with seams.activate(w):
        scen.write_input(w, 'in/file.bin', data)
        old = None
        oldcfg = cfg
        if plan['pre']:
            if plan['pre']['same']:
                old = data
            else:
                oldcfg = dict(cfg, data={'len': plan['pre']['len'], 'kind': 'rand', 'seed': plan['pre']['seed']})
                old = scen.content(oldcfg['data'])
            scen.write_input(w, 'in/old.bin', old)
        link, nested = plan['link'], plan['nested']

        def prepare(d):
            if old is None:
                return
            r = scen.incarnation(ctx, w, 'old', lambda p: scen.publish_dir(oldcfg, d, w, old, link, nested, rel='in/old.bin'), seed=5)
            if r['status'] != 'ok':
                out.violate('publish-failed:' + str(r['etype']), f"{r['msg']} at {r['where']}")

        def pub(d):
            return lambda p: scen.publish_dir(cfg, d, w, data, link, nested)
        # a run without crash: learns the operations and watches the root and its link at every step
        d = ctx.newdir('dry')
        prepare(d)
        dry = scen.incarnation(ctx, w, 'pub', pub(d), seed=7, record=True)
        if dry['status'] != 'ok':
            out.violate('publish-failed:' + str(dry['etype']), f"{dry['msg']} at {dry['where']}")
            out.absorb(w)
            return
        rh = dry['res']
        inside = 0
        for n, c in enumerate(plan['crashes']):
            d = ctx.newdir(f'd{n}')
            prepare(d)
            f = scen.place(c, dry['ops'])
            watch = Watch(d, rh, cfg, data, old, link, nested)
            r = scen.incarnation(ctx, w, 'pub', pub(d), seed=7, faults=[f])
            opname = '%s %s' % tuple(dry['ops'][f['at']][:2])
            if r['status'] == 'crash':
                inside += 1
            elif r['status'] == 'error':
                out.violate('crash-swallowed:' + r['etype'], f"crash at operation {f['at']} ({opname}) became {r['etype']}: {r['msg']}")
            for kind, msg in watch.check(ctx):
                out.violate(kind, f"{msg} - process killed at operation {f['at']} of {len(dry['ops'])} ({c['kind']} {opname})")
            st = 'root' if scen.visible(d, rh) else 'none'
            if os.path.exists(os.path.join(d, scen.link_file(cfg['name']))):
                st += '+link'
            out.count('left_' + st)
        # the same checks at every instant of a run that is not killed
        d = ctx.newdir('live')
        prepare(d)
        watch = Watch(d, rh, cfg, data, old, link, nested)
        found = []

        def after(proc, kind, paths):
            if watch.touches(kind, paths):
                for k, msg in watch.refcheck():
                    found.append([k, f'{msg} - seen by an observer after {kind}'])

        def live(p):
            pub(d)(p)
            return found
        r = scen.incarnation(ctx, w, 'pub', live, seed=7, after_op=after)
        for k, msg in (r['res'] or [])[:5]:
            out.violate(k, msg)
    out.absorb(w)
    out.nontrivial = inside > 0 and len(dry['ops']) > 12
    out.count('crashes', inside)


class Watch:
    def __init__(self, d, rh, cfg, data, old, link, nested):
        self.d, self.rh, self.cfg, self.data, self.old, self.link, self.nested = d, rh, cfg, data, old, link, nested
        self.linkpath = os.path.join(d, scen.link_file(cfg['name']))
        self.prelink = scen.rawfile(self.linkpath) if os.path.exists(self.linkpath) else None

    def touches(self, kind, paths):
        return kind in ('rename', 'link', 'creat', 'write', 'close', 'ftruncate', 'unlink') and any(
            p.endswith(self.rh) or p == self.linkpath for p in paths)

    def refcheck(self):
        """With the reference reader."""
        out = []
        if scen.visible(self.d, self.rh):
            b = scen.ref_dir(self.d, self.rh, self.cfg)
            if b != self.data:
                out.append(['root-visible-unreadable', f'root manifest visible but {b if isinstance(b, str) else "it reads differently"}'])
        if os.path.exists(self.linkpath):
            raw = scen.rawfile(self.linkpath)
            if raw == self.prelink and self.old is not None:
                return out
            try:
                o = rc.parse_packet(raw)
                digest = rc.parse_link(o)['digest'] if o.ptype == rc.LINK else None
            except rc.Bad as e:
                out.append(['link-torn', f'name link visible but {e}'])
                return out
            b = scen.ref_dir(self.d, digest, self.cfg) if digest else 'no digest'
            if b != self.data and b != self.old:
                out.append(['link-visible-unreadable', f'name link visible but {b if isinstance(b, str) else "it reads differently"}'])
        return out

    def check(self, ctx):
        out = self.refcheck()
        if out:
            return out
        if scen.visible(self.d, self.rh) and not self.nested:
            r = scen.read_dir(self.d, self.cfg, self.rh)
            if r != ('ok', self.data):
                out.append(['root-visible-read-fails', f'root manifest visible, read by hash gives {r[:3] if r[0] == "error" else "other bytes"}'])
        if os.path.exists(self.linkpath) and not self.nested:
            r = scen.read_dir(self.d, self.cfg)
            if r not in (('ok', self.data), ('ok', self.old)):
                out.append(['link-visible-read-fails', f'name link visible, read by name gives {r[:3] if r[0] == "error" else "%d of %d bytes" % (len(r[1]), len(self.data))}'])
        for h, b in scen.objects(self.d).items():
            try:
                if rc.parse_packet(b).hash != h:
                    out.append(['torn-object', f'object file {h.hex()[:12]} holds another packet'])
            except rc.Bad as e:
                out.append(['torn-object', f'object file {h.hex()[:12]}: {e}'])
        return out
