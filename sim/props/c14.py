"""C14: the directory is content-addressed at every instant."""
import array
import hashlib
import os

import refcodec as rc
import scen
import seams
from seams import R
from sched import Sched

PROCESSES = True        # its simulated processes may have separate memories


def gen(rng, tier, i, ctx):
    base = scen.gen_cfg(rng, max_chunks=18, enc=.3)
    plan = {'base': base, 'nested': rng.random() < .3, 'link': rng.random() < .6, 'phases': [], 'copies': rng.random() < .5,
            'sched': {'mode': 'rand', 'seed': rng.randrange(1 << 30), 'p': rng.choice([.02, .1, .3, .7, 1])}}
    if rng.random() < .05:
        # numbers of two bytes
        plan['base'] = scen.gen_cfg(rng, chunks=rng.choice([257, 258, 300, 520]), sizes=[300, 400, 700], schemas=('Segmented', 'Segmented', 'Prefix', 'Hashed'), enc=.2)
        plan['phases'] = [[{'kind': 'same', 'seed': 0, 'len': 1, 'fault': rng.choice([None, scen.gen_err(rng)]), 'thread': False, 'cfg': None}]]
        return plan
    for _ in range(rng.choice([1, 2, 3])):
        tasks = []
        for _ in range(rng.choice([1, 1, 2, 2, 3, 4])):
            kind = rng.choice(['same', 'same', 'same', 'content', 'other', 'reput'])
            t = {'kind': kind, 'seed': rng.randrange(1 << 30), 'len': rng.randrange(1, 9000), 'fault': None, 'thread': rng.random() < .4,
                 'cfg': scen.gen_cfg(rng, max_chunks=12, enc=.3) if kind == 'other' else None}
            r = rng.random()
            if r < .3:
                t['fault'] = scen.gen_crash(rng)
            elif r < .6:
                t['fault'] = scen.gen_err(rng)
            tasks.append(t)
        plan['phases'].append(tasks)
    return plan


def task_cfg(plan, t):
    cfg = plan['base']
    if t['kind'] == 'content':
        return dict(cfg, data={'len': t['len'], 'kind': 'rand', 'seed': t['seed']})
    if t['kind'] == 'other':
        return t['cfg']
    return cfg


def whole(path):
    """None if the file is one complete packet with the hash it is named after, else what is wrong."""
    want = os.path.basename(path)
    try:
        b = scen.rawfile(path)
    except FileNotFoundError:
        return None
    except OSError as e:
        return f'cannot be read: {e}'
    try:
        o = rc.parse_packet(b)
    except rc.Bad as e:
        return f'holds {len(b)} bytes that are no packet ({e})'
    if o.hash.hex() != want:
        return f'holds a packet with the hash {o.hash.hex()[:12]}'
    return None


def hash_files(d):
    for base, dirs, files in scen._walk(d):
        for f in files:
            if scen.HASHNAME.match(f):
                yield os.path.join(base, f)


def execute(plan, ctx, out):
    w = ctx.world(plan)
    with seams.activate(w):
        d = ctx.newdir('out')
        link, nested = plan['link'], plan['nested']
        recent = []
        bad = []
        n_inst = [0]

        def after(proc, kind, paths):
            if kind == 'read':
                return
            for p in paths:
                if p.startswith(d) and scen.HASHNAME.match(os.path.basename(p)):
                    if p in recent:
                        recent.remove(p)
                    recent.append(p)
            del recent[:-4]
            for p in recent:
                n_inst[0] += 1
                e = whole(p)
                if e and len(bad) < 3:
                    bad.append(f'{os.path.basename(p)[:12]} {e} after {kind} by {proc.name}')
        failed = switches = 0
        for pi, tasks in enumerate(plan['phases']):
            procs = []
            for ti, t in enumerate(tasks):
                c = task_cfg(plan, t)
                data = scen.content(c['data'])
                rel = f'in/p{pi}t{ti}.bin'
                scen.write_input(w, rel, data)
                # the same file again by the same options gives the same objects when the same keys and ids are drawn
                seed = 7 if t['kind'] in ('same', 'reput') else t['seed']
                fn = job(t, c, d, w, data, link, nested, rel)
                faults = []
                if t['fault']:
                    dd = ctx.newdir(f'dry{pi}-{ti}')
                    dry = scen.incarnation(ctx, w, 'dry', lambda p: job(t, c, dd, w, data, link, nested, rel)(), seed=seed, record=True)
                    faults = [scen.place(t['fault'], dry['ops'])]
                procs.append((fn, w.new_proc(f'p{pi}t{ti}', seed=seed, faults=faults, pid=1000 + pi if t['thread'] else None, mem=1000 + pi if t['thread'] else None)))
            w.after_op = after
            if len(procs) == 1:
                fn, p = procs[0]
                w.set_proc(p)
                try:
                    fn()
                except seams.SimCrash:
                    failed += 1
                except Exception as e:  # noqa
                    failed += 1
                    if not p.faults:
                        out.violate(f'publish-failed:{type(e).__name__}', f'{e} at {ctx.where(e)}')
                w.set_proc(None)
            else:
                s = Sched(w, dict(plan['sched'], seed=plan['sched'].get('seed', 0) + pi))
                for fn, p in procs:
                    s.add(p.name, fn, p)
                s.run()
                switches += s.switches
                for t in s.tasks:
                    if t.crashed or t.error is not None:
                        failed += 1
                        if isinstance(t.error, seams.SimHang):
                            raise t.error
                        if t.error is not None and not t.proc.faults:
                            out.violate(f'publish-failed:{type(t.error).__name__}', f'{t.error} at {ctx.where(t.error)}')
            w.after_op = None
            for msg in bad:
                out.violate('not-content-addressed', f'phase {pi}: {msg}')
            bad.clear()
            names = {}
            for p in hash_files(d):
                e = whole(p)
                if e:
                    out.violate('not-content-addressed-after', f'phase {pi}: {os.path.basename(p)[:12]} {e}')
                if names.setdefault(os.path.basename(p), p) != p:
                    out.violate('second-copy', f'{os.path.basename(p)[:12]} is stored twice')
        # everything that is there parses and writes back to the same bytes, and putting it again adds nothing
        before = {k: v for k, v in scen.dir_files(d).items() if not k.endswith('.link')}
        n = 0
        packets = []
        for rel, b in before.items():
            if not scen.HASHNAME.match(os.path.basename(rel)):
                continue
            n += 1
            try:
                pk = scen.Packet.load(os.path.join(d, rel))
                packets.append(pk)
                same = pk.serialize().tobytes() == b
                q = scen.Packet.deserialize(array.array('B', b))
                # rebuilt from the parsed parts, not from a kept copy of the input
                if q.validation_alg() is not None:
                    r = scen.Packet.create_signed_content_object(q.body(), q.validation_alg(), q.validation_payload())
                else:
                    r = scen.Packet.create_content_object(q.body())
                rebuilt = r.serialize().tobytes() == b
            except Exception as e:  # noqa
                out.violate(f'stored-object-unparsable:{type(e).__name__}', f'{rel[-64:][:12]}: {e} at {ctx.where(e)}')
                continue
            if not same or q.serialize().tobytes() != b:
                out.violate('not-written-back', f'{rel[-64:][:12]} parses and serializes to other bytes')
            elif not rebuilt:
                out.violate('not-rebuilt', f'{rel[-64:][:12]} rebuilt from its parsed parts has other bytes')
            elif scen.phash(pk).hex() != os.path.basename(rel):
                out.violate('hash-differs', f'{rel[-64:][:12]} parsed has the hash {scen.phash(pk).hex()[:12]}')
            m = remanifest(pk)
            if m is not None:
                out.violate('manifest-not-written-back', f'{rel[-64:][:12]}: {m}')
        for f in [k for k in scen.dir_files(d) if k.endswith('.link')]:
            b = scen.rawfile(os.path.join(d, f))
            try:
                rc.parse_packet(b)
                if scen.Packet.load(os.path.join(d, f)).serialize().tobytes() != b:
                    out.violate('not-written-back', f'{f} parses and serializes to other bytes')
            except rc.Bad as e:
                out.violate('torn-link', f'{f}: {e}')
        try:
            wr = scen.TreeIO.PacketDirectoryWriter(d, link_named_objects=link, nested=nested)
            for pk in packets[:60]:
                wr.put(pk)
                if plan['copies']:
                    wr.put(pk)
        except Exception as e:  # noqa
            out.violate(f'put-again-failed:{type(e).__name__}', f'{e} at {ctx.where(e)}')
        now = {k: v for k, v in scen.dir_files(d).items() if not k.endswith('.link')}
        # (what a killed publisher left under a temporary name may go)
        k = sorted(x for x in set(now) | set(before) if now.get(x) != before.get(x) and (x in now and x not in before or scen.HASHNAME.match(os.path.basename(x))))
        if k:
            what = scen.HASHNAME.match(os.path.basename(k[0]))
            out.violate('put-again-changed', f'putting stored objects again changed {len(k)} files, e.g. {os.path.basename(k[0])[:12] if what else "a new file that is no object"}')
        w.log(sorted(k for k in before if scen.HASHNAME.match(os.path.basename(k))))
    out.absorb(w)
    out.count('failed_tasks', failed)
    out.count('switches', switches)
    out.count('objects', n)
    out.count('instants', n_inst[0])
    out.state = hashlib.sha256(repr(sorted(k for k in before if scen.HASHNAME.match(os.path.basename(k)))).encode()).hexdigest()[:16]
    out.nontrivial = n >= 3 and (failed > 0 or switches > 0)


def remanifest(pk):
    """A manifest taken apart and put together again."""
    if not pk.body().is_content_object() or not pk.body().is_manifest():
        return None
    from ccnpy.flic.tlvs.Manifest import Manifest
    want = rc.parse_packet(pk.serialize().tobytes()).payload
    m = Manifest.from_content_object(pk.body())
    have = m.serialize()
    have = have.tobytes() if hasattr(have, 'tobytes') else bytes(have)
    if have != want and have[4:] != want:
        return f'{len(want)} bytes, put together again {len(have)}'
    return None


def job(t, c, d, w, data, link, nested, rel):
    def fn():
        if t['kind'] == 'reput':
            # the same packet objects through two writers
            mem = scen.TreeIO.PacketMemoryWriter()
            scen.publish(c, mem, w, data, rel=rel)
            a = scen.dir_writer(d, c, link, nested)
            b = scen.dir_writer(d, c, link, nested)
            for k, p in enumerate(mem.packets):
                (a if k % 2 else b).put(p)
            for p in mem.packets:
                a.put(p)
            return None
        return scen.publish_dir(c, d, w, data, link, nested, rel=rel)
    return fn
