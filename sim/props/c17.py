"""C17: the command line tools work together across processes."""
import base64
import hashlib
import os
import random
import time

import c16
import refcodec as rc
import scen
import seams
from seams import R

ZYGOTES = [1, 77]
ENVS = [{}, {'TZ': 'JST-9'}, {'TZ': 'NST3:30NDT,M3.2.0,M11.1.0', 'LC_ALL': 'tr_TR.UTF-8'}, {'LANG': 'C', 'HOME': '/nonexistent'}, {'TZ': 'XXX-14'}]
WRONG = ['enc-key', 'salt', 'mode', 'num', 'no-enc', 'bits', 'wrap-other', 'wrap-pub', 'no-wrap', 'sign-other', 'no-sign', 'badpass']
ALTER = ['flip', 'flip', 'trunc', 'delete', 'swap', 'extend', 'zero', 'link-flip', 'link-delete', 'link-other']

PROCESSES = True        # its simulated processes may have separate memories


def gen_proc(rng):
    return {'z': rng.choice([0] + ZYGOTES), 'env': rng.choice(ENVS), 'cwd': rng.random() < .3, 'seed': rng.randrange(1 << 30), 'pid': rng.choice([7, 1000, 1000]),
            'shorts': [{'at': rng.randrange(0, 60), 'kind': 'short', 'n': rng.choice([1, 5, 100, 1499])} for _ in range(rng.choice([0, 0, 0, 2, 8]))],
            'clock': {'start': rng.choice([0, 1_700_000_000_000_000_000, 1_709_208_000_123_456_789, 4_102_444_800 * 10**9])}}


def gen(rng, tier, i, ctx):
    jobs, reads = [], []
    for k in range(rng.choice([1, 1, 2, 3])):
        c = scen.gen_cli_cfg(rng, max_chunks=24, tag=f'j{k}', sizes=[1500, 1500, 700, 1000, 4096])
        if k and rng.random() < .25:
            c['name'] = jobs[0]['cfg']['name']
        if c['enc'] and rng.random() < .2 and c['enc'].get('kdf'):
            c['enc']['kdfinfo'] = None
            c['enc']['uuid'] = True
        jobs.append({'cfg': c, 'd': rng.choice([0, 0, 1]), 'link': rng.random() < .7, 'pem': rng.random() < .4, 'proc': gen_proc(rng),
                     'short': rng.random() < .5, 'rel': rng.random() < .4, 'tz': rng.choice(['+00:00', '+05:30', '-03:00', 'Z'])})
    for _ in range(rng.choice([4, 7, 10])):
        r = {'j': rng.randrange(len(jobs)), 'by': rng.choice(['name', 'hash', 'hash', 'HASH', '0x']), 'to': rng.choice(['file', 'file', 'stdout']),
             'pub': rng.random() < .5, 'pem': rng.random() < .4, 'content': rng.random() < .2, 'proc': gen_proc(rng), 'n': rng.randrange(1 << 30),
             'old': rng.random() < .2, 'wrong': None, 'alter': None, 'tool': 'manifest_reader' if rng.random() < .65 else 'packet_reader', 'pretty': rng.random() < .3}
        x = rng.random()
        if x < .25:
            r['wrong'] = rng.choice(WRONG)
        elif x < .5:
            r['alter'] = rng.choice(ALTER)
        reads.append(r)
    return {'jobs': jobs, 'reads': reads}


# --------------------------------------------------------------------------------------------------- one process

def tool(ctx, scratch, proc, app, argv, pw, cwd):
    """One run of a tool as a process of its own -> {'code', 'out', ...}"""
    for k, v in proc['env'].items():
        os.environ[k] = v
    time.tzset()
    os.chdir(cwd)
    w = ctx.world({'clock': proc['clock']}, root=scratch)
    with seams.activate(w):
        p = w.new_proc(app, seed=proc['seed'], pid=proc['pid'], faults=proc['shorts'])
        w.set_proc(p)
        code, out = scen.run_cli(app, argv, pw, w)
        w.set_proc(None)
    return {'code': code, 'out': base64.b64encode(out).decode(), 'fired': w.fired, 'sim': w.sim_ns, 'nops': w.nops, 'trace': w.trace.hexdigest()[:16]}


def run_tool(ctx, out, proc, app, argv, pw, cwd):
    z = ctx.zygotes.get(proc['z']) if proc['z'] else None
    args = [ctx.scratch, proc, app, list(argv), list(pw), cwd]
    r = z.call('tool', args) if z is not None else ctx.fork(lambda: tool(ctx, *args))
    if 'code' not in r:
        if 'hang' in r:
            out.violate('hang', f'{app}: {r["hang"]}')
        else:
            raise RuntimeError(f'{app}: {r}')
        return None, b''
    for f, n in r['fired'].items():
        out.fired[f] = out.fired.get(f, 0) + n
    out.sim_ns += r['sim']
    out.count('ops', r['nops'])
    out.count(app)
    out.hash.update(r['trace'].encode() + str(r['code']).split(':')[0].encode())
    return r['code'], base64.b64decode(r['out'])


# --------------------------------------------------------------------------------------------------- arguments

def relative(argv, cwd):
    return [os.path.relpath(a, cwd) if a.startswith('/') else a for a in argv]


def shorten(argv, cwd, infile):
    """Leave out what is the default."""
    out = []
    it = iter(range(len(argv)))
    for i in it:
        a = argv[i]
        if a in ('-s', '--schema', '-o', '-i') and i + 1 < len(argv):
            v = argv[i + 1]
            if (a, v) in (('-s', '1500'), ('--schema', 'Hashed')) or (a in ('-o', '-i') and os.path.abspath(v) == os.path.abspath(cwd)):
                next(it)
                continue
        out.append(a)
    return out


def retime(argv, tz):
    """The same instants in another time zone."""
    import datetime
    out = list(argv)
    for i, a in enumerate(argv):
        if a in ('--root-expiry', '--node-expiry', '--data-expiry'):
            t = R.datetime.fromisoformat(argv[i + 1])
            if tz == 'Z':
                out[i + 1] = t.isoformat(timespec='milliseconds').replace('+00:00', 'Z')
            else:
                s = -1 if tz[0] == '-' else 1
                h, m = tz[1:].split(':')
                if t.year < 9990 and t.year > 1970:
                    out[i + 1] = t.astimezone(datetime.timezone(s * datetime.timedelta(hours=int(h), minutes=int(m)))).isoformat(timespec='milliseconds')
    return out


def as_content(cfg):
    """The reader's options when it is given the content key of a wrapped collection."""
    e = cfg['enc']
    if not (e and e.get('wrap') and 'key' in e and e.get('salt') is not None):
        return None
    e = dict(e, kind=e.get('mode', 'gcm'))
    e.pop('wrap')
    return dict(cfg, enc=e)


def wrong_cfg(cfg, r):
    """(reader's configuration with something wrong, argv edits, must_fail) or None when it does not apply."""
    e, k = cfg['enc'], r['wrong']
    n = r['n']
    if k in ('enc-key', 'salt', 'mode', 'num', 'no-enc', 'bits'):
        if not e or e.get('wrap'):
            return None
        if k == 'no-enc':
            return dict(cfg, enc=None), [], True
        x = dict(e)
        if k == 'enc-key':
            x['key'] = e['key'] + 1 + n % 5
            if e.get('num') is None:
                return dict(cfg, enc=x), [], True
        elif k == 'salt':
            x['salt'] = (e['salt'] or 0) ^ (1 << n % 32) if e.get('salt') is not None else n & 0xFFFFFFFF
        elif k == 'bits':
            x['bits'] = 384 - e['bits']
        elif k == 'mode':
            x['kind'] = 'ccm' if e['kind'] == 'gcm' else 'gcm'
        else:
            x['num'] = (e.get('num') or 0) + 1 + n % 9
        return dict(cfg, enc=x), [], True
    if k in ('wrap-other', 'wrap-pub', 'no-wrap'):
        if not e or not e.get('wrap'):
            return None
        if k == 'no-wrap':
            # the signer's key may be the unwrapping key as well
            return dict(cfg, enc=None), [], cfg['sign'] != e['wrap']
        if k == 'wrap-pub':
            return cfg, [('--wrap-key', os.path.join(scen.KEYDIR, e['wrap'] + '.pub.pem'), '--wrap-pass')], True
        o = [x for x in scen.KEYS if x != e['wrap']]
        return dict(cfg, enc=dict(e, wrap=o[n % len(o)])), [], cfg['sign'] != e['wrap']
    if k in ('sign-other', 'no-sign'):
        if not cfg['sign'] or (e and e.get('wrap') == cfg['sign']):
            return None
        o = [x for x in scen.KEYS if x != cfg['sign']]
        s = None if k == 'no-sign' else o[n % len(o)]
        # a key that unwraps must not be replaced by its public half
        return dict(cfg, sign=s), [], True
    if k == 'badpass':
        if cfg['sign'] not in scen.ENC_PEM:
            return None
        f, p = scen.ENC_PEM[cfg['sign']]
        return cfg, [('-k', os.path.join(scen.KEYDIR, f), '-p', p[:-1] if n % 2 else 'x')], True
    raise ValueError(k)


def edit(argv, edits):
    for ed in edits:
        opt, val = ed[0], ed[1]
        i = argv.index(opt)
        argv[i + 1] = val
        if len(ed) > 2:
            if ed[2] in argv:
                j = argv.index(ed[2])
                if len(ed) > 3:
                    argv[j + 1] = ed[3]
                else:
                    del argv[j:j + 2]
            elif len(ed) > 3:
                argv += [ed[2], ed[3]]
    return argv


# --------------------------------------------------------------------------------------------------- altered directories

def copy_dir(src, dst):
    for rel, b in scen.dir_files(src).items():
        p = os.path.join(dst, rel)
        scen.mkdirs(os.path.dirname(p))
        with R.open(p, 'wb') as f:
            f.write(b)


def put(p, b):
    with R.open(p, 'wb') as f:
        f.write(b)


def alter(kind, d, hexes, link, n):
    """Alter one object (or the link) of a collection in d -> the altered file's name, or None."""
    rnd = random.Random(n)
    if kind.startswith('link'):
        if link is None:
            return None
        p = os.path.join(d, link)
        if kind == 'link-delete':
            R.unlink(p)
        elif kind == 'link-flip':
            b = bytearray(scen.rawfile(p))
            b[rnd.randrange(len(b))] ^= 1 << rnd.randrange(8)
            put(p, bytes(b))
        else:
            o = [x for x in scen.links(d) if x != link]
            if not o:
                return None
            put(p, scen.rawfile(os.path.join(d, rnd.choice(o))))
        return link
    h = rnd.choice(hexes)
    p = os.path.join(d, h)
    b = scen.rawfile(p)
    if kind == 'delete':
        R.unlink(p)
        return h
    if kind == 'flip':
        x = bytearray(b)
        x[rnd.randrange(8, len(x))] ^= 1 << rnd.randrange(8)
        x = bytes(x)
    elif kind == 'trunc':
        x = b[:rnd.choice([0, 1, 7, 8, 20, len(b) // 2, len(b) - 1])]
    elif kind == 'extend':
        x = b + rnd.randbytes(rnd.choice([1, 4, 9]))
    elif kind == 'zero':
        k = rnd.randrange(8, len(b))
        x = b[:k] + bytes(len(b) - k)
    else:
        o = [y for y in hexes if scen.rawfile(os.path.join(d, y)) != b]
        if not o:
            return None
        x = scen.rawfile(os.path.join(d, rnd.choice(o)))
    if x == b:
        return None
    put(p, x)
    return h


def execute(plan, ctx, out):
    out.hash = hashlib.sha256()
    done = []
    by_name = {}
    dirs = [ctx.newdir('o0'), ctx.newdir('o1')]
    good = shown = refused = 0
    for k, jb in enumerate(plan['jobs']):
        cfg, d = jb['cfg'], dirs[jb['d']]
        data = scen.content(cfg['data'])
        f = os.path.join(ctx.newdir('in'), f'f{k}.bin')
        put(f, data)
        cwd = d if jb['proc']['cwd'] else ctx.scratch
        argv, pw = scen.writer_argv(cfg, f, d, link=jb['link'], enc_pem=jb['pem'])
        argv = retime(argv, jb['tz'])
        if jb['rel']:
            argv = relative(argv, cwd)
        if jb['short']:
            argv = shorten(argv, cwd, f)
        code, text = run_tool(ctx, out, jb['proc'], 'manifest_writer', argv, pw, cwd)
        if code != 0:
            out.violate('writer-failed:' + str(code).split(':')[0], f'job {k}: {code}; {" ".join(argv)[:300]}')
            continue
        # the root hash is what the tool prints
        m = [x for x in text.decode().splitlines() if x.startswith('Root manifest hash')]
        rh = None
        if m:
            import re
            x = re.findall(r'[0-9a-f]{64}', m[-1])
            rh = x[0] if x else None
        if rh is None:
            out.violate('no-root-hash', f'job {k} printed no root hash')
            continue
        objs = scen.objects(d)
        if bytes.fromhex(rh) not in objs:
            out.violate('root-not-stored', f'job {k}: {rh[:12]} is not in the directory')
            continue
        rcfg = cfg
        if cfg['enc'] and 'num' in cfg['enc'] and cfg['enc']['num'] is None:
            sc = rc.parse_manifest(rc.parse_packet(objs[bytes.fromhex(rh)]).payload)['secctx']
            if sc is not None:
                rcfg = dict(cfg, enc=dict(cfg['enc'], num=sc['keynum']))
        try:
            c16.check(rcfg, data, bytes.fromhex(rh), objs, lambda kind, msg: out.violate('stored-' + kind, f'job {k}: {msg}'))
            res = rc.walk(objs.get, bytes.fromhex(rh), scen.ref_keys(rcfg))
        except (rc.Bad, rc.NoKey, rc.Tamper, KeyError) as e:
            out.violate('stored-unreadable', f'job {k}: {type(e).__name__} {e}')
            continue
        if res.bytes() != data:
            out.violate('stored-differs', f'job {k}: another file is stored')
        enc = {m['plain'] for m in res.manifests}
        if enc != {cfg['enc'] is None}:
            out.violate('encryption-option', f'job {k}: encrypted manifests {enc} with {cfg["enc"] and cfg["enc"]["kind"]}')
        if (res.root.valg is not None) != bool(cfg['sign']) or cfg['sign'] and rc.check_validation(res.root, [scen.KEYS[cfg['sign']].pub]) != 'ok':
            out.violate('signing-option', f'job {k}: root signature with {cfg["sign"]}')
        e = cfg['enc']
        if e and e.get('wrap') and 'key' in e:
            cache = {}
            rc.open_manifest(res.root, scen.ref_keys(rcfg), cache)
            salt = None if e.get('salt') is None else e['salt'].to_bytes(4, 'big')
            if len(cache) != 1 or any(k != scen.aes_key_bytes(e) or salt is not None and s != salt for k, s in cache.values()):
                out.violate('content-key-option', f'job {k}: another content key or salt is wrapped than the one given')
        hexes = sorted({o.hash.hex() for o in res.data} | {m['obj'].hash.hex() for m in res.manifests})
        ptrs = {m['obj'].hash.hex(): [p.hex() for g in m['node']['groups'] for p in g['ptrs']] for m in res.manifests}
        j = {'k': k, 'cfg': cfg, 'rcfg': rcfg, 'data': data, 'rh': rh, 'd': d, 'hexes': hexes, 'link': None, 'ptrs': ptrs, 'objs': {x: objs[bytes.fromhex(x)] for x in hexes}}
        if jb['link']:
            j['link'] = scen.link_file(cfg['name'])
            old = by_name.get((jb['d'], cfg['name']))
            if old is not None:
                old['link'] = None
            by_name[(jb['d'], cfg['name'])] = j
        done.append(j)
    for rn, r in enumerate(plan['reads']):
        if not done:
            break
        j = done[r['j'] % len(done)]
        if r['by'] == 'name':
            j = by_name.get((dirs.index(j['d']), j['cfg']['name']))
            if j is None:
                continue
        cfg, data, d = j['cfg'], j['data'], j['d']
        edits, must_fail = [], False
        use = cfg
        if r['content'] and r['wrong'] is None:
            use = as_content(cfg) or cfg
            if use is not cfg and use['enc']['num'] is None:
                use = dict(use, enc=dict(use['enc'], num=None))
        if r['wrong']:
            x = wrong_cfg(cfg, r)
            if x is None:
                continue
            use, edits, must_fail = x
            out.fired['wrong_' + r['wrong']] = out.fired.get('wrong_' + r['wrong'], 0) + 1
        altered = None
        if r['alter']:
            if r['alter'].startswith('link') and r['by'] != 'name' and r['tool'] == 'manifest_reader':
                continue
            d = ctx.newdir(f'alt{rn}')
            copy_dir(j['d'], d)
            altered = alter(r['alter'], d, j['hexes'], j['link'], r['n'])
            if altered is None:
                continue
            out.fired['alter_' + r['alter']] = out.fired.get('alter_' + r['alter'], 0) + 1
        cwd = d if r['proc']['cwd'] else ctx.scratch
        enc_pem = r['pem'] or r['wrong'] == 'badpass'
        pub = r['pub'] and not (use['enc'] and use['enc'].get('wrap') == use['sign']) and not (cfg['enc'] and cfg['enc'].get('wrap') == use['sign'] and not must_fail)
        if r['wrong'] == 'badpass':
            pub = False
        desc = f'{r["tool"]} {rn} of job {j["k"]} by {r["by"]}' + (f' with wrong {r["wrong"]}' if r['wrong'] else '') + (f', {r["alter"]} on {altered[:12]}' if altered else '')
        if r['tool'] == 'manifest_reader':
            rh = None if r['by'] == 'name' else {'hash': j['rh'], 'HASH': j['rh'].upper(), '0x': '0x' + j['rh']}[r['by']]
            of = os.path.join(ctx.scratch, f'out{rn}.bin') if r['to'] == 'file' else None
            if of and r['old']:
                put(of, b'what the file held before' * 100)
            argv = edit(scen.reader_argv(use, d, rh, of, pub=pub, enc_pem=enc_pem), edits)
            code, text = run_tool(ctx, out, r['proc'], 'manifest_reader', shorten(argv, cwd, None) if r['n'] % 2 else argv, [], cwd)
            if code is None:
                continue
            if of:
                got = scen.rawfile(of) if os.path.exists(of) else b''
                if code != 0 and got == b'what the file held before' * 100:
                    got = b''
                prefix = data[:len(got)] == got
                whole = got == data
            else:
                whole = data in text
                prefix = True
            if must_fail and (code == 0 or (of and got and cfg['enc'] and r['wrong'] not in ('sign-other', 'no-sign', 'badpass'))):
                out.violate('wrong-key-accepted', f'{desc}: exit {code}')
            elif not prefix:
                out.violate('wrong-data', f'{desc}: {len(got)} bytes written that are not the file (exit {code})')
            elif code == 0 and not whole:
                out.violate('incomplete-success', f'{desc}: exit 0 without the whole file')
            elif code != 0 and not r['wrong'] and not altered:
                out.violate('reader-failed:' + str(code).split(':')[0], f'{desc}: {code}')
            elif code == 0 and altered and not r['alter'].startswith('link'):
                out.violate('altered-accepted', f'{desc}: exit 0')
            elif code == 0:
                good += 1
            else:
                refused += 1
        else:
            names = [altered] if altered and os.path.exists(os.path.join(d, altered)) and r['n'] % 3 else []
            pool = j['hexes'] + ([j['link']] if j['link'] else [])
            names += [j['rh'], pool[r['n'] % len(pool)], pool[r['n'] // 7 % len(pool)]] + ([j['link']] if j['link'] else [])
            for nm in dict.fromkeys(names):
                if not os.path.exists(os.path.join(d, nm)):
                    continue
                argv = edit(scen.reader_argv(use, d, None, None, pub=pub, enc_pem=enc_pem), edits)
                i = argv.index('--name')
                del argv[i:i + 2]
                if r['pretty']:
                    argv.append('--pretty')
                code, text = run_tool(ctx, out, r['proc'], 'packet_reader', argv + [nm], [], cwd)
                if code is None:
                    continue
                text = text.decode()
                is_link = nm == j['link']
                raw = scen.rawfile(os.path.join(d, nm))
                signed = bool(cfg['sign']) and (nm == j['rh'] or is_link)
                ok = 'Packet validation success' in text
                if nm == altered:
                    # the tool is given a file name, so only signatures and tags can tell
                    if signed and ok and use['sign'] == cfg['sign'] and r['alter'] in ('flip', 'link-flip') and raw[8:] != j['objs'].get(nm, b'\0' * 8)[8:] \
                            and (not is_link or raw[8:] != scen.rawfile(os.path.join(j['d'], nm))[8:]):
                        out.violate('altered-validated', f'{desc}: the signature of the altered {nm[:12]} was accepted')
                    if cfg['enc'] and nm in j['ptrs'] and r['alter'] in ('flip', 'zero') and code == 0 and any(p in text for p in j['ptrs'][nm]) \
                            and altered_crypto(raw, j['objs'][nm]):
                        out.violate('altered-decrypted', f'{desc}: the altered manifest {nm[:12]} was decrypted')
                    refused += 1
                    continue
                if r['wrong'] == 'badpass':
                    if code == 0:
                        out.violate('wrong-password-accepted', desc)
                    refused += 1
                    continue
                if code != 0:
                    if r['wrong'] and str(code).split(':')[0] not in ('AttributeError', 'TypeError', 'UnboundLocalError', 'NameError'):
                        refused += 1
                        continue
                    out.violate('packet-reader-failed:' + str(code).split(':')[0], f'{desc}: {nm[:12]}: {code}')
                    continue
                if not text.strip():
                    out.violate('nothing-displayed', f'{desc}: {nm[:12]}')
                va = rc.parse_packet(raw).valg
                if signed and (va is None or va['alg'] == 'crc32c'):
                    out.violate('not-signed', f'{desc}: {nm[:12]}')
                    continue
                if va is None:
                    if ok:
                        out.violate('unsigned-validated', f'{desc}: {nm[:12]}')
                elif va['alg'] == 'crc32c':
                    if not ok:
                        out.violate('not-validated', f'{desc}: {nm[:12]}')
                elif use['sign'] == cfg['sign']:
                    if not ok:
                        out.violate('not-validated', f'{desc}: {nm[:12]}')
                elif ok and not (use['enc'] and use['enc'].get('wrap') == cfg['sign']):
                    out.violate('validated-with-wrong-key', f'{desc}: {nm[:12]}')
                if is_link:
                    t = rc.parse_link(rc.parse_packet(raw))['digest'].hex()
                    if t not in text:
                        out.violate('link-not-displayed', f'{desc}: {nm}')
                elif nm in j['ptrs']:
                    e = cfg['enc']
                    ue = use['enc']
                    right = e is None or (use is cfg or (use['enc'] == cfg['enc'] and not edits)) and (not e.get('wrap') or nm == j['rh']) or (use is not cfg and not r['wrong'])
                    if edits and r['wrong'] == 'wrap-pub':
                        right = False
                    shown_all = all(p in text for p in j['ptrs'][nm])
                    if right and not shown_all:
                        out.violate('manifest-not-displayed', f'{desc}: {nm[:12]} of {e and e["kind"]}')
                    if must_fail and e is not None and r['wrong'] not in ('sign-other', 'no-sign') and any(p in text for p in j['ptrs'][nm]):
                        out.violate('decrypted-without-key', f'{desc}: {nm[:12]}')
                shown += 1
    out.count('read_ok', good)
    out.count('refused', refused)
    out.count('displayed', shown)
    out.nontrivial = (good > 0 or shown > 0) and bool(done) and len(done[0]['hexes']) > 2
    out.trace = out.hash.hexdigest()[:24]
    out.state = hashlib.sha256(''.join(j['rh'] for j in done).encode()).hexdigest()[:16]


def altered_crypto(raw, orig):
    """True when the encrypted part of the manifest differs."""
    try:
        a, b = rc.parse_packet(raw), rc.parse_packet(orig)
        return a.payload != b.payload
    except rc.Bad:
        return False
