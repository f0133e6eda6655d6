"""Counterexamples of failed obligations: concrete inputs, and their replay against the real code.

`case` (in the verifier's worker) turns the solver's model into an input and the outcome the verifier predicts;
`confirm` (in the check's parent process) builds /verif/replay against /repo and runs the input natively.  A violation
counts as replayed when the path condition holds and the obligation fails on the concrete values, and the native run
does exactly what was predicted."""
import os, subprocess, time
import z3
from values import *
import world
from world import LAM0, OWN0, Acctdata, Dlen0, Exec, TopSigner, TopWritable, SeedsValid, FSeeds
import concrete
from concrete import Conc, Fail, subterms, val_terms, rope_terms, on_curve

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)


def H(b):
    return 'x' + b.hex()


def all_terms(s, f):
    x, w = s.x, s.x.world
    ts = list(x.solver.assertions())
    if isinstance(f, z3.ExprRef):
        ts.append(f)
    inp = getattr(x, 'inputs', None)
    if inp:
        ts += list(inp['keys'][:16]) + rope_terms(inp['data']) + [tosmt(inp['n']), inp['pid']]
        ts += [Exec(k) for k in inp['keys'][:16]] + [TopSigner(k) for k in inp['keys'][:16]] + [TopWritable(k) for k in inp['keys'][:16]]
        ts += [z3.Select(LAM0, k) for k in inp['keys'][:16]] + [z3.Select(OWN0, k) for k in inp['keys'][:16]]
    ts += [w.lam, w.own]
    for o in w.data:
        ts += [o.key] + rope_terms(o.rope) + rope_terms(o.init)
    for e in w.events:
        ts += [e['pid']] + val_terms([list(m) for m in e['metas']]) + val_terms(e['data'])
        if e['kind'] == 'foreign' and 'lam_after' in e:
            ts += [e['lam_after'], e['own_after']]
            for k, r in e['data_after']:
                ts += [k] + rope_terms(r)
    for c in getattr(x, 'calls', []):
        ts += val_terms(c['args']) + val_terms(c['ret'])
    return ts


def nice(s, f, solver, rnd=None):
    """a model that is close to an ordinary input: preferences are kept as long as they are consistent"""
    x = s.x
    ts = subterms(all_terms(s, f))
    consts = {k.get_id(): k for k in ts if k.sort().eq(Key) and key_bytes(k) is not None}
    for k in (world.DLP, world.SYSTEM, world.LOADER):
        consts[k.get_id()] = k
    if len(consts) > 1:
        solver.add(z3.Distinct(*consts.values()))
    for k in consts.values():
        c = world.OnCurve(k)
        solver.add(c if on_curve(key_bytes(k)) else z3.Not(c))
    inp = getattr(x, 'inputs', None)
    for t in ts:
        d = t.decl()
        if d.eq(Dlen0):
            solver.add(t >= 0, t <= world.MAX_LEN)
        elif d.kind() == z3.Z3_OP_SELECT and t.arg(0).eq(LAM0):
            solver.add(t >= 0, t <= world.U64)
        else:
            for n, fn in RdI.items():
                if d.eq(fn):
                    solver.add(t >= 0, t < 256 ** n)
    for e in x.world.events:
        # (a callee cannot grow an account further; the verifier lets it)
        for k, r in e.get('data_after', []):
            solver.add(tosmt(r.len()) <= Dlen0(k) + 10240)
    prefs = []
    fs = [t for t in ts if t.decl().eq(FSeeds)]
    for a in fs:
        for pat, args, pid, b in x.world.pdas.values():
            size = sum(len(v) if k == 'c' else 32 if k == 'K' else v for k, v in pat)
            prefs += [a != b, z3.Implies(a == b, z3.And(SeedsCnt(a.arg(0)) == len(pat), SeedsLen(a.arg(0)) == 4 + 4 * len(pat) + size, a.arg(1) == pid))]
        for b in fs:
            if not a.eq(b) and a.get_id() < b.get_id():
                prefs.append(z3.Implies(a.arg(0) != b.arg(0), a != b))
    if inp:
        n = inp['n']
        if isinstance(n, z3.ExprRef):
            from explore import INS
            want = [v[1] for k, v in INS.items() if x.task.endswith('/' + k)]
            prefs += [n == w for w in want] + [n <= 12, n <= 16]
        ks = inp['keys'][:12]
        for i, a in enumerate(ks):
            for b in ks[:i]:
                prefs.append(a != b)
    seeds = {t.get_id(): t for t in ts if t.sort().eq(Seeds)}.values()
    for t in seeds:
        solver.add(SeedsCnt(t) >= 0, SeedsLen(t) >= 4 + 4 * SeedsCnt(t), z3.Implies(SeedsCnt(t) == 0, SeedsLen(t) == 4))
        prefs += [z3.And(SeedsCnt(t) == 1, SeedsLen(t) == 16), z3.And(SeedsCnt(t) <= 3, SeedsCnt(t) >= 1, SeedsLen(t) <= 4 + 4 * SeedsCnt(t) + 32),
                  z3.And(SeedsCnt(t) <= 16, SeedsLen(t) <= 2000)]
        if t.decl().eq(SeedsAt) or True:
            prefs.append(z3.Or(SeedsCnt(t) > 0, SeedsLen(t) == 4))
    cap = lambda t: [t <= 64, t <= 300, t <= 2000, t <= 20000]
    for t in ts:
        d = t.decl()
        if d.eq(Dlen0) or t.num_args() == 0 and t.sort().eq(IntS) and ('len' in d.name()):
            prefs += cap(t)
        elif d.eq(SetCard):
            prefs += [t <= 3, t <= 100]
        elif d.kind() == z3.Z3_OP_SELECT and t.arg(0).eq(LAM0):
            prefs += [z3.And(t >= 2000000, t <= 10 ** 12), t <= 10 ** 15]
        elif t.num_args() == 0 and d.name().startswith('cpi_lam'):
            prefs += [t <= 10 ** 15]
    if rnd is not None:
        # an unusual input: some of the preferences, some of them denied, in any order
        rnd.shuffle(prefs)
        prefs = [z3.Not(p) if rnd.random() < 0.25 else p for p in prefs if rnd.random() < 0.8]
    t0 = time.time()
    m = None
    if solver.check() != z3.sat:
        return None
    m = solver.model()
    for p in prefs:
        if time.time() - t0 > 40:
            break
        if z3.is_true(m.eval(p, model_completion=True)):
            solver.add(p)
            continue
        solver.push()
        solver.add(p)
        if solver.check() == z3.sat:
            m = solver.model()
        else:
            solver.pop()
    return m


def case(s, name, f, rnd=None):
    """the concrete input of a violation and what is predicted; raises Fail"""
    x, w = s.x, s.x.world
    solver = z3.Solver()
    solver.set('rlimit', 60000000)
    for a in x.solver.assertions():
        solver.add(a)
    if f is not False:
        solver.add(z3.Not(f))
    m = nice(s, f, solver, rnd)
    if m is None:
        raise Fail('no model')
    c = Conc(s, m, all_terms(s, f))
    false = [a for a in x.solver.assertions() if not c.ev(a)]
    if false:
        raise Fail('the path condition fails on the concrete input: %s' % str(false[0])[:300])
    if f is not False and c.ev(f):
        raise Fail('the obligation holds on the concrete input')
    out = dict(outcome=s.kind)
    inp = getattr(x, 'inputs', None)
    if inp:
        instruction(c, s, inp, out)
    calls = getattr(x, 'calls', None)
    if calls:
        out['calls'] = [dict(fn=k['fn'], args=[ty(c) if callable(ty) else borsh(c, k['m'], ty, v) for ty, v in zip(k['tys'], k['args'])],
                             ret='panic' if k['ret'] is None else k['show'](c, k['ret'])) for k in calls]
    if not inp and not calls:
        raise Fail('no entry point')
    return out


def instruction(c, s, inp, out):
    x, w = s.x, s.x.world
    n = c.ev(inp['n'])
    if n > len(inp['keys']):
        raise Fail('%d accounts' % n)
    keys = inp['keys'][:n]
    byte = {}
    order = []
    for k in keys:
        b = c.key(k)
        byte.setdefault(b, (len(byte), k))
        order.append(byte[b][0])
    L = ['clock %d' % (c.ev(w.clock) if w.clock is not None else 0), 'program ' + H(c.key(inp['pid'])), 'data ' + H(c.rope(inp['data'])),
         'order ' + ' '.join(map(str, order))]
    init = {}
    for b, (i, k) in byte.items():
        dl = c.ev(Dlen0(k))
        data = c.slice(Acctdata(k), 0, dl)
        init[b] = data
        L.append('acct %s %d %d %d %d %s %s' % (H(b), c.ev(TopSigner(k)), c.ev(TopWritable(k)), c.ev(Exec(k)), c.ev(z3.Select(LAM0, k)),
                                                H(c.ev(z3.Select(OWN0, k))), H(data)))
    cpis = []
    for e in w.events:
        d = [H(c.key(e['pid']))] + ['%s %d %d' % (H(c.key(k)), bool(c.ev(sg)), bool(c.ev(wr))) for k, sg, wr in e['metas']]
        if e['kind'] == 'foreign' and 'lam_after' not in e:
            L.append('call')
        elif e['kind'] == 'foreign':
            d.insert(1, H(c.rope(e['data'])))
            L.append('call')
            seen = set()
            for k, sg, wr in e['metas']:
                b = c.key(k)
                if b in seen or b not in byte or not c.ev(w.is_writable_meta(e['metas'], k)):
                    continue
                seen.add(b)
                data = final_data(c, e['data_after'], b, init)
                L.append('effect %s %d %s %s' % (H(b), c.ev(z3.Select(e['lam_after'], k)), H(c.ev(z3.Select(e['own_after'], k))), H(data)))
        cpis.append(d)
    out['input'] = L
    out['cpis'] = cpis
    if s.kind == 'ok':
        after = {}
        for b, (i, k) in byte.items():
            after[H(b)] = [c.ev(z3.Select(w.lam, k)), H(c.ev(z3.Select(w.own, k))), H(final_data(c, [(o.key, o.rope) for o in w.data], b, init))]
        out['after'] = after


def final_data(c, objs, b, init):
    for k, r in objs:
        if c.key(k) == b:
            return c.rope(r)
    return init[b]


def borsh(c, m, ty, v):
    """borsh bytes of a symbolic value of a type, in hex"""
    return H(enc(c, m, ty, v))


def enc(c, m, ty, v):
    x, T = m.x, m.T
    t = T[ty]
    while isinstance(v, Ptr):
        v = x.load(v)
        ty = t['to'] if t['k'] in ('ref', 'ptr') else ty
        t = T[ty]
    if x.ty_is_pubkey(ty):
        return c.key(v)
    if t['k'] == 'int':
        lo, hi, b = m.rng(ty)
        return (c.ev(v) % 2 ** b).to_bytes(b // 8, 'little')
    if t['k'] == 'bool':
        return bytes([bool(c.ev(v))])
    n = t['n']
    if n.startswith('std::option::Option'):
        return b'\0' if v.v == 0 else b'\1' + enc(c, m, t['args'][0], v.f[0])
    if n.startswith('std::vec::Vec'):
        if isinstance(v.c, OSeq):
            return c.seeds(v.c.s)[1]
        r = c.rope(v.c)
        return len(r).to_bytes(4, 'little') + r
    if n.startswith('std::collections::BTreeSet'):
        return c.enc_set(c.sized(v.a, c.ev(v.n)))
    if t.get('kind') == 'Struct':
        return b''.join(enc(c, m, f[1], v.f[i]) for i, f in enumerate(t['variants'][0]['fields']))
    raise Fail('encoding of ' + n)


def describe(s, m):
    """accounts of the counterexample, as far as the model goes"""
    from spec import acc, PLen, NAcc
    out = []
    ev = lambda t: m.eval(t, model_completion=True)
    n = ev(NAcc).as_long()
    for i in range(min(n, 16)):
        k = acc(i)
        out.append(dict(account=i, key=str(ev(k)), lamports=str(ev(z3.Select(LAM0, k))), owner=str(ev(z3.Select(OWN0, k))),
                        data_len=str(ev(Dlen0(k))), signer=str(ev(TopSigner(k))), writable=str(ev(TopWritable(k)))))
    after = []
    for i in range(min(n, 16)):
        k = acc(i)
        after.append(dict(account=i, lamports=str(ev(tosmt(s.w.get_lam(k)))), owner=str(ev(s.w.get_own(k)))))
    return dict(payload_len=str(ev(PLen)), before=out, after=after)


# ---- native runs -----------------------------------------------------------------------------------------
_built = {}


def build(bin, repo, limit):
    if bin in _built:
        return _built[bin]
    src = os.path.join(VERIF, 'replay')
    if repo != '/repo':
        # (development) the same crate against another copy of the code
        alt = os.path.join(VERIF, 'build', 'replay-src')
        subprocess.run(['rm', '-rf', alt])
        subprocess.run(['cp', '-r', src, alt], check=True)
        t = open(os.path.join(alt, 'Cargo.toml')).read().replace('path = "/repo"', 'path = "%s"' % repo)
        open(os.path.join(alt, 'Cargo.toml'), 'w').write(t)
        src = alt
    env = dict(os.environ, RUSTUP_TOOLCHAIN='1.84.1', RUSTC_WRAPPER='', CARGO_NET_OFFLINE='true')
    td = os.path.join(VERIF, 'build', 'replay-target')
    exe = os.path.join(td, 'debug', bin)
    # the program under test is always compiled again
    fp = os.path.join(td, 'debug', '.fingerprint')
    for d in os.listdir(fp) if os.path.isdir(fp) else []:
        if d.startswith(('magicblock-delegation-program-', 'replay-', 'dlp-')):
            subprocess.run(['rm', '-rf', os.path.join(fp, d)])
    try:
        r = subprocess.run(['cargo', 'build', '--offline', '--bin', bin, '--target-dir', td], cwd=src, env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, timeout=limit)
        _built[bin] = (exe, '') if r.returncode == 0 else (None, r.stdout[-2000:])
    except (subprocess.TimeoutExpired, OSError) as e:
        _built[bin] = (None, str(e))
    return _built[bin]


def run(exe, text):
    try:
        r = subprocess.run([exe], input=text, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=60)
        return r.stdout
    except (subprocess.TimeoutExpired, OSError) as e:
        return 'error %s' % e


def confirm(v, repo, limit=300):
    """replay the case of a violation; sets v['replayed'] and v['native']"""
    c = v.get('case')
    if not c:
        return False
    if 'input' in c:
        exe, why = build('ix', repo, limit)
        if exe is None:
            v['native'] = 'the native harness does not build: ' + why
            return False
        out = run(exe, '\n'.join(c['input']) + '\n')
        v['native'] = out[-20000:]
        diff = compare_ix(c, out)
    else:
        exe, why = build('fns', repo, limit)
        if exe is None:
            v['native'] = 'the native harness does not build: ' + why
            return False
        outs, diff = [], None
        for k in c['calls']:
            o = run(exe, ' '.join([k['fn']] + k['args']) + '\n').strip()
            outs.append(o)
            if o != k['ret']:
                diff = '%s gives %s, predicted %s' % (k['fn'], o[:400], k['ret'][:400])
        v['native'] = '\n'.join(outs)[-20000:]
    if diff:
        v['not_reproduced'] = diff
        return False
    v['replayed'] = True
    return True


def compare_ix(c, out):
    ls = [l.split() for l in out.splitlines() if l.strip()]
    oc = [l for l in ls if l[0] == 'outcome']
    if not oc or oc[0][1] != c['outcome']:
        return 'outcome %s, predicted %s' % (' '.join(oc[0][1:]) if oc else out[:200], c['outcome'])
    if c['outcome'] != 'ok':
        return None
    got = [l for l in ls if l[0] == 'cpi']
    if len(got) != len(c['cpis']):
        return '%d invocations, predicted %d' % (len(got), len(c['cpis']))
    for g, w in zip(got, c['cpis']):
        foreign = len(w) > 1 and len(w[1].split()) == 1
        want = w[2:] if foreign else w[1:]
        metas = [' '.join(g[3 + 3 * i:6 + 3 * i]) for i in range((len(g) - 3) // 3)]
        if g[1] != w[0] or metas != want or foreign and g[2] != w[1]:
            return 'invocation %s, predicted %s' % (' '.join(g)[:500], ' '.join(w)[:500])
    for l in ls:
        if l[0] == 'acct':
            w = c['after'].get(l[1])
            if w is None or int(l[2]) != w[0] or l[3] != w[1] or l[4] != w[2]:
                return 'account %s after: %s, predicted %s' % (l[1], ' '.join(l[2:])[:600], str(w)[:600])
    return None
