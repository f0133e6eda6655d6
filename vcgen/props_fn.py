"""C21 (stored records), C22 (builders and dispatch), C25 (addresses): obligations on library functions."""
import z3
from values import *
from spec import *
from props import TASKS, ALL, prop, COMMITS, CommitView, Task, FLAGS, canonical, DelegateView, well_formed, runtime_accepts
from engine import Machine, Panic
from explore import INS
from world import World, InsCtx, TopSigner, TopWritable
import engine, models, world, replay


def task(pid, name, start, spec):
    def sp(s):
        s.ins = name
        s.pre = pid + '.' + name + '.'
        spec(s)
    TASKS.setdefault(pid, []).append(Task('%s/%s' % (pid, name), start, sp))


def begin(x, prog):
    w = World(x)
    w.ctx = InsCtx(lambda k: TopSigner(x.canon(k)), lambda k: TopWritable(x.canon(k)))
    for k in (DLP, SYSTEM, LOADER):
        x.assume(z3.Not(TopSigner(k)))
    x.assume(z3.Distinct(DLP, SYSTEM, LOADER))
    m = Machine(prog, x, models)
    x.machine = m
    w.machine = m
    return m


def find(prog, *names):
    """a function by exact name, or the first generic instance of it"""
    for n in names:
        i = prog.fn(n)
        if i is not None:
            return i
        for nm, i in sorted(prog.byname.items()):
            if nm.startswith(n + '::<') and 'body' in prog.F[i]:
                return i
    raise Unsupported('function %s is gone' % names[0])


def locty(prog, fid, i):
    l = prog.F[fid]['body']['locals'][i]
    return l if isinstance(l, int) else l['ty']


def fields(T, ty):
    return [f[0] for f in T[ty]['variants'][0]['fields']]


def sym(m, ty, nm):
    """an arbitrary value of a type"""
    x, T = m.x, m.T
    t = T[ty]
    if x.ty_is_pubkey(ty):
        return z3.Const(nm, Key)
    if t['k'] == 'int':
        v = z3.Int(nm)
        lo, hi, b = m.rng(ty)
        x.assume(z3.And(v >= lo, v <= hi))
        return v
    if t['k'] == 'bool':
        return z3.Bool(nm)
    if t['k'] == 'ref':
        return Ptr(Cell(sym(m, t['to'], nm), nm))
    if t['k'] == 'adt':
        n = t['n']
        if n.startswith('std::option::Option'):
            if x.choose(z3.Bool(nm + '.is_some')):
                return Adt(1, (sym(m, t['args'][0], nm + '.some'),))
            return Adt(0, ())
        if n == 'std::vec::Vec<u8>':
            k = z3.Int(nm + '.len')
            x.assume(z3.And(k >= 0, k < 2 ** 31))
            return VecV(Rope((('o', z3.Const(nm + '.bytes', Bytes), 0, k),)))
        if n == 'std::vec::Vec<std::vec::Vec<u8>>':
            s = z3.Const(nm + '.seeds', Seeds)
            x.axiom(SeedsCnt(s) >= 0)
            x.axiom(SeedsLen(s) >= 4 + 4 * SeedsCnt(s))
            x.axiom(SeedsLen(s) < 2 ** 31)
            return VecV(OSeq(s, 'vec'))
        if n.startswith('std::collections::BTreeSet'):
            a = z3.Const(nm + '.set', z3.ArraySort(Key, z3.BoolSort()))
            c = z3.Int(nm + '.card')
            x.assume(z3.And(c >= 0, c < 2 ** 20))
            x.assume((c == 0) == (a == z3.K(Key, False)))
            return SetV(a, c)
        if t.get('kind') == 'Struct':
            return Adt(0, tuple(sym(m, ft, nm + '.' + fn) for fn, ft in t['variants'][0]['fields']))
    raise Unsupported('arbitrary value of ' + t['n'])


def same(m, ty, a, b):
    """equality of two values of a type"""
    x, T = m.x, m.T
    t = T[ty]
    if x.ty_is_pubkey(ty) or t['k'] in ('int', 'bool'):
        return eq(a, b)
    n = t['n']
    if n.startswith('std::vec::Vec'):
        ca, cb = a.c, b.c
        if isinstance(ca, OSeq) and isinstance(cb, OSeq):
            return eq(ca.s, cb.s)
        if isinstance(ca, Rope) and isinstance(cb, Rope):
            return x.rope_eq(ca, cb)
        raise Unsupported('comparison of %r and %r' % (a, b))
    if n.startswith('std::collections::BTreeSet'):
        return conj(eq(a.a, b.a), eq(a.n, b.n))
    if t.get('kind') == 'Struct':
        return conj(*[same(m, f[1], a.f[i], b.f[i]) for i, f in enumerate(t['variants'][0]['fields'])])
    raise Unsupported('comparison at ' + n)


# ---- C21 -------------------------------------------------------------------------------------------------
STATE = {
    'DelegationRecord': 'dlp::state::delegation_record::DelegationRecord',
    'CommitRecord': 'dlp::state::commit_record::CommitRecord',
    'DelegationMetadata': 'dlp::state::delegation_metadata::DelegationMetadata',
    'ProgramConfig': 'dlp::state::program_config::ProgramConfig',
}
TAGS = {'DelegationRecord': 100, 'CommitRecord': 101, 'DelegationMetadata': 102, 'ProgramConfig': 103}
Buf = z3.Const('buffer', Bytes)
BLen = z3.Int('buffer_len')
Raw = z3.Const('stored', Bytes)
RLen = z3.Int('stored_len')


def state_ty(prog, name):
    q = STATE[name]
    for c in (q, q.replace('dlp::', '', 1)):
        if c in prog.tyname:
            return prog.tyname[c]
    raise Unsupported('type %s is gone' % q)


# ---- calls recorded for replay (replay.py) ------------------------------------------------------------------
def record(x, m, fn, tys, args, show):
    """one call of a library function: what it is given and, once `ret` is set, what it returns (None: it panics)"""
    c = dict(fn=fn, m=m, tys=tys, args=args, ret=None, show=show)
    x.calls = getattr(x, 'calls', []) + [c]
    return c


def show_key(c, v):
    return replay.H(c.key(v))


def show_ix(c, v):
    out = [replay.H(c.key(v.f[0])), replay.H(c.rope(v.f[2].c))]
    for mt in v.f[1].c.e:
        out += [replay.H(c.key(mt.f[0])), '%d' % bool(c.ev(mt.f[1])), '%d' % bool(c.ev(mt.f[2]))]
    return ' '.join(out)


FIELDS = {'DelegationRecord': ['authority', 'owner', 'delegation_slot', 'lamports', 'commit_frequency_ms'],
          'CommitRecord': ['identity', 'account', 'slot', 'lamports']}


def by_name(m, name, ty, v):
    """fields of a state value as bytes: the records in the harness's order, the borsh types in their own"""
    fs = m.T[ty]['variants'][0]['fields']
    order = [[f[0] for f in fs].index(n) for n in FIELDS.get(name, [f[0] for f in fs])]
    return lambda c: replay.H(b''.join(replay.enc(c, m, fs[i][1], v.f[i]) for i in order))


def size_of_state(m, prog, name, v):
    """published size of a value: the type's size function where it has one"""
    fid = prog.fn(STATE[name] + '::size_with_discriminator')
    if fid is None:
        if name == 'DelegationMetadata':
            i = fields(m.T, state_ty(prog, name)).index('seeds')
            return simp(8 + 8 + 1 + SeedsLen(v.f[i].c.s) + 32)
        raise Unsupported('size function of %s is gone' % name)
    argc = prog.F[fid]['body']['argc']
    return m.call(fid, [Ptr(Cell(v))][:argc])


def encode(m, prog, name, v, blen):
    x = m.x
    ty = state_ty(prog, name)
    stored = by_name(m, name, ty, v)
    given = Rope((('o', Buf, 0, blen),))
    rec = record(x, m, 'roundtrip.' + name, [stored, lambda c: replay.H(c.rope(given))], [v, given],
                 lambda c, r: r if isinstance(r, str) else '%s %s' % (replay.H(c.rope(r[0])), r[1](c) if r[1] else 'none'))
    r, out = encode0(m, prog, name, v, blen)
    rec['ret'] = 'none' if r.v != 0 else (out, None)
    if r.v != 0:
        return r, out, None
    back = decode0(m, prog, name, out)
    rec['ret'] = (out, None if back is None else by_name(m, name, ty, back))
    rec['args'] += [back]
    return r, out, back


def encode0(m, prog, name, v, blen):
    """run the encoder into an arbitrary buffer of `blen` bytes: (result, bytes written)"""
    x = m.x
    fid = None
    base = STATE[name] + '::to_bytes_with_discriminator'
    for want in ('&mut &mut [u8]', '&mut [u8]', '&mut std::vec::Vec<u8>'):
        for nm, i in sorted(prog.byname.items()):
            if (nm == base or nm.startswith(base + '::<')) and 'body' in prog.F[i] and m.T[locty(prog, i, 2)]['n'] == want:
                fid, kind = i, want
                break
        if fid is not None:
            break
    if fid is None:
        raise Unsupported('encoder of %s is gone' % name)
    buf = Cell(Rope((('o', Buf, 0, blen),)), 'buffer')
    if kind == '&mut std::vec::Vec<u8>':
        buf = Cell(VecV(Rope(())))
        r = m.call(fid, [Ptr(Cell(v)), Ptr(buf)])
        return r, buf.val.c
    if kind == '&mut [u8]':
        r = m.call(fid, [Ptr(Cell(v)), Ptr(buf, (), blen)])
        return r, buf.val
    wr = Cell(Ptr(buf, (), blen), 'writer')
    r = m.call(fid, [Ptr(Cell(v)), Ptr(wr)])
    if r.v != 0:
        return r, None
    rest = wr.val.n
    return r, x.rslice(buf.val, 0, simp(tosmt(blen) - rest))


def decode(m, prog, name, rope, suffix=''):
    rec = record(m.x, m, 'decode.' + name + suffix, [lambda c: replay.H(c.rope(rope))], [rope], lambda c, r: r if isinstance(r, str) else r(c))
    v = decode0(m, prog, name, rope, suffix)
    rec['ret'] = 'none' if v is None else by_name(m, name, state_ty(prog, name), v)
    rec['args'] += [v]
    return v


def decode0(m, prog, name, rope, suffix=''):
    fid = find(prog, STATE[name] + '::try_from_bytes_with_discriminator' + suffix)
    c = Cell(rope, 'stored')
    r = m.call(fid, [Ptr(c, (), rope.len())])
    if r.v != 0:
        return None
    v = r.f[0]
    return m.x.load(v) if isinstance(v, Ptr) else v


def tagval(m, prog, name):
    fid = find(prog, '<%s as dlp::state::utils::discriminator::AccountWithDiscriminator>::discriminator' % STATE[name])
    return m.T[locty(prog, fid, 0)]['variants'][m.call(fid, []).v]['disc']


def c21_round(name):
    def start(x, prog):
        m = begin(x, prog)
        v = sym(m, state_ty(prog, name), 'v')
        if name == 'DelegationMetadata':
            x.assume(SeedsLen(v.f[fields(m.T, state_ty(prog, name)).index('seeds')].c.s) >= 0)
        n = size_of_state(m, prog, name, v)
        o = x.out = dict(m=m, v=v, size=n)
        x.assume(BLen == n)
        r, o['bytes'], back = encode(m, prog, name, v, simp(n) if isinstance(simp(n), int) else BLen)
        o['enc'] = r.v == 0
        if r.v == 0:
            o['back'] = back
            o['tag'] = tagval(m, prog, name)
        return UNIT

    def spec(s):
        p = s.pre
        if not s.ok:
            s.prove(p + 'never_panics', False)
            return
        o = s.x.out
        s.prove(p + 'encoding_succeeds', o['enc'])
        if not o['enc']:
            return
        s.prove(p + 'published_size', eq(o['bytes'].len(), o['size']))
        s.prove(p + 'tag_written', eq(s.ru(o['bytes'], 0, 8), o['tag']))
        s.prove(p + 'reads_back', o['back'] is not None)
        if o['back'] is not None:
            s.prove(p + 'every_field_equal', same(o['m'], state_ty(s.x.prog, name), o['v'], o['back']))
    return start, spec


def c21_decode(name, suffix=''):
    def start(x, prog):
        m = begin(x, prog)
        x.assume(z3.And(RLen >= 0, RLen < 2 ** 31))
        rope = Rope((('o', Raw, 0, RLen),))
        back = decode(m, prog, name, rope, suffix)
        x.out = dict(m=m, back=back, rope=rope, tag=tagval(m, prog, name))
        if back is not None and name != 'DelegationMetadata':
            x.out['size'] = size_of_state(m, prog, name, back)
        return UNIT

    def spec(s):
        p = s.pre
        if not s.ok:
            s.prove(p + 'never_panics', False)
            return
        o = s.x.out
        if o['back'] is None:
            return
        s.prove(p + 'long_enough', RLen >= 8)
        s.prove(p + 'own_tag_only', eq(s.x.opq_int(Raw, 0, 8), o['tag']))
        if name in ('DelegationRecord', 'CommitRecord'):
            s.prove(p + 'exact_size', eq(RLen, o['size']))
        elif name == 'DelegationMetadata':
            i = fields(o['m'].T, state_ty(s.x.prog, name)).index('seeds')
            c = o['back'].f[i].c
            if isinstance(c, OSeq):
                s.prove(p + 'exact_size', eq(RLen, simp(49 + SeedsLen(c.s))))
        else:
            s.prove(p + 'exact_size', eq(RLen, simp(12 + 32 * s.x.opq_int(Raw, 8, 4))))
    return start, spec


def c21_tags():
    def start(x, prog):
        m = begin(x, prog)
        x.out = {n: tagval(m, prog, n) for n in STATE}
        return UNIT

    def spec(s):
        ts = list(s.x.out.values())
        s.prove(s.pre + 'tags_distinct', s.ok and len(set(ts)) == len(ts) == 4)
    return start, spec


for n in STATE:
    task('C21', 'roundtrip_' + n, *c21_round(n))
    task('C21', 'decode_' + n, *c21_decode(n))
for n in ('DelegationRecord', 'CommitRecord'):
    task('C21', 'decode_mut_' + n, *c21_decode(n, '_mut'))
task('C21', 'tags', *c21_tags())


# ---- C25 -------------------------------------------------------------------------------------------------
HELPERS = {
    'delegation_record_pda_from_delegated_account': ('record', ['k']),
    'delegation_metadata_pda_from_delegated_account': ('metadata', ['k']),
    'commit_state_pda_from_delegated_account': ('cstate', ['k']),
    'commit_record_pda_from_delegated_account': ('crecord', ['k']),
    'delegate_buffer_pda_from_delegated_account_and_owner_program': ('buffer', ['k', 'k']),
    'undelegate_buffer_pda_from_delegated_account': ('ubuffer', ['k']),
    'fees_vault_pda': ('fv', []),
    'validator_fees_vault_pda_from_validator': ('vfv', ['k']),
    'program_config_from_program_id': ('conf', ['k']),
    'ephemeral_balance_pda_from_payer': ('escrow', ['k', 'u']),
}


def helper_args(x, kinds, sfx):
    out, args = [], []
    for i, k in enumerate(kinds):
        if k == 'k':
            t = z3.Const('key%s%d' % (sfx, i), Key)
            out.append(Ptr(Cell(t)))
        else:
            t = z3.Int('index%s%d' % (sfx, i))
            x.assume(z3.And(t >= 0, t <= 255))
            out.append(t)
        args.append(t)
    return out, args


def call_helper(m, prog, fn, a, args):
    fid = find(prog, 'dlp::pda::' + fn)
    rec = record(m.x, m, 'pda.' + fn, [locty(prog, fid, i + 1) for i in range(len(a))], a, show_key)
    rec['ret'] = m.call(fid, a)
    return rec['ret'], args


def c25_helper(fn, role, kinds):
    def start(x, prog):
        m = begin(x, prog)
        a, args = helper_args(x, kinds, '')
        x.out = call_helper(m, prog, fn, a, args)
        return UNIT

    def spec(s):
        if not s.ok:
            s.prove(s.pre + 'never_panics', False)
            return
        k, args = s.x.out
        s.prove(s.pre + 'documented_address', eq(k, s.pda(role, *args)))
    return start, spec


def c25_pair(f, g):
    def start(x, prog):
        m = begin(x, prog)
        r1, k1 = HELPERS[f]
        r2, k2 = HELPERS[g]
        a, aa = helper_args(x, k1, 'a')
        b, bb = helper_args(x, k2, 'b')
        x.out = call_helper(m, prog, f, a, aa) + call_helper(m, prog, g, b, bb)
        return UNIT

    def spec(s):
        if not s.ok:
            s.prove(s.pre + 'never_panics', False)
            return
        p, aa, q, bb = s.x.out
        if f == g:
            s.prove(s.pre + 'different_keys_different_addresses', z3.Implies(p == q, z3.And(True, *[a == b for a, b in zip(aa, bb)])))
        else:
            s.prove(s.pre + 'different_roles_different_addresses', p != q)
    return start, spec


for f, (role, kinds) in HELPERS.items():
    task('C25', f, *c25_helper(f, role, kinds))
hs = list(HELPERS)
for i, f in enumerate(hs):
    for g in hs[i:]:
        if not (f == g and not HELPERS[f][1]):
            task('C25', '%s/%s' % (HELPERS[f][0], HELPERS[g][0]), *c25_pair(f, g))


@prop('C25', ALL)
def c25_accepts(s):
    if not s.ok:
        return
    for i, k in sorted(canonical(s).items()):
        s.prove(s.pre + 'accepts_only_canonical_%d' % i, s.acc(i) == k)


# ---- C22 -------------------------------------------------------------------------------------------------
class B:
    """arguments of a builder and what its instruction must be"""

    def __init__(self, s, m, args, tys):
        self.s, self.m, self.a, self.tys = s, m, args, tys

    def fld(self, i, name, *more):
        v, ty = self.a[i], self.tys[i]
        for n in (name,) + more:
            t = self.m.T[ty]
            fs = t['variants'][0]['fields']
            j = [f[0] for f in fs].index(n)
            v, ty = v.f[j], fs[j][1]
        return v


def u(n, v):
    if isinstance(v, z3.BoolRef):
        v = z3.If(v, z3.IntVal(1), z3.IntVal(0))
    elif isinstance(v, bool):
        v = int(v)
    return ('u', n, v)


def vec(v):
    c = v.c
    if isinstance(c, OSeq):
        return (('ss', c.s),)
    return (('u', 4, c.len()),) + c.segs


def opt(v, seg):
    return (('c', b'\0'),) if v.v == 0 else (('c', b'\1'),) + (seg(v.f[0]),)


def delegate_args(b, i, *path):
    return ((u(4, b.fld(i, *path, 'commit_frequency_ms')),) + vec(b.fld(i, *path, 'seeds')) +
            opt(b.fld(i, *path, 'validator'), lambda k: ('k', k)))


def builders(n, b, s):
    """builder -> (operation, account addresses, payload); the flags of the accounts are FLAGS[operation]"""
    a, pda = b.a, s.pda
    if n == 'close_ephemeral_balance':
        return 'close_ephemeral', [a[0], pda('escrow', a[0], a[1]), SYSTEM], (u(1, a[1]),)
    if n == 'close_validator_fees_vault':
        return 'close_validator_vault', [a[0], a[1], pda('progdata', DLP), a[2], pda('vfv', a[2])], ()
    if n in ('commit_state', 'commit_state_from_buffer'):
        v, d, o = a[0], a[1], a[2]
        ar = 3 if n == 'commit_state' else 4
        acc = [v, d, pda('cstate', d), pda('crecord', d), pda('record', d), pda('metadata', d)]
        pay = (u(8, b.fld(ar, 'slot')), u(8, b.fld(ar, 'lamports')), u(1, b.fld(ar, 'allow_undelegation')))
        if ar == 4:
            acc.append(a[3])
        else:
            pay += vec(b.fld(ar, 'data'))
        return ('commit' if ar == 3 else 'commit_from_buffer'), acc + [pda('vfv', v), pda('conf', o), SYSTEM], pay
    if n == 'delegate':
        o = a[2].f[0] if a[2].v == 1 else SYSTEM
        return 'delegate', [a[0], a[1], o, pda('buffer', a[1], o), pda('record', a[1]), pda('metadata', a[1]), SYSTEM], delegate_args(b, 3)
    if n == 'delegate_ephemeral_balance':
        e = pda('escrow', a[1], b.fld(2, 'index'))
        return 'delegate_ephemeral', [a[0], a[1], e, pda('buffer', e, SYSTEM), pda('record', e), pda('metadata', e), SYSTEM, DLP], \
            delegate_args(b, 2, 'delegate_args') + (u(1, b.fld(2, 'index')),)
    if n == 'finalize':
        v, d = a
        return 'finalize', [v, d, pda('cstate', d), pda('crecord', d), pda('record', d), pda('metadata', d), pda('vfv', v), SYSTEM], ()
    if n == 'undelegate':
        v, d, o, r = a
        return 'undelegate', [v, d, o, pda('ubuffer', d), pda('cstate', d), pda('crecord', d), pda('record', d), pda('metadata', d), r,
                              pda('fv'), pda('vfv', v), SYSTEM], ()
    if n == 'init_protocol_fees_vault':
        return 'init_protocol_vault', [a[0], pda('fv'), SYSTEM], ()
    if n == 'init_validator_fees_vault':
        return 'init_validator_vault', [a[0], a[1], pda('progdata', DLP), a[2], pda('vfv', a[2]), SYSTEM], ()
    if n == 'protocol_claim_fees':
        return 'protocol_claim', [a[0], pda('fv'), pda('progdata', DLP)], ()
    if n == 'top_up_ephemeral_balance':
        am = a[2].f[0] if a[2].v == 1 else 10000
        ix = a[3].f[0] if a[3].v == 1 else 0
        return 'top_up', [a[0], a[1], pda('escrow', a[1], ix), SYSTEM], (u(8, am), u(1, ix))
    if n == 'validator_claim_fees':
        return 'validator_claim', [a[0], pda('fv'), pda('vfv', a[0])], opt(a[1], lambda v: u(8, v))
    if n == 'whitelist_validator_for_program':
        return 'whitelist', [a[0], a[1], a[2], pda('progdata', a[2]), pda('progdata', DLP), pda('conf', a[2]), SYSTEM], (u(1, a[3]),)


BUILDERS = ['close_ephemeral_balance', 'commit_state', 'close_validator_fees_vault', 'commit_state_from_buffer', 'delegate',
            'delegate_ephemeral_balance', 'finalize', 'init_protocol_fees_vault', 'init_validator_fees_vault', 'protocol_claim_fees',
            'top_up_ephemeral_balance', 'undelegate', 'validator_claim_fees', 'whitelist_validator_for_program']


def c22_builder(n):
    def start(x, prog):
        m = begin(x, prog)
        fid = find(prog, 'dlp::instruction_builder::%s::%s' % (n, n), 'dlp::instruction_builder::' + n)
        argc = prog.F[fid]['body']['argc']
        tys = [locty(prog, fid, i + 1) for i in range(argc)]
        args = [sym(m, ty, 'arg%d' % i) for i, ty in enumerate(tys)]
        rec = record(x, m, 'build.' + n, tys, args, show_ix)
        rec['ret'] = m.call(fid, list(args))
        x.out = (m, args, tys, rec['ret'])
        return UNIT

    def spec(s):
        p = s.pre
        if not s.ok:
            s.prove(p + 'never_panics', False)
            return
        m, args, tys, ix = s.x.out
        op, want, pay = builders(n, B(s, m, args, tys), s)
        pid, metas, data = ix.f[0], ix.f[1].c, ix.f[2].c
        s.prove(p + 'program', eq(pid, DLP))
        s.prove(p + 'account_count', len(metas.e) == len(want))
        for i, (mt, k, fl) in enumerate(zip(metas.e, want, FLAGS[op])):
            s.prove(p + 'account_%d_address' % i, eq(mt.f[0], k))
            s.prove(p + 'account_%d_signer' % i, eq(mt.f[1], fl.isupper()))
            if fl.lower() != 'r':
                s.prove(p + 'account_%d_writable' % i, eq(mt.f[2], fl.lower() == 'w'))
        s.prove(p + 'tag_and_payload', s.rope_eq(data, Rope((('c', INS[op][0].to_bytes(8, 'little')),) + tuple(pay))))
    return start, spec


for n in BUILDERS:
    task('C22', n, *c22_builder(n))


def c22_dispatch(which):
    def start(x, prog):
        m = begin(x, prog)
        w = x.world
        raw, n = z3.Const('ix_data', Bytes), z3.Int('ix_len')
        pid = z3.Const('called_program', Key)
        x.assume(z3.And(n >= 0, n <= 2 ** 24, NAcc >= 0, NAcc <= 255))
        if which == 'other_program':
            x.assume(pid != DLP)
        else:
            pid = DLP
        if which == 'short':
            x.assume(n < 8)
        elif which == 'unassigned_tag':
            x.assume(n >= 8)
            b = x.opq_int(raw, 0, 1)
            x.assume(z3.And(*[b != t for t, _ in INS.values()]))
        accs = AccArr([acc(i) for i in range(MAXACC)], NAcc)
        x.inputs = dict(data=Rope((('o', raw, 0, n),)), keys=accs.keys, n=NAcc, pid=pid)
        return m.run(prog.fn('dlp::process_instruction'), [Ptr(Cell(pid)), Ptr(Cell(accs), (), NAcc), Ptr(Cell(Rope((('o', raw, 0, n),))), (), n)])

    def spec(s):
        s.prove(s.pre + 'rejected', not s.ok)
        s.prove(s.pre + 'rejected_with_an_error', s.kind == 'err')
    return start, spec


for n in ('other_program', 'short', 'unassigned_tag'):
    task('C22', 'dispatch_' + n, *c22_dispatch(n))


# ---- builders and program together --------------------------------------------------------------------------------
def routed(s):
    """the operation of this name was carried out, with the arguments the payload encodes"""
    n, a, p = s.ins, s.acc, s.pre
    if n in ('delegate', 'delegate_ephemeral'):
        c = DelegateView(s, a(0), a(1) if n == 'delegate' else a(2), a(2), a(3))
        s.prove(p + 'delegates', s.own1(c.rec) == DLP)
        r = s.data1(c.rec)
        s.prove(p + 'argument_validator', eq(s.x.rkey(s.x.rslice(r, 8, 32)), c.authority))
        s.prove(p + 'argument_frequency', eq(s.ru(r, 88, 8), c.freq))
        if n == 'delegate':
            m = s.data1(c.meta)
            s.prove(p + 'argument_seeds', s.rope_eq(s.x.rslice(m, 17, simp(tosmt(m.len()) - 49)), Rope((('ss', c.seeds),))))
        else:
            s.prove(p + 'argument_index', s.own1(s.pda('escrow', a(1), s.pu(c.after, 1))) == DLP)
    elif n in COMMITS:
        c = CommitView(s)
        if s.x.choose(c.outdated):
            return
        s.prove(p + 'commits', s.own1(c.cr) == DLP)
        r = s.data1(c.cr)
        s.prove(p + 'argument_slot', eq(s.ru(r, 72, 8), c.slot))
        s.prove(p + 'argument_lamports', eq(s.ru(r, 80, 8), c.lamports))
        s.prove(p + 'argument_allow_undelegation', eq(s.ru(s.data1(c.meta['key']), 16, 1), c.allow))
        s.data_is(p + 'argument_data', c.cs, c.data)
    elif n == 'finalize':
        s.prove(p + 'finalizes', s.own1(s.pda('crecord', a(1))) == SYSTEM)
    elif n == 'undelegate':
        s.prove(p + 'undelegates', s.own1(s.pda('record', a(1))) == SYSTEM)
    elif n == 'init_protocol_vault':
        s.prove(p + 'opens_protocol_vault', s.own1(s.pda('fv')) == DLP)
    elif n == 'init_validator_vault':
        s.prove(p + 'opens_validator_vault', s.own1(s.pda('vfv', a(3))) == DLP)
    elif n == 'close_validator_vault':
        s.prove(p + 'closes_validator_vault', s.own1(s.pda('vfv', a(3))) == SYSTEM)
    elif n == 'validator_claim':
        k = s.pda('vfv', a(0))
        s.prove(p + 'claims_argument_amount', s.lam0(k) - s.lam1(k) == z3.If(s.pu(0, 1) == 1, s.pu(1, 8), s.lam0(k) - minbal(8)))
    elif n == 'protocol_claim':
        s.prove(p + 'claims', s.lam1(s.pda('fv')) == minbal(8))
    elif n == 'whitelist':
        conf = s.pda('conf', a(2))
        s.prove(p + 'configures', s.own1(conf) == DLP)
        sg = [g for g in s.data1(conf).segs if g[0] == 'set']
        s.prove(p + 'argument_insert', len(sg) == 1 and eq(z3.Select(sg[0][1], a(1)), s.pu(0, 1) == 1))
    elif n == 'top_up':
        k = s.pda('escrow', a(1), s.pu(8, 1))
        s.prove(p + 'tops_up', s.lam1(k) >= s.lam0(k) + s.pu(0, 8))
    elif n == 'close_ephemeral':
        s.prove(p + 'closes_escrow', s.lam1(s.pda('escrow', a(0), s.pu(0, 1))) == 0)


@prop('C22', ALL, hyp=well_formed)
def c22_accepted(s):
    """what the builder of an operation produces is accepted by the program, as that operation"""
    s.prove(s.pre + 'accepted', s.ok)
    if s.ok:
        runtime_accepts(s)
        routed(s)


@prop('C22', ALL)
def c22_signatures(s):
    if not s.ok:
        return
    for i, f in enumerate(FLAGS[s.ins]):
        if f.isupper():
            s.prove(s.pre + 'signature_%d_needed' % i, s.signer(s.acc(i)))
