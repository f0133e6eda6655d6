"""The properties C01..C26 as obligations on the outcome of each instruction (or helper) path."""
import z3
from values import *
from spec import *
from driver import Task, Skip
from explore import INS, start_instruction
import world

ALL = list(INS)
TASKS = {}


def prop(pid, ins=None, hyp=None, escrow_signs=None):
    """register a specification: for every instruction in `ins`, one exploration task"""
    def deco(f):
        for name in ([ins] if isinstance(ins, str) else ins):
            es = name == 'delegate' if escrow_signs is None else escrow_signs

            def start(x, prog, name=name, es=es):
                return start_instruction(x, prog, name, init=(lambda x, w: hyp(x, w, name)) if hyp else None, escrow_signs=es)

            def spec(s, name=name):
                s.ins = name
                s.pre = pid + '.' + name + '.'
                f(s)
            TASKS.setdefault(pid, []).append(Task('%s/%s' % (pid, name), start, spec))
        return f
    return deco


COMMITS = ('commit', 'commit_from_buffer')


D = z3.Const('any_delegated', Key)         # an arbitrary delegated account (or not), for invariants
V = z3.Const('any_validator', Key)
P = z3.Const('any_program', Key)
from world import IsRole
MAXLAM = 2 ** 60                            # liveness only: balances are below the total supply bound


class CommitView:
    """arguments and accounts of the two commit instructions"""

    def __init__(c, s):
        c.v, c.d = s.acc(0), s.acc(1)
        c.slot, c.lamports, c.allow = s.pu(0, 8), s.pu(8, 8), s.pu(16, 1)
        c.rec, c.meta = s.rec(c.d), s.meta(c.d)
        c.cs, c.cr = s.pda('cstate', c.d), s.pda('crecord', c.d)
        c.vfv = s.pda('vfv', c.v)
        if s.ins == 'commit':
            n = s.pu(17, 4)
            c.data = Rope((('o', Payload, 21, n),))
        else:
            c.data = s.data0(s.acc(6))
        c.outdated = c.slot < c.meta['last']


def canonical(s):
    """{account position: address the program must insist on}"""
    a, n = s.acc, s.ins
    per = lambda d, roles: {i: s.pda(r, d) for i, r in roles.items()}
    if n == 'delegate':
        return {3: s.pda('buffer', a(1), a(2)), **per(a(1), {4: 'record', 5: 'metadata'}), 6: SYSTEM}
    if n in COMMITS:
        v = CommitView(s)
        b = 0 if n == 'commit' else 1
        d = {**per(a(1), {4: 'record', 5: 'metadata'}), 6 + b: v.vfv}
        if not s.x.choose(v.outdated):
            d.update({2: v.cs, 3: v.cr, 7 + b: s.pda('conf', v.rec['owner']), 8 + b: SYSTEM})
        return d
    if n == 'finalize':
        return {**per(a(1), {2: 'cstate', 3: 'crecord', 4: 'record', 5: 'metadata'}), 6: s.pda('vfv', a(0)), 7: SYSTEM}
    if n == 'undelegate':
        d = {**per(a(1), {4: 'cstate', 5: 'crecord', 6: 'record', 7: 'metadata'}), 9: s.pda('fv'), 10: s.pda('vfv', a(0)), 11: SYSTEM}
        if any(e['kind'] == 'foreign' for e in s.w.events):
            d[3] = s.pda('ubuffer', a(1))
        return d
    if n == 'init_protocol_vault':
        return {1: s.pda('fv'), 2: SYSTEM}
    if n == 'init_validator_vault':
        return {2: s.pda('progdata', DLP), 4: s.pda('vfv', a(3)), 5: SYSTEM}
    if n == 'close_validator_vault':
        return {2: s.pda('progdata', DLP), 4: s.pda('vfv', a(3))}
    if n == 'protocol_claim':
        return {1: s.pda('fv'), 2: s.pda('progdata', DLP)}
    if n == 'validator_claim':
        return {1: s.pda('fv'), 2: s.pda('vfv', a(0))}
    if n == 'whitelist':
        return {4: s.pda('progdata', DLP), 5: s.pda('conf', a(2)), 6: SYSTEM}
    if n == 'top_up':
        return {2: s.pda('escrow', a(1), s.pu(8, 1)), 3: SYSTEM}
    if n == 'delegate_ephemeral':
        c = DelegateView(s, a(0), a(2), SYSTEM, a(3))
        return {2: s.pda('escrow', a(1), s.pu(c.after, 1))}
    if n == 'close_ephemeral':
        return {1: s.pda('escrow', a(0), s.pu(0, 1))}


def at_canonical(s, only=None):
    for i, k in sorted(canonical(s).items()):
        if only is None or i in only:
            s.prove(s.pre + 'canonical_account_%d' % i, s.acc(i) == k)


# flags of the published builders, per account: upper case signs; w: writable, r: either, n: not writable
FLAGS = {
    'delegate': 'WWrwwwr', 'commit': 'Wrwwrwrnr', 'commit_from_buffer': 'Wrwwrwrrnr', 'finalize': 'Wwwwwwwr', 'undelegate': 'Wwrwrrwwwwwr',
    'init_protocol_vault': 'Wwr', 'init_validator_vault': 'WRrrwr', 'validator_claim': 'Www', 'whitelist': 'Wrrrrwr', 'top_up': 'Wrwr',
    'delegate_ephemeral': 'WRwwwwrr', 'close_ephemeral': 'Wwr', 'protocol_claim': 'Wwr', 'close_validator_vault': 'WRrww',
}


@prop('C01', COMMITS)
def c01(s):
    if not s.ok:
        return
    c = CommitView(s)
    if s.x.choose(c.outdated):
        return
    p = s.pre
    s.prove(p + 'validator_signed', s.signer(c.v))
    s.prove(p + 'validator_vault_initialised', s.own0(c.vfv) == DLP)
    s.prove(p + 'account_delegated', s.own0(c.d) == DLP)
    s.prove(p + 'record_owned', s.own0(c.rec['key']) == DLP)
    s.prove(p + 'metadata_owned', s.own0(c.meta['key']) == DLP)
    s.prove(p + 'record_tag', s.u0(c.rec['key'], 0, 8) == 100)
    s.prove(p + 'metadata_tag', s.u0(c.meta['key'], 0, 8) == 102)
    conf = s.pda('conf', c.rec['owner'])
    b = Acctdata(conf)
    member = z3.And(s.u0(conf, 8, 4) > 0, z3.Select(SetAt(b, z3.IntVal(8)), c.v))
    s.prove(p + 'whitelisted_if_config', z3.Implies(s.own0(conf) == DLP, member))
    at_canonical(s)


@prop('C02', COMMITS)
def c02(s):
    if not s.ok:
        return
    c = CommitView(s)
    p = s.pre
    if s.x.choose(c.outdated):
        s.unchanged(p + 'outdated_changes_nothing')
        return
    s.prove(p + 'slot_not_older', c.slot >= c.meta['last'])
    s.prove(p + 'no_pending_record', s.own0(c.cr) != DLP)
    s.prove(p + 'no_pending_state', s.own0(c.cs) != DLP)


@prop('C04', COMMITS)
def c04(s):
    if not s.ok:
        return
    c = CommitView(s)
    if s.x.choose(c.outdated):
        return
    p = s.pre
    m = c.meta
    s.prove(p + 'state_owner', s.own1(c.cs) == DLP)
    s.prove(p + 'record_owner', s.own1(c.cr) == DLP)
    s.data_is(p + 'state_bytes', c.cs, c.data)
    s.data_is(p + 'commit_record', c.cr, s.crec_rope(c.v, c.d, c.slot, c.lamports))
    s.data_is(p + 'metadata', m['key'], s.meta_rope(m['last'], c.allow, m['seeds'], m['payer']))
    s.frame_data(p + 'other_data', [c.cs, c.cr, m['key']])
    s.frame_own(p + 'other_owners', [(c.cs, DLP), (c.cr, DLP)])
    s.frame_lam_except(p + 'other_lamports', [c.v, c.cs, c.cr])



# ---- delegation -----------------------------------------------------------------------------------------
class DelegateView:
    """delegation of account d: arguments at an offset of the payload"""

    def __init__(c, s, payer, d, owner, buf):
        c.payer, c.d, c.owner, c.buf = payer, d, owner, buf
        c.freq = s.pu(0, 4)
        c.seeds = s.seeds_at(Payload, 4)
        o = simp(4 + SeedsLen(c.seeds))
        c.opt = s.pu(o, 1)
        c.authority = z3.If(c.opt == 1, s.pk(o + 1), SYSTEM)
        c.after = simp(o + 1 + z3.If(c.opt == 1, 32, 0))
        c.rec, c.meta = s.pda('record', d), s.pda('metadata', d)


def created(s, k, n):
    """balance added to a fresh account of n bytes"""
    return maxi(s.lam0(k), minbal(n)) - s.lam0(k)


def delegated(s, c, p, seeds=None, seeds_rope=None):
    """the effects every successful delegation has"""
    clock = s.w.clock
    s.prove(p + 'record_owned', s.own1(c.rec) == DLP)
    s.prove(p + 'metadata_owned', s.own1(c.meta) == DLP)
    if clock is None:
        s.prove(p + 'clock_read', False)
        return
    s.data_is(p + 'record', c.rec, s.rec_rope(c.authority, c.owner, clock, s.lam0(c.d), c.freq))
    if seeds_rope is None:
        mr = s.meta_rope(0, 0, seeds, c.payer)
    else:
        mr = Rope((('c', (102).to_bytes(8, 'little') + bytes(9)),)) + seeds_rope + Rope((('k', c.payer),))
    s.data_is(p + 'metadata', c.meta, mr)
    if s.x.choose(s.len0(c.buf) > 0):
        s.data_is(p + 'account_data_from_buffer', c.d, s.data0(c.buf))
    else:
        s.data_is(p + 'account_data_kept', c.d, s.data0(c.d))
    a, b = created(s, c.rec, 96), created(s, c.meta, mr.len())
    s.deltas(p + 'lamports', [(c.rec, a), (c.meta, b), (c.payer, -(a + b))])
    s.frame_data(p + 'other_data', [c.rec, c.meta, c.d])


@prop('C12', ('delegate',))
def c12(s):
    if not s.ok:
        return
    p = s.pre
    c = DelegateView(s, s.acc(0), s.acc(1), s.acc(2), s.acc(3))
    s.prove(p + 'payer_signed', s.signer(c.payer))
    s.prove(p + 'account_signed', s.signer(c.d))
    s.prove(p + 'account_handed_over', s.own0(c.d) == DLP)
    for nm, k in (('record', c.rec), ('metadata', c.meta)):
        s.prove(p + nm + '_uninitialised', z3.And(s.own0(k) == SYSTEM, s.len0(k) == 0))
    s.prove(p + 'canonical_buffer', s.acc(3) == s.pda('buffer', c.d, c.owner))
    pid = z3.If(c.owner == SYSTEM, DLP, c.owner)
    s.prove(p + 'derived_or_on_curve', z3.Or(OnCurve(c.d), c.d == world.FSeeds(c.seeds, pid)))


@prop('C13', ('delegate',))
def c13(s):
    if not s.ok:
        return
    c = DelegateView(s, s.acc(0), s.acc(1), s.acc(2), s.acc(3))
    p = s.pre
    delegated(s, c, p, seeds=c.seeds)
    s.frame_own(p + 'other_owners', [(c.rec, DLP), (c.meta, DLP)])
    s.prove(p + 'authority_option_valid', z3.Or(c.opt == 0, c.opt == 1))


@prop('C20', ('delegate_ephemeral',))
def c20(s):
    if not s.ok:
        return
    p = s.pre
    payer, pk, esc = s.acc(0), s.acc(1), s.acc(2)
    s.prove(p + 'payer_signed', s.signer(payer))
    s.prove(p + 'owner_signed', s.signer(pk))
    c = DelegateView(s, payer, esc, SYSTEM, s.pda('buffer', esc, SYSTEM))
    index = s.pu(c.after, 1)
    want = s.pda('escrow', pk, index)
    s.prove(p + 'canonical_escrow', esc == want)
    s.prove(p + 'program_owned', s.own1(esc) == DLP)
    for nm, k in (('record', c.rec), ('metadata', c.meta)):
        s.prove(p + nm + '_uninitialised', z3.And(s.own0(k) == SYSTEM, s.len0(k) == 0))
    seeds = Rope((('c', (3).to_bytes(4, 'little') + (7).to_bytes(4, 'little') + b'balance' + (32).to_bytes(4, 'little')), ('k', pk),
                  ('c', (1).to_bytes(4, 'little')), ('u', 1, index)))
    delegated(s, c, p, seeds_rope=seeds)
    s.frame_own(p + 'other_owners', [(c.rec, DLP), (c.meta, DLP), (esc, DLP)])


# ---- finalization -----------------------------------------------------------------------------------------
class FinalizeView:
    def __init__(c, s):
        c.v, c.d = s.acc(0), s.acc(1)
        c.rec, c.meta, c.crec = s.rec(c.d), s.meta(c.d), s.crec(c.d)
        c.cs, c.cr = s.pda('cstate', c.d), c.crec['key']
        c.vfv = s.pda('vfv', c.v)
        c.pending = z3.Or(s.own0(c.cs) == DLP, s.own0(c.cr) == DLP)
        c.none = z3.And(s.own0(c.cs) == SYSTEM, s.own0(c.cr) == SYSTEM, s.len0(c.cs) == 0, s.len0(c.cr) == 0)


@prop('C06', 'finalize')
def c06(s):
    c = FinalizeView(s)
    p = s.pre
    if not s.ok:
        wf = z3.And(NAcc == 8, s.signer(c.v), s.own0(c.d) == DLP, s.own0(c.rec['key']) == DLP, s.own0(c.meta['key']) == DLP,
                    s.own0(c.vfv) == DLP, s.acc(2) == c.cs, s.acc(3) == c.cr, s.acc(4) == c.rec['key'], s.acc(5) == c.meta['key'],
                    s.acc(6) == c.vfv, s.acc(7) == SYSTEM, Exec(SYSTEM), *[TopWritable(s.acc(i)) for i in range(1, 7)])
        s.prove(p + 'nothing_pending_succeeds', z3.Not(z3.And(wf, c.none)))
        return
    if s.x.choose(c.none):
        s.unchanged(p + 'nothing_pending_changes_nothing')
        return
    s.prove(p + 'validator_signed', s.signer(c.v))
    s.prove(p + 'validator_vault_initialised', s.own0(c.vfv) == DLP)
    s.prove(p + 'account_delegated', s.own0(c.d) == DLP)
    for nm, k in (('record', c.rec['key']), ('metadata', c.meta['key']), ('pending_state', c.cs), ('commit_record', c.cr)):
        s.prove(p + nm + '_owned', s.own0(k) == DLP)
    s.prove(p + 'commit_record_tag', s.u0(c.cr, 0, 8) == 101)
    s.prove(p + 'record_tag', s.u0(c.rec['key'], 0, 8) == 100)
    s.prove(p + 'metadata_tag', s.u0(c.meta['key'], 0, 8) == 102)
    s.prove(p + 'validator_is_committer', c.crec['identity'] == c.v)
    s.prove(p + 'record_names_account', c.crec['account'] == c.d)
    at_canonical(s, range(2, 7))


@prop('C07', 'finalize', hyp=lambda x, w, n: assume_inv(x, w, [acc(1)]))
def c07(s):
    if not s.ok:
        return
    c = FinalizeView(s)
    p = s.pre
    if s.x.choose(c.none):
        return
    r, m = c.rec, c.meta
    s.data_is(p + 'account_data', c.d, s.data0(c.cs))
    s.data_is(p + 'metadata', m['key'], s.meta_rope(c.crec['slot'], m['flag'], m['seeds'], m['payer']))
    settled = s.lam0(c.d) - r['lamports'] + c.crec['lamports']
    s.data_is(p + 'record', r['key'], s.rec_rope(r['authority'], r['owner'], r['slot'], settled, r['freq']))
    s.prove(p + 'settled_in_range', z3.And(settled >= 0, settled <= U64))
    for nm, k in (('pending_state', c.cs), ('commit_record', c.cr)):
        s.prove(p + nm + '_closed_owner', s.own1(k) == SYSTEM)
        s.prove(p + nm + '_closed_lamports', s.lam1(k) == 0)
        s.data_is(p + nm + '_closed_data', k, Rope(()))
    s.prove(p + 'account_still_delegated', s.own1(c.d) == DLP)
    s.frame_own(p + 'owners', [(c.cs, SYSTEM), (c.cr, SYSTEM)])


@prop('C08', 'finalize')
def c08(s):
    if not s.ok:
        return
    c = FinalizeView(s)
    p = s.pre
    if s.x.choose(c.none):
        return
    rl, cl = c.rec['lamports'], c.crec['lamports']
    inc, dec = maxi(cl - rl, 0), maxi(rl - cl, 0)
    s.deltas(p + 'settlement', [(c.d, cl - rl), (c.vfv, dec), (c.cs, -s.lam0(c.cs)), (c.cr, -s.lam0(c.cr)),
                                (c.v, s.lam0(c.cs) + s.lam0(c.cr) - inc)])
    s.prove(p + 'increase_covered_by_pending', s.lam0(c.cs) >= inc)
    s.prove(p + 'decrease_covered_by_account', s.lam0(c.d) >= dec)


# ---- undelegation -----------------------------------------------------------------------------------------
class UndelegateView:
    def __init__(c, s):
        c.v, c.d = s.acc(0), s.acc(1)
        c.rec, c.meta = s.rec(c.d), s.meta(c.d)
        c.cs, c.cr = s.pda('cstate', c.d), s.pda('crecord', c.d)
        c.vfv, c.fv, c.buf = s.pda('vfv', c.v), s.pda('fv'), s.pda('ubuffer', c.d)
        c.payer = c.meta['payer']
        c.foreign = [e for e in s.w.events if e['kind'] == 'foreign']


@prop('C09', 'undelegate')
def c09(s):
    if not s.ok:
        return
    c = UndelegateView(s)
    p = s.pre
    s.prove(p + 'validator_signed', s.signer(c.v))
    s.prove(p + 'permitted', c.meta['flag'] == 1)
    for nm, k in (('validator_vault', c.vfv), ('account', c.d), ('record', c.rec['key']), ('metadata', c.meta['key']), ('protocol_vault', c.fv)):
        s.prove(p + nm + '_owned', s.own0(k) == DLP)
    for nm, k in (('state', c.cs), ('record', c.cr)):
        s.prove(p + 'no_pending_' + nm, z3.And(s.own0(k) == SYSTEM, s.len0(k) == 0))
    s.prove(p + 'metadata_tag', s.u0(c.meta['key'], 0, 8) == 102)
    s.prove(p + 'record_tag', s.u0(c.rec['key'], 0, 8) == 100)
    s.prove(p + 'recorded_owner_program', s.acc(2) == c.rec['owner'])
    s.prove(p + 'recorded_rent_payer', s.acc(8) == c.payer)
    at_canonical(s)


TAG = bytes([196, 28, 41, 206, 48, 37, 51, 167])


def at(objs, w, k):
    for q, r in objs:
        if w.key_eq(q, k):
            return r
    return w.init_rope(k)


def h_payer(x, w, name):
    """hypothesis (an invariant, see C24): program accounts never signed as rent payer"""
    inv_pre(x, w, name)


def inv_pre(x, w, name):
    assume_inv(x, w, [D] + delegated_of(name))


def delegated_of(name):
    if name in ('delegate', 'commit', 'commit_from_buffer', 'finalize', 'undelegate'):
        return [acc(1)]
    if name == 'delegate_ephemeral':
        return [acc(2)]
    return []


@prop('C10', 'undelegate', hyp=lambda x, w, n: assume_inv(x, w, [acc(1)]))
def c10(s):
    if not s.ok:
        return
    c = UndelegateView(s)
    p = s.pre
    d, v, buf = c.d, c.v, c.buf
    for nm, k in (('record', c.rec['key']), ('metadata', c.meta['key'])):
        s.prove(p + nm + '_closed', s.own1(k) == SYSTEM)
        s.data_is(p + nm + '_emptied', k, Rope(()))
    s.data_is(p + 'data_intact', d, s.data0(d))
    apart = z3.And(*[d != k for k in (c.payer, c.vfv, c.fv)])
    if s.x.choose(s.len0(d) == 0):
        s.prove(p + 'empty_owner_restored', s.own1(d) == c.rec['owner'])
        s.prove(p + 'empty_no_foreign_call', len(c.foreign) == 0)
        s.prove(p + 'empty_balance_kept', z3.Implies(apart, s.lam1(d) == s.lam0(d)))
        return
    s.prove(p + 'one_foreign_call', len(c.foreign) == 1)
    if len(c.foreign) != 1:
        return
    e = c.foreign[0]
    s.prove(p + 'foreign_is_owner', e['pid'] == c.rec['owner'])
    s.prove(p + 'foreign_data', s.rope_eq(e['data'], Rope((('c', TAG), ('ss', c.meta['seeds'])))))
    ms = e['metas']
    s.prove(p + 'foreign_accounts', len(ms) == 4 and conj(eq(ms[0][0], d), eq(ms[1][0], buf), eq(ms[2][0], v), eq(ms[3][0], SYSTEM)))
    s.prove(p + 'foreign_account_flags', len(ms) == 4 and conj(neg(ms[0][1]), ms[0][2], ms[1][1], ms[1][2], ms[2][1], ms[2][2], neg(ms[3][2])))
    s.prove(p + 'buffer_signs_only', disj(len(e['signers']) == 1 and eq(e['signers'][0], buf)))
    s.prove(p + 'emptied_before_call', z3.And(z3.Select(e['lam_before'], d) == 0, z3.Select(e['own_before'], d) == SYSTEM))
    s.prove(p + 'data_emptied_before_call', s.rope_eq(at(e['data_before'], s.w, d), Rope(())))
    s.prove(p + 'buffer_copy', s.rope_eq(at(e['data_before'], s.w, buf), s.data0(d)))
    s.prove(p + 'buffer_program_owned', z3.Select(e['own_before'], buf) == DLP)
    s.prove(p + 'exact_rent_taken', z3.Select(e['lam_before'], v) == z3.Select(e['lam_after'], v) + minbal(s.len0(d)))
    s.prove(p + 'buffer_closed', z3.And(s.own1(buf) == SYSTEM, s.lam1(buf) == 0))
    s.data_is(p + 'buffer_emptied', buf, Rope(()))
    s.prove(p + 'validator_not_charged', s.lam1(v) >= s.lam0(v))
    apart = z3.And(d != v, *[k != q for k in (d, v) for q in (c.payer, c.vfv, c.fv)])
    s.prove(p + 'total_kept', z3.Implies(apart, s.lam1(d) + s.lam1(v) == s.lam0(d) + s.lam0(v) + s.lam0(buf)))


@prop('C11', 'undelegate', hyp=lambda x, w, n: assume_inv(x, w, [acc(1)]))
def c11(s):
    if not s.ok:
        return
    c = UndelegateView(s)
    p = s.pre
    ds = []
    base = LAM0
    if c.foreign:
        e = c.foreign[-1]
        base = e['lam_after']
        b1 = z3.Select(base, c.buf)
        n = s.len0(c.d)
        extra = s.lam0(c.d) - minbal(n)
        ds = [(c.buf, -b1), (c.v, b1 - extra), (c.d, extra)]
    for nm, k in (('record', c.rec['key']), ('metadata', c.meta['key'])):
        b = s.lam0(k)
        fee = b * 10 / 100
        share = fee * 10 / 100
        ds += [(k, -b), (c.fv, share), (c.vfv, fee - share), (c.payer, b - fee)]
        s.prove(p + nm + '_drained', s.lam1(k) == 0)
        s.prove(p + nm + '_closed', s.own1(k) == SYSTEM)
        s.data_is(p + nm + '_emptied', k, Rope(()))
    s.deltas(p + 'split', ds, base=base)


# ---- fees ---------------------------------------------------------------------------------------------------
def authority_of(s, program):
    """formula and key: the loader's record of a program's upgrade authority"""
    pd = s.pda('progdata', program)
    return z3.And(s.u0(pd, 0, 4) == 3, s.u0(pd, 12, 1) == 1), RdK(Acctdata(pd), z3.IntVal(13))


@prop('C15', 'validator_claim', hyp=lambda x, w, n: vault_inv(x, w, [acc(0)]))
def c15(s):
    if not s.ok:
        return
    p = s.pre
    v = s.acc(0)
    vfv, fv = s.pda('vfv', v), s.pda('fv')
    s.prove(p + 'validator_signed', s.signer(v))
    s.prove(p + 'own_vault', s.own0(vfv) == DLP)
    s.prove(p + 'protocol_vault', s.own0(fv) == DLP)
    s.prove(p + 'amount_option_valid', z3.Or(s.pu(0, 1) == 0, s.pu(0, 1) == 1))
    amount = z3.If(s.pu(0, 1) == 1, s.pu(1, 8), s.lam0(vfv) - minbal(8))
    fee = amount * 10 / 100
    s.deltas(p + 'split', [(vfv, -amount), (fv, fee), (v, amount - fee)])
    s.prove(p + 'rent_kept', s.lam1(vfv) >= minbal(8))
    s.prove(p + 'within_available', amount <= s.lam0(vfv) - minbal(8))
    s.prove(p + 'amount_positive', amount >= 0)
    s.frame_data(p + 'data', [])
    s.frame_own(p + 'owners', [])


def admin_signed(s, p, k):
    has, auth = authority_of(s, DLP)
    s.prove(p + 'admin_signed', s.signer(k))
    s.prove(p + 'admin_is_upgrade_authority', z3.And(has, auth == k))


@prop('C16', ALL, hyp=lambda x, w, n: (assume_inv(x, w, delegated_of(n)), roles_no_sign(x, w), vault_inv(x, w, [])))
def c16(s):
    if not s.ok:
        return
    p = s.pre
    fv = s.pda('fv')
    vault_kept(s, fv)
    if s.ins == 'protocol_claim':
        a = s.acc(0)
        admin_signed(s, p, a)
        amount = s.lam0(fv) - minbal(8)
        s.prove(p + 'vault_owned', s.own0(fv) == DLP)
        s.prove(p + 'vault_holds_rent', amount >= 0)
        s.deltas(p + 'lamports', [(fv, -amount), (a, amount)])
        s.prove(p + 'vault_left_with_rent', s.lam1(fv) == minbal(8))
        s.frame_data(p + 'data', [])
        s.frame_own(p + 'owners', [])
        return
    s.prove(p + 'vault_never_debited', z3.Implies(s.own0(fv) == DLP, z3.And(s.lam1(fv) >= s.lam0(fv), s.own1(fv) == DLP)))
    s.cover(p + 'ok')


@prop('C17', ALL, hyp=lambda x, w, n: (assume_inv(x, w, delegated_of(n)), roles_no_sign(x, w), vault_inv(x, w, [V])))
def c17(s):
    if not s.ok:
        return
    p = s.pre
    vault_kept(s, s.pda('vfv', V))
    if s.ins in ('init_validator_vault', 'close_validator_vault'):
        payer, admin, ident = s.acc(0), s.acc(1), s.acc(3)
        vfv = s.pda('vfv', ident)
        s.prove(p + 'payer_signed', s.signer(payer))
        admin_signed(s, p, admin)
        if s.ins == 'init_validator_vault':
            s.prove(p + 'was_uninitialised', z3.And(s.own0(vfv) == SYSTEM, s.len0(vfv) == 0))
            s.prove(p + 'owned', s.own1(vfv) == DLP)
            s.data_is(p + 'eight_bytes', vfv, Rope((('c', bytes(8)),)))
            n = created(s, vfv, 8)
            s.deltas(p + 'lamports', [(vfv, n), (payer, -n)])
            s.frame_own(p + 'owners', [(vfv, DLP)])
        else:
            s.prove(p + 'was_initialised', s.own0(vfv) == DLP)
            s.prove(p + 'closed', s.own1(vfv) == SYSTEM)
            s.data_is(p + 'emptied', vfv, Rope(()))
            s.deltas(p + 'lamports', [(vfv, -s.lam0(vfv)), (ident, s.lam0(vfv))])
            s.frame_own(p + 'owners', [(vfv, SYSTEM)])
        s.frame_data(p + 'data', [vfv])
        return
    s.prove(p + 'vaults_neither_opened_nor_closed', s.own1(s.pda('vfv', V)) == s.own0(s.pda('vfv', V)))


def conf_inv(x, w, name):
    """a whitelist config belongs to this program or does not exist (kept: below)"""
    s = h(w)
    for k in [P] + ([acc(2)] if name == 'whitelist' else []):
        c = s.pda('conf', k)
        x.assume(z3.Or(s.own0(c) == DLP, z3.And(s.own0(c) == SYSTEM, s.len0(c) == 0)))


@prop('C18', ALL, hyp=lambda x, w, n: (assume_inv(x, w, delegated_of(n)), roles_no_sign(x, w), conf_inv(x, w, n)))
def c18(s):
    if not s.ok:
        return
    p = s.pre
    if s.ins != 'whitelist':
        conf = s.pda('conf', P)
        s.prove(p + 'no_config_owner_changed', s.own1(conf) == s.own0(conf))
        s.prove(p + 'no_config_data_changed', s.rope_eq(s.data1(conf), s.data0(conf)))
        return
    a, v, prog = s.acc(0), s.acc(1), s.acc(2)
    conf = s.pda('conf', prog)
    h1, k1 = authority_of(s, DLP)
    h2, k2 = authority_of(s, prog)
    s.prove(p + 'authority_signed', s.signer(a))
    s.prove(p + 'authorised', z3.Or(z3.And(h1, k1 == a), z3.And(h2, k2 == a)))
    b = Acctdata(conf)
    insert = s.pu(0, 1)
    fresh = s.x.choose(s.own0(conf) == SYSTEM)
    if not fresh:
        s.prove(p + 'config_owned', s.own0(conf) == DLP)
        s.prove(p + 'config_tag', s.u0(conf, 0, 8) == 103)
    if fresh:
        old, n = z3.K(Key, False), 0
    else:
        old, n = SetAt(b, z3.IntVal(8)), SetCard(b, z3.IntVal(8))
    had = z3.Select(old, v)
    if s.x.choose(insert == 1):
        new = z3.Store(old, v, True)
        n = n if s.x.choose(had) else simp(n + 1)
    else:
        s.prove(p + 'flag_valid', insert == 0)
        new = z3.Store(old, v, False)
        n = simp(n - 1) if s.x.choose(had) else n
    s.prove(p + 'config_program_owned', s.own1(conf) == DLP)
    r = s.data1(conf)
    want = Rope((('c', (103).to_bytes(8, 'little')), ('set', new, n)))
    s.prove(p + 'stored_set', s.rope_eq(r, want))
    s.frame_data(p + 'other_data', [conf])
    s.frame_own_except(p + 'other_owners', [conf])


# ---- escrows ------------------------------------------------------------------------------------------------
@prop('C19', ('top_up', 'close_ephemeral'))
def c19(s):
    if not s.ok:
        return
    p = s.pre
    if s.ins == 'top_up':
        payer, owner = s.acc(0), s.acc(1)
        amount, index = s.pu(0, 8), s.pu(8, 1)
        esc = s.pda('escrow', owner, index)
        s.prove(p + 'payer_signed', s.signer(payer))
        rent = z3.If(s.own0(esc) == SYSTEM, created(s, esc, 0), 0)
        s.deltas(p + 'lamports', [(esc, amount + rent), (payer, -(amount + rent))])
    else:
        owner = s.acc(0)
        esc = s.pda('escrow', owner, s.pu(0, 1))
        s.prove(p + 'owner_signed', s.signer(owner))
        s.prove(p + 'not_delegated', s.own0(esc) == SYSTEM)
        s.deltas(p + 'lamports', [(esc, -s.lam0(esc)), (owner, s.lam0(esc))])
        s.prove(p + 'emptied', s.lam1(esc) == 0)
    s.frame_data(p + 'data', [])
    s.frame_own(p + 'owners', [])


# ---- conservation ---------------------------------------------------------------------------------------------
@prop('C14', ALL, hyp=lambda x, w, n: (assume_inv(x, w, delegated_of(n)), roles_no_sign(x, w)))
def c14(s):
    if not s.ok:
        return
    p = s.pre
    s.prove(p + 'no_wrapped_arithmetic', not s.x.flags)
    tot = z3.IntVal(0)
    for k, old, new in s.w.lamlog:
        tot = tot + (tosmt(new) - tosmt(old))
    s.prove(p + 'lamports_conserved', simp(tot == 0))


# ---- frames ---------------------------------------------------------------------------------------------------
def frames(s):
    """accounts an instruction may change: balances, owners, data"""
    n = s.ins
    a = s.acc
    if n == 'delegate' or n == 'delegate_ephemeral':
        d = a(1) if n == 'delegate' else a(2)
        r, m = s.pda('record', d), s.pda('metadata', d)
        return [a(0), r, m], [r, m] + ([d] if n != 'delegate' else []), [r, m, d]
    if n in COMMITS:
        c = CommitView(s)
        return [c.v, c.cs, c.cr], [c.cs, c.cr], [c.cs, c.cr, c.meta['key']]
    if n == 'finalize':
        c = FinalizeView(s)
        return [c.v, c.d, c.cs, c.cr, c.vfv], [c.cs, c.cr], [c.cs, c.cr, c.d, c.rec['key'], c.meta['key']]
    if n == 'undelegate':
        c = UndelegateView(s)
        r, m = c.rec['key'], c.meta['key']
        f = bool(c.foreign)
        return ([c.v, c.d, r, m, c.payer, c.vfv, c.fv] + [c.buf] * f), [c.d, r, m] + [c.v, c.buf] * f, [c.d, r, m] + [c.v, c.buf] * f
    if n == 'init_protocol_vault':
        f = s.pda('fv')
        return [a(0), f], [f], [f]
    if n == 'init_validator_vault':
        f = s.pda('vfv', a(3))
        return [a(0), f], [f], [f]
    if n == 'close_validator_vault':
        f = s.pda('vfv', a(3))
        return [a(3), f], [f], [f]
    if n == 'validator_claim':
        return [a(0), s.pda('fv'), s.pda('vfv', a(0))], [], []
    if n == 'protocol_claim':
        return [a(0), s.pda('fv')], [], []
    if n == 'whitelist':
        c = s.pda('conf', a(2))
        return [a(0), c], [c], [c]
    if n == 'top_up':
        return [a(0), s.pda('escrow', a(1), s.pu(8, 1))], [], []
    if n == 'close_ephemeral':
        return [a(0), s.pda('escrow', a(0), s.pu(0, 1))], [], []


@prop('C23', ALL, hyp=lambda x, w, n: (assume_inv(x, w, [D] + delegated_of(n)), roles_no_sign(x, w)))
def c23(s):
    if not s.ok:
        return
    p = s.pre
    l, o, d = frames(s)
    s.frame_lam_except(p + 'lamports', l)
    s.frame_own_except(p + 'owners', o)
    s.frame_data(p + 'data', d)
    # delegated accounts keep their data and owner except where they are finalized or undelegated
    isdel = s.own0(s.pda('record', D)) == DLP
    mine = [a for a in delegated_of(s.ins)] if s.ins in ('finalize', 'undelegate') else []
    if s.ins == 'finalize':
        s.prove(p + 'delegated_owner_kept', z3.Implies(isdel, s.own1(D) == DLP))
    else:
        s.prove(p + 'delegated_owner_kept', z3.Implies(z3.And(isdel, *[D != k for k in mine]), s.own1(D) == DLP))
    for ob in s.changed_objs():
        s.prove(p + 'delegated_data_kept', z3.Implies(z3.And(isdel, *[D != k for k in mine]), ob.key != D))


# ---- invariants over histories -----------------------------------------------------------------------------------
ROLE4 = ('record', 'metadata', 'cstate', 'crecord')


def h(w):
    """a specification view usable before the path starts"""
    s = S.__new__(S)
    s.x, s.w = w.x, w
    return s


def roles_no_sign(x, w):
    """accounts of this program other than escrows sign nothing from outside"""
    for i in range(4):
        x.assume(z3.Implies(IsRole(acc(i)), z3.Not(TopSigner(acc(i)))))


def inv_terms(s, k):
    """what always holds between instructions, for the account k (C24, C02, C05)"""
    out = []
    r, m, cs, cr, ub = [s.pda(n, k) for n in ROLE4 + ('ubuffer',)]
    for q in (r, m, cs, cr):
        out.append(z3.Or(s.own0(q) == DLP, z3.And(s.own0(q) == SYSTEM, s.len0(q) == 0)))
    out.append(z3.And(s.own0(ub) == SYSTEM, s.len0(ub) == 0))
    R, M, CS, CR = [s.own0(q) == DLP for q in (r, m, cs, cr)]
    out += [R == M, CS == CR, z3.Implies(CR, R)]
    rec, meta, crec = s.rec(k), s.meta(k), s.crec(k)
    out.append(z3.Implies(R, z3.And(s.own0(k) == DLP, z3.Not(IsRole(k)))))
    out.append(z3.Implies(R, z3.And(s.len0(r) == 96, s.u0(r, 0, 8) == 100, s.lam0(k) >= rec['lamports'])))
    out.append(z3.Implies(M, z3.And(s.u0(m, 0, 8) == 102, meta['flag'] <= 1, s.len0(m) == 49 + SeedsLen(meta['seeds']), z3.Not(IsRole(meta['payer'])))))
    out.append(z3.Implies(CR, z3.And(s.len0(cr) == 88, s.u0(cr, 0, 8) == 101, crec['account'] == k, s.len0(cs) <= 10240, z3.Not(IsRole(crec['identity'])),
                                     crec['slot'] >= meta['last'], s.lam0(cs) + rec['lamports'] >= crec['lamports'])))
    s.lam0(cs), s.lam0(k)
    return out


def vault_inv(x, w, validators):
    """fee vaults exist with their published size or not at all (kept by every instruction: C16, C17)"""
    s = h(w)
    for k in [s.pda('fv')] + [s.pda('vfv', v) for v in validators]:
        x.assume(z3.Or(z3.And(s.own0(k) == DLP, s.len0(k) == 8), z3.And(s.own0(k) == SYSTEM, s.len0(k) == 0)))


def vault_kept(s, k):
    """the same, after the instruction"""
    if s.x.choose(s.own1(k) == DLP):
        s.prove(s.pre + 'vault_size', eq(s.data1(k).len(), 8))
    else:
        s.prove(s.pre + 'no_vault_is_empty', conj(s.own1(k) == SYSTEM, eq(s.data1(k).len(), 0)))


def assume_inv(x, w, keys):
    s = h(w)
    for k in keys:
        for t in inv_terms(s, k):
            x.assume(t)


class Post:
    """the four per-account accounts of D after the instruction"""

    def __init__(c, s, k):
        c.s = s
        c.k = k
        c.r, c.m, c.cs, c.cr, c.ub = [s.pda(n, k) for n in ROLE4 + ('ubuffer',)]
        c.own = {q: s.own1(q) for q in (c.r, c.m, c.cs, c.cr, c.ub)}

    def is_dlp(c, q):
        return c.own[q] == DLP


def which(s):
    """fix which account D is on this path: the one being worked on, or another"""
    ks = delegated_of(s.ins)
    if ks:
        if s.x.choose(D == ks[0]):
            return ks[0], True
    return D, False


HIST = lambda x, w, n: (assume_inv(x, w, [D] + delegated_of(n)), roles_no_sign(x, w))


@prop('C24', ALL, hyp=HIST)
def c24(s):
    if not s.ok:
        return
    p = s.pre
    k, mine = which(s)
    c = Post(s, k)
    R, M, CS, CR = [c.is_dlp(q) for q in (c.r, c.m, c.cs, c.cr)]
    s.prove(p + 'record_iff_metadata', R == M)
    s.prove(p + 'state_iff_commit_record', CS == CR)
    s.prove(p + 'pending_only_while_delegated', z3.Implies(CR, R))
    for nm, q in (('record', c.r), ('metadata', c.m), ('pending_state', c.cs), ('commit_record', c.cr)):
        s.prove(p + nm + '_program_or_system', z3.Or(c.own[q] == DLP, c.own[q] == SYSTEM))
        if not s.x.choose(c.own[q] == DLP):
            s.prove(p + nm + '_uninitialised_is_empty', eq(s.data1(q).len(), 0))
    s.prove(p + 'undelegate_buffer_closed', z3.And(c.own[c.ub] == SYSTEM))
    s.prove(p + 'undelegate_buffer_empty', eq(s.data1(c.ub).len(), 0))
    if s.x.choose(R):
        s.prove(p + 'delegated_owned', s.own1(k) == DLP)
        s.prove(p + 'delegated_not_program_account', z3.Not(IsRole(k)))
        rr = s.data1(c.r)
        s.prove(p + 'record_size', eq(rr.len(), 96))
        s.prove(p + 'record_tag', eq(s.ru(rr, 0, 8), 100))
        mr = s.data1(c.m)
        s.prove(p + 'metadata_tag', eq(s.ru(mr, 0, 8), 102))
        s.prove(p + 'metadata_flag', s.ru(mr, 16, 1) <= 1)
        if mr.segs == s.w.init_rope(s.x.canon(c.m)).segs or mr.segs == s.data0(c.m).segs:
            pass
        elif s.ins in ('delegate', 'delegate_ephemeral') and mine:
            s.prove(p + 'rent_payer_not_program_account', z3.Not(IsRole(s.x.rkey(s.x.rslice(mr, simp(mr.len() - 32), 32)))))
        else:
            meta = s.meta(k)
            s.prove(p + 'metadata_identity_kept', s.rope_eq(s.x.rslice(mr, 17, simp(mr.len() - 17)), s.x.rslice(s.data0(c.m), 17, simp(s.len0(c.m) - 17))))
    if s.x.choose(CR):
        crr = s.data1(c.cr)
        s.prove(p + 'commit_record_size', eq(crr.len(), 88))
        s.prove(p + 'commit_record_tag', eq(s.ru(crr, 0, 8), 101))
        s.prove(p + 'commit_record_names_account', eq(s.x.rkey(s.x.rslice(crr, 40, 32)), k))
        s.prove(p + 'committer_not_program_account', z3.Not(IsRole(s.x.rkey(s.x.rslice(crr, 8, 32)))))
        s.prove(p + 'pending_state_size', tosmt(s.data1(c.cs).len()) <= 10240)
    if mine and s.ins in ('delegate', 'delegate_ephemeral'):
        for nm, q in (('record', c.r), ('metadata', c.m), ('pending_state', c.cs), ('commit_record', c.cr)):
            s.prove(p + 'nothing_left_over_' + nm, s.own0(q) != DLP)
        s.prove(p + 'delegated', z3.And(R, M))
    if mine and s.ins == 'undelegate':
        s.prove(p + 'undelegation_leaves_nothing', z3.And(*[c.own[q] == SYSTEM for q in (c.r, c.m, c.cs, c.cr)]))


@prop('C02', ALL, hyp=HIST)
def c02h(s):
    if not s.ok:
        return
    p = s.pre + 'history.'
    k, mine = which(s)
    c = Post(s, k)
    if not s.x.choose(c.is_dlp(c.m)):
        return
    last1 = s.ru(s.data1(c.m), 8, 8)
    if s.x.choose(s.own0(c.m) == DLP):
        s.prove(p + 'last_slot_never_decreases', tosmt(last1) >= s.meta(k)['last'])
        s.prove(p + 'still_same_delegation', s.own1(c.r) == DLP)
    if s.x.choose(c.is_dlp(c.cr)):
        s.prove(p + 'pending_slot_not_older', tosmt(s.ru(s.data1(c.cr), 72, 8)) >= last1)


@prop('C03', ALL, hyp=HIST)
def c03(s):
    if not s.ok:
        return
    p = s.pre
    k, mine = which(s)
    c = Post(s, k)
    if s.ins in COMMITS and mine:
        v = CommitView(s)
        if not s.x.choose(v.outdated):
            s.prove(p + 'rejected_once_allowed', v.meta['flag'] == 0)
    if not s.x.choose(c.is_dlp(c.m)):
        return
    f1 = tosmt(s.ru(s.data1(c.m), 16, 1))
    if not s.x.choose(s.own0(c.m) == DLP):
        s.prove(p + 'fresh_delegation_without_permission', f1 == 0)
        return
    f0 = s.meta(k)['flag']
    if s.ins in COMMITS and mine:
        v = CommitView(s)
        s.prove(p + 'permission_as_asked', f1 == z3.If(v.outdated, f0, v.allow))
    else:
        s.prove(p + 'permission_kept', f1 == f0)


@prop('C05', COMMITS)
def c05(s):
    if not s.ok:
        return
    c = CommitView(s)
    if s.x.choose(c.outdated):
        return
    p = s.pre
    rl = c.rec['lamports']
    s.prove(p + 'account_covers_record', s.lam0(c.d) >= rl)
    inc = maxi(c.lamports - rl, 0)
    a = maxi(s.lam0(c.cs) + inc, minbal(c.data.len())) - s.lam0(c.cs)
    b = created(s, c.cr, 88)
    s.deltas(p + 'collateral', [(c.cs, a), (c.cr, b), (c.v, -(a + b))])
    s.prove(p + 'collateral_held', s.lam1(c.cs) >= inc)


@prop('C05', ALL, hyp=HIST)
def c05h(s):
    if not s.ok:
        return
    p = s.pre + 'history.'
    k, mine = which(s)
    c = Post(s, k)
    if not s.x.choose(c.is_dlp(c.r)):
        return
    rl1 = tosmt(s.ru(s.data1(c.r), 80, 8))
    s.prove(p + 'account_covers_record', s.lam1(k) >= rl1)
    if s.x.choose(c.is_dlp(c.cr)):
        cl1 = tosmt(s.ru(s.data1(c.cr), 80, 8))
        s.prove(p + 'pending_covers_increase', s.lam1(c.cs) + rl1 >= cl1)


# ---- liveness -------------------------------------------------------------------------------------------------------
def builder_flags(x, name):
    """the accounts are flagged as the published builder of the operation flags them"""
    for i, f in enumerate(FLAGS[name]):
        if f.isupper():
            x.assume(TopSigner(acc(i)))
        if f in 'wW':
            x.assume(TopWritable(acc(i)))
        elif f == 'n':
            x.assume(z3.Not(TopWritable(acc(i))))


def funds(x, keys):
    for k in keys:
        x.assume(z3.And(z3.Select(LAM0, k) >= 0, z3.Select(LAM0, k) <= MAXLAM))


def admin(s, A, pd, k, program=DLP):
    """pd is the loader's record of a program whose upgrade authority is k"""
    A(z3.And(s.own0(pd) == LOADER, s.len0(pd) >= 45))
    ok, a = authority_of(s, program)
    A(ok)
    if k is not None:
        A(a == k)


def well_formed(x, w, name):
    """the operation is legitimate: canonical accounts flagged as the published builder flags them, the right signers, admitted
    and funded, a state reached through the program (Inv), a payload its client library would encode"""
    s = h(w)
    s.ins = name
    a = acc
    v, d = acc(0), acc(1)
    A = x.assume
    A(z3.And(Exec(SYSTEM), Exec(DLP), NAcc == INS[name][1]))
    roles_no_sign(x, w)
    builder_flags(x, name)
    at = lambda i, k: A(acc(i) == k)
    own = lambda k, o=DLP: A(s.own0(k) == o)
    fresh = lambda k: A(z3.And(s.own0(k) == SYSTEM, s.len0(k) == 0))
    fv, vfv = s.pda('fv'), s.pda('vfv', v)

    def wallet(k, need):
        """an ordinary account that can pay"""
        fresh(k)
        A(s.lam0(k) >= need)
        funds(x, [k])

    vault_inv(x, w, [v])
    if name == 'validator_claim':
        own(fv)
        funds(x, [v, fv, vfv])
        at(1, fv), at(2, vfv), own(vfv)
        o = s.pu(0, 1)
        A(z3.Or(z3.And(o == 0, PLen == 1), z3.And(o == 1, PLen == 9, s.pu(1, 8) <= s.lam0(vfv) - minbal(8))))
        A(s.lam0(vfv) >= minbal(8))
        return
    if name == 'protocol_claim':
        own(fv)
        funds(x, [v, fv])
        at(1, fv), at(2, s.pda('progdata', DLP))
        admin(s, A, a(2), v)
        A(s.lam0(fv) >= minbal(8))
        return
    if name == 'init_protocol_vault':
        at(1, fv), at(2, SYSTEM)
        fresh(fv)
        funds(x, [fv])
        wallet(v, minbal(8))
        return
    if name in ('init_validator_vault', 'close_validator_vault'):
        f = s.pda('vfv', a(3))
        at(2, s.pda('progdata', DLP)), at(4, f)
        admin(s, A, a(2), a(1))
        funds(x, [f, a(3)])
        if name == 'init_validator_vault':
            at(5, SYSTEM)
            fresh(f)
            wallet(v, minbal(8))
        else:
            own(f)
        return
    if name == 'whitelist':
        conf = s.pda('conf', a(2))
        for i, k in {3: s.pda('progdata', a(2)), 4: s.pda('progdata', DLP), 5: conf, 6: SYSTEM}.items():
            at(i, k)
        if x.choose(a(2) == DLP):
            admin(s, A, a(4), v)
        else:
            both = x.choose(authority_of(s, DLP)[1] == v)
            admin(s, A, a(4), v if both else None)
            if not both:
                admin(s, A, a(3), v, a(2))
        n = s.u0(conf, 8, 4)
        cb = Acctdata(conf)
        A(z3.Or(z3.And(s.own0(conf) == SYSTEM, s.len0(conf) == 0),
                z3.And(s.own0(conf) == DLP, s.u0(conf, 0, 8) == 103, SetCard(cb, z3.IntVal(8)) == n, s.len0(conf) == 12 + 32 * n)))
        A(z3.And(PLen == 1, s.pu(0, 1) <= 1))
        funds(x, [conf])
        # rent of the initial and of the resized account
        wallet(v, minbal(0) + minbal(44 + 32 * n))
        A(z3.And(n >= 0, n <= 10 ** 5))
        return
    if name == 'top_up':
        amount = s.pu(0, 8)
        esc = s.pda('escrow', a(1), s.pu(8, 1))
        at(2, esc), at(3, SYSTEM)
        A(PLen == 9)
        A(z3.Or(s.own0(esc) == DLP, z3.And(s.own0(esc) == SYSTEM, s.len0(esc) == 0)))
        funds(x, [esc])
        wallet(v, amount + minbal(0))
        return
    if name == 'close_ephemeral':
        esc = s.pda('escrow', v, s.pu(0, 1))
        at(1, esc), at(2, SYSTEM)
        A(PLen == 1)
        fresh(esc)
        funds(x, [v, esc])
        return
    if name in ('delegate', 'delegate_ephemeral'):
        de = name == 'delegate_ephemeral'
        if de:
            c = DelegateView(s, v, a(2), SYSTEM, a(3))
            ix = s.pu(c.after, 1)
            A(PLen == tosmt(c.after) + 1)
            dd = s.pda('escrow', d, ix)
            at(2, dd), at(6, SYSTEM), at(7, DLP)
            fresh(dd)
            own(a(3), SYSTEM)
            A(s.len0(a(3)) == 0)
            n = z3.IntVal(49 + 4 + 4 + 7 + 4 + 32 + 4 + 1)
        else:
            c = DelegateView(s, v, d, a(2), a(3))
            A(PLen == tosmt(c.after))
            dd = d
            own(d)
            at(6, SYSTEM)
            pid = z3.If(c.owner == SYSTEM, DLP, c.owner)
            A(z3.Or(OnCurve(d), z3.And(world.SeedsValid(c.seeds, pid), world.FSeeds(c.seeds, pid) == d)))
            A(z3.Or(s.len0(a(3)) == 0, s.len0(a(3)) == s.len0(d)))
            A(z3.And(a(3) != v, a(3) != d))
            n = 49 + SeedsLen(c.seeds)
        A(z3.Or(c.opt == 0, c.opt == 1))
        at(3, s.pda('buffer', dd, c.owner))
        at(4, c.rec), at(5, c.meta)
        fresh(c.rec), fresh(c.meta)
        A(n <= 10240)
        funds(x, [dd, c.rec, c.meta])
        wallet(v, minbal(96) + minbal(n))
        return
    assume_inv(x, w, [d])
    rec, meta, crec = s.rec(d), s.meta(d), s.crec(d)
    cs, cr, r, m = s.pda('cstate', d), crec['key'], rec['key'], meta['key']
    own(r), own(m), own(vfv)
    if name in COMMITS:
        b = 0 if name == 'commit' else 1
        conf = s.pda('conf', rec['owner'])
        for i, k in {2: cs, 3: cr, 4: r, 5: m, 6 + b: vfv, 7 + b: conf, 8 + b: SYSTEM}.items():
            at(i, k)
        fresh(v)
        c = CommitView(s)
        A(c.allow <= 1)
        n = c.data.len()
        if b:
            A(PLen == 17)
            for k in (v, m, cs, cr, SYSTEM):
                A(acc(6) != k)
        else:
            A(PLen == 21 + tosmt(n))
        A(tosmt(n) <= 10240)
        funds(x, [v, d, cs, cr])
        A(z3.Or(c.outdated, z3.And(s.own0(cr) == SYSTEM, meta['flag'] == 0)))
        A(s.lam0(v) >= maxi(c.lamports - rec['lamports'], 0) + minbal(n) + minbal(88))
        cb = Acctdata(conf)
        A(z3.Or(z3.And(s.own0(conf) == SYSTEM, s.len0(conf) == 0),
                z3.And(s.own0(conf) == DLP, s.u0(conf, 0, 8) == 103, s.u0(conf, 8, 4) > 0, z3.Select(SetAt(cb, z3.IntVal(8)), v),
                       s.len0(conf) == 12 + 32 * s.u0(conf, 8, 4))))
        return
    if name == 'finalize':
        for i, k in {2: cs, 3: cr, 4: r, 5: m, 6: vfv, 7: SYSTEM}.items():
            at(i, k)
        funds(x, [v, d, cs, cr, vfv])
        own(cr)
        A(crec['identity'] == v)
        return
    for i, k in {3: s.pda('ubuffer', d), 4: cs, 5: cr, 6: r, 7: m, 9: fv, 10: vfv, 11: SYSTEM}.items():
        at(i, k)
    at(2, rec['owner']), at(8, meta['payer'])
    own(fv)
    funds(x, [v, d, r, m, acc(8), fv, vfv])
    A(z3.And(s.own0(cr) == SYSTEM, meta['flag'] == 1, s.len0(d) == 0))


def outdated_commit(x, w, name):
    well_formed(x, w, name)
    s = h(w)
    s.ins = name
    x.assume(CommitView(s).outdated)


@prop('C02', COMMITS, hyp=outdated_commit)
def c02live(s):
    s.prove(s.pre + 'outdated_succeeds', s.ok)


def runtime_accepts(s):
    """the runtime takes over the writes the program made itself: only its own accounts are debited, given new data or a
    new owner, and nothing read-only changes"""
    own = OWN0
    lam = {}
    touched = []

    def close():
        for k, t in lam.values():
            s.prove(s.pre + 'writes_accepted', z3.Or(simp(t) == 0, z3.And(TopWritable(k), z3.Or(t > 0, z3.Select(own, k) == DLP))))
        for kind, k in touched:
            s.prove(s.pre + 'writes_accepted', z3.And(TopWritable(k), z3.Select(own, k) == DLP))

    for kind, k, a, b in s.w.direct:
        if kind == 'sync':
            close()
            lam, touched, own = {}, [], a
        elif kind == 'lam':
            i = s.x.canon(k).get_id()
            for j, (q, _) in lam.items():
                if s.w.key_eq(q, k):
                    i = j
                    break
            lam[i] = (k, lam[i][1] + (tosmt(b) - tosmt(a)) if i in lam else tosmt(b) - tosmt(a))
        else:
            touched.append((kind, k))
    close()


@prop('C26', ('commit', 'commit_from_buffer', 'finalize', 'undelegate', 'validator_claim', 'protocol_claim'), hyp=well_formed)
def c26(s):
    s.prove(s.pre + 'succeeds', s.ok)
    if s.ok:
        runtime_accepts(s)
