"""Contracts on the helper functions of the program.

A contract has a precondition (`requires`) and says exactly when the function succeeds, what it returns and how it
changes the ledger; when it fails, nothing is promised (the caller must let the instruction fail).  Each contract is
verified against the function's own body, from an arbitrary ledger and arbitrary arguments (`verify`).  Where a verified
function is called, the precondition is an obligation of the caller and the contract stands for the body; where the
precondition cannot be shown, or a contract does not hold (any more), the body is executed in its place.  So a contract
can never cause an alarm, and is never relied upon unverified."""
import re
import z3
from values import *
from engine import Machine, Panic, Abort, Infeasible
from spec import *
from driver import Task
from world import World, InsCtx, DLP, SYSTEM, LOADER, GROWTH, U64, minbal, Exec
import engine, models, world
import driver

INFO = '&AccountInfo'
SLICES = '&[&[u8]]'
CSigner = z3.Function('ctx_signer', Key, z3.BoolSort())
CWritable = z3.Function('ctx_writable', Key, z3.BoolSort())
FAIL = object()          # fails; with what error and effect is left open


class Fail:
    """returns this error, and has changed nothing"""

    def __init__(self, error):
        self.error = error


CONTRACTS = {}


class Contract:
    def __init__(self, name, args, ret, post, requires, text):
        self.name = name
        self.args = args
        self.ret = ret
        self.post = post
        self.requires = requires
        self.text = text


def contract(name, args, ret, text, requires=None):
    def deco(f):
        CONTRACTS['dlp::' + name] = Contract(name, args, ret, f, requires, text)
        return f
    return deco


class C:
    """what a contract may talk about: the ledger before the call and its change"""

    def __init__(self, m, given=None):
        self.m = m
        self.given = given          # during verification: the ledger the body left
        self.x = m.x
        self.w = m.x.world

    def key(self, i):
        return models.infokey(self.m, i)

    def info(self, i):
        v = self.x.load(i) if isinstance(i, Ptr) else i
        while isinstance(v, Ptr):
            v = self.x.load(v)
        return v

    def signer(self, i):
        return self.info(i).f[5]

    def writable(self, i):
        return self.info(i).f[6]

    def executable(self, i):
        return self.info(i).f[7]

    def k(self, p):
        return models.loadkey(self.m, p) if isinstance(p, Ptr) else p

    def lam(self, k):
        return tosmt(self.w.get_lam(k))

    def own(self, k):
        return self.w.get_own(k)

    def len(self, k):
        return tosmt(self.w.data_len(k))

    def same(self, a, b):
        return self.w.key_eq(a, b)

    def anything(self, k, start, n):
        """bytes of which nothing is promised"""
        if self.given is not None:
            return self.x.rslice(self.given.dobj(k).rope, start, n)
        return Rope((('o', self.x.fresh('any', Bytes), 0, n),))

    def test(self, *cs):
        c = conj(*cs)
        return c if isinstance(c, bool) else self.x.choose(simp(c))

    def derive(self, seeds, pid):
        return models.derive(self.m, models.seed_list(self.m, seeds), pid)

    def unborrowed(self, ks, kinds=('lam', 'data')):
        """no outstanding borrow of these accounts"""
        return conj(*[z3.Not(eq(self.x.canon(g.key), self.x.canon(k))) if self.apart(g.key, k) is not True else True
                      for g in self.w.ctx.borrows if g.kind in kinds for k in ks])

    def apart(self, a, b):
        q = self.x.quick_eq(a, b)
        if q is None:
            q = self.w.pda_eq(a, b)
        return True if q is False else False if q is True else None

    def distinct(self, a, b):
        return True if self.apart(a, b) else z3.Not(eq(self.x.canon(a), self.x.canon(b)))


OKU = Adt(0, (UNIT,))


def result(v):
    return Adt(0, (v,))


# ---- checks on accounts --------------------------------------------------------------------------------------
L = 'processor::utils::loaders::'


@contract(L + 'load_owned_pda', [INFO, '&Pubkey', '&str'], 'Result', 'Ok iff info.owner == owner, else Err(InvalidAccountOwner)')
def _(c, i, owner, label):
    return OKU if c.test(eq(c.own(c.key(i)), c.k(owner))) else Fail('InvalidAccountOwner')


@contract(L + 'load_signer', [INFO, '&str'], 'Result', 'Ok iff info.is_signer, else Err(MissingRequiredSignature)')
def _(c, i, label):
    return OKU if c.test(tosmt(c.signer(i))) else Fail('MissingRequiredSignature')


@contract(L + 'load_pda', [INFO, SLICES, '&Pubkey', 'bool', '&str'], 'Result',
          'Ok(bump) iff info.key == pda(seeds, program_id) and info.is_writable == is_writable; bump is the canonical one')
def _(c, i, seeds, pid, wr, label):
    t, b = c.derive(seeds, c.k(pid))
    if not c.same(c.key(i), t) or not c.test(tosmt(c.writable(i)) == tosmt(wr)):
        return FAIL
    return result(b)


@contract(L + 'load_uninitialized_pda', [INFO, SLICES, '&Pubkey', 'bool', '&str'], 'Result',
          'Ok(bump) iff info.key == pda(seeds, program_id), info is owned by the system program, has no data, and is writable if is_writable')
def _(c, i, seeds, pid, wr, label):
    t, b = c.derive(seeds, c.k(pid))
    k = c.key(i)
    if not c.same(k, t) or not c.test(eq(c.own(k), SYSTEM), c.len(k) == 0, imp(wr, tosmt(c.writable(i)))):
        return FAIL
    return result(b)


@contract(L + 'load_initialized_pda', [INFO, SLICES, '&Pubkey', 'bool', '&str'], 'Result',
          'Err(InvalidSeeds) iff info.key != pda(seeds, program_id); else Err(InvalidAccountOwner) iff info.owner != program_id; else Err(InvalidAccountData) iff is_writable and '
          'info is not writable; else Ok(bump)')
def _(c, i, seeds, pid, wr, label):
    pid = c.k(pid)
    t, b = c.derive(seeds, pid)
    return initialized(c, i, t, pid, wr, result(b))


@contract(L + 'is_uninitialized_account', [INFO], 'bool', 'owned by the system program and without data')
def _(c, i):
    k = c.key(i)
    return simp(tosmt(conj(eq(c.own(k), SYSTEM), c.len(k) == 0)))


@contract(L + 'load_uninitialized_account', [INFO, 'bool', '&str'], 'Result',
          'Ok iff owned by the system program, without data, and writable if is_writable')
def _(c, i, wr, label):
    k = c.key(i)
    return OKU if c.test(eq(c.own(k), SYSTEM), c.len(k) == 0, imp(wr, tosmt(c.writable(i)))) else FAIL


@contract(L + 'load_account', [INFO, 'Pubkey', 'bool', '&str'], 'Result', 'Ok iff info.key == key, and info is writable if is_writable')
def _(c, i, key, wr, label):
    return OKU if c.same(c.key(i), key) and c.test(imp(wr, tosmt(c.writable(i)))) else FAIL


@contract(L + 'load_program', [INFO, 'Pubkey', '&str'], 'Result', 'Ok iff info.key == key and info.executable')
def _(c, i, key, label):
    return OKU if c.same(c.key(i), key) and c.test(tosmt(c.executable(i))) else FAIL


def role(c, name, *args):
    parts = [('c', name)] + [('k', a) for a in args]
    return c.w.pda(parts, DLP)


def initialized(c, i, t, pid, wr, v):
    k = c.key(i)
    if not c.same(k, t):
        return Fail('InvalidSeeds')
    if not c.test(eq(c.own(k), pid)):
        return Fail('InvalidAccountOwner')
    if not c.test(imp(wr, tosmt(c.writable(i)))):
        return Fail('InvalidAccountData')
    return v


@contract(L + 'load_initialized_protocol_fees_vault', [INFO, 'bool'], 'Result',
          'Ok iff info is the protocol fee vault, owned by this program, and writable if is_writable')
def _(c, i, wr):
    return initialized(c, i, role(c, b'fees-vault')[0], DLP, wr, OKU)


for fn, nm, what in [('load_initialized_validator_fees_vault', b'v-fees-vault', 'fee vault'), ('load_initialized_delegation_record', b'delegation', 'delegation record'),
                     ('load_initialized_delegation_metadata', b'delegation-metadata', 'delegation metadata'),
                     ('load_initialized_commit_state', b'state-diff', 'pending state'), ('load_initialized_commit_record', b'commit-state-record', 'commit record')]:
    def mk(nm):
        def post(c, of, i, wr):
            r = initialized(c, i, role(c, nm, c.key(of))[0], DLP, wr, OKU)
            return FAIL if nm == b'v-fees-vault' and r is not OKU else r
        return post
    contract(L + fn, [INFO, INFO, 'bool'], 'Result', 'Ok iff the second account is the %s of the first, owned by this program, and writable if is_writable (in this order: InvalidSeeds, InvalidAccountOwner, InvalidAccountData)' % what)(mk(nm))


@contract(L + 'load_program_config', [INFO, 'Pubkey', 'bool'], 'Result',
          'Ok(info.owner != system program) iff info is the config address of the program and info.is_writable == is_writable')
def _(c, i, program, wr):
    t, b = role(c, b'p-conf', program)
    k = c.key(i)
    if not c.same(k, t) or not c.test(tosmt(c.writable(i)) == tosmt(wr)):
        return FAIL
    return result(simp(tosmt(neg(eq(c.own(k), SYSTEM)))))


def upgrade_authority(c, program, i):
    """the upgrade authority a program-data account names: a key, None, or FAIL"""
    x = c.x
    t, b = c.w.pda([('k', program)], LOADER)
    k = c.key(i)
    if not c.same(k, t):
        return FAIL
    r = c.w.dobj(k).rope
    n = tosmt(r.len())
    if not c.test(n >= 13) or not c.test(eq(x.rint(x.rslice(r, 0, 4)), 3)):
        return FAIL
    o = x.rint(x.rslice(r, 12, 1))
    if c.test(eq(o, 0)):
        return None
    if not c.test(eq(o, 1), n >= 45):
        return FAIL
    return x.rkey(x.rslice(r, 13, 32))


@contract(L + 'load_program_upgrade_authority', ['&Pubkey', INFO], 'Result',
          'Ok(authority) iff the account is the program-data account of the program and holds ProgramData; authority is the one stored there (None if there is none)',
          requires=lambda c, p, i: c.unborrowed([c.key(i)], ('data',)))
def _(c, program, i):
    a = upgrade_authority(c, c.k(program), i)
    if a is FAIL:
        return FAIL
    return result(Adt(0, ()) if a is None else Adt(1, (a,)))


@contract('processor::whitelist_validator_for_program::validate_authority', [INFO, INFO, INFO, INFO], 'Result',
          'Ok iff authority is the upgrade authority stored in this program\'s program data, which has to be passed and to have one, or the upgrade authority stored in the program\'s own program data',
          requires=lambda c, a, p, d, e: c.unborrowed([c.key(d), c.key(e)], ('data',)))
def _(c, authority, program, program_data, dlp_data):
    admin = upgrade_authority(c, DLP, dlp_data)
    if admin is FAIL or admin is None:
        return FAIL
    k = c.key(authority)
    if c.same(k, admin):
        return OKU
    a = upgrade_authority(c, c.key(program), program_data)
    if a is FAIL or a is None:
        return FAIL
    return OKU if c.same(k, a) else FAIL


# ---- creating, resizing and closing accounts ------------------------------------------------------------------------
P = 'processor::utils::pda::'


def sync(c):
    c.w.direct.append(('sync', None, c.w.own, None))


def r_create(c, target, owner, space, seeds, bump, system, payer):
    t, b = c.derive(seeds, DLP)
    T, P_ = c.key(target), c.key(payer)
    return conj(c.distinct(T, P_), c.distinct(t, P_), eq(bump, b), c.unborrowed([T, P_]))


@contract(P + 'create_pda', [INFO, '&Pubkey', 'usize', SLICES, 'u8', INFO, INFO], 'Result',
          'short = max(0, minimum_balance(space) - target.lamports).  Ok iff target is writable, signs or is pda(seeds, this program), is owned by the system program, has no data, '
          'space <= 10240, and, if short > 0, payer signs, is writable, owned by the system program, without data, and holds short.  '
          'Then short lamports moved from payer to target, target holds space zero bytes and is owned by owner',
          requires=r_create)
def _(c, target, owner, space, seeds, bump, system, payer):
    t, b = c.derive(seeds, DLP)
    T, P_ = c.key(target), c.key(payer)
    owner = c.k(owner)
    need = minbal(space)
    have = c.lam(T)
    signs = True if c.same(T, t) else c.test(tosmt(c.signer(target)))
    if not signs or not c.test(tosmt(c.writable(target)), eq(c.own(T), SYSTEM), c.len(T) == 0, tosmt(space) <= GROWTH):
        return FAIL
    if c.test(have < need):
        short = simp(need - have)
        if not c.test(tosmt(c.signer(payer)), tosmt(c.writable(payer)), eq(c.own(P_), SYSTEM), c.len(P_) == 0, c.lam(P_) >= short):
            return FAIL
        c.w.set_lam(P_, simp(c.lam(P_) - short), direct=False)
        c.w.set_lam(T, simp(have + short), direct=False)
    if c.test(tosmt(space) > 0):
        c.w.set_data(T, Rope((('z', space),)), direct=False)
    if not c.same(owner, SYSTEM):
        c.w.set_own(T, owner, direct=False)
    sync(c)
    return OKU


@contract(P + 'resize_pda', [INFO, INFO, INFO, 'usize'], 'Result',
          'short = max(0, minimum_balance(new_size) - pda.lamports).  Ok iff payer signs, both are writable, payer has no data and holds short, payer is owned by the system program if short > 0, '
          'and new_size is at most 10240 more than at the start of the instruction.  Then short lamports moved from payer to pda, whose data is cut to new_size or grows to it by bytes of which nothing is promised',
          requires=lambda c, p, t, s, n: conj(c.distinct(c.key(p), c.key(t)), c.unborrowed([c.key(p), c.key(t)])))
def _(c, payer, pda, system, n):
    x, w = c.x, c.w
    P_, T = c.key(payer), c.key(pda)
    need = minbal(n)
    if not c.test(tosmt(c.signer(payer)), tosmt(c.writable(payer)), tosmt(c.writable(pda)), c.len(P_) == 0):
        return FAIL
    if c.test(c.lam(T) < need):
        short = simp(need - c.lam(T))
        if not c.test(eq(c.own(P_), SYSTEM), c.lam(P_) >= short):
            return FAIL
        w.set_lam(P_, simp(c.lam(P_) - short), direct=False)
        w.set_lam(T, need, direct=False)
    sync(c)
    rope = w.dobj(T).rope
    old = rope.len()
    if c.test(eq(old, n)):
        return OKU
    if c.test(tosmt(n) - w.orig_len(T) > GROWTH):
        return FAIL
    if c.test(tosmt(n) < old):
        rope, _ = x.cut(rope, n)
    else:
        more = simp(tosmt(n) - old)
        rope = rope + c.anything(T, old, more)
    w.set_data(T, rope)
    return OKU


@contract(P + 'close_pda', [INFO, INFO], 'Result',
          'destination gains the lamports of target (a panic if they do not fit), which is left without lamports and data, owned by the system program',
          requires=lambda c, t, d: c.unborrowed([c.key(t), c.key(d)]))
def _(c, target, dest):
    T, D = c.key(target), c.key(dest)
    if not c.test(c.lam(D) + c.lam(T) <= U64):
        return FAIL
    c.w.set_lam(D, simp(c.lam(D) + c.lam(T)))
    c.w.set_lam(T, 0)
    emptied(c, T)
    return OKU


def emptied(c, T):
    c.w.set_own(T, SYSTEM)
    if not c.test(c.len(T) == 0):
        c.w.set_data(T, Rope(()))


def fees_list(c, fees):
    l = models.content(c.m, fees)
    return [c.key(e) for e in l.e]


def close_with_fees(c, T, D, fees, pct):
    all_ = c.lam(T)
    if not c.test(all_ * pct <= U64):
        return FAIL
    total = simp((all_ * pct) / 100)
    f = [total]
    for _ in fees[1:]:
        f.append(simp((tosmt(f[-1]) * pct) / 100))
    for i in range(len(f) - 1):
        f[i] = simp(tosmt(f[i]) - f[i + 1])
    for k, n in zip(list(fees) + [D], f + [simp(all_ - total)]):
        new = simp(c.lam(k) + n)
        if not c.test(tosmt(new) <= U64):
            return FAIL
        c.w.set_lam(k, new)
    c.w.set_lam(T, 0)
    emptied(c, T)
    return OKU


@contract(P + 'close_pda_with_fees', [INFO, INFO, '&[&AccountInfo]', 'u8'], 'Result',
          'fee = floor(target.lamports * 10 / 100).  The second fee address gains floor(fee * 10 / 100), the first the rest of the fee, destination the rest of the lamports (in this order); target is left without '
          'lamports and data, owned by the system program.  Err iff a sum does not fit.  (requires: two fee addresses, fee_percentage == 10, nothing borrowed)',
          requires=lambda c, t, d, f, p: conj(c.unborrowed([c.key(t), c.key(d)] + fees_list(c, f)), len(fees_list(c, f)) == 2, eq(p, 10)))
def _(c, target, dest, fees, pct):
    return close_with_fees(c, c.key(target), c.key(dest), fees_list(c, fees), 10)


@contract('processor::undelegate::process_delegation_cleanup', [INFO] * 5, 'Result',
          'record and metadata are closed, in this order, each as by close_pda_with_fees(_, rent_reimbursement, [validator_fees_vault, fees_vault], 10)',
          requires=lambda c, *a: c.unborrowed([c.key(i) for i in a]))
def _(c, record, metadata, payer, fv, vfv):
    for t in (record, metadata):
        if close_with_fees(c, c.key(t), c.key(payer), [c.key(vfv), c.key(fv)], 10) is FAIL:
            return FAIL
    return OKU


@contract('processor::finalize::settle_lamports_balance', [INFO, INFO, INFO, 'u64', 'u64'], 'Result',
          'if recorded > committed, recorded - committed lamports move from the delegated account to the validator fee vault; if recorded < committed, committed - recorded '
          'lamports move from the pending state to the delegated account; Err iff the source does not hold them or they do not fit',
          requires=lambda c, d, s, v, r, n: c.unborrowed([c.key(d), c.key(s), c.key(v)], ('lam',)))
def _(c, delegated, cstate, vfv, recorded, committed):
    if c.test(tosmt(recorded) > committed):
        src, dst, n = c.key(delegated), c.key(vfv), simp(tosmt(recorded) - committed)
    elif c.test(tosmt(recorded) < committed):
        src, dst, n = c.key(cstate), c.key(delegated), simp(tosmt(committed) - recorded)
    else:
        return OKU
    if not c.test(c.lam(src) >= n):
        return FAIL
    c.w.set_lam(src, simp(c.lam(src) - n))
    if not c.test(c.lam(dst) + n <= U64):
        return FAIL
    c.w.set_lam(dst, simp(c.lam(dst) + n))
    return OKU


# ---- use -----------------------------------------------------------------------------------------------------
def short(n):
    return re.sub(r"<'_>", '', re.sub(r'[\w:]+::(\w+)', r'\1', n))


def signature(prog, fid):
    b = prog.F[fid]['body']
    t = [short(prog.T[l if isinstance(l, int) else l['ty']]['n']) for l in b['locals'][:b['argc'] + 1]]
    return t[1:], t[0]


def matches(prog, fid, k):
    a, r = signature(prog, fid)
    return a == k.args and r.startswith(k.ret)


def apply(m, fid, k, args):
    """the contract in the place of a call: its result, or NotImplemented where it does not apply"""
    x = m.x
    c = C(m)
    try:
        if k.requires is not None:
            r = k.requires(c, *args)
            if r is not True and not (r is not False and x.must(tosmt(r))):
                return NotImplemented
    except Unsupported:
        return NotImplemented
    v = k.post(c, *args)
    x.called.add(fid)
    x.used.add(k.name)
    if v is FAIL:
        x.world.poison = True
        return Adt(1, (Opaque('error of ' + k.name),))
    if isinstance(v, Fail):
        return Adt(1, (Adt(error(m, fid, v), ()),))
    return v


def error(m, fid, v):
    return models.variant(m, models.result_err_ty(m, models.rty(m, m.F[fid], None)), v.error)


# ---- verification ----------------------------------------------------------------------------------------------
def arg(m, ty, i):
    x = m.x
    if ty == INFO:
        return Ptr(Cell(x.world.make_info(acc(i)), 'info%d' % i))
    if ty == '&[&AccountInfo]':
        l = Arr([Ptr(Cell(x.world.make_info(acc(i + 20 * j)), 'info')) for j in (1, 2)])
        return Ptr(Cell(l, 'fees'), (), 2)
    if ty == 'Pubkey':
        return z3.Const('arg_key%d' % i, Key)
    if ty == '&Pubkey':
        return Ptr(Cell(z3.Const('arg_key%d' % i, Key), 'key'))
    if ty == 'bool':
        return z3.Bool('arg_bool%d' % i)
    if ty in ('u8', 'u64', 'usize'):
        v = z3.Int('arg_int%d' % i)
        x.assume(z3.And(v >= 0, v <= (255 if ty == 'u8' else world.MAX_LEN if ty == 'usize' else U64)))
        return v
    if ty == '&str':
        return Ptr(Cell(StrV('label'), 'label'), (), 5)
    if ty == SLICES:
        s = z3.Const('arg_seeds%d' % i, Seeds)
        x.axiom(SeedsCnt(s) >= 0)
        x.axiom(SeedsLen(s) >= 4 + 4 * SeedsCnt(s))
        return Ptr(Cell(OSeq(s, 'slices'), 'seeds'), (), SeedsCnt(s))
    raise Unsupported('arbitrary argument of type ' + ty)


def keys_of(args, tys):
    out = []
    for i, t in enumerate(tys):
        if t == INFO:
            out.append(acc(i))
        if t == '&[&AccountInfo]':
            out += [acc(i + 20), acc(i + 40)]
    return out


def ledger(x, keys):
    """an arbitrary moment of an instruction: any balances, owners and data, any lengths at its start"""
    w = World(x)
    w.ctx = InsCtx(lambda k: CSigner(x.canon(k)), lambda k: CWritable(x.canon(k)))
    w.ctx.orig = []
    for k in keys:
        n = z3.Function('orig_len', Key, IntS)(k)
        x.axiom(z3.And(n >= 0, n <= world.MAX_LEN))
        w.ctx.orig.append((k, n))
    return w


def verification(fid, k):
    def start(x, prog):
        w = ledger(x, keys_of(k.args, k.args))
        x.assume(z3.Distinct(DLP, SYSTEM, LOADER))
        m = Machine(prog, x, models)
        x.machine = m
        w.machine = m
        args = [arg(m, t, i) for i, t in enumerate(k.args)]
        x.cargs = args
        x.cready = False
        if k.requires is not None:
            try:
                x.assume(tosmt(k.requires(C(m), *args)))
            except (Panic, Abort):
                raise Infeasible()
            if x.check() == z3.unsat:
                raise Infeasible()
        x.cready = True
        return m.run(fid, args)

    def spec(s):
        x = s.x
        p = 'contract.' + k.name.rsplit('::', 1)[1] + '.'
        w1 = s.w
        w2 = ledger(x, keys_of(k.args, k.args))
        w2.pdas = w1.pdas
        w2.machine = w1.machine
        try:
            v = k.post(C(x.machine, w1), *x.cargs)
        except (Panic, Abort):
            v = FAIL
        def same_state():
            s.prove(p + 'lamports', z3.Select(w1.lam, SK) == z3.Select(w2.lam, SK))
            s.prove(p + 'owners', z3.Select(w1.own, SK) == z3.Select(w2.own, SK))
            for o in list(w1.data) + list(w2.data):
                s.prove(p + 'data', s.rope_eq(w1.dobj(o.key).rope, w2.dobj(o.key).rope))
            s.prove(p + 'no_wrapped_arithmetic', not x.flags)
            s.prove(p + 'borrows_released', not w1.ctx.borrows)
            s.prove(p + 'calls_only_the_system_program', all(e['kind'] == 'system' for e in w1.events) and w1.clock is None)
            s.prove(p + 'writes', same_writes(writes(w1), writes(w2)))

        if isinstance(v, Fail):
            e = s.ret.f[0] if s.kind == 'err' else None
            s.prove(p + 'outcome', isinstance(e, Adt) and e.v == error(x.machine, fid, v))
            same_state()
            x.world = w1
            return
        if s.kind != 'ok' or v is FAIL:
            s.prove(p + 'outcome', s.kind != 'ok' and v is FAIL)
            x.world = w1
            return
        s.prove(p + 'outcome', True)
        s.prove(p + 'result', alike(s.ret, v))
        same_state()
        x.world = w1
    return Task('contract/' + k.name, start, spec)


def alike(a, b):
    if isinstance(a, Adt) and isinstance(b, Adt):
        if a.v != b.v or len(a.f) != len(b.f):
            return False
        return conj(*[alike(u, v) for u, v in zip(a.f, b.f)])
    if isinstance(a, Adt) or isinstance(b, Adt):
        return a is b
    return eq(a, b)


def writes(w):
    out = []
    for d in w.direct:
        if d[0] == 'sync' and out and out[-1][0] == 'sync':
            out.pop()
        out.append(d)
    return out


def same_writes(a, b):
    if [d[0] for d in a] != [d[0] for d in b]:
        return False
    cs = []
    for p, q in zip(a, b):
        if p[0] == 'sync':
            cs.append(z3.Select(p[2], SK) == z3.Select(q[2], SK))
            continue
        cs.append(eq(p[1], q[1]))
        if p[0] == 'lam':
            cs += [eq(p[2], q[2]), eq(p[3], q[3])]
    return conj(*cs)


def callees(prog, fid, memo={}):
    """functions of the crate a body calls, directly or not"""
    if id(prog) not in memo:
        memo.clear()
        memo[id(prog)] = {}
    mm = memo[id(prog)]
    if fid in mm:
        return mm[fid]
    out = mm[fid] = set()
    b = prog.F[fid].get('body')
    for bl in (b or {}).get('blocks', []):
        t = bl['t']
        if t[0] == 'call' and isinstance(t[1], int):
            out.add(t[1])
    for g in list(out):
        if 'dlp::' in prog.F[g]['name']:
            out |= callees(prog, g)
    return out


def establish(prog, deadline=None, log=None):
    """verify the contracts; those that hold are put to use.  Returns a report"""
    prog.contracts = {}
    prog.contract_fns, prog.contract_modelled = set(), set()
    todo = {}
    rep = {}
    for n, k in CONTRACTS.items():
        fid = prog.fn(n)
        if fid is None or 'body' not in prog.F[fid]:
            rep[k.name] = dict(status='no such function')
        elif not matches(prog, fid, k):
            rep[k.name] = dict(status='different signature')
        else:
            todo[fid] = k
    good = dict(todo)
    pending = dict(todo)
    while pending:
        prog.contracts = dict(good)
        ids = list(pending)
        tot, late = driver.run(prog, [verification(f, pending[f]) for f in ids], deadline=deadline)
        bad = []
        for f, r in zip(ids, tot):
            k = pending[f]
            prog.contract_fns |= r['fns']
            prog.contract_modelled |= r['modelled']
            okk = not r['errors'] and not r['viol'] and not r['unknown'] and not late and r['obl'].get('contract.%s.outcome' % k.name.rsplit('::', 1)[1], 0) > 0 and r['paths'].get('ok', 0) > 0
            rep[k.name] = dict(status='verified' if okk else 'does not hold', ensures=k.text, obligations=sum(r['obl'].values()), paths=sum(r['paths'].values()),
                               solver_calls=r['stats'][0], solver_s=round(r['stats'][1], 2), using=sorted(r['used']),
                               why=[] if okk else ([v['obligation'] for v in r['viol']] + r['unknown'] + r['errors'])[:3])
            if not okk:
                bad.append(f)
                good.pop(f, None)
        # whoever was verified with the help of a contract that failed is verified again without
        names = {k.name for f in bad for k in [todo[f]]}
        pending = {f: todo[f] for f in good if set(rep[todo[f].name]['using']) & names}
    prog.contracts = good
    return rep


def use_native(prog, on):
    prog.native = on
    prog.handlers = [None] * len(prog.F)


def run(prog, tasks, stop_on_violation=True, deadline=None):
    """driver.run with the verified contracts in use, and library functions executed from their own MIR wherever possible.
    A task that does not come out clean is run again with all bodies of the program executed and the library's contracts in
    use, and that is what counts"""
    use_native(prog, True)
    rep = establish(prog, deadline)
    tot, late = driver.run(prog, tasks, stop_on_violation=stop_on_violation, deadline=deadline)
    again = [i for i, r in enumerate(tot) if r['viol'] or r['errors'] or r['unknown'] or not sum(r['obl'].values())]
    if again and not late:
        prog.contracts = {}
        use_native(prog, False)
        redo, late = driver.run(prog, [tasks[i] for i in again], stop_on_violation=stop_on_violation, deadline=deadline)
        for i, r in zip(again, redo):
            r['inlined'] = True
            r['why_inlined'] = ([v['obligation'] for v in tot[i]['viol']] + tot[i]['unknown'] + tot[i]['errors'])[:3]
            tot[i] = r
    return tot, late, rep
