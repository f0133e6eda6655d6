"""The ledger, the Solana runtime as seen by the program, program-derived addresses and CPI.

Everything here is an assumed contract on the environment (the runtime, the system program, the
hash function behind program-derived addresses); the list is repeated in DESIGN.md and in every
evidence file (ASSUMPTIONS)."""
import z3
from values import *
from engine import Panic, Abort, Infeasible

DLP = const_key(b58d('DELeGGvXpWV2fqJUhqcF5ZSYMS4JTLjteaAMARRSaeSh'))
SYSTEM = const_key(bytes(32))
LOADER = const_key(b58d('BPFLoaderUpgradeab1e11111111111111111111111'))
U64 = 2 ** 64 - 1
MAX_LEN = 10 * 1024 * 1024
GROWTH = 10240

Acctdata = z3.Function('acctdata', Key, Bytes)
Dlen0 = z3.Function('dlen0', Key, IntS)
OnCurve = z3.Function('on_curve', Key, z3.BoolSort())
Exec = z3.Function('executable', Key, z3.BoolSort())
PTag = z3.Function('pda_tag', Key, IntS)
Rank = z3.Function('rank', Key, IntS)
PPid = z3.Function('pda_pid', Key, Key)
IsRole = z3.Function('is_program_account', Key, z3.BoolSort())   # accounts of this program other than escrows
FSeeds = z3.Function('pda_seeds', Seeds, Key, Key)
BSeeds = z3.Function('bump_seeds', Seeds, Key, IntS)
SeedsValid = z3.Function('seeds_valid', Seeds, Key, z3.BoolSort())

LAM0 = z3.Array('lam0', Key, IntS)
OWN0 = z3.Array('own0', Key, Key)


def minbal(n):
    """rent-exempt minimum of a data length (default rent parameters)"""
    return simp((128 + n) * 6960)


# ---- program-derived addresses ----------------------------------------------------------------------
_sigs = {}          # pattern -> dict(fn, bump, invs, tag, parts)


def pattern(parts):
    """seed bytes -> (pattern key, argument terms); constants merged"""
    pat = []
    args = []
    cur = b''
    for s in parts:
        k = s[0]
        if k == 'c':
            cur += s[1]
            continue
        if cur:
            pat.append(('c', cur))
            cur = b''
        if k == 'k':
            pat.append(('K', 32))
            args.append(s[1])
        elif k == 'u':
            pat.append(('U', s[1]))
            args.append(s[2])
        else:
            pat.append(('B', k))
            args.append(s)
    if cur:
        pat.append(('c', cur))
    return tuple(pat), args


def unifiable(p, q):
    """may two seed patterns produce the same bytes?"""
    def flat(p):
        out = []
        for k, v in p:
            if k == 'c':
                out += list(v)
            elif k == 'B':
                return None
            else:
                out += [None] * v
        return out
    a, b = flat(p), flat(q)
    if a is None or b is None:
        return True
    return len(a) == len(b) and all(x is None or y is None or x == y for x, y in zip(a, b))


def sig(pat):
    if pat not in _sigs:
        nm = 'pda[' + ''.join(v.decode('latin1') + '|' if k == 'c' else '%s%s|' % (k, v) for k, v in pat) + ']'
        sorts = [Key if k == 'K' else IntS for k, v in pat if k in 'KU']
        f = z3.Function(nm, *(sorts + [Key, Key]))
        b = z3.Function('bump' + nm, *(sorts + [Key, IntS]))
        invs = [z3.Function('inv%d%s' % (i, nm), Key, s) for i, s in enumerate(sorts)]
        tag = None
        for q, d in _sigs.items():
            if unifiable(pat, q):
                tag = d['tag']
                break
        if tag is None:
            tag = len(_sigs)
        _sigs[pat] = dict(fn=f, bump=b, invs=invs, tag=tag, pat=pat)
    return _sigs[pat]


ESCROW_PAT = (('c', b'balance'), ('K', 32), ('U', 1))
ROLE_NAMES = {
    'record': b'delegation', 'metadata': b'delegation-metadata', 'cstate': b'state-diff',
    'crecord': b'commit-state-record', 'ubuffer': b'undelegate-buffer', 'vfv': b'v-fees-vault', 'conf': b'p-conf',
}
KNOWN_PATS = [ESCROW_PAT, (('c', b'buffer'), ('K', 32)), (('K', 32),)]
ROLE_PATS = [(('c', b), ('K', 32)) for b in ROLE_NAMES.values()] + [(('c', b'fees-vault'),)]
KNOWN_PATS += ROLE_PATS


class DataObj:
    __slots__ = ('key', 'rope', 'init')

    def __init__(self, key, rope):
        self.key = key
        self.rope = rope
        self.init = rope


class InsCtx:
    """one instruction invocation: who signs, what is writable, the outstanding borrows"""

    def __init__(self, signer, writable, toplevel=True):
        self.signer = signer
        self.writable = writable
        self.borrows = []
        self.toplevel = toplevel
        self.orig = None        # data lengths at entry of a nested instruction (None: the initial ones)


class World:
    def __init__(self, x, escrow_signs=False):
        self.x = x
        x.world = self
        self.lam = LAM0
        self.own = OWN0
        self.data = []
        self.datamemo = {}
        self.lamlog = []         # (key, old, new)
        self.ownlog = []         # (key, old, new)
        self.events = []         # cross-program invocations, in order
        self.ctx = None
        self.gid = 0
        self.pdas = {}           # term id -> (pat, args, pid)
        self.escrow_signs = escrow_signs
        self.known_keys = []
        self.self_call = None    # machine used for a self-CPI
        self.havoced = []
        self.direct = []         # ('lam'|'own'|'data', key) writes made by the program itself
        self.clock = None
        self.poison = False      # a helper failed, of which nothing is known but that

    # ---- lamports and owners ------------------------------------------------------------------
    def sel(self, arr, k):
        """select, skipping stores to keys known to differ"""
        x = self.x
        k = x.canon(k)
        while z3.is_store(arr):
            a, i, v = arr.children()
            q = x.quick_eq(i, k)
            if q is None:
                q = self.pda_eq(i, k)
            if q is True:
                return v
            if q is False:
                arr = a
                continue
            break
        return z3.Select(arr, k)

    def get_lam(self, k):
        t = self.sel(self.lam, k)
        if isinstance(t, z3.ExprRef):
            base = z3.Select(LAM0, self.x.canon(k))
            self.x.axiom(z3.And(base >= 0, base <= U64))
        return simp(t)

    def set_lam(self, k, v, direct=True):
        k = self.x.canon(k)
        old = self.get_lam(k)
        self.lamlog.append((k, old, v))
        if direct:
            self.direct.append(('lam', k, old, v))
        self.lam = z3.Store(self.lam, k, tosmt(v))

    def get_own(self, k):
        return self.sel(self.own, k)

    def set_own(self, k, v, direct=True):
        k = self.x.canon(k)
        self.ownlog.append((k, self.get_own(k), v))
        if direct:
            self.direct.append(('own', k, None, v))
        self.own = z3.Store(self.own, k, v)

    # ---- account data ---------------------------------------------------------------------------
    def dobj(self, k):
        k = self.x.canon(k)
        i = k.get_id()
        if i in self.datamemo:
            return self.datamemo[i]
        for o in self.data:
            if self.key_eq(o.key, k):
                self.datamemo[i] = o
                self.x.keep.append(k)
                return o
        o = DataObj(k, self.init_rope(k))
        self.data.append(o)
        self.datamemo[i] = o
        self.x.keep.append(k)
        return o

    def init_rope(self, k):
        n = Dlen0(k)
        self.x.axiom(z3.And(n >= 0, n <= MAX_LEN))
        return Rope((('o', Acctdata(k), 0, n),))

    def key_eq(self, a, b):
        q = self.x.quick_eq(a, b)
        if q is None:
            q = self.pda_eq(a, b)
        if q is None:
            q = self.x.ask_eq(a, b)
        return q

    def data_len(self, k):
        return self.dobj(k).rope.len()

    def orig_len(self, k):
        """data length at the start of the current instruction"""
        if self.ctx.orig is None:
            self.dobj(k)
            return Dlen0(self.x.canon(k))
        for q, n in self.ctx.orig:
            if self.key_eq(q, k):
                return n
        raise Unsupported('original length of an account outside the instruction')

    def set_data(self, k, rope, direct=True):
        self.dobj(k).rope = rope
        if direct:
            self.direct.append(('data', k, None, None))

    # ---- memory roots ----------------------------------------------------------------------------
    def read_root(self, r):
        k = r.kind
        if k == 'lam':
            return self.get_lam(r.key)
        if k == 'own':
            return self.get_own(r.key)
        if k == 'data':
            return self.dobj(r.key).rope
        if k == 'lamcell':
            return Ptr(Root('lam', r.key), (), None)
        if k == 'datacell':
            n = self.data_len(r.key)
            return Ptr(Root('data', r.key), (('s', 0, n),), n)
        raise Unsupported('root ' + k)

    def write_root(self, r, v):
        k = r.kind
        if k == 'lam':
            self.set_lam(r.key, v)
        elif k == 'own':
            self.set_own(r.key, v)
        elif k == 'data':
            old = self.dobj(r.key).rope.len()
            self.set_data(r.key, v)
        else:
            raise Unsupported('write to root ' + k)

    # ---- borrows ------------------------------------------------------------------------------
    def acquire(self, kind, key, mut):
        """RefCell borrow: a guard, or None when it conflicts"""
        for g in self.ctx.borrows:
            if g.kind == kind and (mut or g.mut):
                if self.key_eq(g.key, key):
                    return None
        self.gid += 1
        g = Guard(kind, key, mut, self.gid)
        self.ctx.borrows.append(g)
        return g

    def release(self, g):
        self.ctx.borrows = [h for h in self.ctx.borrows if h.gid != g.gid]

    # ---- accounts --------------------------------------------------------------------------------
    def account_info(self, keys, i):
        if not isinstance(i, int):
            raise Unsupported('symbolic account index')
        if i >= len(keys):
            raise Unsupported('account %d' % i)
        return self.make_info(keys[i])

    def make_info(self, k):
        c = self.ctx
        return Adt(0, (Ptr(Cell(k, 'key')), RcCell('lam', k), RcCell('data', k), Ptr(Root('own', k)),
                       0, c.signer(k), c.writable(k), Exec(k)))

    # ---- program-derived addresses -----------------------------------------------------------------
    def pda(self, parts, pid):
        """address and bump for a list of seed segments"""
        x = self.x
        parts = [self.seedpart(s) for s in parts]
        pat, args = pattern(parts)
        if pat not in KNOWN_PATS:
            pat, args = self.known_shape(parts, pat, args)
        if any(k == 'B' for k, v in pat):
            raise Unsupported('program address from unstructured seeds %r' % (parts,))
        d = sig(pat)
        zargs = [tosmt(a) for a in args] + [pid]
        t = d['fn'](*zargs)
        b = d['bump'](*zargs)
        if t.get_id() not in self.pdas:
            self.pdas[t.get_id()] = (pat, args, pid, t)
            x.keep.append(t)
            x.axiom(PTag(t) == d['tag'])
            x.axiom(PPid(t) == pid)
            x.axiom(z3.Not(OnCurve(t)))
            for inv, a in zip(d['invs'], args):
                x.axiom(inv(t) == tosmt(a))
            x.axiom(z3.And(b >= 0, b <= 255))
            # an address is not derived (directly or in steps) from itself
            for a in args:
                if is_key(a):
                    x.axiom(Rank(t) > Rank(a))
            x.axiom(Rank(t) > Rank(pid))
            for ck in (DLP, SYSTEM, LOADER):
                x.axiom(t != ck)
            if pid.eq(DLP):
                if any(unifiable(pat, q) for q in ROLE_PATS):
                    x.axiom(IsRole(t))
                elif unifiable(pat, ESCROW_PAT):
                    x.axiom(z3.Not(IsRole(t)))
            if self.ctx is not None:
                # a program-derived address of this program signs a top-level instruction only if
                # this program itself invoked it (that happens only for escrows, in a self-invocation)
                if any(pid.eq(c) for c in (DLP, SYSTEM, LOADER)) and not (self.escrow_signs and pid.eq(DLP) and unifiable(pat, ESCROW_PAT)):
                    x.axiom(z3.Not(TopSigner(t)))
        return t, b

    def known_shape(self, parts, pat, args):
        """the same seed bytes, cut up the way a known pattern cuts them"""
        x = self.x
        r = Rope(tuple(('c', s[1]) if s[0] == 'c' else s for s in parts))
        n = simp(r.len())
        if not isinstance(n, int):
            return pat, args
        for kp in KNOWN_PATS:
            if sum(len(v) if k == 'c' else v for k, v in kp) != n or not unifiable(pat, kp):
                continue
            out, pos = [], 0
            for k, v in kp:
                L = len(v) if k == 'c' else v
                g = x.rslice(r, pos, L)
                pos += L
                if k == 'c':
                    if g.const() != v:
                        break
                elif k == 'K':
                    if len(g.segs) != 1 or g.segs[0][0] not in 'kco':
                        break
                    out.append(x.rkey(g))
                else:
                    out.append(x.rint(g))
            else:
                return kp, out
        return pat, args

    def seedpart(self, s):
        """opaque seed pieces of 32 bytes are keys, of up to 8 bytes integers"""
        if s[0] == 'o' and isinstance(s[3], int):
            if s[3] == 32:
                return ('k', self.x.rkey(Rope((s,))))
            if s[3] <= 8:
                return ('u', s[3], self.x.rint(Rope((s,))))
        if s[0] == 'c' and len(s[1]) == 32:
            return ('k', const_key(s[1]))
        return s

    def pda_eq(self, a, b):
        """syntactic knowledge about two keys"""
        a, b = self.x.canon(a), self.x.canon(b)
        p, q = self.pdas.get(a.get_id()), self.pdas.get(b.get_id())
        if p and q:
            if not unifiable(p[0], q[0]):
                return False
            if self.x.quick_eq(p[2], q[2]) is False:
                return False
            return None
        if p and key_bytes(b) is not None and b in (DLP, SYSTEM, LOADER) or q and key_bytes(a) is not None and a in (DLP, SYSTEM, LOADER):
            return False
        return None

    def pda_oseeds(self, s, pid):
        x = self.x
        if not x.choose(SeedsValid(s, pid)):
            raise Panic('no viable bump / too many seeds')
        t = FSeeds(s, pid)
        b = BSeeds(s, pid)
        x.axiom(z3.And(b >= 0, b <= 255))
        x.axiom(PPid(t) == pid)
        x.axiom(z3.Not(OnCurve(t)))
        for ck in (DLP, SYSTEM, LOADER):
            x.axiom(t != ck)
        return t, b

    # ---- cross-program invocation ---------------------------------------------------------------------
    def invoke(self, ix, info_keys, signer_keys, machine):
        """ix: Instruction value; info_keys: keys of the account infos passed along"""
        x = self.x
        pid, metas, data = ix.f[0], ix.f[1].c, ix.f[2].c
        if isinstance(metas, Rope):
            metas = Arr(())
        metas = [(m.f[0], m.f[1], m.f[2]) for m in metas.e]
        # the program-side check that no passed account is borrowed; runtime: every account of the
        # instruction must be among the infos, and privileges may not be escalated
        missing = False
        for k, s, w in metas:
            if not x.choose(disj(*[False if self.x.quick_eq(k, ik) is False else eq(x.canon(k), x.canon(ik)) for ik in info_keys])):
                missing = True
                continue
            if self.ctx.borrows:
                wr = w if isinstance(w, bool) else x.choose(w)
                for kind in ('lam', 'data'):
                    g = self.acquire(kind, k, wr)
                    if g is None:
                        return False
                    self.release(g)
        if missing:
            raise Abort('missing account')
        for k, s, w in metas:
            if s is not False:
                own = [self.key_eq(k, sk) for sk in signer_keys]
                ok = any(own) or x.choose(conj(tosmt(self.ctx.signer(k))))
                if not ok and x.choose(tosmt(s)):
                    raise Abort('signer privilege escalated')
            if w is not False:
                if not x.choose(tosmt(self.ctx.writable(k))) and x.choose(tosmt(w)):
                    raise Abort('writable privilege escalated')
        ev = dict(pid=pid, metas=metas, data=data, signers=signer_keys, kind=None, lam_before=self.lam,
                  own_before=self.own, data_before=[(o.key, o.rope) for o in self.data])
        self.events.append(ev)
        if self.key_eq(pid, SYSTEM):
            ev['kind'] = 'system'
            self.system(ev, metas, data)
        elif self.key_eq(pid, DLP):
            ev['kind'] = 'self'
            if not any(self.key_eq(DLP, ik) for ik in info_keys):
                raise Abort('program account missing')
            self.self_invoke(metas, data, machine)
        else:
            ev['kind'] = 'foreign'
            self.foreign(ev, metas, data)
        self.direct.append(('sync', None, self.own, None))
        return True

    def is_signer_meta(self, metas, k):
        return disj(*[conj(m[1], eq(m[0], k)) for m in metas])

    def is_writable_meta(self, metas, k):
        return disj(*[conj(m[2], eq(m[0], k)) for m in metas])

    def need(self, c, why):
        if not self.x.choose(tosmt(c) if not isinstance(c, bool) else c):
            raise Abort(why)

    def system(self, ev, metas, data):
        segs = data.segs
        if len(segs) != 1 or segs[0][0] != 'sys':
            c = Rope(segs[:1]).const()
            if c is not None and len(c) >= 4 and int.from_bytes(c[:4], 'little') > 12:
                raise Abort('invalid system instruction')
            raise Unsupported('system instruction given as raw bytes')
        ty, v = segs[0][1]
        name = self.x.T[ty]['variants'][v.v]['name']
        fields = dict(zip([f[0] for f in self.x.T[ty]['variants'][v.v]['fields']], v.f))
        ev['sys'] = (name, fields)
        if name == 'Transfer':
            self.sys_transfer(metas, metas[0][0], metas[1][0], fields['lamports'])
        elif name == 'Allocate':
            self.sys_allocate(metas, metas[0][0], fields['space'])
        elif name == 'Assign':
            self.sys_assign(metas, metas[0][0], fields['owner'])
        elif name == 'CreateAccount':
            frm, to = metas[0][0], metas[1][0]
            self.need(eq(self.get_lam(to), 0), 'account already in use')
            self.sys_allocate(metas, to, fields['space'])
            self.sys_assign(metas, to, fields['owner'])
            self.sys_transfer(metas, frm, to, fields['lamports'])
        else:
            raise Unsupported('system instruction ' + name)

    def sys_transfer(self, metas, frm, to, n):
        x = self.x
        self.need(self.is_signer_meta(metas, frm), 'from must sign')
        self.need(eq(self.data_len(frm), 0), 'from must not carry data')
        self.need(tosmt(self.get_lam(frm)) >= n, 'insufficient lamports')
        # debiting requires ownership by the system program and writability; crediting writability
        if x.choose(simp(tosmt(n) > 0)):
            self.need(eq(self.get_own(frm), SYSTEM), 'external account lamport spend')
            self.need(self.is_writable_meta(metas, frm), 'read-only lamport change')
            self.need(self.is_writable_meta(metas, to), 'read-only lamport change')
            self.set_lam(frm, simp(tosmt(self.get_lam(frm)) - n), direct=False)
            new = simp(tosmt(self.get_lam(to)) + n)
            self.need(simp(tosmt(new) <= U64), 'arithmetic overflow')
            self.set_lam(to, new, direct=False)

    def sys_allocate(self, metas, k, space):
        x = self.x
        self.need(self.is_signer_meta(metas, k), 'account must sign')
        self.need(eq(self.data_len(k), 0), 'account already in use')
        self.need(eq(self.get_own(k), SYSTEM), 'account already in use')
        self.need(simp(tosmt(space) <= GROWTH), 'growth limit')
        if x.choose(simp(tosmt(space) > 0)):
            self.need(self.is_writable_meta(metas, k), 'read-only data change')
            self.set_data(k, Rope((('z', space),)), direct=False)

    def sys_assign(self, metas, k, owner):
        if self.key_eq(self.get_own(k), owner):
            return
        self.need(self.is_signer_meta(metas, k), 'account must sign')
        self.need(eq(self.get_own(k), SYSTEM), 'modified program id')
        self.need(self.is_writable_meta(metas, k), 'modified program id')
        # only zeroed data may change owner: a system account with data was just allocated here
        self.set_own(k, owner, direct=False)

    def foreign(self, ev, metas, data):
        """an arbitrary program runs: it may do anything the runtime lets it do to the writable
        accounts it was given; accounts owned by this program can only be credited"""
        x = self.x
        keys = []
        for k, s, w in metas:
            if not any(self.key_eq(k, q) for q in keys):
                keys.append(k)
        if not x.choose(Exec(ev['pid'])):
            raise Abort('not executable')
        total_old, total_new = 0, 0
        for k in keys:
            w = self.is_writable_meta(metas, k)
            if not x.choose(w if isinstance(w, bool) else w):
                continue
            old = self.get_lam(k)
            nl = x.fresh_int('cpi_lam', 0, U64)
            total_old = total_old + old
            total_new = total_new + nl
            if self.key_eq(self.get_own(k), DLP):
                x.assume(nl >= old)
            else:
                b = x.fresh('cpi_data', Bytes)
                n = x.fresh_int('cpi_len', 0, MAX_LEN)
                self.set_data(k, Rope((('o', b, 0, n),)), direct=False)
                no = x.fresh('cpi_owner', Key)
                self.set_own(k, no, direct=False)
            self.set_lam(k, nl, direct=False)
        x.assume(tosmt(total_old) == total_new)
        ev['lam_after'] = self.lam
        ev['own_after'] = self.own
        ev['data_after'] = [(o.key, o.rope) for o in self.data]

    def self_invoke(self, metas, data, machine):
        x = self.x
        outer = self.ctx
        keys = [m[0] for m in metas]
        inner = InsCtx(lambda k: simp(tosmt(self.is_signer_meta(metas, k))),
                       lambda k: simp(tosmt(self.is_writable_meta(metas, k))), toplevel=False)
        inner.orig = [(k, self.data_len(k)) for k in keys]
        self.ctx = inner
        try:
            fid = x.prog.fn('dlp::process_instruction')
            cell = Cell(AccArr(keys, len(keys)), 'inner accounts')
            dcell = Cell(data, 'inner data')
            r = machine.run(fid, [Ptr(Cell(DLP)), Ptr(cell, (), len(keys)), Ptr(dcell, (), data.len())])
        finally:
            self.ctx = outer
        if r.v != 0:
            raise Abort('inner instruction failed')


TopSigner = z3.Function('signer', Key, z3.BoolSort())
TopWritable = z3.Function('writable', Key, z3.BoolSort())
