"""The state before and after one path of an instruction, as specifications see it, and the proof of
their obligations."""
import re
import z3
from values import *
import engine, world
from world import IsRole, DLP, SYSTEM, LOADER, LAM0, OWN0, Acctdata, Dlen0, Exec, OnCurve, TopSigner, TopWritable, minbal, U64
from engine import Panic, Abort, Infeasible
from driver import Skip

Payload = z3.Const('payload', Bytes)
Hi = z3.Const('data_hi', Bytes)
PLen = z3.Int('payload_len')
NAcc = z3.Int('n_accounts')
SK = z3.Const('any_account', Key)          # an arbitrary account: what is proved of it holds of every account
MAXACC = 16

ROLES = world.ROLE_NAMES


def acc(i):
    return z3.Const('acc_%d' % i, Key)


def maxi(a, b):
    return simp(z3.If(tosmt(a) >= tosmt(b), tosmt(a), tosmt(b)))


class S:
    def __init__(self, x, kind, ret, why, res, ti):
        self.x = x
        self.w = x.world
        self.kind = kind
        self.ret = ret
        self.why = why
        self.res = res
        self.ti = ti
        self.obs = []
        self.done = False

    @property
    def ok(self):
        return self.kind == 'ok'

    # ---- keys -----------------------------------------------------------------------------------
    def acc(self, i):
        return acc(i)

    def pda(self, role, *args):
        w = self.w
        if role == 'fv':
            return w.pda([('c', b'fees-vault')], DLP)[0]
        if role == 'escrow':
            return w.pda([('c', b'balance'), ('k', args[0]), ('u', 1, args[1])], DLP)[0]
        if role == 'buffer':
            return w.pda([('c', b'buffer'), ('k', args[0])], args[1])[0]
        if role == 'progdata':
            return w.pda([('k', args[0])], LOADER)[0]
        return w.pda([('c', ROLES[role]), ('k', args[0])], DLP)[0]

    # ---- before ----------------------------------------------------------------------------------
    def lam0(self, k):
        t = z3.Select(LAM0, k)
        self.x.axiom(z3.And(t >= 0, t <= U64))
        return t

    def own0(self, k):
        return z3.Select(OWN0, k)

    def len0(self, k):
        self.x.axiom(z3.And(Dlen0(k) >= 0, Dlen0(k) <= world.MAX_LEN))
        return Dlen0(k)

    def data0(self, k):
        return Rope((('o', Acctdata(k), 0, self.len0(k)),))

    def u0(self, k, off, n):
        """integer stored at an offset of the initial data"""
        return self.x.opq_int(Acctdata(k), off, n)

    def k0(self, k, off):
        return RdK(Acctdata(k), tosmt(off))

    def pu(self, off, n):
        return self.x.opq_int(Payload, simp(off), n)

    def pk(self, off):
        return RdK(Payload, tosmt(simp(off)))

    def signer(self, k):
        return TopSigner(k)

    # record fields
    def rec(self, d):
        r = self.pda('record', d)
        return dict(key=r, authority=self.k0(r, 8), owner=self.k0(r, 40), slot=self.u0(r, 72, 8), lamports=self.u0(r, 80, 8), freq=self.u0(r, 88, 8))

    def seeds_at(self, base, off):
        s = SeedsAt(base, tosmt(off))
        x = self.x
        x.axiom(SeedsCnt(s) >= 0)
        x.axiom(SeedsLen(s) >= 4 + 4 * SeedsCnt(s))
        x.axiom(SeedsLen(s) < 2 ** 32)
        n = SeedsLen(s)
        x.axiom(Sub(SeedsBytes(s), z3.IntVal(0), n) == Sub(base, tosmt(off), n))
        return s

    def meta(self, d):
        m = self.pda('metadata', d)
        b = Acctdata(m)
        s = self.seeds_at(b, 17)
        return dict(key=m, last=self.u0(m, 8, 8), flag=self.u0(m, 16, 1), seeds=s, payer=RdK(b, simp(17 + SeedsLen(s))))

    def meta_rope(self, last, flag, seeds, payer):
        return Rope((('c', (102).to_bytes(8, 'little')), ('u', 8, last), ('u', 1, flag), ('ss', seeds), ('k', payer)))

    def rec_rope(self, authority, owner, slot, lamports, freq):
        return Rope((('c', (100).to_bytes(8, 'little')), ('k', authority), ('k', owner), ('u', 8, slot), ('u', 8, lamports), ('u', 8, freq)))

    def crec_rope(self, identity, account, slot, lamports):
        return Rope((('c', (101).to_bytes(8, 'little')), ('k', identity), ('k', account), ('u', 8, slot), ('u', 8, lamports)))

    def crec(self, d):
        r = self.pda('crecord', d)
        return dict(key=r, identity=self.k0(r, 8), account=self.k0(r, 40), slot=self.u0(r, 72, 8), lamports=self.u0(r, 80, 8))

    # ---- after ------------------------------------------------------------------------------------
    def lam1(self, k):
        return tosmt(self.w.get_lam(k))

    def own1(self, k):
        return self.w.get_own(k)

    def data1(self, k):
        return self.w.dobj(k).rope

    def ru(self, rope, off, n):
        return self.x.rint(self.x.rslice(rope, off, n))

    # ---- obligations -------------------------------------------------------------------------------
    def prove(self, name, f):
        self.obs.append((name, f))

    def imp(self, a, name, f):
        self.prove(name, imp(a, f))

    def rope_eq(self, a, b):
        r = self.x.rope_eq(a, b)
        return r

    def data_is(self, name, k, rope):
        self.prove(name, self.rope_eq(self.data1(k), rope))

    def changed_objs(self):
        return [o for o in self.w.data if o.rope.segs != o.init.segs]

    def frame_data(self, name, allowed):
        """no account outside `allowed` has its data changed"""
        for o in self.changed_objs():
            f = disj(*[eq(o.key, a) for a in allowed])
            if f is not True:
                f = disj(f, self.rope_eq(o.rope, o.init))
            self.prove(name, f)
        self.prove(name, True)

    def frame_own(self, name, allowed):
        """allowed: {key: new owner}; every other account keeps its owner"""
        e = z3.Select(OWN0, SK)
        for k, o in allowed:
            e = z3.If(SK == k, o, e)
        self.prove(name, z3.Select(self.w.own, SK) == e)

    def frame_own_except(self, name, keys):
        self.prove(name, z3.Or(*([SK == k for k in keys] + [z3.Select(self.w.own, SK) == z3.Select(OWN0, SK)])))

    def deltas(self, name, ds, base=None, final=None):
        """every account's balance changes by exactly the sum of its listed amounts"""
        base = LAM0 if base is None else base
        final = self.w.lam if final is None else final
        e = z3.IntVal(0)
        for k, d in ds:
            e = e + z3.If(SK == k, tosmt(d), z3.IntVal(0))
        self.prove(name, z3.Select(final, SK) - z3.Select(base, SK) == e)

    def frame_lam_except(self, name, keys):
        self.prove(name, z3.Or(*([SK == k for k in keys] + [z3.Select(self.w.lam, SK) == z3.Select(LAM0, SK)])))

    def unchanged(self, name):
        self.prove(name + '/lamports', z3.Select(self.w.lam, SK) == z3.Select(LAM0, SK))
        self.prove(name + '/owners', z3.Select(self.w.own, SK) == z3.Select(OWN0, SK))
        for o in self.changed_objs():
            self.prove(name + '/data', self.rope_eq(o.rope, o.init))

    def touched(self):
        """did this path change anything, as far as syntax can tell"""
        return bool(self.w.lamlog or self.w.ownlog or self.changed_objs())

    def cover(self, name):
        self.res['cover'][name] += 1

    # ---- discharge -----------------------------------------------------------------------------------
    def finish(self):
        x = self.x
        obs = [(n, f if isinstance(f, bool) else f) for n, f in self.obs]
        if not obs:
            return
        x.relink()
        r = x.check()
        if r == z3.unsat:
            return
        for n, f in obs:
            self.res['cover'][n] += 1
        rest = [(n, f) for n, f in obs if f is not True]
        sym = [f for n, f in rest if f is not False]
        import driver
        if driver.CROSS and sym and not any(f is False for n, f in rest):
            self.cross(z3.Not(z3.And(*sym)) if len(sym) > 1 else z3.Not(sym[0]))
        if sym and not any(f is False for n, f in rest):
            if x.check(z3.Not(z3.And(*sym)) if len(sym) > 1 else z3.Not(sym[0])) == z3.unsat:
                for n, f in obs:
                    self.res['obl'][n] += 1
                return
        seen = set()
        for n, f in obs:
            if f is True:
                self.res['obl'][n] += 1
                continue
            r = x.check() if f is False else x.check(z3.Not(f))
            if r == z3.unknown:
                r = self.harder(f)
            if r == z3.unsat:
                self.res['obl'][n] += 1
            elif r == z3.sat:
                if n not in seen and len(self.res['viol']) < 20:
                    seen.add(n)
                    self.res['viol'].append(self.violation(n, f))
            else:
                self.res['unknown'].append(n)

    def cross(self, f):
        """the same question to cvc5"""
        import subprocess, tempfile
        s = z3.Solver()
        for a in self.x.solver.assertions():
            s.add(a)
        s.add(f)
        with tempfile.NamedTemporaryFile('w', suffix='.smt2') as t:
            t.write('(set-logic ALL)\n' + re.sub(r'\(set-info[^\n]*', '', s.to_smt2()).replace('\\|', '/'))
            t.flush()
            try:
                r = subprocess.run(['cvc5', '--tlimit=60000', '--lang=smt2', t.name], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=120)
                o = r.stdout.strip().split('\n')[-1]
            except subprocess.TimeoutExpired:
                o = "timeout"
        k = {'unsat': 'agree', 'sat': 'sat'}.get(o, 'no_answer')
        if k == 'sat':
            k = 'disagree' if self.x.check(f) == z3.unsat else 'agree_violated'
        self.res['cross'][k] += 1
        if k == 'no_answer' and len(self.res['wit']) < 3:
            self.res['wit']['cvc5'] = o[:300]

    def harder(self, f):
        s = z3.Solver()
        s.set('rlimit', 600000000)
        s.set('random_seed', 7)
        for a in self.x.solver.assertions():
            s.add(a)
        if f is not False:
            s.add(z3.Not(f))
        t = s.check()
        if t == z3.sat:
            self.model = s.model()
        return t

    def violation(self, n, f):
        import replay
        try:
            if f is False:
                self.x.solver.check()
            else:
                self.x.check(z3.Not(f))
            m = self.x.solver.model()
        except z3.Z3Exception:
            m = None
        d = dict(obligation=n, task=self.x.task, outcome=self.kind, why=self.why, path=''.join('TF'[not d] for d in self.x.trace),
                 formula=str(f)[:3000], overflow=self.x.flags[:5])
        if m is not None:
            d['model'] = replay.describe(self, m)
        if self.res.get('cases', 0) < 3:
            self.res['cases'] = self.res.get('cases', 0) + 1
            try:
                d['case'] = replay.case(self, n, f)
            except (replay.Fail, z3.Z3Exception, Unsupported, AttributeError, IndexError, KeyError, TypeError, ValueError, RecursionError) as e:
                d['no_case'] = '%s: %s' % (type(e).__name__, e)
                if not isinstance(e, replay.Fail):
                    import traceback
                    d['no_case'] += traceback.format_exc()[-800:]
        return d
