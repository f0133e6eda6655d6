"""Symbolic execution of the dumped MIR, path by path, with an SMT solver deciding every branch.

A path is re-executed from the start with a prefix of recorded decisions (`choose`); alternatives found
feasible are queued.  `prove` turns a property into an obligation: the solver must refute its negation
under the path condition."""
import json, re, struct, sys, time
from fractions import Fraction
import z3
from values import *

sys.setrecursionlimit(20000)


class Panic(Exception):
    """the program panics here: the transaction fails"""


class Abort(Exception):
    """a cross-program invocation failed: the transaction fails"""


class Infeasible(Exception):
    pass


class Undecided(Exception):
    """solver gave no answer on an obligation"""


class Program:
    def __init__(self, path):
        d = json.load(open(path))
        self.T = d['types']
        self.F = d['fns']
        self.roots = dict((n, i) for n, i in d['roots'])
        self.statics = dict((n, v) for n, v in d['statics'])
        self.byname = {}
        for i, f in enumerate(self.F):
            self.byname.setdefault(f['name'], i)
        self.tyname = {}
        for i, t in enumerate(self.T):
            self.tyname.setdefault(t['n'], i)
        self.contracts = {}          # verified contracts put to use (contracts.py)
        self.handlers = [None] * len(self.F)
        self.native = True
        self.constcache = {}
        for t in self.T:                       # discriminants are extracted as raw bits
            if t and t['n'] == 'std::cmp::Ordering':
                for va in t['variants']:
                    if va['disc'] == 255:
                        va['disc'] = -1

    def fn(self, name):
        if name in self.roots:
            return self.roots[name]
        return self.byname.get(name)


class Stats:
    def __init__(self):
        self.checks = 0
        self.time = 0.0
        self.unknown = 0


class X:
    """one path: solver, decisions, world"""

    def __init__(self, prog, prefix, stats, rlimit=30000000):
        self.prog = prog
        self.T = prog.T
        self.prefix = prefix
        self.pos = 0
        self.trace = []
        self.alts = []
        self.solver = z3.Solver()
        self.solver.set('rlimit', rlimit)          # deterministic, unlike a timeout
        self.stats = stats
        self.n = 0
        self.asserted = set()
        self.keep = []
        self.decided = {}
        self.neq = {}
        self.kparent = {}
        self.model = None
        self.flags = []          # notes such as 'overflow at ...'
        self.depth = 0
        self.loc = []            # call stack of (fn name, line)
        self.world = None
        self.bounded = set()
        self.modelled = set()    # external functions replaced by an assumed contract
        self.called = set()
        self.used = set()        # helper functions whose contract stood for the body
        self.steps = 0
        self.fast = len(prefix)
        self.forker = None
        self.frames = []         # the locals of the functions being executed
        self.sums = {}           # loops being summarised: iterator cell -> state
        self.log = None          # while a loop is being summarised: stores and calls

    # ---- solver --------------------------------------------------------------------------------
    def fresh(self, nm, sort):
        self.n += 1
        return z3.Const('%s!%d' % (nm, self.n), sort)

    def fresh_int(self, nm, lo=0, hi=None):
        t = self.fresh(nm, IntS)
        if lo is not None:
            self.assume(t >= lo)
        if hi is not None:
            self.assume(t <= hi)
        return t

    def assume(self, c):
        c = simp(c)
        if c is True:
            return
        if c is False:
            raise Infeasible()
        self.solver.add(c)
        if self.model is not None:
            if not z3.is_true(self.model.eval(c, model_completion=True)):
                self.model = None

    def axiom(self, c):
        """an instance of a background axiom (each one added once)"""
        if isinstance(c, bool):
            return
        i = c.get_id()
        if i in self.asserted:
            return
        self.asserted.add(i)
        self.keep.append(c)
        self.assume(c)

    def check(self, *cs):
        t0 = time.time()
        r = self.solver.check(*cs)
        self.stats.checks += 1
        self.stats.time += time.time() - t0
        if r == z3.unknown:
            self.stats.unknown += 1
        return r

    def choose(self, c):
        c = simp(c)
        if isinstance(c, bool):
            return c
        i = c.get_id()
        if i in self.decided:
            return self.decided[i]
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            self.trace.append(d)
            self._decide(c, d)
            return d
        if len(self.trace) > 400:
            raise Unsupported('more than 400 decisions on one path')
        # feasibility, re-using the last model for one side
        m = self.model
        if m is None:
            r = self.check()
            if r == z3.unsat:
                raise Infeasible()
            if r == z3.sat:
                m = self.model = self.solver.model()
        t = f = None
        if m is not None:
            v = m.eval(c, model_completion=True)
            if z3.is_true(v):
                t = z3.sat
            elif z3.is_false(v):
                f = z3.sat
        mt = mf = m
        if t is None:
            t = self.check(c)
            mt = self.solver.model() if t == z3.sat else None
        if f is None:
            f = self.check(z3.Not(c))
            mf = self.solver.model() if f == z3.sat else None
        if t == z3.unsat and f == z3.unsat:
            raise Infeasible()
        if t == z3.unsat:
            d = False
        elif f == z3.unsat:
            d = True
        else:
            if self.forker is not None:
                d = self.forker(self)
            else:
                d = True
                self.alts.append(list(self.trace) + [False])
        self.trace.append(d)
        self.pos += 1
        self.model = mt if d else mf
        self._decide(c, d, forced=(t == z3.unsat or f == z3.unsat))
        return d

    def _decide(self, c, d, forced=False):
        self.keep.append(c)
        self.decided[c.get_id()] = d
        t, v = c, d
        while z3.is_not(t):
            t, v = t.arg(0), not v
        if z3.is_eq(t) and t.arg(0).sort() == Key:
            self.note_eq(t.arg(0), t.arg(1), v)
        elif v and z3.is_and(t):
            for u in t.children():
                if z3.is_eq(u) and u.arg(0).sort() == Key:
                    self.note_eq(u.arg(0), u.arg(1), True)
        cc = c if d else z3.Not(c)
        self.solver.add(cc)
        if self.pos <= self.fast:
            self.model = None

    def must(self, c):
        """is c a consequence of the path condition?  (does not branch; recorded as a decision)"""
        c = simp(c)
        if isinstance(c, bool):
            return c
        if self.decided.get(c.get_id()) is True:
            return True
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            self.trace.append(d)
            return d
        d = self.check(z3.Not(c)) == z3.unsat
        self.trace.append(d)
        self.pos += 1
        return d

    # ---- keys: classes of keys known equal on this path ---------------------------------------
    def canon(self, k):
        i = k.get_id()
        while i in self.kparent:
            k = self.kparent[i]
            i = k.get_id()
        return k

    def key_rank(self, k):
        if key_bytes(k) is not None:
            return 0
        if self.world is not None and k.get_id() in self.world.pdas:
            return 1
        return 2 if k.num_args() else 3

    def note_eq(self, a, b, same):
        a, b = self.canon(a), self.canon(b)
        self.keep += [a, b]
        if a.eq(b):
            return
        if same:
            if self.key_rank(a) < self.key_rank(b):
                a, b = b, a
            self.kparent[a.get_id()] = b          # b represents both
            ai, bi = a.get_id(), b.get_id()
            for (p, q) in list(self.neq):
                if p == ai:
                    self.neq[(bi, q)] = self.neq[(q, bi)] = True
        else:
            self.neq[(a.get_id(), b.get_id())] = True
            self.neq[(b.get_id(), a.get_id())] = True

    def ask_eq(self, a, b):
        """decide whether two keys are equal on this path"""
        q = self.quick_eq(a, b)
        if q is not None:
            return q
        return self.choose(eq(self.canon(a), self.canon(b)))

    def quick_eq(self, a, b):
        a, b = self.canon(a), self.canon(b)
        if a.eq(b):
            return True
        if (a.get_id(), b.get_id()) in self.neq:
            return False
        if key_bytes(a) is not None and key_bytes(b) is not None:
            return False
        return None

    # ---- ropes ---------------------------------------------------------------------------------
    def cut(self, rope, pos):
        """split a rope at a byte position (0 <= pos <= len is the caller's duty)"""
        pos = simp(pos)
        segs = rope.segs
        left = []
        rem = pos
        for i, s in enumerate(segs):
            if isinstance(rem, int) and rem == 0:
                return Rope(tuple(left)), Rope(segs[i:])
            L = seglen(s)
            d = simp(tosmt(rem) - L)
            if isinstance(d, int):
                whole = d >= 0
            elif s[0] in 'oz':
                whole = not self.choose(d <= 0)
            else:
                whole = self.choose(d >= 0)
            if whole:
                left.append(s)
                rem = simp(rem - L)
                continue
            if not isinstance(rem, int):
                if self.choose(rem == 0):
                    return Rope(tuple(left)), Rope(segs[i:])
            a, b = self.split_seg(s, rem)
            return Rope(tuple(left) + a), Rope(b + segs[i + 1:])
        return Rope(tuple(left)), Rope(())

    def split_seg(self, s, r):
        k = s[0]
        if k == 'o':
            return (('o', s[1], s[2], r),), (('o', s[1], simp(s[2] + r), simp(s[3] - r)),)
        if k == 'z':
            return (('z', r),), (('z', simp(s[1] - r)),)
        if isinstance(r, int):
            if k == 'c':
                return (('c', s[1][:r]),), (('c', s[1][r:]),)
            if k == 'u':
                if isinstance(s[2], int):
                    raise Unsupported('u const')
                m = 256 ** r
                return (('u', r, s[2] % m),), (('u', s[1] - r, s[2] / m),)
            if k == 'k':
                return (('o', KBytes(s[1]), 0, r),), (('o', KBytes(s[1]), r, 32 - r),)
        if k == 'ss':
            return (('o', SeedsBytes(s[1]), 0, r),), (('o', SeedsBytes(s[1]), r, simp(seglen(s) - r)),)
        if k == 'k':
            return (('o', KBytes(s[1]), 0, r),), (('o', KBytes(s[1]), r, simp(32 - r)),)
        n = seglen(s)
        if isinstance(n, int) and n <= 32 and not isinstance(r, int):
            for i in range(1, n):
                if self.choose(eq(r, i)):
                    return self.split_seg(s, i)
            raise Infeasible()
        raise Unsupported('split of segment ' + k)

    def rslice(self, rope, a, n):
        _, r = self.cut(rope, a)
        l, _ = self.cut(r, n)
        return l

    def opq_int(self, base, start, n):
        if n > 8:
            raise Unsupported('opaque int of %d bytes' % n)
        t = RdI[n](base, tosmt(start))
        self.axiom(z3.And(t >= 0, t < 256 ** n))
        w = getattr(self, 'reads', None)
        if w is None:
            w = self.reads = {}
        if isinstance(start, int):
            lst = w.setdefault(base.get_id(), (base, []))[1]
            if (start, n) not in lst:
                for (s2, n2) in lst:
                    if s2 < start + n and start < s2 + n2:
                        self.link_read(base, start, n)
                        self.link_read(base, s2, n2)
                lst.append((start, n))
        return t

    def link_read(self, base, p, q):
        """an integer read is made of its bytes"""
        done = self.__dict__.setdefault('linked', set())
        if q == 1 or (base.get_id(), p, q) in done:
            return
        done.add((base.get_id(), p, q))
        self.keep.append(base)
        bs = [RdI[1](base, z3.IntVal(p + i)) for i in range(q)]
        for b in bs:
            self.axiom(z3.And(b >= 0, b < 256))
        self.axiom(RdI[q](base, z3.IntVal(p)) == sum(b * 256 ** i for i, b in enumerate(bs)))

    def relink(self):
        """overlapping reads of different widths of what turned out to be the same account"""
        groups = {}
        for base, lst in (getattr(self, 'reads', None) or {}).values():
            if base.num_args() == 1 and base.arg(0).sort().eq(Key):
                k = (base.decl().name(), self.canon(base.arg(0)).get_id())
                groups.setdefault(k, []).append((base, lst))
        for g in groups.values():
            if len(g) < 2:
                continue
            for i, (b1, l1) in enumerate(g):
                for b2, l2 in g[i + 1:]:
                    for (p, n) in l1:
                        for (q, m) in l2:
                            if (p, n) != (q, m) and p < q + m and q < p + n:
                                self.link_read(b1, p, n)
                                self.link_read(b2, q, m)

    def rint(self, rope):
        """little-endian integer value of a whole rope"""
        out = 0
        mul = 1
        for s in rope.segs:
            L = seglen(s)
            if not isinstance(L, int):
                raise Unsupported('int from symbolic-length segment')
            k = s[0]
            if k == 'c':
                v = int.from_bytes(s[1], 'little')
            elif k == 'u':
                v = s[2]
            elif k == 'o':
                v = self.opq_int(s[1], s[2], L)
            elif k == 'z':
                v = 0
            elif k == 'k':
                v = self.opq_int(KBytes(s[1]), 0, L)
            else:
                raise Unsupported('int from ' + k)
            out = out + v * mul if not (isinstance(out, int) and out == 0) else (v * mul if mul != 1 else v)
            mul *= 256 ** L
        return simp(out)

    def rkey(self, rope):
        segs = rope.segs
        if len(segs) == 1:
            s = segs[0]
            if s[0] == 'k':
                return s[1]
            if s[0] == 'c' and len(s[1]) == 32:
                return const_key(s[1])
            if s[0] == 'o' and s[3] == 32 and isinstance(s[3], int):
                if s[1].decl().eq(KBytes) and isinstance(s[2], int) and s[2] == 0:
                    return s[1].arg(0)
                return RdK(s[1], tosmt(s[2]))
        if simp(rope.len()) != 32:
            raise Unsupported('key from a rope of another length')
        # some mixture of pieces: a fresh key whose bytes are these
        t = self.fresh('mixkey', Key)
        return t

    def bytes_term(self, s):
        """Bytes-sorted term standing for one segment"""
        k = s[0]
        if k == 'o':
            return Sub(s[1], tosmt(s[2]), tosmt(s[3]))
        if k == 'k':
            return Sub(KBytes(s[1]), z3.IntVal(0), z3.IntVal(32))
        if k == 'ss':
            return Sub(SeedsBytes(s[1]), z3.IntVal(0), tosmt(seglen(s)))
        if k == 'set':
            return SetBytes(s[1])
        if k == 'z':
            return Zeros(tosmt(s[1]))
        if k == 'c':
            if not s[1].strip(b'\0'):
                return Zeros(z3.IntVal(len(s[1])))
            return z3.Const('bytes:' + s[1].hex(), Bytes)
        if k == 'u':
            return z3.Function('IntBytes%d' % s[1], IntS, Bytes)(s[2])
        raise Unsupported('bytes_term ' + k)

    def seg_eq(self, a, b, n):
        """equality of two segments of equal length n"""
        ka, kb = a[0], b[0]
        if isinstance(n, int):
            if ka == 'o' and not isinstance(a[3], int):
                a = a[:3] + (n,)
            if kb == 'o' and not isinstance(b[3], int):
                b = b[:3] + (n,)
        if ka == 'c' and kb == 'c':
            return a[1] == b[1]
        if ka == 'o' and kb == 'o' and a[1].eq(b[1]):
            d = simp(tosmt(a[2]) - b[2])
            if isinstance(d, int) and d == 0:
                return True
        if ka == 'ss' and kb == 'ss':
            return eq(a[1], b[1])
        if ka == 'set' and kb == 'set':
            return conj(eq(a[1], b[1]), eq(a[2], b[2]))
        if ka == 'z' and kb == 'z':
            return True
        if 'sys' in (ka, kb):
            return a is b
        if isinstance(n, int):
            if n == 32 and (ka in 'ko' and ka != 'ss') and (kb in ('k', 'o', 'c')) or n == 32 and kb in ('k', 'o') and ka in ('k', 'o', 'c'):
                return eq(self.rkey(Rope((a,))), self.rkey(Rope((b,))))
            if n <= 8 and ka in ('c', 'u', 'o', 'z') and kb in ('c', 'u', 'o', 'z'):
                return eq(self.rint(Rope((a,))), self.rint(Rope((b,))))
            if n <= 64 and (ka in ('c', 'u', 'z') or kb in ('c', 'u', 'z')):
                cs = []
                p = 0
                while p < n:
                    m = min(8, n - p)
                    cs.append(eq(self.rint(self.rslice(Rope((a,)), p, m)), self.rint(self.rslice(Rope((b,)), p, m))))
                    p += m
                return conj(*cs)
            return self.bytes_term(a) == self.bytes_term(b)
        return z3.Or(tosmt(n) <= 0, self.bytes_term(a) == self.bytes_term(b))

    def rope_eq(self, a, b):
        la, lb = a.len(), b.len()
        c = eq(la, lb)
        if c is False:
            return False
        if a.segs == b.segs:
            return True
        if not self.choose(c):
            return False
        out = []
        A = list(a.segs)
        B = list(b.segs)
        while A and B:
            x, y = A[0], B[0]
            lx, ly = seglen(x), seglen(y)
            d = simp(tosmt(lx) - ly)
            if not isinstance(d, int):
                if len(A) == 1 and len(B) == 1:
                    d = 0
                elif self.choose(tosmt(lx) == ly):
                    d = 0
                elif self.choose(tosmt(lx) > ly):
                    d = 1
                else:
                    d = -1
            if d == 0:
                out.append(self.seg_eq(x, y, lx if isinstance(lx, int) else ly))
                A.pop(0)
                B.pop(0)
            elif d > 0:
                l, r = self.cut(Rope((x,)), ly)
                out.append(self.seg_eq(l.segs[0], y, ly) if len(l.segs) == 1 else self.rope_eq(l, Rope((y,))))
                A[0:1] = list(r.segs)
                B.pop(0)
            else:
                l, r = self.cut(Rope((y,)), lx)
                out.append(self.seg_eq(x, l.segs[0], lx) if len(l.segs) == 1 else self.rope_eq(Rope((x,)), l))
                B[0:1] = list(r.segs)
                A.pop(0)
            if out[-1] is False:
                return False
        return conj(*out)

    # ---- typed views ----------------------------------------------------------------------------
    def ty_is_pubkey(self, ty):
        return self.T[ty].get('def', '').endswith('::Pubkey') if self.T[ty]['k'] == 'adt' else False

    def size_of(self, ty):
        t = self.T[ty]
        k = t['k']
        if k == 'int':
            return t['bits'] // 8
        if k == 'bool':
            return 1
        if k == 'char':
            return 4
        if t.get('layout'):
            return t['layout']['size']
        raise Unsupported('size_of ' + t['n'])

    def decode(self, rope, ty):
        t = self.T[ty]
        k = t['k']
        if k == 'int':
            v = self.rint(rope)
            if t['signed']:
                raise Unsupported('signed view')
            return v
        if k == 'bool':
            return simp(eq(self.rint(rope), 1))
        if k == 'array' and self.is_u8(t['elem']):
            return rope
        if k == 'array':
            sz = self.size_of(t['elem'])
            return Arr(self.decode(self.rslice(rope, i * sz, sz), t['elem']) for i in range(t['len']))
        if k == 'adt':
            if self.ty_is_pubkey(ty):
                return self.rkey(rope)
            if t['kind'] == 'Struct':
                fs = []
                for (nm, ft), off in zip(t['variants'][0]['fields'], t['layout']['offs']):
                    fs.append(self.decode(self.rslice(rope, off, self.size_of(ft)), ft))
                return Adt(0, tuple(fs))
        raise Unsupported('decode ' + t['n'])

    def encode(self, v, ty):
        t = self.T[ty]
        k = t['k']
        if k == 'int':
            return Rope((('u', t['bits'] // 8, v),))
        if k == 'bool':
            return Rope((('u', 1, b2i(v)),))
        if k == 'array' and self.is_u8(t['elem']):
            return v
        if k == 'array':
            r = Rope(())
            for e in v.e:
                r = r + self.encode(e, t['elem'])
            return r
        if k == 'adt':
            if self.ty_is_pubkey(ty):
                return Rope((('k', v),))
            if t['kind'] == 'Struct':
                parts = sorted(zip(t['layout']['offs'], range(len(v.f))))
                r = Rope(())
                for off, i in parts:
                    if simp(r.len()) != off:
                        raise Unsupported('padding in ' + t['n'])
                    r = r + self.encode(v.f[i], t['variants'][0]['fields'][i][1])
                if simp(r.len()) != t['layout']['size']:
                    raise Unsupported('padding in ' + t['n'])
                return r
        raise Unsupported('encode ' + t['n'])

    def is_u8(self, ty):
        t = self.T[ty]
        return t['k'] == 'int' and t['bits'] == 8 and not t['signed']

    # ---- memory ---------------------------------------------------------------------------------
    def step(self, v, c):
        k = c[0]
        if k == 'f':
            if isinstance(v, Adt):
                return v.f[c[1]]
            if is_key(v):
                return Rope((('k', v),))
            if isinstance(v, Ptr):
                return v
            if isinstance(v, Clo):
                return v.f[c[1]]
            if isinstance(v, Uni):
                return v.v
            if isinstance(v, (VecV, Opaque)):
                return v
            raise Unsupported('field %s of %r at %s' % (c[1], v, self.where()))
        if k == 'x':
            i = c[1]
            if isinstance(v, Arr):
                if not isinstance(i, int):
                    raise Unsupported('symbolic index')
                return v.e[i]
            if isinstance(v, Rope):
                return self.rint(self.rslice(v, i, 1))
            if isinstance(v, AccArr):
                return self.world.account_info(v.keys, i)
            if isinstance(v, OSeq):
                return self.seed_elem(v, i)
            raise Unsupported('index of %r' % (v,))
        if k == 's':
            if isinstance(v, Arr):
                if not (isinstance(c[1], int) and isinstance(c[2], int)):
                    raise Unsupported('symbolic slice of elements')
                return Arr(v.e[c[1]:c[1] + c[2]])
            if isinstance(v, Rope):
                return self.rslice(v, c[1], c[2])
            if isinstance(v, (OSeq, StrV)):
                return v
            if isinstance(v, AccArr):
                return AccArr([v.keys[c[1] + i] for i in range(len(v.keys) - c[1])], c[2])
            raise Unsupported('slice of %r' % (v,))
        if k == 'w':
            if isinstance(v, VecV):
                return v.c
            if isinstance(v, (Rope, Arr, OSeq)):
                return v
            raise Unsupported('vec contents of %r' % (v,))
        if k == 'v':
            return self.decode(self.rslice(v, c[1], self.size_of(c[2])), c[2])
        raise Unsupported('path ' + k)

    def seed_elem(self, oseq, i):
        b = z3.Function('SeedEl', Seeds, IntS, Bytes)(oseq.s, tosmt(i))
        l = z3.Function('SeedElLen', Seeds, IntS, IntS)(oseq.s, tosmt(i))
        self.axiom(l >= 0)
        self.axiom(l < 2 ** 32)
        r = Rope((('o', b, 0, l),))
        if oseq.kind == 'vec':
            return VecV(r)
        return Ptr(Cell(r, 'seed'), (), l)

    def load(self, p):
        if not isinstance(p, Ptr):
            raise Unsupported('load through %r at %s' % (p, self.where()))
        r = p.root
        if isinstance(r, Cell):
            v = r.val
        else:
            v = self.world.read_root(r)
        for c in p.path:
            v = self.step(v, c)
        return v

    def upd(self, v, path, i, new):
        if i == len(path):
            return new
        c = path[i]
        k = c[0]
        if k == 'f':
            if isinstance(v, Adt) or v is None:
                f = list(v.f) if v is not None else []
                while len(f) <= c[1]:
                    f.append(None)
                f[c[1]] = self.upd(f[c[1]], path, i + 1, new)
                return Adt(v.v if v is not None else 0, tuple(f))
            if is_key(v):
                return self.rkey(self.upd(Rope((('k', v),)), path, i + 1, new))
            if isinstance(v, Clo):
                f = list(v.f)
                f[c[1]] = self.upd(f[c[1]], path, i + 1, new)
                return Clo(v.ty, tuple(f))
            if isinstance(v, Uni):
                return Uni(self.upd(v.v, path, i + 1, new))
            raise Unsupported('store to field of %r at %s' % (v, self.where()))
        if k == 'x':
            if isinstance(v, Arr):
                e = list(v.e)
                e[c[1]] = self.upd(e[c[1]], path, i + 1, new)
                return Arr(e)
            if isinstance(v, Rope):
                l, r = self.cut(v, c[1])
                _, r = self.cut(r, 1)
                return l + Rope((('u', 1, new),)) + r
            raise Unsupported('store to index of %r' % (v,))
        if k == 's':
            if isinstance(v, Arr):
                e = list(v.e)
                sub = Arr(e[c[1]:c[1] + c[2]])
                sub = self.upd(sub, path, i + 1, new)
                e[c[1]:c[1] + c[2]] = list(sub.e)
                return Arr(e)
            if isinstance(v, Rope):
                l, r = self.cut(v, c[1])
                m, r = self.cut(r, c[2])
                return l + self.upd(m, path, i + 1, new) + r
            raise Unsupported('store to slice of %r' % (v,))
        if k == 'w':
            if isinstance(v, VecV):
                return VecV(self.upd(v.c, path, i + 1, new))
            raise Unsupported('store to vec contents of %r' % (v,))
        if k == 'v':
            n = self.size_of(c[2])
            l, r = self.cut(v, c[1])
            m, r = self.cut(r, n)
            if i + 1 == len(path):
                return l + self.encode(new, c[2]) + r
            val = self.decode(m, c[2])
            val = self.upd(val, path, i + 1, new)
            return l + self.encode(val, c[2]) + r
        raise Unsupported('store path ' + k)

    def store(self, p, new):
        r = p.root
        if self.log is not None:
            self.log.append(r)
        if isinstance(r, Cell):
            r.val = self.upd(r.val, p.path, 0, new) if p.path else new
        else:
            old = self.world.read_root(r)
            self.world.write_root(r, self.upd(old, p.path, 0, new) if p.path else new)

    def where(self):
        return ' < '.join('%s:%s' % tuple(x) for x in reversed(self.loc[-6:]))


def pext(path, c):
    """extend a path, collapsing slices"""
    if path and path[-1][0] == 's':
        a = path[-1][1]
        if c[0] == 'x':
            return path[:-1] + (('x', simp(a + c[1])),)
        if c[0] == 's':
            return path[:-1] + (('s', simp(a + c[1]), c[2]),)
        if c[0] == 'v':
            return path[:-1] + (('v', simp(a + c[1]), c[2]),)
    return path + (c,)


class Machine:
    """MIR interpreter over one path"""

    def __init__(self, prog, x, models):
        self.prog = prog
        self.T = prog.T
        self.F = prog.F
        self.x = x
        self.models = models

    # ---- constants ------------------------------------------------------------------------------
    def const(self, c, ty):
        key = id(c)
        cc = self.prog.constcache
        if key in cc:
            return cc[key]
        v = self._const(c, ty)
        cc[key] = v
        return v

    def _const(self, c, ty):
        k = c['k']
        T = self.T
        if k in ('int', 'bool'):
            return c['v']
        if k == 'f64':
            v = struct.unpack('<d', struct.pack('<Q', c['v']))[0]
            return Flo(Fraction(v)) if v - v == 0 else Opaque('f64')
        if k == 'zst':
            t = T[ty]
            if t['k'] == 'fndef':
                return FnItem(t.get('fn'))
            if t['k'] == 'closure':
                up = T[t['args'][-1]]
                return Clo(ty, tuple(self._const(c, e) for e in up.get('elems', ())))
            if t['k'] == 'array':
                return Rope(()) if self.x.is_u8(t['elem']) else Arr(())
            return UNIT
        if k == 'bytes':
            if any(b is None for b in c['v']):
                if all(b is None for b in c['v']):
                    return None
                raise Unsupported('partly uninitialised constant')
            return C(bytes(c['v']))
        if k == 'str':
            return StrV(c['v'])
        if k == 'seq':
            et = T[ty].get('elem')
            return Arr(self._const(e, et) for e in c['v'])
        if k == 'adt':
            t = T[ty]
            if 'kind' not in t:
                return Opaque('const')
            if t['kind'] == 'Union':
                return Opaque('union const')
            fts = [f[1] for f in t['variants'][c['variant']]['fields']]
            fs = tuple(self._const(f, ft) for f, ft in zip(c['fields'], fts))
            if self.x.ty_is_pubkey(ty):
                return self.x.rkey(fs[0])
            return Adt(c['variant'], fs)
        if k == 'tuple':
            return Adt(0, tuple(self._const(f, ft) for f, ft in zip(c['fields'], T[ty]['elems'])))
        if k == 'ref':
            to = T[ty].get('to')
            v = self._const(c['to'], to)
            n = None
            if isinstance(v, StrV):
                n = len(v.s.encode())
            elif T[to]['k'] == 'slice':
                n = v.len() if isinstance(v, Rope) else len(v.e)
            return Ptr(Cell(v, 'const'), (), n)
        if k == 'static':
            return Ptr(Cell(Opaque('static ' + c['name'])), (), None)
        if k == 'fnptr':
            return FnItem(c['fn'])
        if k == 'addr':
            return Ptr(Cell(Opaque('addr')), (), c.get('meta'))
        if k == 'uninit':
            return None
        return Opaque('const')

    # ---- places and operands -------------------------------------------------------------------
    def place(self, fr, p):
        if isinstance(p, int):
            return Ptr(fr[p], (), None)
        root = fr[p[0]]
        path = ()
        n = None
        x = self.x
        for e in p[1]:
            if e == '*':
                v = x.load(Ptr(root, path, n))
                while isinstance(v, Adt) and len(v.f) >= 1 and isinstance(v.f[0], (Ptr, Adt)):
                    v = v.f[0]        # Box / NonNull / Unique wrappers
                if not isinstance(v, Ptr):
                    if isinstance(v, Opaque):
                        v = Ptr(Cell(v), (), None)
                    else:
                        raise Unsupported('deref of %r at %s' % (v, x.where()))
                root, path, n = v.root, v.path, v.n
            elif e == 'oc':
                pass
            else:
                k = e[0]
                if k == 'f':
                    path = path + (('f', e[1]),)
                    n = None
                elif k == 'd':
                    pass
                elif k == 'i':
                    path = pext(path, ('x', simp(fr[e[1]].val)))
                    n = None
                elif k == 'ci':
                    if e[3]:
                        ln = n if n is not None else self.seqlen(x.load(Ptr(root, path, n)))
                        path = pext(path, ('x', simp(ln - e[1])))
                    else:
                        path = pext(path, ('x', e[1]))
                    n = None
                elif k == 'ss':
                    ln = n if n is not None else self.seqlen(x.load(Ptr(root, path, n)))
                    to = simp(ln - e[2]) if e[3] else e[2]
                    n = simp(to - e[1])
                    path = pext(path, ('s', e[1], n))
                else:
                    raise Unsupported('projection ' + k)
        return Ptr(root, path, n)

    def seqlen(self, v):
        if isinstance(v, Rope):
            return v.len()
        if isinstance(v, Arr):
            return len(v.e)
        if isinstance(v, AccArr):
            return v.n
        if isinstance(v, StrV):
            return len(v.s.encode())
        if isinstance(v, OSeq):
            return SeedsCnt(v.s)
        raise Unsupported('length of %r' % (v,))

    def read(self, fr, p):
        if isinstance(p, int):
            return fr[p].val
        return self.x.load(self.place(fr, p))

    def write(self, fr, p, v):
        if isinstance(p, int):
            fr[p].val = v
        else:
            self.x.store(self.place(fr, p), v)

    def op(self, fr, o):
        k = o[0]
        if k == 'k':
            return self.const(o[1], o[2])
        if k == 'rc':
            return False
        return self.read(fr, o[1])

    # ---- arithmetic -----------------------------------------------------------------------------
    def rng(self, ty):
        t = self.T[ty]
        if t['k'] == 'int':
            b = t['bits']
            return (-(1 << (b - 1)), (1 << (b - 1)) - 1, b) if t['signed'] else (0, (1 << b) - 1, b)
        if t['k'] == 'char':
            return (0, 0x10ffff, 32)
        self._uns('arithmetic on ' + t['n'])

    def wrap(self, v, ty, note=None):
        lo, hi, b = self.rng(ty)
        if note:
            # an operation that asks for wrapping: note when it does wrap
            if (not lo <= v <= hi) if isinstance(v, int) else self.x.choose(disj(v > hi, v < lo)):
                self.x.flags.append('overflow: %s at %s' % (note, self.x.where()))
        if isinstance(v, int):
            v &= (1 << b) - 1
            return v - (1 << b) if v > hi else v
        x = self.x
        if x.choose(v > hi):
            v = v - (1 << b)
            if not x.must(v <= hi):
                return simp(v % (1 << b)) if lo == 0 else self._uns('wide wrap')
            return simp(v)
        if x.choose(v < lo):
            v = v + (1 << b)
            if not x.must(v >= lo):
                return simp((v) % (1 << b)) if lo == 0 else self._uns('wide wrap')
            return simp(v)
        return simp(v)

    def _uns(self, m):
        raise Unsupported(m + ' at ' + self.x.where())

    def arith(self, op, a, b, ty):
        """mathematical result of op"""
        if op in ('Add', 'AddUnchecked', 'AddWithOverflow'):
            return simp(a + b)
        if op in ('Sub', 'SubUnchecked', 'SubWithOverflow'):
            return simp(a - b)
        if op in ('Mul', 'MulUnchecked', 'MulWithOverflow'):
            return simp(a * b)
        self._uns('arith ' + op)

    def binop(self, op, a, b, ty):
        x = self.x
        if isinstance(a, Flo) and isinstance(b, Flo):
            return self.flop(op, a.r, b.r)
        if isinstance(a, (Opaque, Ptr, Adt, FnItem)) or isinstance(b, (Opaque, Ptr, Adt)):
            return self.ptrop(op, a, b, ty)
        if op in ('Eq', 'Ne'):
            if is_bool(a) and not is_bool(b):
                b = bool(b)
            e = eq(a, b)
            return e if op == 'Eq' else simp(neg(e))
        if op in ('Lt', 'Le', 'Gt', 'Ge'):
            if is_bool(a):
                a, b = b2i(a), b2i(b)
            return simp({'Lt': lambda: a < b, 'Le': lambda: a <= b, 'Gt': lambda: a > b, 'Ge': lambda: a >= b}[op]())
        if op == 'Cmp':
            if x.choose(simp(a < b)):
                return Adt(0, ())
            if x.choose(eq(a, b)):
                return Adt(1, ())
            return Adt(2, ())
        if is_bool(a) and is_bool(b):
            if op == 'BitAnd':
                return conj(a, b)
            if op == 'BitOr':
                return disj(a, b)
            if op == 'BitXor':
                return simp(neg(eq(a, b)))
        if op in ('Add', 'Sub', 'Mul'):
            return self.wrap(self.arith(op, a, b, ty), ty)
        if op in ('AddUnchecked', 'SubUnchecked', 'MulUnchecked'):
            return self.arith(op, a, b, ty)
        if op in ('Div', 'Rem'):
            lo, hi, bits = self.rng(ty)
            if isinstance(a, int) and isinstance(b, int):
                q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
                return q if op == 'Div' else a - q * b
            if lo < 0:
                self._uns('signed division')
            return simp(tosmt(a) / tosmt(b)) if op == 'Div' else simp(tosmt(a) % tosmt(b))
        if isinstance(a, int) and isinstance(b, int):
            lo, hi, bits = self.rng(ty)
            if op == 'BitAnd':
                return a & b
            if op == 'BitOr':
                return a | b
            if op == 'BitXor':
                return a ^ b
            if op in ('Shl', 'ShlUnchecked'):
                return self.wrap(a << (b % bits), ty)
            if op in ('Shr', 'ShrUnchecked'):
                return a >> (b % bits)
        if isinstance(b, int) and self.rng(ty)[0] == 0:
            bits = self.rng(ty)[2]
            if op in ('Shr', 'ShrUnchecked'):
                return simp(a / (1 << (b % bits)))
            if op in ('Shl', 'ShlUnchecked'):
                return simp((a * (1 << (b % bits))) % (1 << bits))
            if op == 'BitAnd' and (b + 1) & b == 0:
                return simp(a % (b + 1))
        if isinstance(a, int) and op == 'BitAnd' and (a + 1) & a == 0 and self.rng(ty)[0] == 0:
            return simp(b % (a + 1))
        if op in ('BitAnd', 'BitOr', 'BitXor') and not is_bool(a) and not is_bool(b) and self.rng(ty)[0] == 0:
            if isinstance(a, int):
                a, b = b, a
            bits = self.rng(ty)[2]
            if isinstance(b, int):
                bit = lambda i: (a / (1 << i)) % 2
                on = [i for i in range(bits) if b >> i & 1]
                if op == 'BitAnd':
                    return simp(z3.Sum([bit(i) * (1 << i) for i in on] or [z3.IntVal(0)]))
                return simp(a + z3.Sum([((1 - bit(i)) if op == 'BitOr' else (1 - 2 * bit(i))) * (1 << i) for i in on] or [z3.IntVal(0)]))
            u, v = z3.Int2BV(a, bits), z3.Int2BV(b, bits)
            return simp(z3.BV2Int({'BitAnd': u & v, 'BitOr': u | v, 'BitXor': u ^ v}[op]))
        self._uns('binop %s %r %r' % (op, a, b))

    def rounded(self, e):
        """the f64 nearest to the exact value e"""
        if isinstance(e, Fraction):
            return Flo(Fraction(float(e)))
        r = self.x.fresh('f64', z3.RealSort())
        a = z3.If(e < 0, -e, e) / (1 << 53)
        self.x.axiom(z3.And(r - e <= a, e - r <= a))
        return Flo(r)

    def flop(self, op, a, b):
        q = lambda v: z3.RealVal(str(v)) if isinstance(v, Fraction) else v
        known = isinstance(a, Fraction) and isinstance(b, Fraction)
        if not known:
            a, b = q(a), q(b)
        if op == 'Div':
            if self.x.choose(simp(b == 0) if not known else b == 0):
                self._uns('f64 division by zero')
            return self.rounded(a / b)
        if op in ('Add', 'Sub', 'Mul'):
            return self.rounded({'Add': lambda: a + b, 'Sub': lambda: a - b, 'Mul': lambda: a * b}[op]())
        if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            e = {'Eq': lambda: a == b, 'Ne': lambda: a != b, 'Lt': lambda: a < b, 'Le': lambda: a <= b, 'Gt': lambda: a > b, 'Ge': lambda: a >= b}[op]()
            return e if known else simp(e)
        self._uns('f64 ' + op)

    def ptrop(self, op, a, b, ty):
        if op == 'Offset':
            return self.ptr_offset(a, b)
        if op in ('Eq', 'Ne') and isinstance(a, Ptr) and isinstance(b, Ptr):
            same = a.root is b.root and a.path == b.path
            return same if op == 'Eq' else not same
        return Opaque('ptr arithmetic')

    def ptr_offset(self, p, n):
        n = simp(n)
        if isinstance(n, int) and n == 0:
            return p
        if isinstance(p, Ptr) and p.path and p.path[-1][0] == 'x':
            return Ptr(p.root, p.path[:-1] + (('x', simp(p.path[-1][1] + n)),), None)
        self._uns('pointer offset %r' % (p,))

    def cast(self, kind, v, to, frm):
        T = self.T
        tt = T[to]
        if kind == 'IntToInt':
            if isinstance(v, (Ptr, Opaque)):
                return Opaque('int')
            if is_bool(v):
                return b2i(v)
            if isinstance(v, Adt):     # field-less enum
                t = T[frm]
                return t['variants'][v.v]['disc']
            lo, hi, b = self.rng(to)
            if isinstance(v, int):
                return self.wrap(v, to)
            f = T[frm]
            if f['k'] == 'int' and f['bits'] <= b and not f['signed'] and lo == 0:
                return v
            if f['k'] == 'int' and f['bits'] < b and not f['signed']:
                return v
            if lo == 0 and f['k'] == 'int' and not f['signed']:
                return simp(v % (1 << b))
            return self.wrap(v, to)
        if kind == 'IntToFloat' and tt['n'] == 'f64' and is_int(v):
            if isinstance(v, int):
                return Flo(Fraction(float(v)))
            r = self.rounded(z3.ToReal(v))
            self.x.axiom(z3.Implies(z3.And(v <= 1 << 53, v >= -(1 << 53)), r.r == z3.ToReal(v)))
            return r
        if kind == 'FloatToInt' and isinstance(v, Flo):
            lo, hi, b = self.rng(to)
            if isinstance(v.r, Fraction):
                return max(lo, min(hi, int(v.r)))
            t = z3.If(v.r >= 0, z3.ToInt(v.r), -z3.ToInt(-v.r))
            return simp(z3.If(t < lo, lo, z3.If(t > hi, hi, t)))
        if kind.startswith('PointerCoercion'):
            if 'Unsize' in kind:
                return self.unsize(v, frm, to)
            return v
        if kind == 'PtrToPtr':
            return self.ptr_cast(v, to, frm)
        if kind in ('Transmute', 'BoxDerefTransmute'):
            return self.transmute(v, to, frm)
        if kind in ('PointerExposeAddress', 'PointerWithExposedProvenance'):
            return Opaque('addr')
        self._uns('cast ' + kind)

    def ptr_cast(self, v, to, frm):
        """*const A as *const B: slices, arrays and their elements share the place they point into"""
        T = self.T
        if not isinstance(v, Ptr) or 'to' not in T[to] or 'to' not in T[frm]:
            return v
        ft, tt = T[T[frm]['to']], T[T[to]['to']]
        fk, tk = ft['k'], tt['k']
        last = v.path[-1] if v.path else None
        if tk == 'array' and fk in ('slice', 'array') and ft['elem'] == tt['elem']:
            if last and last[0] == 's':
                return Ptr(v.root, v.path[:-1] + (('s', last[1], tt['len']),), None)
            if fk == 'array' and ft['len'] == tt['len']:
                return v
            return Ptr(v.root, v.path + (('s', 0, tt['len']),), None)
        if tk == 'array' and last and last[0] == 'x' and T[frm]['to'] == tt['elem']:
            return Ptr(v.root, v.path[:-1] + (('s', last[1], tt['len']),), None)
        if fk == 'array' and tk not in ('slice', 'str', 'dyn', 'array'):
            en, tn = T[ft['elem']]['n'], tt['n']
            if en == tn or tn == 'std::mem::MaybeUninit<%s>' % en or en == 'std::mem::MaybeUninit<%s>' % tn:
                if last and last[0] == 's':
                    return Ptr(v.root, v.path[:-1] + (('x', last[1]),), None)
                return Ptr(v.root, v.path + (('x', 0),), None)
            return v
        if fk in ('slice', 'str') and v.n is not None and tk not in ('slice', 'str', 'dyn'):
            if last and last[0] == 's':
                return Ptr(v.root, v.path[:-1] + (('x', last[1]),), None)
            return Ptr(v.root, v.path + (('x', 0),), None)
        return v

    def pointee(self, ty):
        t = self.T[ty]
        if 'to' in t:
            return t['to']
        if t['n'].startswith('std::ptr::NonNull<'):
            return t['args'][0]
        return None

    def ptr_transmute(self, v, to, frm):
        """a pointer to a (wrapped) array taken for a pointer to its elements"""
        T = self.T
        a, b = self.pointee(frm), self.pointee(to)
        if a is None or b is None or a == b or v.n is not None:
            return v
        path = v.path
        while T[a]['n'].startswith(('std::mem::ManuallyDrop<', 'std::mem::MaybeUninit<', 'std::mem::MaybeDangling<')):
            path = path + (('f', len(T[a]['variants'][0]['fields']) - 1),)
            a = T[a]['variants'][0]['fields'][-1][1]
        if T[a]['k'] == 'array' and T[a]['elem'] == b:
            return Ptr(v.root, pext(path, ('x', 0)), None)
        return v

    def unsize(self, v, frm, to):
        T = self.T
        f, t = T[frm], T[to]
        while isinstance(v, Adt) and len(v.f) >= 1:
            v = v.f[0]
        if f['k'] in ('ref', 'ptr') and t['k'] in ('ref', 'ptr'):
            ft, tt = T[f['to']], T[t['to']]
            if ft['k'] == 'array' and tt['k'] == 'slice':
                return Ptr(v.root, v.path + (('s', 0, ft['len']),) if v.path and v.path[-1][0] == 'x' and False else v.path, ft['len'])
            if tt['k'] == 'dyn':
                return Ptr(v.root, v.path, None) if isinstance(v, Ptr) else v
        if f['k'] == 'adt' and isinstance(v, Ptr):
            # Box<[T; N]> -> Box<[T]>
            a = f.get('args') or []
            if a and isinstance(a[0], int) and T[a[0]]['k'] == 'array':
                return Ptr(v.root, v.path, T[a[0]]['len'])
            return v
        if isinstance(v, (Opaque, Ptr)):
            return v
        self._uns('unsize %s -> %s' % (f['n'], t['n']))

    def transmute(self, v, to, frm):
        T = self.T
        t = T[to]
        f = T[frm]
        if isinstance(v, Rope):
            if t['k'] == 'int' and not t['signed']:
                return self.x.rint(v)
            if self.x.ty_is_pubkey(to):
                return self.x.rkey(v)
            if t['k'] == 'array' and self.x.is_u8(t['elem']):
                return v
        if is_int(v) and t['k'] == 'array' and self.x.is_u8(t['elem']):
            return Rope((('u', self.T[frm]['bits'] // 8, v),))
        if is_int(v) and t['k'] == 'int':
            return self.wrap(v, to) if isinstance(v, int) else v
        if is_int(v) and t['k'] == 'bool':
            return eq(v, 1)
        if isinstance(v, Uni):
            return v.v if t.get('kind') != 'Union' else v
        if isinstance(v, (Ptr, Opaque)):
            if t['k'] == 'int':
                return Opaque('addr')
            if isinstance(v, Ptr):
                return self.ptr_transmute(v, to, frm)
            return v
        if is_key(v) and t['k'] == 'array':
            return Rope((('k', v),))
        if t['k'] in ('ptr', 'ref') and isinstance(v, Adt):
            while isinstance(v, Adt) and v.f:
                v = v.f[0]
            return v
        if isinstance(v, Adt) and t['k'] == 'adt' and f['k'] == 'adt':
            return v
        if t['k'] == 'adt' and t.get('kind') == 'Struct' and f['k'] == 'int':
            fs = t['variants'][0]['fields']
            if len(fs) >= 1:
                return Adt(0, (v,))
        if v is None:
            return None
        if isinstance(v, Arr) and t['k'] == 'array':
            return v
        if t['k'] == 'adt' and t.get('kind') == 'Enum' and is_int(v):
            return self.enum_of(v, to)
        if isinstance(v, Adt) and f.get('kind') == 'Enum' and t['k'] == 'int':
            return f['variants'][v.v]['disc']
        self._uns('transmute %s -> %s of %r' % (f['n'], t['n'], v))

    def enum_of(self, v, ty):
        for i, va in enumerate(self.T[ty]['variants']):
            if not va['fields'] and self.x.choose(eq(v, va['disc'])):
                return Adt(i, ())
        raise Infeasible()

    def rvalue(self, fr, r, dty=None):
        k = r[0]
        x = self.x
        if k == 'use':
            return self.op(fr, r[1])
        if k == 'ref' or k == 'addr':
            p = self.place(fr, r[1])
            return p
        if k == 'bin':
            return self.binop(r[1], self.op(fr, r[2]), self.op(fr, r[3]), r[4])
        if k == 'cbin':
            a, b = self.op(fr, r[2]), self.op(fr, r[3])
            op, ty = r[1], r[4]
            if op in ('Shl', 'Shr'):
                bits = self.rng(ty)[2]
                if not isinstance(b, int):
                    self._uns('symbolic shift')
                return Adt(0, (self.binop(op, a, b, ty), b >= bits or b < 0))
            v = self.arith(op, a, b, ty)
            lo, hi, bits = self.rng(ty)
            if isinstance(v, int):
                return Adt(0, (self.wrap(v, ty), not (lo <= v <= hi)))
            c = []
            if op != 'Sub' or lo < 0:
                c.append(v > hi)
            if op == 'Sub' or lo < 0:
                c.append(v < lo)
            if x.choose(disj(*c)):
                return Adt(0, (self.wrap(v, ty), True))
            return Adt(0, (v, False))
        if k == 'adt':
            ty, var, ops, af = r[1], r[2], r[3], r[4]
            fs = tuple(self.op(fr, o) for o in ops)
            if af is not None:
                return Uni(fs[0])
            if x.ty_is_pubkey(ty):
                return x.rkey(fs[0])
            return Adt(var, fs)
        if k == 'tup':
            return Adt(0, tuple(self.op(fr, o) for o in r[1])) if r[1] else UNIT
        if k == 'arr':
            vs = [self.op(fr, o) for o in r[2]]
            if x.is_u8(r[1]):
                return Rope(tuple(('u', 1, v) for v in vs))
            return Arr(vs)
        if k == 'rep':
            v = self.op(fr, r[1])
            if x.is_u8(r[3]):
                if isinstance(v, int):
                    return C(bytes([v]) * r[2])
                return Rope(tuple(('u', 1, v) for _ in range(r[2])))
            return Arr([v] * r[2])
        if k == 'cast':
            return self.cast(r[1], self.op(fr, r[2]), r[3], r[4])
        if k == 'disc':
            v = self.read(fr, r[1])
            return self.discr(v, r[2])
        if k == 'len':
            p = self.place(fr, r[1])
            return p.n if p.n is not None else self.seqlen(x.load(p))
        if k == 'un':
            v = self.op(fr, r[2])
            if r[1] == 'Not':
                if is_bool(v):
                    return simp(neg(v))
                if isinstance(v, Opaque):
                    return v
                if not is_int(v):
                    self._uns('negation of %r' % (v,))
                lo, hi, b = self.rng(r[3])
                if lo == 0:
                    return simp(hi - v)
                return simp(-v - 1)
            if r[1] == 'Neg' and isinstance(v, Flo):
                return Flo(-v.r)
            if r[1] == 'Neg':
                return self.wrap(simp(0 - v), r[3])
            if r[1] == 'PtrMetadata':
                if isinstance(v, Ptr):
                    if v.n is not None:
                        return v.n
                    return self.seqlen(x.load(v)) if self.T[self.T[r[3]].get('to', 0)]['k'] in ('slice', 'str') else UNIT
                return Opaque('meta')
            self._uns('unop ' + r[1])
        if k == 'clo':
            return Clo(r[1], tuple(self.op(fr, o) for o in r[2]))
        if k == 'rawptr':
            a, b = self.op(fr, r[2][0]), self.op(fr, r[2][1])
            while isinstance(a, Adt) and a.f:
                a = a.f[0]
            if isinstance(a, Ptr):
                if is_int(b):
                    if a.path and a.path[-1][0] == 'x':
                        return Ptr(a.root, a.path[:-1] + (('s', a.path[-1][1], b),), b)
                    return Ptr(a.root, a.path, b)
                return a
            return Ptr(Cell(Opaque('raw')), (), b if is_int(b) else None)
        self._uns('rvalue ' + str(r[:2]))

    def discr(self, v, ty):
        t = self.T[ty]
        if isinstance(v, Adt):
            if t['k'] == 'adt' and t.get('kind') == 'Enum':
                return t['variants'][v.v]['disc']
            return 0
        if isinstance(v, Opaque):
            self._uns('discriminant of opaque %s' % v.d)
        if v is None:
            vs = t.get('variants') or []
            live = [q for q in vs if not any(self.T[ft]['k'] == 'never' for _, ft in q['fields'])]
            if len(live) == 1 and len(vs) > 1:
                return live[0]['disc']
            self._uns('discriminant of uninitialised value')
        return 0

    # ---- calls ----------------------------------------------------------------------------------
    def call(self, fid, args, argtys=None, destty=None):
        prog = self.prog
        f = self.F[fid]
        if self.x.log is not None:
            self.x.log.append(f['name'])
        k = prog.contracts.get(fid)
        if k is not None:
            import contracts
            r = contracts.apply(self, fid, k, args)
            if r is not NotImplemented:
                return r
        h = prog.handlers[fid]
        if h is None:
            h = prog.handlers[fid] = self.models.lookup(prog, fid) or False
        x = self.x
        if h is not False:
            try:
                r = h(self, f, args, argtys, destty)
            except BaseException:
                x.modelled.add(fid)
                raise
            if r is not NotImplemented:
                x.modelled.add(fid)
                return r
        if f.get('closure') is None:
            f['closure'] = bool(re.search(r'\{closure#\d+\}$', f['def']))
        if f['closure'] and len(args) == 2 and isinstance(args[1], Adt):
            args = [args[0]] + list(args[1].f)         # rust-call: arguments arrive as a tuple
        if 'body' not in f:
            for i, t in enumerate(self.T):             # a constructor used as a function
                if t['k'] == 'adt' and f['name'].startswith(t['n'].split('<')[0]) and 'variants' in t:
                    for vi, va in enumerate(t['variants']):
                        if len(va['fields']) == len(args) and f['name'] in (t['n'] + '::' + va['name'], t['n'].replace('<', '::<', 1) + '::' + va['name']):
                            return Adt(vi, tuple(args))
            raise Unsupported('no contract for %s at %s' % (f['name'], x.where()))
        return self.run(fid, args)

    def run(self, fid, args):
        f = self.F[fid]
        b = f['body']
        x = self.x
        x.called.add(fid)
        T = self.T
        fr = [Cell(None, i) for i in range(len(b['locals']))]
        argc = b['argc']
        if len(args) == argc:
            for i, a in enumerate(args):
                fr[i + 1].val = a
        elif argc == len(args) - 1 + (len(args[-1].f) if args and isinstance(args[-1], Adt) else 0):
            i = 1
            for a in args[:-1]:
                fr[i].val = a
                i += 1
            for a in args[-1].f:
                fr[i].val = a
                i += 1
        else:
            raise Unsupported('argument count of %s: %d for %d' % (f['name'], len(args), argc))
        x.depth += 1
        if x.depth > 200:
            raise Unsupported('call depth')
        x.frames.append(fr)
        x.loc.append([f['name'], 0])
        blocks = b['blocks']
        bb = 0
        visits = {}
        while True:
            bl = blocks[bb]
            n = visits.get(bb, 0) + 1
            visits[bb] = n
            if n > 600:
                raise Unsupported('loop without a contract at ' + x.where())
            x.loc[-1][1] = bl['l']
            x.steps += 1
            for s in bl['s']:
                k = s[0]
                if k == '=':
                    self.write(fr, s[1], self.rvalue(fr, s[2]))
                elif k == 'sd':
                    p = self.place(fr, s[1])
                    v = x.load(p)
                    x.store(p, Adt(s[2], v.f if isinstance(v, Adt) else ()))
                elif k == 'assume':
                    pass
                elif k == 'cno':
                    n = self.op(fr, s[3])
                    if not (isinstance(n, int) and n == 0):
                        v = self.models.content(self, self.models.span(self.op(fr, s[1]), n))
                        if not isinstance(v, (Rope, Arr)):
                            raise Unsupported('copy of %r at %s' % (v, x.where()))
                        x.store(self.models.span(self.op(fr, s[2]), n), v)
            t = bl['t']
            k = t[0]
            if k == 'goto':
                bb = t[1]
            elif k == 'sw':
                v = self.op(fr, t[1])
                bb = self.switch(v, t)
            elif k == 'ret':
                x.depth -= 1
                x.loc.pop()
                x.frames.pop()
                if x.sums and any(w['frame'] is fr and w['stage'] == 0 for w in x.sums.values()):
                    raise Unsupported('loop left before its end at ' + x.where())
                v = fr[0].val
                return UNIT if v is None else v
            elif k == 'drop':
                self.drop(self.read_maybe(fr, t[1]), t[3])
                bb = t[2]
            elif k == 'call':
                fn = t[1]
                args2 = [self.op(fr, o) for o in t[2]]
                if isinstance(fn, dict):
                    if 'ptr' in fn:
                        g = self.op(fr, fn['ptr'])
                        if not isinstance(g, FnItem) or g.fn is None:
                            raise Unsupported('call through %r' % (g,))
                        fid2 = g.fn
                    else:
                        raise Unsupported('unresolved call ' + fn['unresolved'])
                else:
                    fid2 = fn
                r = self.call(fid2, args2, t[5], t[6])
                if t[4] is None:
                    raise Panic('diverging call ' + self.F[fid2]['name'])
                self.write(fr, t[3], r)
                bb = t[4]
            elif k == 'assert':
                c = self.op(fr, t[1])
                m = t[3]
                if m.startswith('Misaligned') or m.startswith('NullP') or m.startswith('NullR'):
                    bb = t[4]
                else:
                    ok = x.choose(c if t[2] else neg(c))
                    if ok:
                        bb = t[4]
                    elif m.startswith('Overflow'):
                        # debug builds panic; release builds wrap and go on
                        x.flags.append('overflow: %s at %s' % (m, x.where()))
                        bb = t[4]
                    else:
                        raise Panic(m)
            elif k == 'unreachable':
                raise Infeasible()
            elif k in ('resume', 'abort'):
                raise Panic('unwind')
            else:
                raise Unsupported('terminator ' + k)

    def read_maybe(self, fr, p):
        try:
            return self.read(fr, p)
        except (Unsupported, IndexError, AttributeError, TypeError):
            return None

    def switch(self, v, t):
        x = self.x
        if isinstance(v, bool):
            v = 1 if v else 0
        if isinstance(v, int):
            ty = self.T[t[4]]
            if v < 0:
                v &= (1 << ty['bits']) - 1
            for val, bb in t[2]:
                if val == v:
                    return bb
            return t[3]
        if isinstance(v, z3.BoolRef):
            for val, bb in t[2]:
                if x.choose(v if val else z3.Not(v)):
                    return bb
            return t[3]
        if isinstance(v, (Opaque,)) or v is None:
            self._uns('switch on opaque value %r' % (v,))
        ty = self.T[t[4]]
        for val, bb in t[2]:
            if ty['k'] == 'int' and ty['signed'] and val >> (ty['bits'] - 1):
                val -= 1 << ty['bits']
            if x.choose(v == val):
                return bb
        return t[3]

    def drop(self, v, ty=None):
        """drop glue: only borrow guards have an effect on the model"""
        if v is None:
            return
        if isinstance(v, Guard):
            self.x.world.release(v)
        elif isinstance(v, Adt):
            for e in v.f:
                if isinstance(e, (Adt, Guard, Arr, VecV, Clo)):
                    self.drop(e)
        elif isinstance(v, Arr):
            for e in v.e:
                if isinstance(e, (Adt, Guard, Arr, VecV)):
                    self.drop(e)
        elif isinstance(v, VecV):
            self.drop(v.c)
        elif isinstance(v, Clo):
            for e in v.f:
                if isinstance(e, (Adt, Guard)):
                    self.drop(e)

    def call_value(self, f, args):
        """call a closure / function item value with an argument list"""
        fp = None
        while isinstance(f, Ptr):
            fp = f
            f = self.x.load(f)
        if isinstance(f, FnItem):
            return self.call(f.fn, list(args))
        if isinstance(f, Clo):
            c = self.T[f.ty]['call']
            for k in ('ref', 'mut', 'once'):
                if k in c:
                    fid = c[k]
                    byref = k != 'once'
                    break
            b = self.F[fid].get('body')
            if b is None:
                raise Unsupported('closure without body')
            # closure body: (self, args...) ; self by reference unless its own kind is FnOnce
            t1 = self.T[b['locals'][1]]
            selfv = (fp or Ptr(Cell(f, 'clo'), (), None)) if t1['k'] == 'ref' else f
            return self.run(fid, [selfv] + list(args)) if b['argc'] == 1 + len(args) else self.run(fid, [selfv, Adt(0, tuple(args))])
        raise Unsupported('call of %r' % (f,))
