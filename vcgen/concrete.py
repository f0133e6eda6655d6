"""From a solver model of a failed obligation to an input of the real program.

The model interprets keys, bytes, seed lists and key sets abstractly; here they get concrete values: program-derived
addresses are derived, account contents are built from what the path reads of them.  The path condition and the failed
obligation are then evaluated again on the concrete values: only when the whole path condition is true and the
obligation is false is the input a counterexample; the native run then confirms it (replay.py)."""
import hashlib
import z3
from values import *
import world
from world import LAM0, OWN0, Acctdata, Dlen0, OnCurve, FSeeds, BSeeds, SeedsValid, Exec, TopSigner, TopWritable, U64

P25519 = 2 ** 255 - 19
D25519 = -121665 * pow(121666, P25519 - 2, P25519) % P25519


class Fail(Exception):
    pass


def on_curve(b):
    """does the compressed Edwards point decompress?"""
    y = int.from_bytes(b, 'little') & ((1 << 255) - 1)
    y %= P25519
    u = (y * y - 1) % P25519
    v = (D25519 * y * y + 1) % P25519
    x2 = u * pow(v, P25519 - 2, P25519) % P25519
    return x2 == 0 or pow(x2, (P25519 - 1) // 2, P25519) == 1


def create_pda(seeds, pid):
    if len(seeds) > 16 or any(len(s) > 32 for s in seeds):
        return None
    h = hashlib.sha256(b''.join(seeds) + pid + b'ProgramDerivedAddress').digest()
    return None if on_curve(h) else h


def find_pda(seeds, pid):
    if len(seeds) > 15 or any(len(s) > 32 for s in seeds):
        raise Fail('seeds too long')
    for b in range(255, -1, -1):
        k = create_pda(list(seeds) + [bytes([b])], pid)
        if k is not None:
            return k, b
    raise Fail('no bump')


def stream(tag, n, start=0):
    out = b''
    i = start // 32
    while len(out) < n + start % 32:
        out += hashlib.sha256(('%s/%d' % (tag, i)).encode()).digest()
        i += 1
    return out[start % 32:start % 32 + n]


def subterms(ts):
    seen, out, todo = set(), [], list(ts)
    while todo:
        t = todo.pop()
        if not isinstance(t, z3.ExprRef) or t.get_id() in seen:
            continue
        seen.add(t.get_id())
        out.append(t)
        if z3.is_quantifier(t):
            continue
        todo += t.children()
    return out


def rope_terms(r):
    out = []
    for s in r.segs:
        for q in s[1:]:
            if isinstance(q, z3.ExprRef):
                out.append(q)
            elif isinstance(q, tuple) and s[0] == 'sys':
                out += val_terms(q[1])
    return out


def val_terms(v):
    if isinstance(v, z3.ExprRef):
        return [v]
    if isinstance(v, Rope):
        return rope_terms(v)
    if isinstance(v, Ptr):
        return val_terms(getattr(v.root, "val", None))
    if isinstance(v, VecV):
        return val_terms(v.c)
    if isinstance(v, OSeq):
        return [v.s]
    if isinstance(v, SetV):
        return [q for q in (v.a, v.n) if isinstance(q, z3.ExprRef)]
    if isinstance(v, Arr):
        return [t for e in v.e for t in val_terms(e)]
    if isinstance(v, Adt):
        return [t for e in v.f for t in val_terms(e)]
    if isinstance(v, (list, tuple)):
        return [t for e in v for t in val_terms(e)]
    return []


class Buf:
    """an infinite stream of bytes, written where something reads it"""

    def __init__(self, tag):
        self.tag = tag
        self.b = {}

    def put(self, off, bs):
        for i, c in enumerate(bs):
            self.b[off + i] = c

    def get(self, off, n):
        out = bytearray(stream(self.tag, n, off)) if n > 0 else bytearray()
        if n > 0:
            if n < len(self.b):
                for i in range(n):
                    if off + i in self.b:
                        out[i] = self.b[off + i]
            else:
                for i, c in self.b.items():
                    if off <= i < off + n:
                        out[i - off] = c
        return bytes(out)


class Conc:
    def __init__(self, s, m, terms):
        self.s, self.x, self.w, self.m = s, s.x, s.x.world, m
        self.terms = subterms(terms)
        self.kv, self.busy, self.memo = {}, set(), {}
        self.bufs, self.seedv, self.sets = {}, {}, {}
        self.taken = set()
        self.same_as = {}
        self.derive = {}
        for t in self.terms:
            if t.sort().eq(Key):
                self.note_key(t)
        for v, ds in self.derive.items():
            ps = [d[1] for d in ds if d[0] == 'pat']
            for d in ds:
                if d[0] == 'seeds' and ps:
                    self.same_as[self.mv(d[1])] = ps[0]
        for t in self.terms:
            if t.sort().eq(Seeds):
                self.seeds(t)
        self.fill()

    # ---- keys ------------------------------------------------------------------------------------
    def mv(self, t):
        return str(self.m.eval(t, model_completion=True))

    def mi(self, t):
        if isinstance(t, int):
            return int(t)
        v = self.m.eval(tosmt(t), model_completion=True)
        if not z3.is_int_value(v):
            raise Fail('no integer value for %s' % t)
        return v.as_long()

    def mb(self, t):
        if isinstance(t, bool):
            return t
        return z3.is_true(self.m.eval(t, model_completion=True))

    def note_key(self, t):
        v = self.mv(t)
        b = key_bytes(t)
        if b is not None:
            if self.kv.setdefault(v, b) != b:
                raise Fail('two constants are one key')
            return
        p = self.w.pdas.get(t.get_id())
        if p is not None and p[3].eq(t):
            self.derive.setdefault(v, []).append(('pat', p, t))
        elif t.decl().eq(FSeeds):
            self.derive.setdefault(v, []).append(('seeds', t.arg(0), t.arg(1)))
        elif t.num_args() and t.decl().name() in ('pda_other', 'pda_other_seeds'):
            self.derive.setdefault(v, []).append(('other', t))

    def key(self, t):
        b = key_bytes(t)
        if b is not None:
            return b
        return self.keyval(self.mv(t), t)

    def pat_seeds(self, p):
        """the seeds of a pattern: how the bytes are cut does not matter"""
        pat, args, pid, t = p
        args = list(args)
        out = b''
        for k, v in pat:
            if k == 'c':
                out += v
            elif k == 'K':
                out += self.key(args.pop(0))
            else:
                out += self.mi(args.pop(0)).to_bytes(v, 'little')
        return [out[i:i + 32] for i in range(0, len(out), 32)], self.key(pid)

    def one(self, d):
        if d[0] == 'pat':
            return find_pda(*self.pat_seeds(d[1]))[0]
        if d[0] == 'seeds':
            return find_pda(self.seeds(d[1])[0], self.key(d[2]))[0]
        t = d[1]
        if t.decl().name() == 'pda_other_seeds':
            sd, pid, bump = self.seeds(t.arg(0))[0], self.key(t.arg(2)), self.mi(t.arg(1))
        else:
            base = t.arg(0)
            p = self.w.pdas.get(base.get_id())
            if p is None:
                raise Fail('address with another bump')
            (sd, pid), bump = self.pat_seeds(p), self.mi(t.arg(1))
        k = create_pda(list(sd) + [bytes([bump])], pid)
        if k is None:
            raise Fail('bump gives no address')
        return k

    def keyval(self, v, t):
        if v in self.kv:
            return self.kv[v]
        if v in self.busy:
            raise Fail('an address derived from itself')
        self.busy.add(v)
        ds = self.derive.get(v)
        if ds:
            ks = {self.one(d) for d in ds}
            if len(ks) > 1:
                raise Fail('one key with several derivations')
            k = ks.pop()
        else:
            want = self.mb(OnCurve(t))
            i = 0
            while True:
                k = stream('key/%s/%d' % (v, i), 32)
                if on_curve(k) == want:
                    break
                i += 1
        self.busy.discard(v)
        if k in self.taken:
            raise Fail('two keys coincide')
        self.taken.add(k)
        self.kv[v] = k
        return k

    # ---- seed lists and key sets ---------------------------------------------------------------------
    def seeds(self, t):
        v = self.mv(t)
        if v not in self.seedv:
            n, L = self.mi(SeedsCnt(t)), self.mi(SeedsLen(t))
            p = self.same_as.get(v)
            if p is not None:
                # a list of seeds that derives the address of a pattern: the pattern's elements
                args, out = list(p[1]), []
                for k, q in p[0]:
                    out.append(q if k == 'c' else self.key(args.pop(0)) if k == 'K' else self.mi(args.pop(0)).to_bytes(q, 'little'))
                if len(out) != n or 4 + sum(4 + len(e) for e in out) != L:
                    raise Fail('seed list of another form than the address it derives')
                self.seedv[v] = out
                return self.seeds(t)
            rest = L - 4 - 4 * n
            if n < 0 or n > 64 or rest < 0 or n == 0 and rest or rest > 100000:
                raise Fail('seed list of %d elements in %d bytes' % (n, L))
            out = []
            for i in range(n):
                k = min(rest, 32) if i < n - 1 else rest
                rest -= k
                out.append(stream('seed/%s/%d' % (v, i), k))
            self.seedv[v] = out
        out = self.seedv[v]
        return out, len(out).to_bytes(4, 'little') + b''.join(len(e).to_bytes(4, 'little') + e for e in out)

    def keyset(self, t):
        """a set of keys as a python set"""
        if z3.is_store(t):
            s = set(self.keyset(t.arg(0)))
            k = self.key(t.arg(1))
            (s.add if self.ev(t.arg(2)) else s.discard)(k)
            return frozenset(s)
        if z3.is_const_array(t):
            if self.ev(t.arg(0)):
                raise Fail('infinite set')
            return frozenset()
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
            return self.keyset(t.arg(1) if self.ev(t.arg(0)) else t.arg(2))
        v = t.get_id()
        if v not in self.sets:
            mem = {}
            # only keys whose membership in some set is looked at
            for e in self.terms:
                if e.decl().kind() == z3.Z3_OP_SELECT and e.sort().eq(z3.BoolSort()) and e.arg(1).sort().eq(Key) or z3.is_store(e) and e.sort().eq(KeySet):
                    mem.setdefault(self.mv(e.arg(1)), e.arg(1))
            self.sets[v] = (t, frozenset(self.key(q) for q in mem.values() if self.mb(z3.Select(t, q))))
            if t.num_args() == 0 and t.decl().name().endswith('.set'):
                c = self.mi(z3.Int(t.decl().name()[:-3] + 'card'))
                self.sets[v] = (t, self.sized(t, c))
        return self.sets[v][1]

    def sized(self, t, card):
        s = set(self.keyset(t))
        if len(s) > card or card > 2000:
            raise Fail('set of %d keys with %d known members' % (card, len(s)))
        i = 0
        while len(s) < card:
            s.add(stream('member/%d' % i, 32))
            i += 1
        return frozenset(s)

    def enc_set(self, s):
        return len(s).to_bytes(4, 'little') + b''.join(sorted(s))

    # ---- bytes ------------------------------------------------------------------------------------------
    def buf(self, name):
        if name not in self.bufs:
            self.bufs[name] = Buf(str(name))
        return self.bufs[name]

    def base(self, t):
        """a byte string by name: ('buf', name) or ('fix', bytes)"""
        n = t.decl().name()
        d = t.decl()
        if d.kind() == z3.Z3_OP_ITE:
            return self.base(t.arg(1) if self.ev(t.arg(0)) else t.arg(2))
        if d.eq(Acctdata):
            return ('buf', 'acct/' + self.key(t.arg(0)).hex())
        if d.eq(KBytes):
            return ('fix', self.key(t.arg(0)))
        if d.eq(SeedsBytes):
            return ('fix', self.seeds(t.arg(0))[1])
        if d.eq(SetBytes):
            return ('fix', self.enc_set(self.keyset(t.arg(0))))
        if n == 'SeedEl':
            e = self.seeds(t.arg(0))[0]
            i = self.ev(t.arg(1))
            return ('fix', e[i] if 0 <= i < len(e) else b'')
        if d.eq(Zeros):
            return ('fix', bytes(self.ev(t.arg(0))))
        if n.startswith('IntBytes'):
            k = int(n[8:])
            return ('fix', self.ev(t.arg(0)).to_bytes(k, 'little'))
        if t.num_args() == 0 and n.startswith('bytes:'):
            return ('fix', bytes.fromhex(n[6:]))
        if t.num_args() == 0:
            return ('buf', n)
        if d.eq(Sub):
            return ('fix', self.slice(t.arg(0), self.ev(t.arg(1)), self.ev(t.arg(2))))
        raise Fail('bytes ' + n)

    def slice(self, t, off, n):
        if n < 0 or off < 0:
            return b''
        k, v = self.base(t)
        if n > 2000000:
            raise Fail('%d bytes' % n)
        if k == 'fix':
            return (v + bytes(max(0, off + n - len(v))))[off:off + n]
        return self.buf(v).get(off, n)

    def fill(self):
        """give every opaque byte string the content the path reads from it"""
        subs, reads, structs = [], [], []
        for t in self.terms:
            d = t.decl()
            if d.eq(Sub):
                subs.append(t)
            elif d.eq(RdK) or any(d.eq(f) for f in RdI.values()):
                reads.append(t)
            elif d.eq(SeedsAt) or d.eq(SetAt):
                structs.append(t)
        lens = [(self.mi(t.arg(2)), t) for t in subs]
        for n, t in sorted(lens, key=lambda p: -p[0]):
            k, v = self.base(t.arg(0))
            if k == 'buf' and 0 < n <= 2000000:
                self.buf(v).put(self.mi(t.arg(1)), stream('sub/' + self.mv(t), n))
        cards = {}
        for t in self.terms:
            if t.decl().eq(SetCard):
                cards[(self.mv(t.arg(0)), self.mi(t.arg(1)))] = self.mi(t)
        for t in structs:
            k, v = self.base(t.arg(0))
            off = self.mi(t.arg(1))
            if t.decl().eq(SeedsAt):
                e = self.seeds(t)[1]
            else:
                c = cards.get((self.mv(t.arg(0)), off))
                ks = self.keyset(t)
                e = self.enc_set(self.sized(t, len(ks) if c is None else c))
                if c is not None:
                    self.sets[t.get_id()] = (t, self.sized(t, c))
                    # a stored list may repeat a member
                    n = self.mi(RdI[4](t.arg(0), t.arg(1)))
                    if c < n < 100000 and c > 0:
                        e = n.to_bytes(4, 'little') + e[4:] + e[-32:] * (n - c)
            if k == 'buf':
                self.buf(v).put(off, e)
        for t in reads:
            k, v = self.base(t.arg(0))
            if k != 'buf':
                continue
            off = self.mi(t.arg(1))
            if t.decl().eq(RdK):
                self.buf(v).put(off, self.key(t))
            else:
                n = [q for q, f in RdI.items() if t.decl().eq(f)][0]
                val = self.mi(t)
                if 0 <= val < 256 ** n:
                    self.buf(v).put(off, val.to_bytes(n, 'little'))

    # ---- evaluation on the concrete values ------------------------------------------------------------------
    def sel(self, arr, k):
        while True:
            if z3.is_store(arr):
                if self.key(arr.arg(1)) == k:
                    return self.ev(arr.arg(2))
                arr = arr.arg(0)
            elif arr.decl().kind() == z3.Z3_OP_ITE:
                arr = arr.arg(1) if self.ev(arr.arg(0)) else arr.arg(2)
            else:
                return arr

    def ev(self, t):
        if not isinstance(t, z3.ExprRef):
            return t
        i = t.get_id()
        if i not in self.memo:
            self.memo[i] = (t, self.ev0(t))
        return self.memo[i][1]

    def ev0(self, t):
        d = t.decl()
        k = d.kind()
        K = z3
        c = t.children()
        so = t.sort()
        if k == K.Z3_OP_ITE and not so.eq(KeySet):
            return self.ev(c[1] if self.ev(c[0]) else c[2])
        if k == K.Z3_OP_SELECT:
            kk = self.key(c[1])
            if so.eq(z3.BoolSort()):
                return kk in self.keyset(c[0])
            a = self.sel(c[0], kk)
            if isinstance(a, z3.ExprRef) and z3.is_array(a):
                if so.eq(Key):
                    return self.key(z3.Select(a, c[1]))
                return self.mi(z3.Select(a, c[1]))
            return a
        if so.eq(Key):
            return self.key(t)
        if so.eq(IntS):
            if z3.is_int_value(t):
                return t.as_long()
            if k == K.Z3_OP_ADD:
                return sum(self.ev(q) for q in c)
            if k == K.Z3_OP_SUB:
                v = self.ev(c[0])
                for q in c[1:]:
                    v -= self.ev(q)
                return v
            if k == K.Z3_OP_UMINUS:
                return -self.ev(c[0])
            if k == K.Z3_OP_MUL:
                v = 1
                for q in c:
                    v *= self.ev(q)
                return v
            if k in (K.Z3_OP_IDIV, K.Z3_OP_DIV):
                a, b = self.ev(c[0]), self.ev(c[1])
                if b <= 0:
                    raise Fail('division')
                return a // b
            if k in (K.Z3_OP_MOD,):
                a, b = self.ev(c[0]), self.ev(c[1])
                if b <= 0:
                    raise Fail('modulo')
                return a % b
            for n, f in RdI.items():
                if d.eq(f):
                    return int.from_bytes(self.slice(c[0], self.ev(c[1]), n), 'little')
            if d.eq(SeedsCnt):
                return len(self.seeds(c[0])[0])
            if d.eq(SeedsLen):
                return len(self.seeds(c[0])[1])
            if d.name() == 'SeedElLen':
                e, j = self.seeds(c[0])[0], self.ev(c[1])
                return len(e[j]) if 0 <= j < len(e) else self.mi(t)
            if d.eq(BSeeds):
                return find_pda(self.seeds(c[0])[0], self.key(c[1]))[1]
            if d.name().startswith('bumppda['):
                for p in self.w.pdas.values():
                    if 'bump' + p[3].decl().name() == d.name() and all(a.eq(b) for a, b in zip(p[3].children(), c)):
                        return find_pda(*self.pat_seeds(p))[1]
                raise Fail('bump')
            return self.mi(t)
        if so.eq(z3.BoolSort()):
            if k == K.Z3_OP_TRUE:
                return True
            if k == K.Z3_OP_FALSE:
                return False
            if k == K.Z3_OP_AND:
                return all(self.ev(q) for q in c)
            if k == K.Z3_OP_OR:
                return any(self.ev(q) for q in c)
            if k == K.Z3_OP_NOT:
                return not self.ev(c[0])
            if k == K.Z3_OP_IMPLIES:
                return not self.ev(c[0]) or self.ev(c[1])
            if k == K.Z3_OP_XOR:
                return self.ev(c[0]) != self.ev(c[1])
            if k == K.Z3_OP_LE:
                return self.ev(c[0]) <= self.ev(c[1])
            if k == K.Z3_OP_LT:
                return self.ev(c[0]) < self.ev(c[1])
            if k == K.Z3_OP_GE:
                return self.ev(c[0]) >= self.ev(c[1])
            if k == K.Z3_OP_GT:
                return self.ev(c[0]) > self.ev(c[1])
            if k in (K.Z3_OP_EQ, K.Z3_OP_DISTINCT, K.Z3_OP_IFF if hasattr(K, 'Z3_OP_IFF') else K.Z3_OP_EQ):
                s0 = c[0].sort()
                if s0.eq(Bytes):
                    vs = [self.whole(q) for q in c]
                elif s0.eq(Seeds):
                    vs = [self.mv(q) for q in c]
                elif s0.eq(KeySet):
                    vs = [self.keyset(q) for q in c]
                elif s0.kind() == z3.Z3_ARRAY_SORT:
                    return self.mb(t)
                else:
                    vs = [self.ev(q) for q in c]
                if k == K.Z3_OP_DISTINCT:
                    return len(set(vs)) == len(vs)
                return vs[0] == vs[1]
            if d.eq(OnCurve):
                return on_curve(self.key(c[0]))
            if d.eq(SeedsValid):
                e = self.seeds(c[0])[0]
                return len(e) <= 15 and all(len(q) <= 32 for q in e)
            return self.mb(t)
        raise Fail('term %s' % d.name())

    def whole(self, t):
        if t.decl().eq(Sub):
            return self.slice(t.arg(0), self.ev(t.arg(1)), self.ev(t.arg(2)))
        k, v = self.base(t)
        return v if k == 'fix' else ('name', v)

    def rope(self, r):
        out = b''
        for s in r.segs:
            k = s[0]
            if k == 'c':
                out += s[1]
            elif k == 'o':
                out += self.slice(s[1], self.ev(s[2]), self.ev(s[3]))
            elif k == 'z':
                out += bytes(self.ev(s[1]))
            elif k == 'u':
                out += (self.ev(s[2]) % 256 ** s[1]).to_bytes(s[1], 'little')
            elif k == 'k':
                out += self.key(s[1])
            elif k == 'ss':
                out += self.seeds(s[1])[1]
            elif k == 'set':
                out += self.enc_set(self.sized(s[1], self.ev(s[2])))
            else:
                raise Fail('segment ' + k)
        return out
