"""Symbolic values of the verifier: keys, byte ropes, aggregates, pointers.

Integers are Python ints or z3 Int terms, booleans Python bools or z3 Bool terms, a public key is a z3
term of the uninterpreted sort Key.  Everything else is one of the classes below; all are immutable
except Cell (a memory cell, one per local / allocation)."""
import z3

Key = z3.DeclareSort('Key')
Bytes = z3.DeclareSort('Bytes')
Seeds = z3.DeclareSort('Seeds')
KeySet = z3.ArraySort(Key, z3.BoolSort())
IntS = z3.IntSort()

Sub = z3.Function('Sub', Bytes, IntS, IntS, Bytes)
KBytes = z3.Function('KBytes', Key, Bytes)
RdK = z3.Function('RdK', Bytes, IntS, Key)
RdI = {n: z3.Function('Rd%d' % n, Bytes, IntS, IntS) for n in range(1, 17)}
SeedsAt = z3.Function('SeedsAt', Bytes, IntS, Seeds)
SeedsLen = z3.Function('SeedsLen', Seeds, IntS)      # length of the borsh encoding
SeedsCnt = z3.Function('SeedsCnt', Seeds, IntS)
SeedsBytes = z3.Function('SeedsBytes', Seeds, Bytes)
SetAt = z3.Function('SetAt', Bytes, IntS, KeySet)
SetCard = z3.Function('SetCard', Bytes, IntS, IntS)
SetBytes = z3.Function('SetBytes', KeySet, Bytes)
Zeros = z3.Function('Zeros', IntS, Bytes)


class Unsupported(Exception):
    """the verifier cannot represent something: the check ends with an error, never with an alarm"""


def is_sym(x):
    return isinstance(x, z3.ExprRef)


def is_key(x):
    return isinstance(x, z3.ExprRef) and x.sort() == Key


def is_int(x):
    return (isinstance(x, int) and not isinstance(x, bool)) or isinstance(x, z3.ArithRef)


def is_bool(x):
    return isinstance(x, bool) or isinstance(x, z3.BoolRef)


def simp(x):
    """light simplification of an int/bool term back to a Python constant when possible"""
    if not isinstance(x, z3.ExprRef):
        return x
    y = z3.simplify(x)
    if z3.is_int_value(y):
        return y.as_long()
    if z3.is_true(y):
        return True
    if z3.is_false(y):
        return False
    return y


def tosmt(x):
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, int):
        return z3.IntVal(x)
    return x


def b2i(b):
    if isinstance(b, bool):
        return 1 if b else 0
    return z3.If(b, z3.IntVal(1), z3.IntVal(0))


def conj(*xs):
    out = []
    for x in xs:
        if x is True:
            continue
        if x is False:
            return False
        out.append(x)
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(*out)


def disj(*xs):
    out = []
    for x in xs:
        if x is False:
            continue
        if x is True:
            return True
        out.append(x)
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(*out)


def neg(x):
    if isinstance(x, bool):
        return not x
    return z3.Not(x)


def ite(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    return z3.If(c, tosmt(a), tosmt(b))


def imp(a, b):
    return disj(neg(a), b)


def eq(a, b):
    """equality of scalars (ints, bools, keys, seeds, sets)"""
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
        if a.eq(b):
            return True
        if a.sort() == Key and b.sort() == Key:
            if key_bytes(a) is not None and key_bytes(b) is not None:
                return False
        return a == b
    if isinstance(a, bool) and isinstance(b, bool):
        return a == b
    if is_bool(a) and is_bool(b):
        return tosmt(a) == tosmt(b)
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    return simp(tosmt(a) == tosmt(b))


_const_keys = {}
_key_bytes = {}
B58 = '123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz'


def b58(b):
    n = int.from_bytes(b, 'big')
    s = ''
    while n:
        n, r = divmod(n, 58)
        s = B58[r] + s
    return '1' * (len(b) - len(b.lstrip(b'\0'))) + s


def b58d(s):
    n = 0
    for c in s:
        n = n * 58 + B58.index(c)
    return n.to_bytes(32, 'big')


def const_key(b):
    b = bytes(b)
    if b not in _const_keys:
        t = z3.Const('key:' + b58(b), Key)
        _const_keys[b] = t
        _key_bytes[t.get_id()] = b
    return _const_keys[b]


def key_bytes(t):
    return _key_bytes.get(t.get_id())


class Rope:
    __slots__ = ('segs', '_len')

    def __init__(self, segs):
        self.segs = norm(segs)
        self._len = None

    def len(self):
        if self._len is None:
            n = 0
            for s in self.segs:
                n = n + seglen(s)
            self._len = simp(n)
        return self._len

    def __add__(self, o):
        return Rope(self.segs + o.segs)

    def __repr__(self):
        return 'Rope' + repr(list(self.segs))

    def const(self):
        """the bytes, if every byte is a constant"""
        out = b''
        for s in self.segs:
            if s[0] == 'c':
                out += s[1]
            elif s[0] == 'z' and isinstance(s[1], int):
                out += bytes(s[1])
            else:
                return None
        return out


def seglen(s):
    k = s[0]
    if k == 'c':
        return len(s[1])
    if k == 'u':
        return s[1]
    if k == 'k':
        return 32
    if k == 'o':
        return s[3]
    if k == 'ss':
        return SeedsLen(s[1])
    if k == 'set':
        return 4 + 32 * s[2]
    if k == 'z':
        return s[1]
    if k == 'sys':
        return s[2]
    raise Unsupported('seglen ' + k)


def norm(segs):
    out = []
    for s in segs:
        k = s[0]
        if k == 'u' and isinstance(s[2], int):
            s = ('c', s[2].to_bytes(s[1], 'little'))
            k = 'c'
        elif k == 'k':
            kb = key_bytes(s[1])
            if kb is not None:
                s = ('c', kb)
                k = 'c'
        elif k == 'z' and isinstance(s[1], int) and s[1] <= 256:
            s = ('c', bytes(s[1]))
            k = 'c'
        if k == 'c' and not s[1]:
            continue
        if k in ('o',) and isinstance(s[3], int) and s[3] == 0:
            continue
        if k == 'z' and isinstance(s[1], int) and s[1] == 0:
            continue
        if out:
            p = out[-1]
            if k == 'c' and p[0] == 'c':
                out[-1] = ('c', p[1] + s[1])
                continue
            if k == 'o' and p[0] == 'o' and p[1].eq(s[1]) and simp(tosmt(p[2]) + p[3] - s[2]) == 0 and \
                    isinstance(simp(tosmt(p[2]) + p[3] - s[2]), int):
                s = ('o', p[1], p[2], simp(tosmt(p[3]) + s[3]))
                out[-1] = s
                if s[1].decl().eq(KBytes) and s[2] == 0 and s[3] == 32 and isinstance(s[2], int) and isinstance(s[3], int):
                    out[-1] = ('k', s[1].arg(0))
                continue
        if k == 'o' and isinstance(s[2], int) and isinstance(s[3], int) and s[2] == 0 and s[3] == 32 and s[1].decl().eq(KBytes):
            s = ('k', s[1].arg(0))
        out.append(s)
    return tuple(out)


def C(b):
    return Rope((('c', bytes(b)),))


class Adt:
    """struct / tuple / enum value: variant index and fields"""
    __slots__ = ('v', 'f')

    def __init__(self, v, f):
        self.v = v
        self.f = f

    def __repr__(self):
        return 'Adt(%d,%r)' % (self.v, list(self.f))


UNIT = Adt(0, ())


class Arr:
    """array / slice contents with a concrete number of elements"""
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = tuple(e)

    def __repr__(self):
        return 'Arr%r' % (list(self.e),)


class VecV:
    """Vec<T>: c is a Rope (T = u8), an Arr, or an OSeq"""
    __slots__ = ('c',)

    def __init__(self, c):
        self.c = c

    def __repr__(self):
        return 'Vec(%r)' % (self.c,)


class OSeq:
    """opaque Vec<Vec<u8>> contents, or a view of it as a slice of byte slices"""
    __slots__ = ('s', 'kind')

    def __init__(self, s, kind='vec'):
        self.s = s
        self.kind = kind

    def __repr__(self):
        return 'OSeq(%r)' % (self.s,)


class SetV:
    """BTreeSet<Pubkey>"""
    __slots__ = ('a', 'n')

    def __init__(self, a, n):
        self.a = a
        self.n = n

    def __repr__(self):
        return 'Set(%r,%r)' % (self.a, self.n)


class StrV:
    __slots__ = ('s',)

    def __init__(self, s):
        self.s = s

    def __repr__(self):
        return 'Str(%r)' % (self.s,)


class Uni:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v


class Clo:
    """closure: type id and captures"""
    __slots__ = ('ty', 'f')

    def __init__(self, ty, f):
        self.ty = ty
        self.f = f


class FnItem:
    __slots__ = ('fn',)

    def __init__(self, fn):
        self.fn = fn


class Flo:
    """a finite f64: a Fraction, or a real that the rounding of each operation bounds"""
    __slots__ = ('r',)

    def __init__(self, r):
        self.r = r

    def __repr__(self):
        return 'f64(%s)' % (self.r,)


class Opaque:
    """a value nobody looks into (formatting arguments, error payloads)"""
    __slots__ = ('d',)

    def __init__(self, d):
        self.d = d

    def __repr__(self):
        return 'Opaque(%s)' % (self.d,)


class RcCell:
    """the Rc<RefCell<&mut u64>> / Rc<RefCell<&mut [u8]>> of an account"""
    __slots__ = ('kind', 'key')

    def __init__(self, kind, key):
        self.kind = kind
        self.key = key


class Guard:
    """Ref / RefMut of one of those"""
    __slots__ = ('kind', 'key', 'mut', 'gid')

    def __init__(self, kind, key, mut, gid):
        self.kind = kind
        self.key = key
        self.mut = mut
        self.gid = gid


class IterV:
    """slice iterator: pointer to the first element, next index, end index; or an iterator over owned values"""
    __slots__ = ('ptr', 'i', 'n', 'mode')

    def __init__(self, ptr, i, n, mode='ref'):
        self.ptr = ptr
        self.i = i
        self.n = n
        self.mode = mode


class SetIterV:
    """iterator over a SetV: the elements yielded so far (the order is left open)"""
    __slots__ = ('s', 'seen', 'mode')

    def __init__(self, s, seen, mode):
        self.s = s
        self.seen = seen
        self.mode = mode


class AccArr:
    """the top-level accounts slice"""
    __slots__ = ('keys', 'n')

    def __init__(self, keys, n):
        self.keys = keys
        self.n = n


class Cell:
    __slots__ = ('val', 'nm')

    def __init__(self, val=None, nm=''):
        self.val = val
        self.nm = nm

    def __repr__(self):
        return 'Cell<%s>' % self.nm


class Root:
    __slots__ = ('kind', 'key')

    def __init__(self, kind, key):
        self.kind = kind
        self.key = key

    def __repr__(self):
        return 'Root(%s,%s)' % (self.kind, self.key)


class Ptr:
    """pointer: root cell, path, slice length (None for thin pointers)"""
    __slots__ = ('root', 'path', 'n')

    def __init__(self, root, path=(), n=None):
        self.root = root
        self.path = path
        self.n = n

    def __repr__(self):
        return 'Ptr(%r,%r,%r)' % (self.root, self.path, self.n)


class Moved:
    pass
