"""Assumed contracts on functions outside this repository: the Rust standard library, borsh, bytemuck,
bincode and the Solana SDK.  Everything of the repository itself is executed from its own MIR.

A handler is `h(machine, fn, args, argtys, destty)`; returning NotImplemented falls through to the
function's own MIR."""
import re
import z3
from values import *
from engine import Panic, Abort, Infeasible, pext
import world as W

DEF = {}
RX = []


def d(*names):
    def deco(h):
        for n in names:
            DEF[n] = h
        return h
    return deco


def rx(*pats):
    def deco(h):
        for p in pats:
            RX.append((re.compile(p), h))
        return h
    return deco


# library functions executed from their own MIR although there is an assumed contract for them (it remains the fallback)
NATIVE = re.compile('|'.join('^(?:%s)$' % s for s in (
    r'<T as std::convert::From<T>>::from', r'<\[T; N\] as borsh::Borsh(S|Des)erialize>::(de)?serialize(_reader)?', r'<\[T\] as std::convert::As(Mut|Ref)<\[T\]>>::as_(mut|ref)',
    r'<(bool|u8|u16|u32|u64) as borsh::BorshDeserialize>::deserialize_reader', r'<solana_program::program_error::ProgramError as std::convert::From<std::io::Error>>::from',
    r'<solana_program::solana_rent::Rent as std::default::Default>::default', r'<std::string::String as std::ops::Deref>::deref', r'std::hint::must_use',
    r'core::num::<impl u\d+>::((to|from)_le_bytes|checked_(add|sub|mul|div)|saturating_sub)', r'core::slice::<impl \[T\]>::(is_empty|len|split_at|copy_from_slice)',
    r'core::slice::index::<impl std::ops::Index(Mut)?<I> for \[T\]>::index(_mut)?', r'std::array::<impl std::convert::TryFrom<&\[T\]> for \[T; N\]>::try_from',
    r'solana_program::program::invoke(_signed)?', r'solana_program::solana_pubkey::Pubkey::to_bytes', r'std::cmp::PartialEq::ne',
    r'std::cmp::impls::.*', r'<solana_program::solana_pubkey::Pubkey as std::(cmp::PartialEq|convert::AsRef<\[u8\]>)>::(eq|as_ref)', r'std::mem::(drop|size_of)',
    r'solana_program::instruction::Instruction::new_with_bincode', r"solana_program::solana_account_info::AccountInfo::<'a>::assign",
    r'std::array::<impl std::ops::Index<I> for \[T; N\]>::index', r'std::array::equality::.*')))


def lookup(prog, fid):
    f = prog.F[fid]
    if prog.native and 'body' in f and f['kind'] != 'intrinsic' and NATIVE.search(f['def']):
        return None
    h = DEF.get(f['def'])
    if h is not None:
        return h
    if f['kind'] == 'intrinsic':
        return intrinsic
    for p, h in RX:
        if p.search(f['name']) or p.search(f['def']):
            return h
    return None


# ---- helpers ------------------------------------------------------------------------------------
def none():
    return Adt(0, ())


def some(v):
    return Adt(1, (v,))


def ok(v=UNIT):
    return Adt(0, (v,))


def err(v):
    return Adt(1, (v,))


def rty(m, f, destty):
    if destty is not None:
        return destty
    if 'body' in f:
        return f['body']['locals'][0]
    raise Unsupported('unknown result type of ' + f['name'])


def variant(m, ty, name):
    for i, v in enumerate(m.T[ty]['variants']):
        if v['name'] == name:
            return i
    raise Unsupported('no variant %s in %s' % (name, m.T[ty]['n']))


def result_err_ty(m, ty):
    return [a for a in m.T[ty]['args'] if isinstance(a, int)][1]


def perr(m, f, destty, name):
    """Err(ProgramError::name)"""
    t = result_err_ty(m, rty(m, f, destty))
    return err(Adt(variant(m, t, name), ()))


def garg(m, f, i=0):
    """i-th type argument"""
    ts = [a for a in f['args'] if isinstance(a, int)]
    return ts[i]


def unbox(v):
    while isinstance(v, Adt) and len(v.f) >= 1:
        v = v.f[0]
    return v


def content(m, p):
    """contents of a slice / vec / array pointer"""
    x = m.x
    v = x.load(p)
    while isinstance(v, Ptr):
        p = v
        v = x.load(p)
    if isinstance(v, VecV):
        v = v.c
    if isinstance(v, Rope) and p.n is not None and not (p.path and p.path[-1][0] == 's'):
        n = v.len()
        dd = simp(tosmt(n) - p.n)
        if not (isinstance(dd, int) and dd == 0):
            v = x.rslice(v, 0, p.n)
    if is_key(v):
        v = Rope((('k', v),))
    return v


def rope_of(m, p):
    v = content(m, p)
    if isinstance(v, StrV):
        return C(v.s.encode())
    if isinstance(v, Arr) and not v.e:
        return Rope(())
    if not isinstance(v, Rope):
        raise Unsupported('bytes expected, got %r at %s' % (v, m.x.where()))
    return v


def plen(m, p):
    if p.n is not None:
        return p.n
    v = m.x.load(p)
    if isinstance(v, VecV):
        v = v.c
    return m.seqlen(v)


def new_slice(v, n=None, nm='tmp'):
    if n is None:
        n = v.len() if isinstance(v, Rope) else (SeedsCnt(v.s) if isinstance(v, OSeq) else len(v.e))
    return Ptr(Cell(v, nm), (), n)


def vec_ptr(m, p):
    """&Vec<T> -> &[T]"""
    v = m.x.load(p)
    while isinstance(v, Ptr):
        p = v
        v = m.x.load(p)
    if isinstance(v, Opaque):
        return Ptr(Cell(v), (), 0)
    if not isinstance(v, VecV):
        raise Unsupported('vec expected, got %r at %s' % (v, m.x.where()))
    return Ptr(p.root, p.path + (('w',),), m.seqlen(v.c))


def empty(m, elty):
    return Rope(()) if m.x.is_u8(elty) else Arr(())


# ---- panics, formatting, logging ------------------------------------------------------------------
@rx(r'^core::panicking', r'^std::rt::', r'panic_already_', r'unwrap_failed', r'expect_failed', r'slice_index_fail', r'copy_from_slice.*len_mismatch', r'^std::panicking',
    r'begin_panic', r'slice_(start|end|index)', r'handle_alloc_error', r'slice::index::slice_')
def h_panic(m, f, a, at, dt):
    raise Panic(f['name'])


@rx(r'fmt::Arguments', r'fmt::rt::Argument', r'^std::fmt::format', r'^alloc::fmt', r' as std::fmt::(Debug|Display)>', r'std::string::ToString', r'^std::string::String', r'^<std::string::String',
    r'std::hint::must_use', r'num_enum::TryFromPrimitiveError.*::new', r'std::boxed::convert::', r'alloc::io::error', r'std::io::error', r'std::io::Error>?::new', r'^std::io::Error', r'as std::error::Error>', r'<std::io::Error as std::convert::From')
def h_opaque(m, f, a, at, dt):
    if f['def'].startswith('<std::string::String as std::ops::Deref'):
        return Ptr(Cell(Opaque('string')), (), 0)
    if f['def'].startswith('std::hint::must_use'):
        return a[0]
    return Opaque(f['def'])


@rx(r'^solana_program::log::', r'^solana_msg::', r'sol_log')
def h_unit(m, f, a, at, dt):
    return UNIT


@rx(r'^<std::io::ErrorKind as std::cmp::PartialEq>::(eq|ne)$')
def h_errkind(m, f, a, at, dt):
    return m.x.fresh('error_kind', z3.BoolSort())


@rx(r'ProgramError as std::convert::From<std::io::Error>>::from')
def h_ioerr(m, f, a, at, dt):
    return Adt(variant(m, rty(m, f, dt), 'BorshIoError'), (Opaque('io error'),))


@rx(r'ProgramError as std::fmt|PrintProgramError>::print')
def h_print(m, f, a, at, dt):
    return UNIT


# ---- smart pointers ---------------------------------------------------------------------------------
@rx(r'^<std::rc::Rc<.*> as std::ops::Deref>::deref$', r'^<std::rc::Rc<T, A> as std::ops::Deref>::deref')
def h_rc_deref(m, f, a, at, dt):
    v = m.x.load(a[0])
    if isinstance(v, RcCell):
        return Ptr(Cell(v, 'rc'))
    raise Unsupported('Rc deref of %r' % (v,))


@rx(r'^<std::rc::Rc<.*> as std::clone::Clone>::clone$')
def h_rc_clone(m, f, a, at, dt):
    return m.x.load(a[0])


def _borrow(m, p, mut):
    v = m.x.load(p)
    if not isinstance(v, RcCell):
        raise Unsupported('RefCell of %r' % (v,))
    return m.x.world.acquire(v.kind, v.key, mut)


@d('std::cell::RefCell::<T>::borrow', 'std::cell::RefCell::<T>::borrow_mut')
def h_borrow(m, f, a, at, dt):
    g = _borrow(m, a[0], f['def'].endswith('mut'))
    if g is None:
        raise Panic('already borrowed')
    return g


@d('std::cell::RefCell::<T>::try_borrow', 'std::cell::RefCell::<T>::try_borrow_mut')
def h_try_borrow(m, f, a, at, dt):
    g = _borrow(m, a[0], f['def'].endswith('mut'))
    return err(UNIT) if g is None else ok(g)


@rx(r'^<std::cell::Ref(Mut)?<.*> as std::ops::Deref(Mut)?>::deref(_mut)?$')
def h_ref_deref(m, f, a, at, dt):
    g = m.x.load(a[0])
    if isinstance(g, Ptr):
        return g
    if not isinstance(g, Guard):
        raise Unsupported('Ref of %r' % (g,))
    return Ptr(Root(g.kind + 'cell', g.key))


@d('std::mem::drop')
def h_drop(m, f, a, at, dt):
    m.drop(a[0])
    return UNIT


@d('std::mem::forget')
def h_forget(m, f, a, at, dt):
    return UNIT


@d('std::mem::replace')
def h_replace(m, f, a, at, dt):
    v = m.x.load(a[0])
    m.x.store(a[0], a[1])
    return v


@d('std::mem::swap')
def h_swap(m, f, a, at, dt):
    v, w = m.x.load(a[0]), m.x.load(a[1])
    m.x.store(a[0], w)
    m.x.store(a[1], v)
    return UNIT


@d('std::mem::take')
def h_take(m, f, a, at, dt):
    v = m.x.load(a[0])
    if isinstance(v, VecV):
        m.x.store(a[0], VecV(Rope(()) if isinstance(v.c, Rope) else Arr(())))
        return v
    return NotImplemented


@d('std::mem::zeroed')
def h_zeroed(m, f, a, at, dt):
    ty = garg(m, f)
    return m.x.decode(C(bytes(m.x.size_of(ty))), ty)


@d('std::mem::size_of')
def h_size_of(m, f, a, at, dt):
    return m.x.size_of(garg(m, f))


@d('std::mem::size_of_val')
def h_size_of_val(m, f, a, at, dt):
    v = content(m, a[0])
    if isinstance(v, Rope):
        return v.len()
    return m.x.size_of(garg(m, f))


@d('std::slice::from_ref', 'std::slice::from_mut', 'std::array::from_ref')
def h_from_ref(m, f, a, at, dt):
    if f['def'].endswith('from_mut'):
        raise Unsupported('slice::from_mut')
    v = m.x.load(a[0])
    if m.x.is_u8(garg(m, f)):
        return Ptr(Cell(Rope((('u', 1, v),)), 'from_ref'), (), 1)
    return Ptr(Cell(Arr((v,)), 'from_ref'), (), 1)


@d('std::boxed::Box::<T>::new')
def h_box_new(m, f, a, at, dt):
    return Ptr(Cell(a[0], 'box'))


@rx(r'^std::boxed::Box::<.*>::new_uninit', r'^std::boxed::box_new_uninit')
def h_box_uninit(m, f, a, at, dt):
    return Ptr(Cell(None, 'box'))


@d('std::boxed::box_assume_init_into_vec_unsafe')
def h_box_vec(m, f, a, at, dt):
    v = m.x.load(unbox(a[0]))
    while isinstance(v, (Adt, Uni)):
        if isinstance(v, Uni):
            v = v.v
        else:
            v = [e for e in v.f if e is not None][0]
    return VecV(v)


@rx(r'^std::slice::<impl \[.*\]>::into_vec')
def h_into_vec(m, f, a, at, dt):
    return VecV(content(m, unbox(a[0])))


# ---- account infos ------------------------------------------------------------------------------------
def infokey(m, ai):
    if isinstance(ai, Ptr):
        ai = m.x.load(ai)
    while isinstance(ai, Ptr):
        ai = m.x.load(ai)
    return m.x.load(ai.f[0])


@rx(r'AccountInfo::<\'a>::(realloc|resize)$')
def h_realloc(m, f, a, at, dt):
    x = m.x
    w = x.world
    k = infokey(m, a[0])
    n = a[1]
    zero = a[2] if len(a) > 2 else True
    g = w.acquire('data', k, True)
    if g is None:
        return perr(m, f, dt, 'AccountBorrowFailed')
    w.release(g)
    rope = w.dobj(k).rope
    old = rope.len()
    if x.choose(eq(old, n)):
        return ok()
    orig = w.orig_len(k)
    if x.choose(simp(tosmt(n) - orig > W.GROWTH)):
        return perr(m, f, dt, 'InvalidRealloc')
    if x.choose(simp(tosmt(n) < old)):
        new, _ = x.cut(rope, n)
    else:
        more = simp(tosmt(n) - old)
        zi = zero if isinstance(zero, bool) else x.choose(zero)
        if zi:
            new = rope + Rope((('z', more),))
        else:
            new = rope + Rope((('o', x.fresh('stale', Bytes), 0, more),))
    w.set_data(k, new)
    return ok()


@rx(r'AccountInfo::<\'a>::assign$')
def h_assign(m, f, a, at, dt):
    m.x.world.set_own(infokey(m, a[0]), m.x.load(a[1]))
    return UNIT


@rx(r'AccountInfo::<\'a>::original_data_len$')
def h_orig(m, f, a, at, dt):
    return m.x.world.orig_len(infokey(m, a[0]))


# ---- public keys ----------------------------------------------------------------------------------------
def keq(m, a, b):
    w = m.x.world
    q = m.x.quick_eq(a, b)
    if q is None:
        q = w.pda_eq(a, b)
    if q is None:
        q = eq(m.x.canon(a), m.x.canon(b))
    return q


@rx(r'^<solana_program::solana_pubkey::Pubkey as std::cmp::PartialEq>::(eq|ne)$')
def h_key_eq(m, f, a, at, dt):
    q = keq(m, loadkey(m, a[0]), loadkey(m, a[1]))
    return neg(q) if f['name'].endswith('::ne') else q


def loadkey(m, p):
    v = m.x.load(p)
    while isinstance(v, Ptr):
        v = m.x.load(v)
    if isinstance(v, Rope):
        return m.x.rkey(v)
    return v


@rx(r'^<solana_program::solana_pubkey::Pubkey as std::convert::AsRef<\[u8\]>>::as_ref$', r'solana_pubkey::Pubkey::as_array$')
def h_key_asref(m, f, a, at, dt):
    return Ptr(Cell(Rope((('k', loadkey(m, a[0])),)), 'key'), (), 32)


@rx(r'solana_pubkey::Pubkey::to_bytes$')
def h_key_bytes(m, f, a, at, dt):
    k = a[0] if is_key(a[0]) else loadkey(m, a[0])
    return Rope((('k', k),))


@rx(r'Pubkey as std::default::Default>::default$')
def h_key_default(m, f, a, at, dt):
    return W.SYSTEM


@rx(r'Pubkey as std::convert::From<\[u8; 32\]>>::from$', r'solana_pubkey::Pubkey::new_from_array$')
def h_key_from(m, f, a, at, dt):
    return m.x.rkey(a[0])


@rx(r'Pubkey as std::convert::TryFrom<&\[u8\]>>::try_from$')
def h_key_try_from(m, f, a, at, dt):
    r = rope_of(m, a[0])
    if m.x.choose(eq(r.len(), 32)):
        return ok(m.x.rkey(m.x.rslice(r, 0, 32)))
    return err(Opaque('TryFromSliceError'))


@rx(r'Pubkey as std::clone::Clone>::clone$')
def h_key_clone(m, f, a, at, dt):
    return loadkey(m, a[0])


@rx(r'solana_curve25519::edwards::validate_edwards$', r'solana_pubkey::Pubkey::is_on_curve$', r'bytes_are_curve_point')
def h_curve(m, f, a, at, dt):
    v = m.x.load(a[0])
    while isinstance(v, Ptr):
        v = m.x.load(v)
    v = unbox(v) if isinstance(v, Adt) else v
    return W.OnCurve(v if is_key(v) else m.x.rkey(v))


def seed_list(m, p):
    """&[&[u8]] -> list of byte ropes, or an OSeq, or [OSeq, rope...]"""
    v = content(m, p)
    if isinstance(v, OSeq):
        return [v]
    out = []
    if not isinstance(v, Arr):
        raise Unsupported('seeds given as %r' % (v,))
    for e in v.e:
        if isinstance(e, OSeq):
            out.append(e)
            continue
        c = content(m, e) if isinstance(e, Ptr) else (e.c if isinstance(e, VecV) else e)
        if isinstance(c, Arr) and not c.e:
            c = Rope(())
        if isinstance(c, StrV):
            c = C(c.s.encode())
        if is_key(c):
            c = Rope((('k', c),))
        out.append(c)
    return fold_oseq(m, out)


SeedEl = z3.Function('SeedEl', Seeds, IntS, Bytes)


def fold_oseq(m, lst):
    """SeedEl(s,0), ..., SeedEl(s,n-1) with n == SeedsCnt(s) is the sequence s itself"""
    def el(r):
        if isinstance(r, Rope) and len(r.segs) == 1 and r.segs[0][0] == 'o' and r.segs[0][1].decl().eq(SeedEl):
            return r.segs[0][1].arg(0), simp(r.segs[0][1].arg(1))
        return None
    if not lst or isinstance(lst[0], OSeq):
        return lst
    e = el(lst[0])
    if e is None or e[1] != 0:
        return lst
    s = e[0]
    i = 0
    while i < len(lst):
        e = el(lst[i])
        if e is None or not e[0].eq(s) or e[1] != i:
            break
        i += 1
    if m.x.must(SeedsCnt(s) == i):
        return [OSeq(s, 'slices')] + lst[i:]
    raise Unsupported('part of an opaque seed list')


def derive(m, seeds, pid):
    """address and canonical bump of a seed list"""
    w = m.x.world
    if seeds and isinstance(seeds[0], OSeq):
        if len(seeds) != 1:
            raise Unsupported('opaque seeds with a suffix')
        return w.pda_oseeds(seeds[0].s, pid)
    parts = []
    for r in seeds:
        if isinstance(r, OSeq):
            raise Unsupported('opaque seeds after others')
        parts += list(r.segs)
    t, b = w.pda(parts, pid)
    if not parts:
        # a list without elements is the same list whatever bytes it was read from
        for s in list(getattr(m.x, 'seedterms', {}).values()):
            m.x.axiom(z3.Implies(SeedsCnt(s) == 0, z3.And(W.FSeeds(s, pid) == t, W.BSeeds(s, pid) == b)))
    return t, b


def create_address(m, seeds, pid):
    """create_program_address: a key, or None when the seeds give no valid address"""
    x = m.x
    if not seeds:
        raise Unsupported('no seeds')
    last = seeds[-1]
    if isinstance(last, OSeq) or simp(last.len()) != 1:
        raise Unsupported('signer seeds without a bump')
    b = x.rint(last)
    t, cb = derive(m, seeds[:-1], pid)
    if x.choose(eq(b, cb)):
        return t
    if not x.choose(x.fresh('other_bump_valid', z3.BoolSort())):
        return None
    if isinstance(seeds[0], OSeq):
        t2 = z3.Function('pda_other_seeds', Seeds, IntS, Key, Key)(seeds[0].s, tosmt(b), pid)
    else:
        t2 = z3.Function('pda_other', Key, IntS, Key)(t, tosmt(b))
    x.axiom(t2 != t)
    x.axiom(z3.Not(W.OnCurve(t2)))
    x.axiom(W.PPid(t2) == pid)
    return t2


@rx(r'solana_pubkey::Pubkey::(try_)?find_program_address$')
def h_find_pda(m, f, a, at, dt):
    t, b = derive(m, seed_list(m, a[0]), loadkey(m, a[1]))
    r = Adt(0, (t, b))
    return some(r) if 'try_find' in f['def'] else r


@rx(r'solana_pubkey::Pubkey::create_program_address$')
def h_create_pda(m, f, a, at, dt):
    t = create_address(m, seed_list(m, a[0]), loadkey(m, a[1]))
    return ok(t) if t is not None else err(Adt(0, ()))


# ---- sysvars ----------------------------------------------------------------------------------------------
RENT = Adt(0, (3480, Opaque('2.0'), 50))


@rx(r'Rent as std::default::Default>::default$')
def h_rent(m, f, a, at, dt):
    return RENT


@rx(r'Sysvar for solana_program::solana_rent::Rent>::get$')
def h_rent_get(m, f, a, at, dt):
    return ok(RENT)


@rx(r'solana_rent::Rent::minimum_balance$')
def h_minbal(m, f, a, at, dt):
    return W.minbal(a[1])


@rx(r'solana_rent::Rent::is_exempt$')
def h_exempt(m, f, a, at, dt):
    return simp(tosmt(a[1]) >= W.minbal(a[2]))


@rx(r'Sysvar for solana_program::solana_clock::Clock>::get$')
def h_clock(m, f, a, at, dt):
    w = m.x.world
    if w.clock is None:
        w.clock = m.x.fresh_int('clock_slot', 0, W.U64)
    return ok(Adt(0, (w.clock, Opaque('clock'), Opaque('clock'), Opaque('clock'), Opaque('clock'))))


# ---- cross-program invocation --------------------------------------------------------------------------------
@rx(r'^solana_program::program::invoke(_unchecked)?$', r'^solana_program::program::invoke_signed(_unchecked)?$', r'^solana_cpi::invoke')
def h_invoke(m, f, a, at, dt):
    x = m.x
    ix = x.load(a[0])
    infos = content(m, a[1])
    if isinstance(infos, AccArr):
        keys = list(infos.keys)
    else:
        keys = [infokey(m, e) for e in infos.e]
    signers = []
    if len(a) > 2:
        outer = content(m, a[2])
        for e in outer.e:
            t = create_address(m, seed_list(m, e), W.DLP)
            if t is None:
                raise Abort('invalid signer seeds')
            signers.append(t)
    if not x.world.invoke(ix, keys, signers, m):
        return perr(m, f, dt, 'AccountBorrowFailed')
    return ok()


@rx(r'^bincode::serialize::<solana_program::system_instruction::SystemInstruction>')
def h_bincode_sys(m, f, a, at, dt):
    v = m.x.load(a[0])
    return ok(VecV(sysrope(m, garg(m, f), v)))


def sysrope(m, ty, v):
    name = m.T[ty]['variants'][v.v]['name']
    n = {'Transfer': 12, 'Allocate': 12, 'Assign': 36, 'CreateAccount': 52}.get(name, 100)
    return Rope((('sys', (ty, v), n),))


@rx(r'Instruction::new_with_bincode::<solana_program::system_instruction::SystemInstruction>')
def h_new_bincode(m, f, a, at, dt):
    v = m.x.load(a[1])
    return Adt(0, (a[0], a[2], VecV(sysrope(m, garg(m, f), v))))


@rx(r'^bincode::deserialize::<.*UpgradeableLoaderState>')
def h_bincode_loader(m, f, a, at, dt):
    x = m.x
    r = rope_of(m, a[0])
    ty = [t for t in m.T[rty(m, f, dt)]['args'] if isinstance(t, int)][0]
    bad = err(Opaque('bincode error'))
    n = r.len()

    def need(k):
        return x.choose(simp(tosmt(n) >= k))
    if not need(4):
        return bad
    tag = x.rint(x.rslice(r, 0, 4))

    def option(off):
        if not need(off + 1):
            return False
        t = x.rint(x.rslice(r, off, 1))
        if x.choose(eq(t, 0)):
            return none()
        if x.choose(eq(t, 1)):
            if not need(off + 33):
                return False
            return some(x.rkey(x.rslice(r, off + 1, 32)))
        return False
    if x.choose(eq(tag, 3)):
        if not need(12):
            return bad
        o = option(12)
        if o is False:
            return bad
        return ok(Adt(variant(m, ty, 'ProgramData'), (x.rint(x.rslice(r, 4, 8)), o)))
    if x.choose(eq(tag, 0)):
        return ok(Adt(variant(m, ty, 'Uninitialized'), ()))
    if x.choose(eq(tag, 1)):
        o = option(4)
        return bad if o is False else ok(Adt(variant(m, ty, 'Buffer'), (o,)))
    if x.choose(eq(tag, 2)):
        if not need(36):
            return bad
        return ok(Adt(variant(m, ty, 'Program'), (x.rkey(x.rslice(r, 4, 32)),)))
    return bad


# ---- bytemuck ------------------------------------------------------------------------------------------------
@rx(r'^bytemuck::(try_)?from_bytes(_mut)?$')
def h_from_bytes(m, f, a, at, dt):
    ty = garg(m, f)
    n = m.x.size_of(ty)
    p = a[0]
    fine = m.x.choose(eq(plen(m, p), n))
    tr = 'try_' in f['def']
    if not fine:
        if not tr:
            raise Panic('bytemuck size')
        e = result_err_ty(m, rty(m, f, dt))
        return err(Adt(variant(m, e, 'SizeMismatch'), ()))
    path = p.path
    r = Ptr(p.root, pext(path, ('v', 0, ty)) if path and path[-1][0] == 's' else path + (('v', 0, ty),), None)
    return ok(r) if tr else r


@rx(r'^bytemuck::pod_read_unaligned$', r'^bytemuck::try_pod_read_unaligned$')
def h_pod_read(m, f, a, at, dt):
    ty = garg(m, f)
    tr = 'try_' in f['def']
    if not m.x.choose(eq(plen(m, a[0]), m.x.size_of(ty))):
        if not tr:
            raise Panic('bytemuck size')
        e = result_err_ty(m, rty(m, f, dt))
        return err(Adt(variant(m, e, 'SizeMismatch'), ()))
    v = m.x.decode(rope_of(m, a[0]), ty)
    return ok(v) if tr else v


@rx(r'^bytemuck::bytes_of$')
def h_bytes_of(m, f, a, at, dt):
    ty = garg(m, f)
    p = a[0]
    if p.path and p.path[-1][0] == 'v':
        return Ptr(p.root, p.path[:-1] + (('s', p.path[-1][1], m.x.size_of(ty)),), m.x.size_of(ty))
    r = m.x.encode(m.x.load(p), ty)
    return Ptr(Cell(r, 'bytes_of'), (), r.len())


# ---- borsh -----------------------------------------------------------------------------------------------------
def write_rope(m, wty, wp, r):
    """append a rope to a writer (`wp`: &mut Vec<u8> or &mut &mut [u8]); True when it fitted"""
    x = m.x
    v = x.load(wp)
    if isinstance(v, Ptr) and isinstance(x.load(v), (VecV,)):
        wp = v
        v = x.load(v)
    if isinstance(v, VecV):
        c = v.c if isinstance(v.c, Rope) else Rope(())
        x.store(wp, VecV(c + r))
        return True
    if isinstance(v, Ptr):
        n = v.n
        L = r.len()
        fits = x.choose(simp(tosmt(L) <= n))
        if fits:
            rest = simp(tosmt(n) - L)
        else:
            try:
                r, _ = x.cut(r, n)
            except Unsupported:
                r = Rope((('o', x.fresh('partly_written', Bytes), 0, n),))
            L, rest = n, 0
        sp = sub(v, 0, L)
        x.store(sp, r)
        x.store(wp, sub(v, L, rest))
        return fits
    raise Unsupported('writer %r' % (v,))


def sub(p, off, n):
    """sub-slice of a slice pointer"""
    return Ptr(p.root, pext(p.path, ('s', off, n)), n)


def span(p, n):
    """the n elements from a pointer to an element"""
    if p.path and p.path[-1][0] == 'x':
        return Ptr(p.root, p.path[:-1] + (('s', p.path[-1][1], n),), n)
    if p.n is not None:
        return sub(p, 0, n)
    raise Unsupported('elements from %r' % (p,))


@rx(r'std::io::Write for (std::vec::Vec<u8>|&mut \[u8\]|std::vec::Vec<u8, A>)>::write(_all)?$', r'Write for std::vec::Vec<u8, A>>::write_all', r'Write for &mut \[u8\]>::write_all')
def h_write(m, f, a, at, dt):
    r = rope_of(m, a[1])
    if not f['def'].endswith('write_all'):
        if not isinstance(m.x.load(a[0]), VecV):
            return NotImplemented
        write_rope(m, None, a[0], r)
        return ok(r.len())
    return ok() if write_rope(m, None, a[0], r) else err(Opaque('WriteZero'))


def ser_res(fine):
    return ok() if fine else err(Opaque('WriteZero'))


@rx(r'^<std::vec::Vec<u8> as borsh::BorshSerialize>::serialize::', r'^<\[u8\] as borsh::BorshSerialize>::serialize::')
def h_ser_vecu8(m, f, a, at, dt):
    r = content(m, a[0])
    if not isinstance(r, Rope):
        r = Rope(())
    # lengths beyond u32 do not occur (an instruction or an account is shorter)
    return ser_res(write_rope(m, None, a[1], Rope((('u', 4, r.len()),)) + r))


@rx(r'^<std::vec::Vec<std::vec::Vec<u8>> as borsh::BorshSerialize>::serialize::', r'^<\[std::vec::Vec<u8>\] as borsh::BorshSerialize>::serialize::')
def h_ser_seeds(m, f, a, at, dt):
    v = content(m, a[0])
    if isinstance(v, OSeq):
        seeds_axioms(m, v.s)
        return ser_res(write_rope(m, None, a[1], Rope((('ss', v.s),))))
    lst = fold_oseq(m, [e.c if isinstance(e, VecV) else e for e in v.e])
    if len(lst) == 1 and isinstance(lst[0], OSeq):
        return ser_res(write_rope(m, None, a[1], Rope((('ss', lst[0].s),))))
    r = Rope((('u', 4, len(lst)),))
    for e in lst:
        r = r + Rope((('u', 4, e.len()),)) + e
    return ser_res(write_rope(m, None, a[1], r))


@rx(r'^<std::collections::BTreeSet<solana_program::solana_pubkey::Pubkey> as borsh::BorshSerialize>::serialize')
def h_ser_set(m, f, a, at, dt):
    v = m.x.load(a[0])
    return ser_res(write_rope(m, None, a[1], Rope((('set', v.a, v.n),))))


@rx(r'^<\[u8; \d+\] as borsh::BorshSerialize>::serialize')
def h_ser_arr(m, f, a, at, dt):
    return ser_res(write_rope(m, None, a[1], rope_of(m, a[0])))


def seeds_axioms(m, s):
    if not hasattr(m.x, 'seedterms'):
        m.x.seedterms = {}
    m.x.seedterms[s.get_id()] = s
    x = m.x
    x.axiom(SeedsCnt(s) >= 0)
    x.axiom(SeedsLen(s) >= 4 + 4 * SeedsCnt(s))
    x.axiom(SeedsLen(s) < 2 ** 32)


def read_n(m, rp, n):
    """take n bytes from a reader (`rp`: &mut &[u8]); None at the end of the input"""
    x = m.x
    sl = x.load(rp)
    while isinstance(sl, Ptr) and isinstance(x.load(sl), Ptr):
        rp = sl
        sl = x.load(sl)
    if not x.choose(simp(tosmt(sl.n) >= n)):
        return None
    r = rope_of(m, sub(sl, 0, n))
    x.store(rp, sub(sl, n, simp(tosmt(sl.n) - n)))
    return r


def reader_slice(m, rp):
    x = m.x
    sl = x.load(rp)
    while isinstance(sl, Ptr) and isinstance(x.load(sl), Ptr):
        rp = sl
        sl = x.load(sl)
    return rp, sl


EOF = err(Opaque('unexpected end of input'))


@rx(r'^<(u8|u16|u32|u64|u128) as borsh::BorshDeserialize>::deserialize_reader::<&\[u8\]>$')
def h_de_int(m, f, a, at, dt):
    n = {'u8': 1, 'u16': 2, 'u32': 4, 'u64': 8, 'u128': 16}[f['name'][1:].split()[0]]
    r = read_n(m, a[0], n)
    return EOF if r is None else ok(m.x.rint(r))


@rx(r'^<bool as borsh::BorshDeserialize>::deserialize_reader::<&\[u8\]>$')
def h_de_bool(m, f, a, at, dt):
    r = read_n(m, a[0], 1)
    if r is None:
        return EOF
    v = m.x.rint(r)
    if m.x.choose(eq(v, 0)):
        return ok(False)
    if m.x.choose(eq(v, 1)):
        return ok(True)
    return err(Opaque('invalid bool'))


@rx(r'^<\[u8; \d+\] as borsh::BorshDeserialize>::deserialize_reader::<&\[u8\]>$')
def h_de_arr(m, f, a, at, dt):
    n = int(re.match(r'^<\[u8; (\d+)\]', f['name']).group(1))
    r = read_n(m, a[0], n)
    return EOF if r is None else ok(r)


@rx(r'^<std::vec::Vec<u8> as borsh::BorshDeserialize>::deserialize_reader::<&\[u8\]>$')
def h_de_vecu8(m, f, a, at, dt):
    r = read_n(m, a[0], 4)
    if r is None:
        return EOF
    n = m.x.rint(r)
    r = read_n(m, a[0], n)
    return EOF if r is None else ok(VecV(r))


@rx(r'^<std::vec::Vec<std::vec::Vec<u8>> as borsh::BorshDeserialize>::deserialize_reader::<&\[u8\]>$')
def h_de_seeds(m, f, a, at, dt):
    x = m.x
    rp, sl = reader_slice(m, a[0])
    r = rope_of(m, sl)
    if r.segs and r.segs[0][0] == 'ss':
        s = r.segs[0][1]
        if read_n(m, rp, SeedsLen(s)) is None:
            return EOF
        return ok(VecV(OSeq(s)))
    if r.segs and r.segs[0][0] == 'o':
        sg = r.segs[0]
        s = SeedsAt(sg[1], tosmt(sg[2]))
        seeds_axioms(m, s)
        n = SeedsLen(s)
        x.axiom(Sub(SeedsBytes(s), z3.IntVal(0), n) == Sub(sg[1], tosmt(sg[2]), n))
        if read_n(m, rp, SeedsLen(s)) is None:
            return EOF
        return ok(VecV(OSeq(s)))
    c = read_n(m, rp, 4)
    if c is None:
        return EOF
    n = x.rint(c)
    if not isinstance(n, int):
        raise Unsupported('seed list with a symbolic count')
    out = []
    for _ in range(n):
        c = read_n(m, rp, 4)
        if c is None:
            return EOF
        e = read_n(m, rp, x.rint(c))
        if e is None:
            return EOF
        out.append(VecV(e))
    return ok(VecV(Arr(out)))


@rx(r'^<std::collections::BTreeSet<solana_program::solana_pubkey::Pubkey> as borsh::BorshDeserialize>::deserialize_reader')
def h_de_set(m, f, a, at, dt):
    x = m.x
    rp, sl = reader_slice(m, a[0])
    r = rope_of(m, sl)
    if r.segs and r.segs[0][0] == 'set':
        sg = r.segs[0]
        if read_n(m, rp, seglen(sg)) is None:
            return EOF
        return ok(SetV(sg[1], sg[2]))
    start = r.segs[0] if r.segs else None
    c = read_n(m, rp, 4)
    if c is None:
        return EOF
    n = x.rint(c)
    if isinstance(n, int) and n == 0:
        return ok(SetV(z3.K(Key, False), 0))
    rest = read_n(m, rp, simp(32 * tosmt(n)))
    if rest is None:
        return EOF
    if start[0] == 'o':
        a_, n_ = SetAt(start[1], tosmt(start[2])), SetCard(start[1], tosmt(start[2]))
        x.axiom(z3.And(n_ >= 0, n_ <= n))
        x.axiom(z3.Implies(tosmt(n) > 0, n_ >= 1))
        x.axiom(z3.Implies(tosmt(n) == 0, a_ == z3.K(Key, False)))
        return ok(SetV(a_, n_))
    if isinstance(n, int) and n <= 16:
        s, cnt = z3.K(Key, False), 0
        for i in range(n):
            k = x.rkey(x.rslice(rest, 32 * i, 32))
            if not x.choose(z3.Select(s, k)):
                s, cnt = z3.Store(s, k, True), cnt + 1
        return ok(SetV(s, cnt))
    raise Unsupported('set at an unstructured place')


# ---- sets ---------------------------------------------------------------------------------------------------------
@rx(r'^<std::collections::BTreeSet<.*> as std::default::Default>::default', r'^std::collections::BTreeSet::<.*>::new$')
def h_set_new(m, f, a, at, dt):
    return SetV(z3.K(Key, False), 0)


@rx(r'^std::collections::BTreeSet::<solana_program::solana_pubkey::Pubkey>::contains')
def h_set_contains(m, f, a, at, dt):
    v = m.x.load(a[0])
    t = simp(z3.Select(v.a, loadkey(m, a[1])))
    if not isinstance(t, bool) and not isinstance(v.n, int):
        m.x.axiom(z3.Implies(t, tosmt(v.n) >= 1))
    return t


@rx(r'^std::collections::BTreeSet::<solana_program::solana_pubkey::Pubkey>::(insert|remove|take|replace)(::|$)')
def h_set_upd(m, f, a, at, dt):
    v = m.x.load(a[0])
    op = re.search(r'>::(insert|remove|take|replace)', f['name']).group(1)
    opt = op in ('take', 'replace')
    op = {'take': 'remove', 'replace': 'insert'}.get(op, op)
    r = set_update(m, a, op)
    if opt:
        k = a[1] if is_key(a[1]) else loadkey(m, a[1])
        return some(k) if r == (op == 'remove') else none()
    return r


def set_update(m, a, op):
    v = m.x.load(a[0])
    k = a[1] if is_key(a[1]) else loadkey(m, a[1])
    t = simp(z3.Select(v.a, k))
    if not isinstance(t, bool) and not isinstance(v.n, int):
        m.x.axiom(z3.Implies(t, tosmt(v.n) >= 1))
    has = m.x.choose(t)
    if op == 'insert':
        if has:
            return False
        m.x.store(a[0], SetV(z3.Store(v.a, k, True), simp(v.n + 1)))
        return True
    if not has:
        return False
    m.x.store(a[0], SetV(z3.Store(v.a, k, False), simp(v.n - 1)))
    return True


@rx(r'^std::collections::BTreeSet::<.*>::(len|is_empty|clear)$')
def h_set_len(m, f, a, at, dt):
    v = m.x.load(a[0])
    if f['name'].endswith('clear'):
        m.x.store(a[0], SetV(z3.K(Key, False), 0))
        return UNIT
    return v.n if f['name'].endswith('len') else eq(v.n, 0)


SET_ITER = r'^<std::collections::btree_set::(Into)?Iter<.*> as std::iter::(Iterator|DoubleEndedIterator|ExactSizeIterator)>::'


@rx(r'^std::collections::BTreeSet::<solana_program::solana_pubkey::Pubkey>::iter$',
    r'^<&(\'\w+ )?std::collections::BTreeSet<solana_program::solana_pubkey::Pubkey> as std::iter::IntoIterator>::into_iter$',
    r'^<std::collections::BTreeSet<solana_program::solana_pubkey::Pubkey> as std::iter::IntoIterator>::into_iter$')
def h_set_iter(m, f, a, at, dt):
    if isinstance(a[0], Ptr):
        return SetIterV(m.x.load(a[0]), (), 'ref')
    return SetIterV(a[0], (), 'own')


def set_next(m, p):
    """an element of the set that was not yielded before; which one comes first is left open"""
    x = m.x
    it = x.load(p)
    if not isinstance(it.s.n, int):
        if len(it.seen) >= 4:
            x.bounded.add('a loop over the elements of a set of keys is unrolled for at most 4 elements')
            raise Infeasible()
    if not x.choose(simp(tosmt(it.s.n) > len(it.seen))):
        if it.seen or isinstance(it.s.n, int) is False:
            r = z3.K(Key, False)
            for k in it.seen:
                r = z3.Store(r, k, True)
            x.axiom(it.s.a == r)
        return None
    k = x.fresh('elem', Key)
    x.assume(z3.And(z3.Select(it.s.a, k), *[k != q for q in it.seen]))
    x.store(p, SetIterV(it.s, it.seen + (k,), it.mode))
    return Ptr(Cell(k, 'elem')) if it.mode == 'ref' else k


@rx(SET_ITER + r'(next|next_back)$')
def h_set_next(m, f, a, at, dt):
    e = set_next(m, a[0])
    return none() if e is None else some(e)


@rx(SET_ITER + r'(size_hint|len|count)$')
def h_set_iter_len(m, f, a, at, dt):
    it = m.x.load(a[0]) if isinstance(a[0], Ptr) else a[0]
    n = simp(tosmt(it.s.n) - len(it.seen))
    return Adt(0, (n, some(n))) if f['name'].endswith('size_hint') else n


@rx(r'^std::collections::BTreeSet::<solana_program::solana_pubkey::Pubkey>::get(::|$)')
def h_set_get(m, f, a, at, dt):
    v = m.x.load(a[0])
    k = loadkey(m, a[1])
    t = simp(z3.Select(v.a, k))
    if not isinstance(t, bool) and not isinstance(v.n, int):
        m.x.axiom(z3.Implies(t, tosmt(v.n) >= 1))
    return some(Ptr(Cell(k, 'elem'))) if m.x.choose(t) else none()


@rx(r'^std::collections::BTreeSet::<solana_program::solana_pubkey::Pubkey>::(first|last|pop_first|pop_last)(::|$)')
def h_set_ends(m, f, a, at, dt):
    # which element is the first is left open (a fixed one for the same set)
    v = m.x.load(a[0])
    op = re.search(r'::(first|last|pop_first|pop_last)', f['name']).group(1)
    if not m.x.choose(simp(tosmt(v.n) > 0)):
        return none()
    k = z3.Function('set_' + op.replace('pop_', ''), z3.ArraySort(Key, z3.BoolSort()), Key)(v.a)
    m.x.axiom(z3.Select(v.a, k))
    if op.startswith('pop'):
        m.x.store(a[0], SetV(z3.Store(v.a, k, False), simp(v.n - 1)))
        return some(k)
    return some(Ptr(Cell(k, 'elem')))


def set_predicate(m, fn, k, e):
    """a predicate on elements of the form `element == key` (True) or `element != key` (False): (key, which)"""
    x = m.x
    before = len(x.trace)
    r = m.call_value(fn, [e])
    if len(x.trace) != before:
        raise Unsupported('a search over a set with a branching predicate')
    want = True
    t = r
    while is_sym(t) and z3.is_not(t):
        t, want = t.arg(0), not want
    if not (is_sym(t) and z3.is_eq(t) and t.arg(0).sort() == Key):
        raise Unsupported('a search over a set with predicate %r' % (r,))
    c = t.arg(1) if t.arg(0).eq(k) else t.arg(0)
    if c.eq(k) or not (t.arg(0).eq(k) or t.arg(1).eq(k)):
        raise Unsupported('a search over a set with predicate %r' % (r,))
    return c, want


@rx(r'^std::collections::BTreeSet::<solana_program::solana_pubkey::Pubkey>::retain(::|$)')
def h_set_retain(m, f, a, at, dt):
    x = m.x
    v = x.load(a[0])
    k = x.fresh('elem', Key)
    c, want = set_predicate(m, Ptr(Cell(a[1], 'f')), k, Ptr(Cell(k, 'elem')))
    has = simp(z3.Select(v.a, c))
    if not isinstance(has, bool) and not isinstance(v.n, int):
        x.axiom(z3.Implies(has, tosmt(v.n) >= 1))
    has = x.choose(has)
    if want:
        x.store(a[0], SetV(z3.Store(z3.K(Key, False), c, True), 1) if has else SetV(z3.K(Key, False), 0))
    elif has:
        x.store(a[0], SetV(z3.Store(v.a, c, False), simp(v.n - 1)))
    return UNIT


@rx(r'^<std::collections::BTreeSet<solana_program::solana_pubkey::Pubkey> as std::convert::From<\[solana_program::solana_pubkey::Pubkey; \d+\]>>::from$')
def h_set_from(m, f, a, at, dt):
    return set_of(m, a[0].e)


def set_of(m, keys, s=None):
    c = Ptr(Cell(s if s is not None else SetV(z3.K(Key, False), 0), 'set'))
    for k in keys:
        set_update(m, [c, loadkey(m, k) if isinstance(k, Ptr) else k], 'insert')
    return m.x.load(c)


@rx(SET_ITER + r'(any|all|find)(::|$)')
def h_set_search(m, f, a, at, dt):
    """any / all / find with a predicate of the form `element == key`: exactly a membership test"""
    x = m.x
    op = re.search(r'>::(any|all|find)(::<.*)?$', f['name'].split(' as std::iter::')[1]).group(1)
    it = x.load(a[0])
    if it.seen:
        return NotImplemented
    k = x.fresh('elem', Key)
    mk = lambda q: (Ptr(Cell(q, 'elem')) if it.mode == 'ref' else q)
    e = mk(k)
    c, want = set_predicate(m, Ptr(Cell(a[1], 'f')), k, Ptr(Cell(e)) if op == 'find' else e)
    r = (c, want)
    has = simp(z3.Select(it.s.a, c))
    if not isinstance(has, bool) and not isinstance(it.s.n, int):
        x.axiom(z3.Implies(has, tosmt(it.s.n) >= 1))
    if op == 'any' and want:
        return has
    if op == 'all' and not want:
        return simp(neg(has))
    if op == 'find' and want:
        return some(mk(c)) if x.choose(has) else none()
    raise Unsupported('a search over a set with predicate %r' % (r,))


# ---- vectors ---------------------------------------------------------------------------------------------------------
@rx(r'^std::vec::Vec::<.*>::(new|with_capacity)(_in)?$', r'^<std::vec::Vec<.*> as std::default::Default>::default$')
def h_vec_new(m, f, a, at, dt):
    t = m.T[rty(m, f, dt)]
    return VecV(empty(m, [x for x in t['args'] if isinstance(x, int)][0]))


@rx(r'^std::vec::Vec::<.*>::(as_slice|as_mut_slice)$', r'^<std::vec::Vec<.*> as std::ops::Deref(Mut)?>::deref(_mut)?$',
    r'^<std::vec::Vec<.*> as std::convert::As(Ref|Mut)<\[.*\]>>::as_(ref|mut)$', r'Borrow<\[.*\]> for std::vec::Vec<.*>>::borrow')
def h_vec_deref(m, f, a, at, dt):
    return vec_ptr(m, a[0])


@rx(r'^std::vec::Vec::<.*>::len$')
def h_vec_len(m, f, a, at, dt):
    return plen(m, a[0])


@rx(r'^std::vec::Vec::<.*>::is_empty$')
def h_vec_empty(m, f, a, at, dt):
    return eq(plen(m, a[0]), 0)


@rx(r'^std::vec::Vec::<.*>::(push|push_mut)$')
def h_vec_push(m, f, a, at, dt):
    v = m.x.load(a[0])
    if isinstance(v.c, Rope) and m.x.is_u8(garg(m, f)):
        c = v.c + Rope((('u', 1, a[1]),))
    else:
        c = Arr((v.c.e if isinstance(v.c, Arr) else ((v.c,) if isinstance(v.c, OSeq) else ())) + (a[1],))
    m.x.store(a[0], VecV(c))
    return UNIT


@rx(r'^std::vec::Vec::<.*>::(extend_from_slice)$', r'as std::iter::Extend<&.*>>::extend::<&(\'_ )?(\[|std::vec::Vec<u8>)')
def h_vec_extend(m, f, a, at, dt):
    v = m.x.load(a[0])
    c = content(m, a[1])
    m.x.store(a[0], VecV(cat(v.c, c)))
    return UNIT


@rx(r'^std::vec::Vec::<.*>::append$')
def h_vec_append(m, f, a, at, dt):
    v, o = m.x.load(a[0]), m.x.load(a[1])
    m.x.store(a[0], VecV(cat(v.c, o.c)))
    m.x.store(a[1], VecV(Rope(()) if isinstance(o.c, Rope) else Arr(())))
    return UNIT


def cat(a, b):
    if isinstance(a, Rope) and isinstance(b, Rope):
        return a + b
    if isinstance(a, (Rope, Arr)) and (len(a.segs) if isinstance(a, Rope) else len(a.e)) == 0:
        return b
    if isinstance(b, (Rope, Arr)) and (len(b.segs) if isinstance(b, Rope) else len(b.e)) == 0:
        return a
    ea = a.e if isinstance(a, Arr) else (a,)
    eb = b.e if isinstance(b, Arr) else (b,)
    return Arr(ea + eb)


@rx(r'^std::vec::Vec::<.*>::(reserve|reserve_exact|shrink_to_fit)$')
def h_vec_reserve(m, f, a, at, dt):
    return UNIT


@rx(r'^std::vec::Vec::<.*>::(truncate|clear)$')
def h_vec_trunc(m, f, a, at, dt):
    v = m.x.load(a[0])
    n = 0 if f['def'].endswith('clear') else a[1]
    if isinstance(v.c, Rope):
        if m.x.choose(simp(tosmt(v.c.len()) > n)):
            m.x.store(a[0], VecV(m.x.cut(v.c, n)[0]))
    else:
        m.x.store(a[0], VecV(Arr(v.c.e[:n])))
    return UNIT


@rx(r'^std::vec::Vec::<.*>::resize$')
def h_vec_resize(m, f, a, at, dt):
    v = m.x.load(a[0])
    if isinstance(v.c, Rope) and isinstance(a[2], int) and a[2] == 0:
        L = v.c.len()
        if m.x.choose(simp(tosmt(L) >= a[1])):
            m.x.store(a[0], VecV(m.x.cut(v.c, a[1])[0]))
        else:
            m.x.store(a[0], VecV(v.c + Rope((('z', simp(tosmt(a[1]) - L)),))))
        return UNIT
    raise Unsupported('Vec::resize')


@rx(r'^std::vec::Vec::<.*>::pop$')
def h_vec_pop(m, f, a, at, dt):
    v = m.x.load(a[0])
    if isinstance(v.c, Arr):
        if not v.c.e:
            return none()
        m.x.store(a[0], VecV(Arr(v.c.e[:-1])))
        return some(v.c.e[-1])
    if isinstance(v.c, Rope):
        if m.x.choose(eq(v.c.len(), 0)):
            return none()
        r, l = m.x.cut(v.c, simp(tosmt(v.c.len()) - 1))
        m.x.store(a[0], VecV(r))
        return some(m.x.rint(m.x.rslice(l, 0, 1)))
    raise Unsupported('Vec::pop')


def cutseq(m, c, i):
    if isinstance(c, Rope):
        return m.x.cut(c, i)
    if isinstance(c, Arr) and isinstance(i, int):
        return Arr(c.e[:i]), Arr(c.e[i:])
    raise Unsupported('part of %r at %r' % (c, i))


@rx(r'^std::vec::Vec::<.*>::(insert|remove|swap_remove|split_off)$')
def h_vec_edit(m, f, a, at, dt):
    x = m.x
    op = f['def'].rsplit('::', 1)[1]
    v = x.load(a[0])
    n = m.seqlen(v.c)
    if not x.choose(simp(tosmt(a[1]) <= n) if op in ('insert', 'split_off') else simp(tosmt(a[1]) < n)):
        raise Panic('index')
    l, r = cutseq(m, v.c, a[1])
    if op == 'split_off':
        x.store(a[0], VecV(l))
        return VecV(r)
    if op == 'insert':
        x.store(a[0], VecV(cat(cat(l, Rope((('u', 1, a[2]),)) if isinstance(l, Rope) else Arr((a[2],))), r)))
        return UNIT
    e, r = cutseq(m, r, 1)
    e = x.rint(x.rslice(e, 0, 1)) if isinstance(e, Rope) else e.e[0]
    if op == 'swap_remove' and x.choose(simp(tosmt(m.seqlen(r)) > 0)):
        z, r = r, None
        z, last = cutseq(m, z, simp(tosmt(m.seqlen(z)) - 1))
        r = cat(last, z)
    x.store(a[0], VecV(cat(l, r)))
    return e


@rx(r'^std::vec::Vec::<.*>::drain::<std::ops::Range(To|From|Full|Inclusive|ToInclusive)?(<usize>)?>$')
def h_vec_drain(m, f, a, at, dt):
    x = m.x
    kind = re.search(r'drain::<std::ops::(\w+)', f['name']).group(1)
    v = x.load(a[0])
    n = m.seqlen(v.c)
    lo, hi = rng_bounds(m, a[1], kind, n)
    if not x.choose(simp(z3.And(tosmt(lo) <= hi, tosmt(hi) <= n))):
        raise Panic('range')
    l, r = cutseq(m, v.c, lo)
    mid, r = cutseq(m, r, simp(tosmt(hi) - lo))
    x.store(a[0], VecV(cat(l, r)))
    k = simp(tosmt(hi) - lo)
    return IterV(Ptr(Cell(mid, 'into_iter'), (), k), 0, k, 'own')


@rx(r'^<std::vec::Drain<.*> as std::iter::Iterator>::(next|size_hint|count|for_each)(::|$)')
def h_drain_next(m, f, a, at, dt):
    it = m.x.load(a[0]) if isinstance(a[0], Ptr) else a[0]
    if f['def'].endswith('next'):
        e = iter_next(m, a[0])
        return none() if e is None else some(e)
    if f['def'].endswith('count'):
        return simp(tosmt(it.n) - it.i)
    return NotImplemented


@rx(r'^std::vec::Vec::<.*>::(retain|retain_mut)(::|$)')
def h_vec_retain(m, f, a, at, dt):
    v = m.x.load(a[0])
    if isinstance(v.c, OSeq):                          # some other list
        m.x.store(a[0], VecV(OSeq(m.x.fresh('retained', Seeds), v.c.kind)))
        return UNIT
    if not isinstance(v.c, Arr):
        raise Unsupported('Vec::retain')
    fn = Ptr(Cell(a[1], 'f'))
    m.x.store(a[0], VecV(Arr([e for e in v.c.e if m.x.choose(m.call_value(fn, [Ptr(Cell(e, 'elem'))]))])))
    return UNIT


@rx(r'^std::vec::Vec::<.*>::dedup$')
def h_vec_dedup(m, f, a, at, dt):
    v = m.x.load(a[0])
    if not isinstance(v.c, Arr):
        raise Unsupported('Vec::dedup')
    out = []
    for e in v.c.e:
        if not out or not m.x.choose(value_eq(m, out[-1], e)):
            out.append(e)
    m.x.store(a[0], VecV(Arr(out)))
    return UNIT


KeyLess = z3.Function('key_less', Key, Key, z3.BoolSort())


def less(m, a, b):
    if is_key(a):
        m.x.axiom(z3.Implies(a != b, KeyLess(a, b) != KeyLess(b, a)))
        return conj(neg(eq(a, b)), KeyLess(a, b))
    if not (is_int(a) and is_int(b)):
        raise Unsupported('order of %r and %r' % (a, b))
    return simp(tosmt(a) < b)


@rx(r'^(std|core)::slice::<impl \[.*\]>::(sort|sort_unstable)$')
def h_sort(m, f, a, at, dt):
    v = content(m, a[0])
    if not isinstance(v, Arr):
        raise Unsupported('sort of %r' % (v,))
    out = []
    for e in v.e:
        i = len(out)
        while i > 0 and m.x.choose(less(m, e, out[i - 1])):
            i -= 1
        out.insert(i, e)
    for i, e in enumerate(out):
        m.x.store(elem(a[0], i), e)
    return UNIT


@rx(r'^(std|core)::slice::<impl \[.*\]>::reverse$')
def h_reverse(m, f, a, at, dt):
    v = content(m, a[0])
    if not isinstance(v, Arr):
        raise Unsupported('reverse of %r' % (v,))
    for i, e in enumerate(reversed(v.e)):
        m.x.store(elem(a[0], i), e)
    return UNIT


@rx(r'^<solana_program::solana_pubkey::Pubkey as std::cmp::(Ord|PartialOrd)>::(cmp|partial_cmp|lt|le|gt|ge)$')
def h_key_cmp(m, f, a, at, dt):
    op = f['def'].rsplit('::', 1)[1]
    k, l = loadkey(m, a[0]), loadkey(m, a[1])
    if op in ('lt', 'gt'):
        return less(m, k, l) if op == 'lt' else less(m, l, k)
    if op in ('le', 'ge'):
        return neg(less(m, l, k)) if op == 'le' else neg(less(m, k, l))
    r = Adt(1, ()) if m.x.choose(keq(m, k, l)) else Adt(0, ()) if m.x.choose(less(m, k, l)) else Adt(2, ())
    return r if op == 'cmp' else some(r)


@rx(r'^core::slice::cmp::<impl std::cmp::(Partial)?Ord for \[u8\]>::(cmp|partial_cmp|lt|le|gt|ge)$', r'^std::array::<impl std::cmp::(Partial)?Ord for \[u8; \d+\]>::(cmp|partial_cmp|lt|le|gt|ge)$')
def h_bytes_cmp(m, f, a, at, dt):
    op = f['def'].rsplit('::', 1)[1]
    same = m.x.choose(value_eq(m, a[0], a[1]))
    up = m.x.fresh('bytes_less', z3.BoolSort()) if not same else None
    if op in ('lt', 'gt'):
        return False if same else up
    if op in ('le', 'ge'):
        return True if same else up
    r = Adt(1, ()) if same else Adt(0, ()) if m.x.choose(up) else Adt(2, ())
    return r if op == 'cmp' else some(r)


@rx(r'^<std::iter::Zip<std::slice::Iter<.*u8>, std::slice::Iter<.*u8>> as std::iter::Iterator>::(all|any)(::|$)')
def h_zip_all(m, f, a, at, dt):
    """all equal / any different over two byte strings: equality of the common prefixes"""
    x = m.x
    op = re.search(r'Iterator>::(all|any)', f['name']).group(1)
    z = x.load(a[0])
    its = find_iter(z, [])
    if len(its) != 2 or any(not (isinstance(i.i, int) and i.i == 0) for i in its):
        return NotImplemented
    ca, cb = content(m, its[0].ptr), content(m, its[1].ptr)
    if not isinstance(ca, Rope) or not isinstance(cb, Rope) or isinstance(its[0].n, int) and isinstance(its[1].n, int):
        return NotImplemented
    p, q = x.fresh_int('byte', 0, 255), x.fresh_int('byte', 0, 255)
    before = len(x.trace)
    r = m.call_value(Ptr(Cell(a[1], 'f')), [Adt(0, (Ptr(Cell(p)), Ptr(Cell(q))))])
    same, diff = eq(p, q), simp(neg(eq(p, q)))
    if len(x.trace) != before or not is_sym(r):
        return NotImplemented
    if op == 'all' and not (r.eq(same) or r.eq(eq(q, p))) or op == 'any' and not (r.eq(diff) or r.eq(simp(neg(eq(q, p))))):
        return NotImplemented
    n = its[0].n if x.choose(simp(tosmt(its[0].n) <= its[1].n)) else its[1].n
    e = x.rope_eq(x.rslice(ca, 0, n), x.rslice(cb, 0, n))
    return e if op == 'all' else simp(neg(e))


BYTES_ZIP = r'^<std::iter::Zip<std::slice::Iter(Mut)?<.*u8>, std::slice::Iter(Mut)?<.*u8>> as std::iter::Iterator>::'
PURE = re.compile(r'PartialEq.*>::(eq|ne)$|Iterator>::next$|ZipImpl<.*>::next$')


def long_zip(m, z):
    """the two iterators of a zip over byte strings of symbolic length, not yet started; and the common length"""
    its = find_iter(z, [])
    if len(its) != 2 or any(not (isinstance(i.i, int) and i.i == 0) for i in its):
        return None
    if not (isinstance(z, Adt) and len(z.f) >= 4 and isinstance(z.f[2], int) and z.f[2] == 0):
        return None
    n = z.f[3]
    if isinstance(n, int) and n <= 64 or not all(isinstance(content(m, i.ptr), Rope) for i in its):
        return None
    return its, n


def zip_done(m, p, z):
    z2 = Adt(z.v, (z.f[0], z.f[1], z.f[3]) + z.f[3:])
    m.x.store(p, z2)


@rx(BYTES_ZIP + r'next$')
def h_zip_next(m, f, a, at, dt):
    """loops over two long byte strings, by induction over the position: the body is run once for an arbitrary position,
    and must be a comparison (no effect while the bytes are equal) or a copy (its only effect is to assign the byte)"""
    x = m.x
    cell = a[0].root
    z = x.load(a[0])
    muts = [bool(g) for g in re.match(BYTES_ZIP, f['name']).groups()]
    w = x.sums.get(id(cell))
    fr = x.frames[-1]
    if w is None:
        lz = long_zip(m, z)
        if lz is None or all(muts) or a[0].path:
            return NotImplemented
        its, n = lz
        if not x.choose(simp(tosmt(n) > 0)):
            zip_done(m, a[0], z)
            return none()
        ca, cb = content(m, its[0].ptr), content(m, its[1].ptr)
        w = {'frame': fr, 'cell': cell, 'mode': 'copy' if any(muts) else 'compare', 'its': its, 'n': n, 'muts': muts, 'stage': 0}
        p, q = x.fresh_int('byte', 0, 255), x.fresh_int('byte', 0, 255)
        if w['mode'] == 'compare':
            w['same'] = x.choose(x.rope_eq(x.rslice(ca, 0, n), x.rslice(cb, 0, n)))
            q = p
        w['cells'] = (Cell(p, 'byte'), Cell(q, 'byte'))
        w['bytes'] = (p, q)
        x.sums[id(cell)] = w
        return summary_step(m, w)
    if w['frame'] is not fr:
        raise Unsupported('loop across functions at ' + x.where())
    log, x.log = x.log, None
    locals_ok = all(c is cell or v is None or same_local(c.val, v) for c, v in w['snap'])
    if log is None or w['mode'] == 'compare' and len(x.trace) != w['trace'] or not locals_ok:
        raise Unsupported('loop without a contract at %s %r' % (x.where(), [(c.nm, c.val, v) for c, v in w['snap'] if not (c is cell or v is None or same_local(c.val, v))]))
    own = set(map(id, fr)) | set(map(id, w['cells']))
    if any(not PURE.search(e) if isinstance(e, str) else id(e) not in own for e in log):
        raise Unsupported('loop without a contract at ' + x.where())
    ps = w['cells']
    p, q = w['bytes']
    if w['mode'] == 'copy':
        d = 0 if muts[0] else 1
        src = (p, q)[1 - d]
        if not byte_is(x, ps[d].val, src) or ps[1 - d].val is not src:
            raise Unsupported('loop without a contract at ' + x.where())
        del x.sums[id(cell)]
        i, n = w['its'], w['n']
        x.store(sub(i[d].ptr, 0, n), content(m, sub(i[1 - d].ptr, 0, n)))
        zip_done(m, a[0], z)
        return none()
    if w['stage'] == 0 and w['same']:
        del x.sums[id(cell)]
        zip_done(m, a[0], z)
        return none()
    if w['stage'] == 0:
        p, q = x.fresh_int('byte', 0, 255), x.fresh_int('byte', 0, 255)
        x.assume(p != q)
        w['stage'] = 1
        w['cells'] = (Cell(p, 'byte'), Cell(q, 'byte'))
        w['bytes'] = (p, q)
        r = some(Adt(0, (Ptr(w['cells'][0]), Ptr(w['cells'][1]))))
        x.log = None
        w['snap'], w['trace'] = [], -1
        return r
    raise Unsupported('loop without a contract at ' + x.where())


def same_local(a, b):
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return a.root is b.root and a.path == b.path and a.n is b.n
    return a is b or isinstance(a, (int, bool)) and a == b and type(a) is type(b) or is_sym(a) and is_sym(b) and a.eq(b)


def byte_is(x, a, b):
    return a is b or is_sym(a) and (a.eq(b) or x.must(a == b))


def summary_step(m, w):
    x = m.x
    w['snap'] = [(c, c.val) for c in w['frame']]
    w['trace'] = len(x.trace)
    x.log = []
    return some(Adt(0, (Ptr(w['cells'][0]), Ptr(w['cells'][1]))))


@rx(BYTES_ZIP + r'for_each(::|$)')
def h_zip_for_each(m, f, a, at, dt):
    """a copy, byte by byte"""
    x = m.x
    muts = [bool(g) for g in re.match(BYTES_ZIP, f['name']).groups()]
    lz = long_zip(m, a[0])
    if lz is None or sum(muts) != 1 or x.log is not None:
        return NotImplemented
    its, n = lz
    d = 0 if muts[0] else 1
    cells = [Cell(x.fresh_int('byte', 0, 255), 'byte') for _ in range(2)]
    src = cells[1 - d].val
    clo = Cell(a[1], 'for_each')
    x.log = []
    m.call_value(Ptr(clo), [Adt(0, (Ptr(cells[0]), Ptr(cells[1])))])
    log, x.log = x.log, None
    if clo.val is not a[1] or not byte_is(x, cells[d].val, src) or cells[1 - d].val is not src or \
            any('{closure' not in e if isinstance(e, str) else e not in cells for e in log):
        raise Unsupported('loop without a contract at ' + x.where())
    if x.choose(simp(tosmt(n) > 0)):
        x.store(sub(its[d].ptr, 0, n), content(m, sub(its[1 - d].ptr, 0, n)))
    return UNIT


@rx(r"^<std::slice::Iter<.*u8> as std::iter::Iterator>::(eq|ne)::<(&?std::slice::Iter<.*u8>|&(\'\w+ )?\[u8\]|&(\'\w+ )?std::vec::Vec<u8>)>$")
def h_bytes_iter_eq(m, f, a, at, dt):
    it = a[0]
    other = a[1]
    if not isinstance(it, IterV) or it.mode != 'ref':
        return NotImplemented
    rest = lambda i: content(m, sub(i.ptr, i.i, simp(tosmt(i.n) - i.i)))
    va = rest(it)
    vb = rest(other) if isinstance(other, IterV) else content(m, other)
    if not isinstance(va, Rope) or not isinstance(vb, Rope):
        return NotImplemented
    r = m.x.rope_eq(va, vb)
    return r if re.search(r'Iterator>::eq::', f['name']) else simp(neg(r))


@rx(r'solana_program_memory::sol_(memcpy|memmove|memset|memcmp)$')
def h_mem(m, f, a, at, dt):
    x = m.x
    op = f['def'].rsplit('_', 1)[1]
    n = a[2]
    fits = simp(tosmt(n) <= plen(m, a[0]))
    if op != 'memset':
        fits = conj(fits, simp(tosmt(n) <= plen(m, a[1])))
    if not x.choose(fits):
        raise Panic('out of bounds')
    if op == 'memset':
        if not (isinstance(a[1], int) and a[1] == 0):
            raise Unsupported('memset')
        x.store(sub(a[0], 0, n), Rope((('z', n),)))
        return UNIT
    if op == 'memcmp':
        o = x.fresh('order', IntS)
        x.assume(o != 0)
        return 0 if x.choose(value_eq(m, content(m, sub(a[0], 0, n)), content(m, sub(a[1], 0, n)))) else o
    x.store(sub(a[0], 0, n), content(m, sub(a[1], 0, n)))
    return UNIT


@rx(r'^<std::vec::Vec<.*> as std::ops::Index(Mut)?<usize>>::index(_mut)?$')
def h_vec_index(m, f, a, at, dt):
    p = vec_ptr(m, a[0])
    if not m.x.choose(simp(tosmt(a[1]) < p.n)):
        raise Panic('index')
    return Ptr(p.root, pext(p.path, ('x', a[1])), None)


@rx(r'^<std::vec::Vec<.*> as std::ops::Index(Mut)?<std::ops::Range.*>>::index(_mut)?$')
def h_vec_index_range(m, f, a, at, dt):
    return range_index(m, vec_ptr(m, a[0]), a[1], re.search(r'Index(?:Mut)?<std::ops::(\w+)', f['name']).group(1))


@d('std::vec::from_elem')
def h_from_elem(m, f, a, at, dt):
    v, n = a
    if m.x.is_u8(garg(m, f)):
        if isinstance(v, int) and v == 0:
            return VecV(Rope((('z', n),)))
        if isinstance(n, int):
            return VecV(Rope(tuple(('u', 1, v) for _ in range(n))))
    elif isinstance(n, int):
        return VecV(Arr([v] * n))
    raise Unsupported('vec![_; n] with a symbolic length')


@rx(r'^std::slice::<impl \[.*\]>::(to_vec|to_vec_in)$', r'^<std::vec::Vec<.*> as std::clone::Clone>::clone$', r'^<\[.*\] as std::borrow::ToOwned>::to_owned$',
    r'^<std::vec::Vec<.*> as std::convert::From<&(mut )?\[.*\]>>::from$', r'ConvertVec>::to_vec')
def h_to_vec(m, f, a, at, dt):
    v = content(m, a[0])
    if isinstance(v, AccArr):
        v = Arr(m.x.world.account_info(v.keys, i) for i in range(len(v.keys)))
    if isinstance(v, OSeq):
        return VecV(v)
    return VecV(v)


@rx(r'^<std::vec::Vec<.*> as std::convert::From<\[.*; \d+\]>>::from$')
def h_vec_from_arr(m, f, a, at, dt):
    return VecV(a[0])


@rx(r'^std::slice::<impl \[.*\]>::(concat|join)::', r' as std::slice::Concat<.*>>::concat$')
def h_concat(m, f, a, at, dt):
    v = content(m, a[0])
    if f['def'].endswith('join'):
        raise Unsupported('join')
    if not isinstance(v, Arr):
        raise Unsupported('concat of %r' % (v,))
    out = None
    for e in v.e:
        c = content(m, e) if isinstance(e, Ptr) else (e.c if isinstance(e, VecV) else e)
        out = c if out is None else cat(out, c)
    return VecV(out if out is not None else Arr(()))


# ---- slices ------------------------------------------------------------------------------------------------------------
@rx(r'^(core|std)::slice::<impl \[.*\]>::(len)$')
def h_slice_len(m, f, a, at, dt):
    return plen(m, a[0])


@rx(r'^(core|std)::slice::<impl \[.*\]>::(is_empty)$')
def h_slice_empty(m, f, a, at, dt):
    return eq(plen(m, a[0]), 0)


def elem(p, i):
    return Ptr(p.root, pext(p.path, ('x', simp(i))), None)


@rx(r'^(core|std)::slice::<impl \[.*\]>::(first|first_mut|last|last_mut)$')
def h_first(m, f, a, at, dt):
    n = plen(m, a[0])
    if m.x.choose(eq(n, 0)):
        return none()
    return some(elem(a[0], 0 if 'first' in f['def'] else simp(n - 1)))


@rx(r'^(core|std)::slice::<impl \[.*\]>::(split_first|split_last)(_mut)?$')
def h_split_first(m, f, a, at, dt):
    p = a[0]
    n = plen(m, p)
    if m.x.choose(eq(n, 0)):
        return none()
    if 'first' in f['def'].rsplit('::', 1)[1]:
        return some(Adt(0, (elem(p, 0), sub(p, 1, simp(n - 1)))))
    return some(Adt(0, (elem(p, simp(n - 1)), sub(p, 0, simp(n - 1)))))


@rx(r'^(core|std)::slice::<impl \[.*\]>::(split_at|split_at_mut|split_at_checked|split_at_mut_checked)$')
def h_split_at(m, f, a, at, dt):
    p, i = a
    n = plen(m, p)
    fine = m.x.choose(simp(tosmt(i) <= n))
    if not fine:
        if 'checked' in f['def']:
            return none()
        raise Panic('split_at')
    r = Adt(0, (sub(p, 0, i), sub(p, i, simp(tosmt(n) - i))))
    return some(r) if 'checked' in f['def'] else r


@rx(r'^(core|std)::slice::<impl \[.*\]>::(copy_from_slice|clone_from_slice)$')
def h_copy_from(m, f, a, at, dt):
    dst, src = a
    if not m.x.choose(eq(plen(m, dst), plen(m, src))):
        raise Panic('copy_from_slice')
    v = content(m, src)
    if not isinstance(v, (Rope, Arr)):
        raise Unsupported('copy of %r' % (v,))
    m.x.store(dst, v)
    return UNIT


@rx(r'^(core|std)::slice::<impl \[.*\]>::fill$')
def h_fill(m, f, a, at, dt):
    n = plen(m, a[0])
    if m.x.is_u8(garg(m, f)):
        if isinstance(a[1], int) and a[1] == 0:
            m.x.store(a[0], Rope((('z', n),)))
            return UNIT
        if isinstance(n, int):
            m.x.store(a[0], Rope(tuple(('u', 1, a[1]) for _ in range(n))))
            return UNIT
    elif isinstance(n, int):
        m.x.store(a[0], Arr([a[1]] * n))
        return UNIT
    raise Unsupported('fill')


def rng_bounds(m, r, kind, n):
    """(start, end) of a range value"""
    if kind == 'Range':
        return r.f[0], r.f[1]
    if kind == 'RangeFrom':
        return r.f[0], n
    if kind == 'RangeTo':
        return 0, r.f[0]
    if kind == 'RangeFull':
        return 0, n
    if kind == 'RangeInclusive':
        return r.f[0], simp(r.f[1] + 1)
    if kind == 'RangeToInclusive':
        return 0, simp(r.f[0] + 1)
    raise Unsupported('range ' + kind)


def range_index(m, p, r, kind, get=False):
    n = plen(m, p)
    s, e = rng_bounds(m, r, kind, n)
    c = conj(simp(tosmt(s) <= e), simp(tosmt(e) <= n))
    if not m.x.choose(c):
        if get:
            return None
        raise Panic('slice index')
    return sub(p, s, simp(tosmt(e) - s))


@rx(r'^(core|std)::slice::index::<impl std::ops::Index(Mut)?<std::ops::\w+(<usize>)?> for \[.*\]>::index(_mut)?$',
    r'^std::array::<impl std::ops::Index(Mut)?<std::ops::\w+(<usize>)?> for \[.*\]>::index(_mut)?$')
def h_slice_index(m, f, a, at, dt):
    return range_index(m, a[0], a[1], re.search(r'Index(?:Mut)?<std::ops::(\w+)', f['name']).group(1))


@rx(r'^(core|std)::slice::index::<impl std::ops::Index(Mut)?<usize> for \[.*\]>::index(_mut)?$')
def h_slice_index1(m, f, a, at, dt):
    if not m.x.choose(simp(tosmt(a[1]) < plen(m, a[0]))):
        raise Panic('index')
    return elem(a[0], a[1])


@rx(r'^(core|std)::slice::<impl \[.*\]>::(get|get_mut)::<')
def h_get(m, f, a, at, dt):
    k = re.search(r'>::get(?:_mut)?::<(.*)>$', f['name']).group(1)
    if k == 'usize':
        if not m.x.choose(simp(tosmt(a[1]) < plen(m, a[0]))):
            return none()
        return some(elem(a[0], a[1]))
    kind = re.match(r'std::ops::(\w+)', k).group(1)
    r = range_index(m, a[0], a[1], kind, get=True)
    return none() if r is None else some(r)


@rx(r'^(core|std)::slice::<impl \[.*\]>::(starts_with|ends_with)$')
def h_starts(m, f, a, at, dt):
    n, k = plen(m, a[0]), plen(m, a[1])
    if not m.x.choose(simp(tosmt(k) <= n)):
        return False
    off = 0 if 'starts' in f['def'] else simp(tosmt(n) - k)
    return value_eq(m, content(m, sub(a[0], off, k)), content(m, a[1]))


@rx(r'^(core|std)::slice::<impl \[.*\]>::(iter|iter_mut)$', r'^std::slice::Iter(Mut)?::<.*>::new$')
def h_iter(m, f, a, at, dt):
    return IterV(a[0], 0, plen(m, a[0]))


@rx(r'^(core|std)::slice::<impl \[.*\]>::contains$')
def h_contains(m, f, a, at, dt):
    v = content(m, a[0])
    e = m.x.load(a[1])
    if isinstance(v, Arr):
        return disj(*[value_eq(m, q, e) for q in v.e])
    raise Unsupported('contains')


@rx(r'^(core|std)::slice::<impl \[.*\]>::swap$')
def h_sl_swap(m, f, a, at, dt):
    p, q = elem(a[0], a[1]), elem(a[0], a[2])
    v, w = m.x.load(p), m.x.load(q)
    m.x.store(p, w)
    m.x.store(q, v)
    return UNIT


@rx(r'^(core|std)::slice::<impl \[.*\]>::(as_ptr|as_mut_ptr)$')
def h_as_ptr(m, f, a, at, dt):
    return a[0]


@rx(r'^(core|std)::slice::<impl \[.*\]>::(chunks_exact|chunks|windows|rchunks|sort_by|sort_by_key|sort_unstable_by)')
def h_unsup(m, f, a, at, dt):
    op = f['def'].rsplit('::', 1)[1].replace('_mut', '')
    k = a[1] if len(a) > 1 else None
    if op not in ('chunks', 'chunks_exact', 'windows') or not isinstance(k, int) or k <= 0:
        raise Unsupported(f['name'])
    p, n = a[0], plen(m, a[0])
    out, i = [], 0
    while m.x.choose(simp(tosmt(n) > i) if op == 'chunks' else simp(tosmt(n) >= i + k)):
        if not isinstance(n, int) and len(out) >= 8:
            m.x.bounded.add('a loop over pieces of a byte string is unrolled for at most 8 pieces')
            raise Infeasible()
        l = k
        if op == 'chunks' and not m.x.choose(simp(tosmt(n) >= i + k)):
            l = simp(tosmt(n) - i)
        out.append(sub(p, i, l))
        i += 1 if op == 'windows' else k
    c = Arr(out)
    return IterV(Ptr(Cell(c, 'into_iter'), (), len(out)), 0, len(out), 'own')


@rx(r'^<std::slice::(Chunks|ChunksExact|Windows|ChunksMut|ChunksExactMut)<.*> as std::iter::Iterator>::(next|size_hint|count)$')
def h_chunk_next(m, f, a, at, dt):
    if f['def'].endswith('next'):
        e = iter_next(m, a[0])
        return none() if e is None else some(e)
    it = m.x.load(a[0]) if isinstance(a[0], Ptr) else a[0]
    n = simp(tosmt(it.n) - it.i)
    return n if f['def'].endswith('count') else Adt(0, (n, some(n)))


@rx(r'impl std::convert::TryFrom<&(\'a )?(mut )?\[.*\]> for (&\'?a? ?)?\[.*; ?.*\]>::try_from$')
def h_arr_try_from(m, f, a, at, dt):
    t = m.T[rty(m, f, dt)]
    at_ = m.T[[q for q in t['args'] if isinstance(q, int)][0]]
    ref = at_['k'] == 'ref'
    if ref:
        at_ = m.T[at_['to']]
    if not m.x.choose(eq(plen(m, a[0]), at_['len'])):
        return err(UNIT)
    if ref:
        return ok(Ptr(a[0].root, a[0].path, None))
    return ok(content(m, a[0]))


@rx(r'impl std::convert::TryFrom<std::vec::Vec<.*>> for \[.*\]>::try_from$')
def h_arr_try_from_vec(m, f, a, at, dt):
    t = m.T[rty(m, f, dt)]
    at_ = m.T[[q for q in t['args'] if isinstance(q, int)][0]]
    if not m.x.choose(eq(m.seqlen(a[0].c), at_['len'])):
        return err(a[0])
    return ok(m.x.rslice(a[0].c, 0, at_['len']) if isinstance(a[0].c, Rope) else a[0].c)


def value_eq(m, a, b):
    """equality of two loaded values (byte sequences, arrays of comparable values, scalars)"""
    x = m.x
    if isinstance(a, Ptr) and not isinstance(b, Ptr):
        a = content(m, a)
    if isinstance(b, Ptr) and not isinstance(a, Ptr):
        b = content(m, b)
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return value_eq(m, content(m, a), content(m, b))
    if isinstance(a, VecV):
        a = a.c
    if isinstance(b, VecV):
        b = b.c
    if isinstance(a, StrV) and isinstance(b, StrV):
        return a.s == b.s
    if is_key(a) and is_key(b):
        return keq(m, a, b)
    if is_key(a):
        a = Rope((('k', a),))
    if is_key(b):
        b = Rope((('k', b),))
    if (is_int(a) or is_bool(a)) and (is_int(b) or is_bool(b)):
        return eq(a, b)
    if isinstance(a, Rope) and isinstance(b, Rope):
        return x.rope_eq(a, b)
    if isinstance(a, OSeq) and isinstance(b, OSeq):
        return eq(a.s, b.s)
    if isinstance(a, Arr) and isinstance(b, Arr):
        if len(a.e) != len(b.e):
            return False
        return conj(*[value_eq(m, p, q) for p, q in zip(a.e, b.e)])
    if isinstance(a, (Rope, Arr)) and isinstance(b, (Rope, Arr)):
        return x.rope_eq(a if isinstance(a, Rope) else Rope(()), b if isinstance(b, Rope) else Rope(()))
    if isinstance(a, SetV) and isinstance(b, SetV):
        return conj(a.a == b.a, eq(a.n, b.n))
    if isinstance(a, Adt) and isinstance(b, Adt) and len(a.f) == len(b.f):
        if a.v != b.v:
            return False
        return conj(*[value_eq(m, p, q) for p, q in zip(a.f, b.f)])
    raise Unsupported('equality of %r and %r at %s' % (a, b, x.where()))


@rx(r'^(core|std)::slice::cmp::<impl std::cmp::PartialEq.*>::(eq|ne)$', r'^std::array::equality::<impl std::cmp::PartialEq.*>::(eq|ne)$', r'SlicePartialEq<.*>>::(equal|not_equal|equal_same_length)$',
    r'SpecArrayEq<.*>>::spec_(eq|ne)$', r'^std::vec::partial_eq::<impl .*>::(eq|ne)$', r'^(core|std)::str::traits::<impl std::cmp::PartialEq.*>::(eq|ne)',
    r'^<std::collections::BTreeSet<.*> as std::cmp::PartialEq>::(eq|ne)')
def h_slice_eq(m, f, a, at, dt):
    if f['name'].endswith('equal_same_length'):
        return value_eq(m, content(m, span(a[0], a[2])), content(m, span(a[1], a[2])))
    va, vb = content(m, a[0]) if isinstance(a[0], Ptr) else a[0], content(m, a[1]) if isinstance(a[1], Ptr) else a[1]
    for v in (va, vb):
        if isinstance(v, int) or z3.is_expr(v) and v.sort().eq(IntS):
            raise Unsupported('equality of slices through element pointers at ' + m.x.where())
    r = value_eq(m, va, vb)
    nm = f['name'].rsplit('::', 1)[1]
    return simp(neg(r)) if nm in ('ne', 'not_equal', 'spec_ne') else r


@rx(r'^<\[.*\] as std::convert::As(Ref|Mut)<\[.*\]>>::as_(ref|mut)$', r'^std::array::<impl std::convert::As(Ref|Mut)<\[.*\]> for \[.*\]>::as_(ref|mut)$', r'^std::array::<impl \[.*\]>::as_(mut_)?slice$')
def h_as_ref(m, f, a, at, dt):
    p = a[0]
    return Ptr(p.root, p.path, plen(m, p))


@rx(r'^std::array::<impl \[.*; \d+\]>::map::<')
def h_array_map(m, f, a, at, dt):
    x = m.x
    v = a[0]
    if isinstance(v, Rope):
        n = int(re.match(r'^std::array::<impl \[u8; (\d+)\]', f['name']).group(1))
        v = Arr([x.rint(x.rslice(v, i, 1)) for i in range(n)])
    if not isinstance(v, Arr):
        raise Unsupported('array map over %r' % (v,))
    g = a[1] if isinstance(a[1], Ptr) else Ptr(Cell(a[1], 'map'))
    out = [m.call_value(g, [e]) for e in v.e]
    t = m.T[rty(m, f, dt)]
    if t['k'] == 'array' and x.is_u8(t['elem']):
        return Rope(tuple(('u', 1, e) for e in out))
    return Arr(out)


# ---- iterators ---------------------------------------------------------------------------------------------------------
def bound_iter(x, i, n):
    """iterating element by element over a sequence of unknown length: bounded"""
    if not x.choose(simp(tosmt(n) - i <= 4)):
        x.bounded.add('a loop over the elements of a sequence of unknown length is unrolled for at most 4 elements')
        raise Infeasible()


def iter_next(m, p):
    """advance an IterV behind a pointer: the element, or None"""
    x = m.x
    it = x.load(p)
    if not isinstance(it, IterV):
        raise Unsupported('iterator %r at %s' % (it, x.where()))
    if it.mode == 'generic':
        return elem(it.ptr, it.i)
    n = it.n
    i = it.i
    c = content(m, it.ptr) if not isinstance(n, int) else None
    if isinstance(c, OSeq) and isinstance(i, int) and i >= 17:
        x.bounded.add('a loop over a seed list is unrolled for at most 17 seeds')
        raise Infeasible()
    if not isinstance(n, int) and not isinstance(c, (OSeq, AccArr)):
        bound_iter(x, i, n)
    if isinstance(c, AccArr) and isinstance(i, int) and i >= len(c.keys):
        x.bounded.add('a loop over all given accounts is unrolled for at most %d accounts' % len(c.keys))
        raise Infeasible()
    if not x.choose(simp(tosmt(i) < n)):
        return None
    x.store(p, IterV(it.ptr, simp(i + 1), n, it.mode))
    e = elem(it.ptr, i)
    return x.load(e) if it.mode == 'own' else e


SLICE_ITER = r'^<std::slice::Iter(Mut)?<.*> as std::iter::(Iterator|DoubleEndedIterator|ExactSizeIterator)>::'


@rx(r'^<(std::slice::Iter(Mut)?<[^>]*(<[^>]*>|<[^>]*<[^>]*>[^>]*>)?[^>]*>|std::vec::IntoIter<.*>|std::array::IntoIter<.*>) as std::iter::Iterator>::next$', r'^<std::slice::Iter(Mut)?<.*> as std::iter::Iterator>::next$',
    r'^<std::slice::Iter(Mut)?<\'a, T> as std::iter::Iterator>::next')
def h_iter_next(m, f, a, at, dt):
    e = iter_next(m, a[0])
    return none() if e is None else some(e)


@rx(r'^<std::slice::Iter(Mut)?<.*> as std::iter::DoubleEndedIterator>::next_back$')
def h_iter_next_back(m, f, a, at, dt):
    e = iter_next_back(m, a[0])
    return none() if e is None else some(e)


def iter_next_back(m, p):
    x = m.x
    it = x.load(p)
    if not isinstance(it.n, int):
        bound_iter(x, it.i, it.n)
    if not x.choose(simp(tosmt(it.i) < it.n)):
        return None
    n = simp(it.n - 1)
    x.store(p, IterV(it.ptr, it.i, n, it.mode))
    e = elem(it.ptr, n)
    return x.load(e) if it.mode == 'own' else e


@rx(SLICE_ITER + r'(size_hint|len)$')
def h_iter_len(m, f, a, at, dt):
    it = m.x.load(a[0])
    n = simp(tosmt(it.n) - it.i) if not (isinstance(it.n, int) and isinstance(it.i, int)) else max(it.n - it.i, 0)
    return n if f['def'].endswith('len') else Adt(0, (n, some(n)))


@rx(SLICE_ITER + r'count$')
def h_iter_count(m, f, a, at, dt):
    return simp(tosmt(a[0].n) - a[0].i)


@rx(SLICE_ITER + r'nth$')
def h_iter_nth(m, f, a, at, dt):
    x = m.x
    it = x.load(a[0])
    if not x.choose(simp(tosmt(it.i) + a[1] < it.n)):
        x.store(a[0], IterV(it.ptr, it.n, it.n, it.mode))
        return none()
    i = simp(it.i + a[1])
    x.store(a[0], IterV(it.ptr, simp(i + 1), it.n, it.mode))
    return some(elem(it.ptr, i))


@rx(r'^<(std::slice::Iter(Mut)?|std::vec::IntoIter|std::array::IntoIter)<.*> as std::iter::Iterator>::__iterator_get_unchecked$')
def h_iter_getun(m, f, a, at, dt):
    it = m.x.load(a[0])
    e = elem(it.ptr, simp(it.i + a[1]))
    return m.x.load(e) if it.mode == 'own' else e


def each(m, v):
    cell = Ptr(Cell(v, 'iter'))
    while True:
        e = iter_next(m, cell)
        if e is None:
            return
        yield e


ANY_ITER = r'^<(std::slice::Iter(Mut)?|std::vec::IntoIter|std::array::IntoIter|std::collections::btree_set::(Into)?Iter)<.*> as std::iter::(Iterator|DoubleEndedIterator|ExactSizeIterator)>::'


@rx(ANY_ITER + r'(fold|for_each|any|all|find|position|rposition|rfold|rfind|find_map|try_fold|try_for_each|last|max|min|nth_back)(::|$)')
def h_iter_consume(m, f, a, at, dt):
    x = m.x
    op = re.search(r'>::(\w+)(::<.*)?$', f['name'].split(' as std::iter::')[1]).group(1)
    own = op in ('fold', 'for_each', 'rfold', 'last', 'max', 'min')
    back = op in ('rposition', 'rfold', 'rfind')
    if own:
        cell = Ptr(Cell(a[0], 'iter'))
    else:
        cell = a[0]
    it0 = x.load(cell)
    if isinstance(it0, SetIterV):
        step = set_next
        if back or op in ('position', 'last', 'max', 'min'):
            raise Unsupported('ordered traversal of a set')
    elif isinstance(it0, IterV):
        step = iter_next_back if back else iter_next
    else:
        return NotImplemented
    if op in ('max', 'min', 'nth_back'):
        return NotImplemented
    if op == 'last':
        last = none()
        while True:
            e = step(m, cell)
            if e is None:
                return last
            last = some(e)
    if op in ('fold', 'rfold'):
        acc = a[1]
        fn = Ptr(Cell(a[2], 'f'))
        while True:
            e = step(m, cell)
            if e is None:
                return acc
            acc = m.call_value(fn, [acc, e])
    if op in ('try_fold', 'try_for_each'):
        rt = m.T[rty(m, f, dt)]['n']
        cont = 1 if rt.startswith('std::option::Option<') else 0
        if not re.match(r'std::(option::Option|result::Result|ops::ControlFlow)<', rt):
            raise Unsupported('try_fold into ' + rt)
        acc = a[1] if op == 'try_fold' else UNIT
        fn = Ptr(Cell(a[2] if op == 'try_fold' else a[1], 'f'))
        while True:
            e = step(m, cell)
            if e is None:
                return Adt(cont, (acc,))
            r = m.call_value(fn, [acc, e] if op == 'try_fold' else [e])
            if r.v != cont:
                return r
            acc = r.f[0]
    fn = Ptr(Cell(a[1], 'f'))
    i = 0
    while True:
        e = step(m, cell)
        if e is None:
            return {'for_each': UNIT, 'any': False, 'all': True}.get(op, none())
        r = m.call_value(fn, [Ptr(Cell(e)) if op in ('find', 'rfind') else e])
        if op == 'any' and x.choose(r):
            return True
        if op == 'all' and not x.choose(r):
            return False
        if op in ('find', 'rfind') and x.choose(r):
            return some(e)
        if op == 'position' and x.choose(r):
            return some(i)
        if op == 'rposition' and x.choose(r):
            return some(x.load(cell).n)
        if op == 'find_map' and r.v == 1:
            return r
        i += 1


@rx(r'^<std::vec::Vec<.*> as std::iter::IntoIterator>::into_iter$')
def h_vec_into_iter(m, f, a, at, dt):
    c = a[0].c
    n = m.seqlen(c)
    return IterV(Ptr(Cell(c, 'into_iter'), (), n), 0, n, 'own')


@rx(r'^<&(\'\w+ )?(mut )?std::vec::Vec<.*> as std::iter::IntoIterator>::into_iter$')
def h_vec_ref_into_iter(m, f, a, at, dt):
    p = vec_ptr(m, a[0])
    return IterV(p, 0, plen(m, p))


@rx(r'^(core|std)::slice::iter::<impl std::iter::IntoIterator for &(\'\w+ )?(mut )?\[.*\]>::into_iter$',
    r'^std::array::iter::<impl std::iter::IntoIterator for &(\'\w+ )?(mut )?\[.*\]>::into_iter$', r'^core::array::<impl std::iter::IntoIterator for &(\'\w+ )?(mut )?\[.*\]>::into_iter$')
def h_slice_ref_into_iter(m, f, a, at, dt):
    return IterV(a[0], 0, plen(m, a[0]))


@rx(r'^std::array::iter::<impl std::iter::IntoIterator for \[.*\]>::into_iter$')
def h_arr_into_iter(m, f, a, at, dt):
    n = m.seqlen(a[0])
    return IterV(Ptr(Cell(a[0], 'into_iter'), (), n), 0, n, 'own')


@rx(r'^<(std::vec|std::array)::IntoIter<.*> as std::iter::ExactSizeIterator>::len', r'^<(std::vec|std::array)::IntoIter<.*> as std::iter::Iterator>::size_hint')
def h_into_len(m, f, a, at, dt):
    return h_iter_len(m, f, a, at, dt)


def find_iter(v, acc):
    if isinstance(v, IterV):
        acc.append(v)
    elif isinstance(v, Adt):
        for e in v.f:
            find_iter(e, acc)
    return acc


def subst_iter(v, old, new):
    if v is old:
        return new
    if isinstance(v, Adt):
        return Adt(v.v, tuple(subst_iter(e, old, new) for e in v.f))
    return v


def aux(f, what):
    for t, nm, fid in f.get('aux', []):
        if nm == what:
            return fid
    return None


def opaque_iter(m, v):
    its = find_iter(v, [])
    if len(its) == 1 and not isinstance(its[0].n, int):
        c = content(m, its[0].ptr)
        if isinstance(c, OSeq):
            return its[0], c
    return None


def pure_bytes(m, v, ty):
    """the bytes an iterator yields, when it is composed of unmapped byte sequences; else None"""
    x = m.x
    if isinstance(v, IterV) and v.mode != 'generic':
        c = content(m, v.ptr)
        if isinstance(c, Rope):
            return x.rslice(c, v.i, simp(tosmt(v.n) - v.i)) if is_sym(v.i) or is_sym(v.n) or v.n > v.i else Rope(())
        return None
    if isinstance(v, VecV):
        return v.c if isinstance(v.c, Rope) else None
    if isinstance(v, Rope):
        return v
    if isinstance(v, Ptr):
        c = content(m, v)
        return c if isinstance(c, Rope) else None
    t = m.T[ty] if ty is not None else None
    if isinstance(v, Adt) and t is not None and t['n'].startswith(('std::iter::Copied<', 'std::iter::Cloned<')):
        return pure_bytes(m, v.f[0], t['variants'][0]['fields'][0][1])
    if isinstance(v, Adt) and t is not None and t['n'].startswith('std::iter::Chain<'):
        out = Rope(())
        for part, (_, pty) in zip(v.f, t['variants'][0]['fields']):
            if part.v == 1:
                r = pure_bytes(m, part.f[0], m.T[pty]['args'][0])
                if r is None:
                    return None
                out = out + r
        return out
    return None


@rx(r'std::iter::Iterator>?::collect::<', r'std::iter::FromIterator<.*>>::from_iter', r'as std::iter::Extend<.*>>::extend::<')
def h_collect(m, f, a, at, dt):
    x = m.x
    if f['def'].endswith('}'):
        return NotImplemented
    nx = aux(f, 'next')
    ext = '::extend::<' in f['name']
    src = a[1] if ext else a[0]
    ii = aux(f, 'into_iter')
    if ext:
        cur = x.load(a[0])
        elty = [q for q in m.T[m.T[at[0]]['to']]['args'] if isinstance(q, int)][0] if at else None
    else:
        t = m.T[rty(m, f, dt)]
        if not t['n'].startswith('std::vec::Vec<'):
            if t['n'].startswith('std::boxed::Box<[') or t['n'].startswith('std::collections::BTreeSet<solana_program::solana_pubkey::Pubkey'):
                pass
            else:
                return NotImplemented
            cur = SetV(z3.K(Key, False), 0) if 'BTreeSet' in t['n'] else None
        else:
            cur = None
        elty = [q for q in t['args'] if isinstance(q, int)][0]
    if ii is not None and (ext or 'from_iter' in f['name']):
        src = m.call(ii, [src])
    if elty is not None and x.is_u8(elty):
        c = pure_bytes(m, src, at[1 if ext else 0] if at else None)
        if c is not None:
            if ext:
                x.store(a[0], VecV(cat(cur.c, c)))
                return UNIT
            return VecV(c)
    o = opaque_iter(m, src)
    step = (lambda c: m.call(nx, [c])) if nx is not None else None
    if step is None:
        if isinstance(src, IterV):
            step = lambda c: (lambda e: none() if e is None else some(e))(iter_next(m, c))
        elif isinstance(src, (VecV,)):
            n = m.seqlen(src.c)
            src = IterV(Ptr(Cell(src.c, 'into_iter'), (), n), 0, n, 'own')
            step = lambda c: (lambda e: none() if e is None else some(e))(iter_next(m, c))
        else:
            raise Unsupported('collect without a next function: ' + f['name'])
    if o is not None and isinstance(o[0].i, int) and o[0].i == 0:
        # an element-wise map over an opaque seed list: the j-th element for an arbitrary j
        it, seq = o
        j = x.fresh('j', IntS)
        gi = IterV(it.ptr, j, it.n, 'generic')
        before = (len(x.world.lamlog), len(x.world.ownlog), len(x.world.direct), len(x.trace))
        r = step(Ptr(Cell(subst_iter(src, it, gi), 'iter')))
        after = (len(x.world.lamlog), len(x.world.ownlog), len(x.world.direct), len(x.trace))
        e = r.f[0] if r.v == 1 else None
        kind = 'vec' if isinstance(e, VecV) else 'slices'
        c = content(m, e) if isinstance(e, Ptr) else (e.c if isinstance(e, VecV) else None)
        if isinstance(c, VecV):
            c = c.c
        if before == after and isinstance(c, Rope) and len(c.segs) == 1 and c.segs[0][0] == 'o' and c.segs[0][1].decl().eq(SeedEl) \
                and c.segs[0][1].arg(0).eq(seq.s) and c.segs[0][1].arg(1).eq(j) and isinstance(c.segs[0][2], int) and c.segs[0][2] == 0 \
                and c.segs[0][3].eq(z3.Function('SeedElLen', Seeds, IntS, IntS)(seq.s, j)):
            res = OSeq(seq.s, kind)
            if ext:
                x.store(a[0], VecV(cat(cur.c, res)))
                return UNIT
            return VecV(res)
    its = find_iter(src, [])
    if elty is not None and x.is_u8(elty) and len(its) == 1 and not isinstance(its[0].n, int) and isinstance(its[0].i, int) and its[0].i == 0:
        # copying a byte string of unknown length byte by byte: the j-th byte for an arbitrary j
        it = its[0]
        c = content(m, it.ptr)
        if isinstance(c, Rope) and len(c.segs) == 1 and c.segs[0][0] == 'o':
            if x.choose(simp(it.n <= 0)):
                return UNIT if ext else VecV(Rope(()))
            j = x.fresh_int('j', 0, it.n - 1)
            before = (len(x.world.lamlog), len(x.world.ownlog), len(x.world.direct))
            r = step(Ptr(Cell(subst_iter(src, it, IterV(it.ptr, j, it.n, 'generic')), 'iter')))
            after = (len(x.world.lamlog), len(x.world.ownlog), len(x.world.direct))
            e = r.f[0] if r.v == 1 else None
            e = x.load(e) if isinstance(e, Ptr) else e
            want = x.rint(Rope((('o', c.segs[0][1], simp(c.segs[0][2] + j), 1),)))
            if before == after and is_sym(e) and x.must(eq(e, want)):
                res = x.rslice(c, 0, it.n)
                if ext:
                    x.store(a[0], VecV(cat(cur.c, res)))
                    return UNIT
                return VecV(res)
            raise Unsupported('a byte-wise map over bytes of unknown length at ' + x.where())
    cell = Ptr(Cell(src, 'iter'))
    out = []
    while True:
        r = step(cell)
        if r.v == 0:
            break
        e = r.f[0]
        out.append(e)
        if len(out) > 700:
            raise Unsupported('unbounded collect')
    if isinstance(cur, SetV):
        r = set_of(m, out, cur)
        if ext:
            x.store(a[0], r)
            return UNIT
        return r
    u8 = elty is not None and x.is_u8(elty)
    if out and u8:
        out = [x.load(e) if isinstance(e, Ptr) else e for e in out]
    c = Rope(tuple(('u', 1, e) for e in out)) if u8 else Arr(out)
    if ext:
        x.store(a[0], VecV(cat(cur.c, c)))
        return UNIT
    return VecV(c)


@rx(r'as std::iter::range::RangeIteratorImpl>::spec_next$', r'^std::iter::range::<impl std::iter::Iterator for std::ops::Range<.*>>::next$')
def h_range_next(m, f, a, at, dt):
    r = m.x.load(a[0])
    if not m.x.choose(simp(tosmt(r.f[0]) < r.f[1])):
        return none()
    m.x.store(a[0], Adt(0, (simp(r.f[0] + 1), r.f[1])))
    return some(r.f[0])


def ours(x):
    """does the call come from a function of the repository?"""
    return bool(x.loc) and 'dlp::' in x.loc[-1][0]


# ---- integers -------------------------------------------------------------------------------------------------------------
@rx(r'^core::num::<impl (\w+)>::(checked|saturating|wrapping|overflowing)_(add|sub|mul|div|rem)$')
def h_arith(m, f, a, at, dt):
    x = m.x
    ty, mode, op = re.match(r'^core::num::<impl (\w+)>::(checked|saturating|wrapping|overflowing)_(\w+)$', f['name']).groups()
    tid = m.prog.tyname.get(ty)
    if tid is None:
        return NotImplemented
    lo, hi, bits = m.rng(tid)
    if op in ('div', 'rem'):
        if x.choose(eq(a[1], 0)):
            if mode == 'checked':
                return none()
            raise Panic('division by zero')
        v = m.binop('Div' if op == 'div' else 'Rem', a[0], a[1], tid)
        return some(v) if mode == 'checked' else (Adt(0, (v, False)) if mode == 'overflowing' else v)
    v = m.arith({'add': 'Add', 'sub': 'Sub', 'mul': 'Mul'}[op], a[0], a[1], tid)
    if mode == 'wrapping':
        return m.wrap(v, tid, ours(x) and f['name'])
    over = simp(tosmt(v) > hi)
    under = simp(tosmt(v) < lo)
    if mode == 'saturating':
        if (op != 'sub' or lo < 0) and x.choose(over):
            return hi
        if (op == 'sub' or lo < 0) and x.choose(under):
            return lo
        return v
    bad = x.choose(disj(over if (op != 'sub' or lo < 0) else False, under if (op == 'sub' or lo < 0) else False))
    if mode == 'checked':
        return none() if bad else some(v)
    return Adt(0, (m.wrap(v, tid, ours(x) and f['name']), bad))


@rx(r'^core::num::<impl (u\w+)>::(to_le_bytes|to_ne_bytes)$')
def h_to_le(m, f, a, at, dt):
    n = {'u8': 1, 'u16': 2, 'u32': 4, 'u64': 8, 'u128': 16, 'usize': 8}[re.match(r'^core::num::<impl (\w+)>', f['name']).group(1)]
    return Rope((('u', n, a[0]),))


@rx(r'^core::num::<impl (u\w+)>::(to_be_bytes)$')
def h_to_be(m, f, a, at, dt):
    n = {'u8': 1, 'u16': 2, 'u32': 4, 'u64': 8}[re.match(r'^core::num::<impl (\w+)>', f['name']).group(1)]
    return Rope(tuple(('u', 1, simp((a[0] / 256 ** (n - 1 - i)) % 256) if is_sym(a[0]) else (a[0] >> (8 * (n - 1 - i))) & 255) for i in range(n)))


@rx(r'^core::num::<impl (u\w+)>::(from_le_bytes|from_ne_bytes)$')
def h_from_le(m, f, a, at, dt):
    return m.x.rint(a[0])


@rx(r'^std::cmp::impls::<impl std::cmp::(PartialEq|PartialOrd|Ord) for (u\w+|bool|i\w+)>::(eq|ne|lt|le|gt|ge|cmp|partial_cmp|min|max)$')
def h_cmp(m, f, a, at, dt):
    op = f['name'].rsplit('::', 1)[1]
    x = m.x
    p, q = (x.load(v) if isinstance(v, Ptr) else v for v in a)
    if is_bool(p) and op not in ('eq', 'ne'):
        p, q = b2i(p), b2i(q)
    if op == 'eq':
        return eq(p, q)
    if op == 'ne':
        return simp(neg(eq(p, q)))
    if op in ('lt', 'le', 'gt', 'ge'):
        return m.binop({'lt': 'Lt', 'le': 'Le', 'gt': 'Gt', 'ge': 'Ge'}[op], p, q, None)
    if op in ('cmp', 'partial_cmp'):
        r = m.binop('Cmp', p, q, None)
        return some(r) if op == 'partial_cmp' else r
    c = simp(tosmt(p) <= q)
    return ite(c, p, q) if op == 'min' else ite(c, q, p)


@rx(r'^std::cmp::(min|max)$')
def h_minmax(m, f, a, at, dt):
    if is_int(a[0]) and is_int(a[1]):
        c = simp(tosmt(a[0]) <= a[1])
        return simp(ite(c, a[0], a[1]) if f['def'].endswith('min') else ite(c, a[1], a[0]))
    return NotImplemented


@rx(r'^std::cmp::impls::<impl std::cmp::PartialEq(<&B>)? for &.*>::(eq|ne)$')
def h_ref_eq(m, f, a, at, dt):
    # && comparison: look through one reference, then compare values when they are plain
    p, q = m.x.load(a[0]), m.x.load(a[1])
    try:
        r = value_eq(m, content(m, p), content(m, q)) if isinstance(p, Ptr) else value_eq(m, p, q)
    except Unsupported:
        return NotImplemented
    return simp(neg(r)) if f['name'].endswith('::ne') else r


@rx(r'^<.* as std::default::Default>::default$')
def h_default(m, f, a, at, dt):
    t = m.T[rty(m, f, dt)]
    if t['k'] == 'int':
        return 0
    if t['k'] == 'bool':
        return False
    if t['k'] == 'array' and m.x.is_u8(t['elem']):
        return C(bytes(t['len']))
    return NotImplemented


# ---- intrinsics -------------------------------------------------------------------------------------------------------------
def intrinsic(m, f, a, at, dt):
    x = m.x
    n = f['def'].rsplit('::', 1)[1]
    if n in ('cold_path', 'assert_inhabited', 'assert_zero_valid', 'assert_mem_uninitialized_valid', 'assume', 'black_box', 'forget'):
        return UNIT
    if n == 'abort' or n == 'abort_immediate':
        raise Panic('abort')
    if n in ('size_of_val',):
        v = content(m, a[0])
        if isinstance(v, Rope):
            return v.len()
        return x.size_of(garg(m, f))
    if n == 'size_of':
        return x.size_of(garg(m, f))
    if n == 'raw_eq':
        return value_eq(m, x.load(a[0]), x.load(a[1]))
    if n == 'compare_bytes':
        o = x.fresh('order', IntS)
        x.assume(o != 0)
        return 0 if x.choose(value_eq(m, content(m, span(a[0], a[2])), content(m, span(a[1], a[2])))) else o
    if n == 'saturating_sub':
        v = simp(a[0] - a[1])
        return 0 if x.choose(simp(tosmt(v) < 0)) else v
    if n == 'saturating_add':
        ty = garg(m, f)
        v = simp(a[0] + a[1])
        return m.rng(ty)[1] if x.choose(simp(tosmt(v) > m.rng(ty)[1])) else v
    if n in ('likely', 'unlikely'):
        return a[0]
    if n == 'select_unpredictable':
        return a[1] if x.choose(a[0]) else a[2]
    if n in ('write_via_move', 'volatile_store', 'unaligned_volatile_store'):
        x.store(a[0], a[1])
        return UNIT
    if n in ('read_via_copy', 'volatile_load'):
        return x.load(a[0])
    if n == 'integer_max':
        return simp(ite(simp(tosmt(a[0]) >= a[1]), a[0], a[1]))
    if n == 'integer_min':
        return simp(ite(simp(tosmt(a[0]) <= a[1]), a[0], a[1]))
    if n == 'typed_swap_nonoverlapping':
        v, w = x.load(a[0]), x.load(a[1])
        x.store(a[0], w)
        x.store(a[1], v)
        return UNIT
    if n == 'discriminant_value':
        v = x.load(a[0])
        return m.discr(v, garg(m, f))
    if n == 'three_way_compare':
        return m.binop('Cmp', a[0], a[1], garg(m, f))
    if n in ('wrapping_add', 'wrapping_sub', 'wrapping_mul'):
        return m.wrap(m.arith({'a': 'Add', 's': 'Sub', 'm': 'Mul'}[n[9]], a[0], a[1], garg(m, f)), garg(m, f))
    if n in ('add_with_overflow', 'sub_with_overflow', 'mul_with_overflow'):
        ty = garg(m, f)
        v = m.arith({'a': 'Add', 's': 'Sub', 'm': 'Mul'}[n[0]], a[0], a[1], ty)
        lo, hi, _ = m.rng(ty)
        bad = x.choose(disj(simp(tosmt(v) > hi), simp(tosmt(v) < lo)))
        return Adt(0, (m.wrap(v, ty), bad))
    if n == 'is_val_statically_known':
        return False
    if n in ('ctpop', 'ctlz', 'cttz', 'bswap', 'rotate_left', 'rotate_right') and m.rng(garg(m, f))[0] == 0:
        bits = m.rng(garg(m, f))[2]
        v = tosmt(a[0])
        if n == 'ctpop':
            return simp(z3.Sum([(v / (1 << i)) % 2 for i in range(bits)]))
        if n == 'ctlz':
            return simp(z3.Sum([z3.If(v < (1 << i), 1, 0) for i in range(bits)]))
        if n == 'cttz':
            return simp(z3.Sum([z3.If(v % (1 << i) == 0, 1, 0) for i in range(1, bits + 1)]))
        if n == 'bswap':
            return simp(z3.Sum([((v / (1 << 8 * i)) % 256) * (1 << (bits - 8 - 8 * i)) for i in range(bits // 8)]))
        if isinstance(a[1], int):
            k = a[1] % bits if n == 'rotate_left' else -a[1] % bits
            return simp((v * (1 << k)) % (1 << bits) + v / (1 << (bits - k)))
    if n in ('ptr_offset_from_unsigned', 'ptr_offset_from'):
        p, q = a
        if p.root is q.root or p.root == q.root:
            at_ = lambda u: (u.path[-1][1], u.path[:-1]) if u.path and u.path[-1][0] in 'xs' else (0, u.path)
            (i, u), (j, v) = at_(p), at_(q)
            if u == v:
                return simp(i - j)
    if n == 'copy':
        k = a[2]
        if not (isinstance(k, int) and k == 0):
            x.store(span(a[1], k), content(m, span(a[0], k)))
        return UNIT
    raise Unsupported('intrinsic %s at %s' % (n, x.where()))


@rx(r'precondition_check$', r'library_call_check')
def h_precond(m, f, a, at, dt):
    return UNIT


@rx(r'^(std|core)::ptr::(read|read_volatile|read_unaligned)$')
def h_ptr_read(m, f, a, at, dt):
    return m.x.load(a[0])


@rx(r'^(std|core)::ptr::(write|write_volatile|write_unaligned)$')
def h_ptr_write(m, f, a, at, dt):
    v = a[1]
    if isinstance(v, Rope) and is_key(m.x.load(a[0])):
        v = m.x.rkey(v)
    m.x.store(a[0], v)
    return UNIT


@rx(r'^<.* as std::clone::Clone>::clone$', r'clone::impls::<impl std::clone::Clone for .*>::clone$')
def h_clone(m, f, a, at, dt):
    v = m.x.load(a[0])
    if is_sym(v) or isinstance(v, (int, bool, VecV, SetV, Rope, RcCell)):
        return v
    if isinstance(v, Arr) and all(is_sym(e) or isinstance(e, (int, bool, VecV)) for e in v.e):
        return v
    return NotImplemented


@rx(r'std::ops::(FnOnce|FnMut|Fn)>?::call(_once|_mut)?$', r'^<.* as std::ops::(FnOnce|FnMut|Fn)<.*>>::call(_once|_mut)?$')
def h_call_fn(m, f, a, at, dt):
    fv = a[0]
    g = fv
    while isinstance(g, Ptr):
        g = m.x.load(g)
    if 'body' in f and not isinstance(g, (FnItem, Clo)):
        return NotImplemented
    args = list(a[1].f) if isinstance(a[1], Adt) else [a[1]]
    return m.call_value(fv, args)
