"""Assumed contracts of std collections, slices and iterators."""
import z3
from .core import *
from .core import _iz
from .vm import *
from .models import (model, MODELS, ok, err, some, none, branch, PANIC, resty, dr, mk)
from .merge import merge_rets, subst_val


def isbytes_ty(E, ty):
    return E.k(ty).k == 'bytes'


def is_seq(v):
    return isinstance(v, (Bytes, VecV, VecS, VecCat))


# ---------------------------------------------------------------- Vec
VEC = 'std::vec::Vec::<T>::'
VECA = 'std::vec::Vec::<T, A>::'


def empty_of(E, vecty):
    k = E.k(vecty)
    return Bytes(()) if k.k == 'bytes' else VecV(k.e, ())


@model(VEC + 'new', VEC + 'with_capacity')
def _(E, st, c):
    return empty_of(E, c.dest)


def as_slice(E, st, v):
    v = dr(E, st, v)
    if isinstance(v, IterV):
        raise Unsupported('iterator as slice')
    return v


def elem_of(v):
    return v.e


def coerce_seq(E, v, e):
    if isinstance(v, VecV) and not v.items and E.k(e).k == 'int' and E.k(e).bits == 8:
        return Bytes(())
    return v


@model(VECA + 'push')
def _(E, st, c):
    v = E.deref(st, c.args[0])
    x = c.args[1]
    if isinstance(v, Bytes):
        n = v + Bytes.be(1, x)
    else:
        n = E.vcat(v.e, v, VecV(v.e, (x,)))
    E.write(st, c.args[0], (), n)
    return UNIT


@model(VECA + 'extend_from_slice', 'std::iter::Extend::extend')
def _(E, st, c):
    v = E.deref(st, c.args[0])
    x = dr(E, st, c.args[1])
    if isinstance(x, IterV):
        outs = []
        e = v.e if not isinstance(v, Bytes) else None
        for s, w in collect_seq(E, st, x, None if e is None else e, isinstance(v, Bytes)):
            if isinstance(w, Ret):
                outs.append(w)
                continue
            E.write(s, c.args[0], (), seqcat(E, v, w))
            outs.append(Ret(s, 'ret', UNIT))
        return outs
    E.write(st, c.args[0], (), seqcat(E, v, x))
    return UNIT


def seqcat(E, a, b):
    if isinstance(a, Bytes) and isinstance(b, Bytes):
        return a + b
    if isinstance(a, Bytes) or isinstance(b, Bytes):
        raise Unsupported('mixed concatenation')
    return E.vcat(a.e, a, b)


@model(VECA + 'append')
def _(E, st, c):
    v = E.deref(st, c.args[0])
    w = E.deref(st, c.args[1])
    E.write(st, c.args[0], (), seqcat(E, v, w))
    E.write(st, c.args[1], (), Bytes(()) if isinstance(w, Bytes) else VecV(w.e, ()))
    return UNIT


def real_len(E, st, v):
    """no allocation is larger than isize::MAX bytes"""
    n = E.vlen(v)
    if not isinstance(n, int):
        st.add(z3.And(n >= 0, n <= (1 << 63) - 1))
    return n


@model(VECA + 'len', 'core::slice::<impl [T]>::len', 'cosmwasm_std::hex_binary::HexBinary::len',
       'cosmwasm_std::binary::Binary::len')
def _(E, st, c):
    return real_len(E, st, as_slice(E, st, c.args[0]))


@model(VECA + 'is_empty', 'core::slice::<impl [T]>::is_empty', 'cosmwasm_std::hex_binary::HexBinary::is_empty',
       'cosmwasm_std::binary::Binary::is_empty')
def _(E, st, c):
    return ieq(E.vlen(as_slice(E, st, c.args[0])), 0)


@model(VECA + 'as_slice', VECA + 'as_mut_slice', 'cosmwasm_std::hex_binary::HexBinary::as_slice', 'cosmwasm_std::binary::Binary::as_slice',
       'generic_array::GenericArray::<T, N>::as_slice', 'core::str::<impl str>::as_bytes', 'std::string::String::as_bytes',
       'std::string::String::as_str', 'cosmwasm_std::addresses::Addr::as_str', 'cosmwasm_std::addresses::Addr::as_bytes',
       'core::array::<impl [T; N]>::as_slice', 'std::array::<impl [T; N]>::as_slice', 'std::array::<impl [T; N]>::as_mut_slice')
def _(E, st, c):
    return c.args[0]


@model(VECA + 'pop')
def _(E, st, c):
    v = E.deref(st, c.args[0])
    n = E.vlen(v)
    def good(s):
        E.write(s, c.args[0], (), E.vslice(s, v, 0, isub(n, 1)))
        return some(c.dest, E.vat(s, v, isub(n, 1)))
    return branch(E, st, ieq(n, 0), lambda s: none(c.dest), good)


@model(VECA + 'truncate')
def _(E, st, c):
    v = E.deref(st, c.args[0])
    n = E.vlen(v)
    def cut(s):
        E.write(s, c.args[0], (), E.vslice(s, v, 0, c.args[1]))
        return UNIT
    return branch(E, st, simp(_iz(c.args[1]) < _iz(n)), cut, lambda s: UNIT)


@model(VECA + 'clear')
def _(E, st, c):
    v = E.deref(st, c.args[0])
    E.write(st, c.args[0], (), Bytes(()) if isinstance(v, Bytes) else VecV(v.e, ()))
    return UNIT


@model(VECA + 'insert')
def _(E, st, c):
    v = E.deref(st, c.args[0])
    n = E.vlen(v)
    i = c.args[1]
    def good(s):
        a, b = E.vslice(s, v, 0, i), E.vslice(s, v, i, isub(n, i))
        m = Bytes.be(1, c.args[2]) if isinstance(v, Bytes) else VecV(v.e, (c.args[2],))
        E.write(s, c.args[0], (), seqcat(E, seqcat(E, a, m), b))
        return UNIT
    return branch(E, st, simp(_iz(i) <= _iz(n)), good, lambda s: PANIC('insert index'))


# ---------------------------------------------------------------- slices
@model('core::slice::<impl [T]>::iter', 'core::slice::<impl [T]>::iter_mut', 'core::array::<impl [T; N]>::iter')
def _(E, st, c):
    return vec_iter(E, st, c.args[0], mut=c.name.endswith('_mut'))


def vec_iter(E, st, r, mut=False):
    """iterator yielding references"""
    if mut:
        while isinstance(E.deref(st, r), Ref):
            r = E.deref(st, r)
        return IterV('vecmut', (r, 0, E.vlen(dr(E, st, r))))
    return IterV('vec', (dr(E, st, r), 0, True))


@model('std::slice::<impl [T]>::to_vec', 'std::slice::<impl [T]>::into_vec', 'cosmwasm_std::hex_binary::HexBinary::to_vec')
def _(E, st, c):
    return dr(E, st, c.args[0])


@model('core::slice::<impl [T]>::contains')
def _(E, st, c):
    v = dr(E, st, c.args[0])
    x = dr(E, st, c.args[1])
    return contains(E, st, v, x)


def contains(E, st, v, x):
    n = E.vlen(v)
    if isinstance(n, int):
        return OR(*[E.eq(st, E.vat(st, v, i), x) for i in range(n)])
    # symbolic length: membership predicate of (vector, element), with witnesses
    e = v.e if not isinstance(v, Bytes) else None
    if e is None:
        raise Unsupported('contains in byte string of unknown length')
    i = z3.Int('mem!i')
    s2 = State()
    body = E.eq(s2, E.vat(s2, v, i), x)
    if isinstance(body, bool):
        return AND(body, NOT(ieq(n, 0)))
    p = z3.Exists([i], z3.And(i >= 0, i < _iz(n), body))
    return p


@model('core::slice::<impl [T]>::last', 'core::slice::<impl [T]>::first')
def _(E, st, c):
    v = dr(E, st, c.args[0])
    n = E.vlen(v)
    i = isub(n, 1) if c.name.endswith('last') else 0
    return branch(E, st, ieq(n, 0), lambda s: none(c.dest), lambda s: some(c.dest, ValRef(E.vat(s, v, i))))


@model('core::slice::<impl [T]>::get')
def _(E, st, c):
    v = dr(E, st, c.args[0])
    i = c.args[1]
    if isinstance(i, (int,)) or z3.is_expr(i):
        return branch(E, st, simp(_iz(i) < _iz(E.vlen(v))), lambda s: some(c.dest, ValRef(E.vat(s, v, i))), lambda s: none(c.dest))
    lo, hi = range_bounds(E, st, v, i)
    return branch(E, st, AND(simp(_iz(lo) <= _iz(hi)), simp(_iz(hi) <= _iz(E.vlen(v)))), lambda s: some(c.dest, ValRef(E.vslice(s, v, lo, isub(hi, lo)))), lambda s: none(c.dest))


@model('core::slice::<impl [T]>::split_at')
def _(E, st, c):
    v = dr(E, st, c.args[0])
    n = E.vlen(v)
    i = c.args[1]
    return branch(E, st, simp(_iz(i) <= _iz(n)), lambda s: Agg(c.dest, 0, (ValRef(E.vslice(s, v, 0, i)), ValRef(E.vslice(s, v, i, isub(n, i))))), lambda s: PANIC('split_at'))


@model('core::slice::<impl [T]>::starts_with')
def _(E, st, c):
    v, p = dr(E, st, c.args[0]), dr(E, st, c.args[1])
    n, m = E.vlen(v), E.vlen(p)
    return branch(E, st, simp(_iz(n) >= _iz(m)), lambda s: E.eq(s, E.vslice(s, v, 0, m), p), lambda s: False)


def _join(E, st, v, sep):
    v = dr(E, st, v)
    if not isinstance(v, VecV):
        return None
    out = None
    for i, x in enumerate(v.items):
        x = dr(E, st, x)
        if out is None:
            out = x
        else:
            if sep is not None:
                out = seqcat(E, out, sep)
            out = seqcat(E, out, x)
    return out


@model('std::slice::<impl [T]>::concat')
def _(E, st, c):
    r = _join(E, st, c.args[0], None)
    if r is None:
        v = dr(E, st, c.args[0])
        if isinstance(v, VecV):
            return empty_of(E, c.dest)
        raise Unsupported('concat of symbolic vector')
    return r


@model('std::slice::<impl [T]>::join')
def _(E, st, c):
    v = dr(E, st, c.args[0])
    if not isinstance(v, VecV):
        # only ever used for event attributes: an unspecified string
        return Bytes.of(E.fresh('join', B))
    r = _join(E, st, v, dr(E, st, c.args[1]))
    return r if r is not None else empty_of(E, c.dest)


@model('core::slice::<impl [T]>::copy_from_slice', 'core::slice::<impl [T]>::clone_from_slice')
def _(E, st, c):
    d = E.deref_all(st, c.args[0])
    s_ = dr(E, st, c.args[1])
    r = c.args[0]
    while isinstance(E.deref(st, r), Ref):
        r = E.deref(st, r)
    def good(s):
        E.write(s, r, (), s_)
        return UNIT
    return branch(E, st, simp(_iz(E.vlen(d)) == _iz(E.vlen(s_))), good, lambda s: PANIC('slice length mismatch'))


@model('std::convert::AsMut::as_mut', 'std::convert::AsRef::as_ref', 'std::borrow::Borrow::borrow', 'std::ops::Deref::deref', 'std::ops::DerefMut::deref_mut')
def _(E, st, c):
    v = c.args[0]
    if c.rname and not c.rname.startswith(('<std::', '<alloc', '<cosmwasm_std::', 'std::', '<[', '<&', '<str')) and 'std::' not in c.rname.split(' as ')[0]:
        if c.fn.get('id') is not None:
            return NotImplemented
    return v


@model('core::slice::<impl [T]>::chunks_exact', 'core::slice::<impl [T]>::chunks')
def _(E, st, c):
    v = dr(E, st, c.args[0])
    n = c.args[1]
    if not isinstance(n, int) or n == 0:
        raise Unsupported('chunk size')
    L = E.vlen(v)
    if c.name.endswith('chunks'):
        if not isinstance(L, int):
            raise Unsupported('chunks')
        items = [E.vslice(st, v, i, min(n, L - i)) for i in range(0, L, n)]
        return IterV('vec', (VecV(None, items), 0, True))
    if isinstance(L, int):
        return IterV('vec', (VecV(None, [E.vslice(st, v, i * n, n) for i in range(L // n)]), 0, True))
    cnt = simp(_iz(L) / n)
    return IterV('vec', (VecS(None, cnt, lambda s, i: E.vslice(s, v, simp(_iz(i) * n), n), ('chunks', v, n)), 0, True))


@model('core::slice::<impl [T]>::reverse')
def _(E, st, c):
    v = E.deref_all(st, c.args[0])
    if isinstance(v, VecV):
        E.write(st, c.args[0], (), VecV(v.e, v.items[::-1]))
        return UNIT
    raise Unsupported('reverse')


# ---------------------------------------------------------------- indexing
def range_bounds(E, st, v, r):
    n = E.k(r.ty).t['name'].split('::')[-1]
    L = E.vlen(v)
    if n == 'RangeFrom':
        return r.f[0], L
    if n == 'RangeTo':
        return 0, r.f[0]
    if n == 'Range':
        return r.f[0], r.f[1]
    if n == 'RangeFull':
        return 0, L
    if n == 'RangeInclusive':
        return r.f[0], iadd(r.f[1], 1)
    if n == 'RangeToInclusive':
        return 0, iadd(r.f[0], 1)
    raise Unsupported('index by ' + n)


@model('std::ops::Index::index', 'std::ops::IndexMut::index_mut')
def _(E, st, c):
    mut = c.name.endswith('_mut')
    r = c.args[0]
    while isinstance(r, (Ref, ValRef)) and isinstance(E.deref(st, r), (Ref, ValRef)):
        r = E.deref(st, r)
    v = E.deref_all(st, r)
    if not is_seq(v):
        raise Unsupported('index of %r' % (v,))
    i = dr(E, st, c.args[1])
    L = E.vlen(v)
    if isinstance(i, int) or z3.is_expr(i):
        return branch(E, st, simp(_iz(i) < _iz(L)), (lambda s: Ref(r.cell, r.path + (('i', i),))) if mut else (lambda s: ValRef(E.vat(s, v, i))), lambda s: PANIC('index out of bounds'))
    lo, hi = range_bounds(E, st, v, i)
    c1 = AND(simp(_iz(lo) <= _iz(hi)), simp(_iz(hi) <= _iz(L)))
    def good(s):
        n = isub(hi, lo)
        if mut:
            return Ref(r.cell, tuple(r.path) + (('S', lo, n),))
        return ValRef(E.vslice(s, v, lo, n))
    return branch(E, st, c1, good, lambda s: PANIC('slice index out of range'))


# ---------------------------------------------------------------- iterators
def to_iter(E, st, v, ty=None):
    """IntoIterator::into_iter"""
    byref = isinstance(v, (Ref, ValRef))
    r = v
    v = dr(E, st, v)
    if isinstance(v, IterV):
        return r if byref else v       # &mut I is an iterator
    if is_seq(v):
        return IterV('vec', (v, 0, byref))
    if isinstance(v, Agg) and E.k(v.ty).k == 'adt':
        n = E.k(v.ty).t['name']
        if n == 'std::ops::Range':
            return IterV('range', (v.f[0], v.f[1]))
        if n == 'std::ops::RangeInclusive':
            return IterV('range', (v.f[0], iadd(v.f[1], 1)))
        if n == 'std::option::Option':
            return IterV('vec', (VecV(None, () if v.var == 0 else (v.f[0],)), 0, byref))
    if isinstance(v, SetV):
        raise Unsupported('iteration over a set')
    if isinstance(v, BMapV):
        if len(v.items) > 1 and not E.k(v.ty).t['name'].endswith('BTreeMap'):
            raise Unsupported('iteration order of a hash map')
        return IterV('vec', (VecV(None, [Agg(None, 0, tuple(ValRef(y) for y in x) if byref else x) for x in v.items]), 0, False))
    if isinstance(v, BMapS):
        return IterV('bmap', (v,))
    if isinstance(v, Coins):
        from .models import coins_seq
        return IterV('vec', (coins_seq(E, st, v.arr, E.ty('std::vec::Vec<cosmwasm_std::coin::Coin>')), 0, byref))
    if user_next(E, v) is not None:
        return IterV('user', v)
    raise Unsupported('into_iter of %r' % (v,))


def user_next(E, v):
    if isinstance(v, (Agg, Sym)) and v.ty is not None and E.k(v.ty).k == 'adt':
        n = E.P.ts(v.ty)
        f = E.P.byname.get('<%s as std::iter::Iterator>::next' % n)
        if f:
            return f[0]
    return None


@model('std::iter::IntoIterator::into_iter')
def _(E, st, c):
    return to_iter(E, st, c.args[0], c.argtys[0])


def wrapit(kind_):
    def f(E, st, c):
        return IterV(kind_, (to_iter(E, st, c.args[0]),) + tuple(c.args[1:]))
    return f


for _k in ('map', 'filter', 'filter_map', 'flat_map', 'take', 'skip', 'take_while', 'skip_while', 'step_by'):
    MODELS['std::iter::Iterator::' + _k] = wrapit(_k)


@model('std::iter::Iterator::enumerate')
def _(E, st, c):
    return IterV('enum', (to_iter(E, st, c.args[0]), 0))


@model('std::iter::Iterator::rev')
def _(E, st, c):
    return rev_of(E, st, to_iter(E, st, c.args[0]))


def rev_of(E, st, it):
    """the iterator from the back"""
    it = dr(E, st, it)
    if it.k == 'vec':
        v, p, byref = it.d
        if isinstance(v, VecV):
            return IterV('vec', (VecV(v.e, v.items[p:][::-1]), 0, byref))
        n = E.vlen(v)
        return IterV('vec', (VecS(getattr(v, 'e', None), isub(n, p), lambda s, i: E.vat(s, v, isub(isub(n, 1), i)), ('rev', v)), 0, byref))
    if it.k == 'range':
        lo, hi = it.d
        if isinstance(lo, int) and isinstance(hi, int):
            return IterV('vec', (VecV(None, list(range(lo, hi))[::-1]), 0, False))
        return IterV('vec', (VecS(None, ilen(E, st, it), lambda s, i: isub(isub(hi, 1), i), ('revrange', it)), 0, False))
    if it.k == 'cloned':
        return IterV('cloned', (rev_of(E, st, it.d[0]),))
    if it.k == 'map':
        return IterV('map', (rev_of(E, st, it.d[0]), it.d[1]))
    if it.k == 'chain':
        return IterV('chain', (rev_of(E, st, it.d[1]), rev_of(E, st, it.d[0])))
    if it.k in ('filter', 'filter_map'):
        return IterV(it.k, (rev_of(E, st, it.d[0]), it.d[1]))
    if it.k == 'enum':
        n = ilen(E, st, it.d[0])
        if n is not None:
            at = it.d[1]
            back = IterV('vec', (VecS(None, n, lambda s, i: iadd(at, isub(isub(n, 1), i)), ('revix', n)), 0, False))
            return IterV('zip', (back, rev_of(E, st, it.d[0])))
    v = pure_seq(E, st, it)
    if v is not None:
        return rev_of(E, st, IterV('vec', (v, 0, True)))
    raise Unsupported('rev')


@model('std::iter::Iterator::flatten')
def _(E, st, c):
    return IterV('flat_map', (to_iter(E, st, c.args[0]), Identity(), None))


@model('std::iter::Iterator::chain', 'std::iter::Iterator::zip')
def _(E, st, c):
    return IterV(c.name.split('::')[-1], (to_iter(E, st, c.args[0]), to_iter(E, st, c.args[1])))


@model('std::iter::Iterator::cloned', 'std::iter::Iterator::copied')
def _(E, st, c):
    return IterV('cloned', (to_iter(E, st, c.args[0]),))


@model('std::iter::Iterator::peekable', 'std::iter::Iterator::fuse', 'std::iter::Iterator::by_ref')
def _(E, st, c):
    return c.args[0] if c.name.endswith('by_ref') else to_iter(E, st, c.args[0])


def ilen(E, st, it):
    """number of elements if it is decided by the sequence shape, else None (never symbolic when short lengths are enumerated)"""
    n = _ilen(E, st, it)
    return n if isinstance(n, int) or not E.short else None


def _ilen(E, st, it):
    it = dr(E, st, it)
    k, d = it.k, it.d
    if k == 'vec':
        return isub(E.vlen(d[0]), d[1])
    if k == 'vecmut':
        return isub(d[2], d[1])
    if k == 'range':
        if isinstance(d[0], int) and isinstance(d[1], int):
            return max(0, d[1] - d[0])
        return simp(z3.If(_iz(d[1]) > _iz(d[0]), _iz(d[1]) - _iz(d[0]), 0))
    if k in ('map', 'cloned', 'enum'):
        return ilen(E, st, d[0])
    if k == 'bmap':
        return d[0].len()
    if k == 'chain':
        a, b = ilen(E, st, d[0]), ilen(E, st, d[1])
        return None if a is None or b is None else iadd(a, b)
    if k in ('take', 'skip', 'zip'):
        a = ilen(E, st, d[0])
        b = d[1] if k != 'zip' else ilen(E, st, d[1])
        if a is None or b is None:
            return None
        if isinstance(a, int) and isinstance(b, int):
            return min(a, b) if k != 'skip' else max(0, a - b)
        if k == 'skip':
            return simp(z3.If(_iz(a) > _iz(b), _iz(a) - _iz(b), 0))
        return simp(z3.If(_iz(a) < _iz(b), _iz(a), _iz(b)))
    return None


def iat(E, st, it, i):
    """element i, for iterators whose elements are independent: list of (state, value | Ret)"""
    with E.all_paths():
        return _iat(E, st, it, i)


def _iat(E, st, it, i):
    it = dr(E, st, it)
    k, d = it.k, it.d
    if k == 'vec':
        v, p, byref = d
        x = E.vat(st, v, iadd(p, i))
        return [(st, ValRef(x) if byref and not isinstance(x, (Ref, ValRef)) else x)]
    if k == 'bmap':
        return [(st, d[0].at(E, st, i))]
    if k == 'range':
        return [(st, iadd(d[0], i))]
    if k == 'vecmut':
        return [(st, Ref(d[0].cell, tuple(d[0].path) + (('i', iadd(d[1], i)),)))]
    if k == 'cloned':
        return [(s, x if isinstance(x, Ret) else dr(E, s, x)) for s, x in iat(E, st, d[0], i)]
    if k == 'enum':
        return [(s, x if isinstance(x, Ret) else Agg(None, 0, (iadd(d[1], i), x))) for s, x in iat(E, st, d[0], i)]
    if k == 'map':
        out = []
        for s, x in iat(E, st, d[0], i):
            if isinstance(x, Ret):
                out.append((s, x))
                continue
            for r in E.call_value(s, d[1], [x], clo_ret(E, s, d[1])):
                out.append((r.st, r if r.k == 'panic' else r.v))
        return out
    if k == 'take':
        return iat(E, st, d[0], i)
    if k == 'skip':
        return iat(E, st, d[0], iadd(d[1], i))
    if k == 'zip':
        out = []
        for s, x in iat(E, st, d[0], i):
            if isinstance(x, Ret):
                out.append((s, x))
                continue
            for s2, y in iat(E, s, d[1], i):
                out.append((s2, y if isinstance(y, Ret) else Agg(None, 0, (x, y))))
        return out
    if k == 'chain':
        n = ilen(E, st, d[0])
        c = simp(_iz(i) < _iz(n))
        if c is True:
            return iat(E, st, d[0], i)
        if c is False:
            return iat(E, st, d[1], isub(i, n))
    raise Unsupported('element of iterator ' + k)


def clo_ret(E, st, f):
    """return type of a closure / fn value"""
    f = E.deref_all(st, f)
    if isinstance(f, Clo):
        t = E.P.types[f.ty]
        b = E.P.fns.get(t.get('id'))
        return b['locals'][0] if b else None
    if isinstance(f, FnV):
        b = E.P.fns.get(f.fn.get('id'))
        if b:
            return b['locals'][0]
        if f.fn.get('ret') is not None:
            return f.fn['ret']
    return None


def inext(E, st, it):
    """list of (state, elem | None | Ret, new iterator)"""
    k, d = it.k, it.d
    if k == 'vec':
        v, p, byref = d
        n = E.vlen(v)
        out = []
        a, b = E.fork(st, simp(_iz(p) < _iz(n)))
        if a is not None and b is not None and isinstance(p, int) and p >= E.unroll:
            E.cut(a)
            a = None
        if a is not None:
            x = E.vat(a, v, p)
            out.append((a, ValRef(x) if byref and not isinstance(x, (Ref, ValRef)) else x, IterV('vec', (v, iadd(p, 1), byref))))
        if b is not None:
            out.append((b, None, it))
        return out
    if k == 'vecmut':
        r, p, n = d
        out = []
        a, b = E.fork(st, simp(_iz(p) < _iz(n)))
        if a is not None:
            out.append((a, Ref(r.cell, tuple(r.path) + (('i', p),)), IterV('vecmut', (r, iadd(p, 1), n))))
        if b is not None:
            out.append((b, None, it))
        return out
    if k == 'range':
        lo, hi = d
        out = []
        a, b = E.fork(st, simp(_iz(lo) < _iz(hi)))
        if a is not None:
            out.append((a, lo, IterV('range', (iadd(lo, 1), hi))))
        if b is not None:
            out.append((b, None, it))
        return out
    if k == 'cloned':
        return [(s, x if x is None or isinstance(x, Ret) else dr(E, s, x), IterV(k, (j,))) for s, x, j in rnext(E, st, d[0])]
    if k == 'enum':
        return [(s, x if x is None or isinstance(x, Ret) else Agg(None, 0, (d[1], x)), IterV(k, (j, iadd(d[1], 1)))) for s, x, j in rnext(E, st, d[0])]
    if k == 'map':
        out = []
        for s, x, j in rnext(E, st, d[0]):
            if x is None or isinstance(x, Ret):
                out.append((s, x, IterV(k, (j, d[1]))))
                continue
            for r in E.call_value(s, d[1], [x], clo_ret(E, s, d[1])):
                out.append((r.st, r if r.k == 'panic' else r.v, IterV(k, (j, d[1]))))
        return out
    if k == 'chain':
        out = []
        for s, x, j in rnext(E, st, d[0]):
            if x is None:
                out.extend((s2, y, IterV(k, (j, j2))) for s2, y, j2 in rnext(E, s, d[1]))
            else:
                out.append((s, x, IterV(k, (j, d[1]))))
        return out
    if k == 'zip':
        out = []
        for s, x, j in rnext(E, st, d[0]):
            if x is None or isinstance(x, Ret):
                out.append((s, x, it))
                continue
            for s2, y, j2 in rnext(E, s, d[1]):
                out.append((s2, y if y is None or isinstance(y, Ret) else Agg(None, 0, (x, y)), IterV(k, (j, j2))))
        return out
    if k == 'take':
        out = []
        a, b = E.fork(st, simp(_iz(d[1]) > 0))
        if a is not None:
            out.extend((s, x, IterV(k, (j, isub(d[1], 1)))) for s, x, j in rnext(E, a, d[0]))
        if b is not None:
            out.append((b, None, it))
        return out
    if k == 'skip':
        if isinstance(d[1], int):
            l = [(st, d[0])]
            for _ in range(d[1]):
                l2 = []
                for s, j in l:
                    l2.extend((s2, j2) for s2, x, j2 in rnext(E, s, j))
                l = l2
            out = []
            for s, j in l:
                out.extend((s2, x, IterV(k, (j2, 0))) for s2, x, j2 in rnext(E, s, j))
            return out
        raise Unsupported('skip by symbolic count')
    if k in ('filter', 'filter_map', 'take_while', 'skip_while'):
        out = []
        work = [(st, d[0])]
        rounds = 0
        while work:
            s, j0 = work.pop()
            rounds += 1
            if rounds > 300:
                raise Unsupported('filter loop')
            for s1, x, j in rnext(E, s, j0):
                if x is None or isinstance(x, Ret):
                    out.append((s1, x, IterV(k, (j, d[1]))))
                    continue
                arg = x if k == 'filter_map' else ValRef(x)
                for r in E.call_value(s1, d[1], [arg]):
                    if r.k == 'panic':
                        out.append((r.st, r, it))
                        continue
                    cnd = E.isvar(r.v, 1) if k == 'filter_map' else r.v
                    a, b = E.fork(r.st, cnd)
                    if k == 'skip_while':
                        a, b = b, a
                    if a is not None:
                        if k == 'skip_while':
                            out.append((a, x, j))
                        else:
                            out.append((a, E.field(a, r.v, 0, 1) if k == 'filter_map' else x, IterV(k, (j, d[1]))))
                    if b is not None:
                        if k == 'take_while':
                            out.append((b, None, IterV('vec', (VecV(None, ()), 0, False))))
                        else:
                            work.append((b, j))
        return out
    if k == 'flat_map':
        inner = d[0]
        cur = d[2] if len(d) > 2 else None
        out = []
        work = [(st, inner, cur)]
        rounds = 0
        while work:
            s, i_, c_ = work.pop()
            rounds += 1
            if rounds > 300:
                raise Unsupported('flat_map loop')
            if c_ is not None:
                for s1, x, j in rnext(E, s, c_):
                    if x is None:
                        work.append((s1, i_, None))
                    else:
                        out.append((s1, x, IterV(k, (i_, d[1], j))))
                continue
            for s1, x, j in rnext(E, s, i_):
                if x is None or isinstance(x, Ret):
                    out.append((s1, x, IterV(k, (j, d[1]))))
                    continue
                for r in E.call_value(s1, d[1], [x]):
                    if r.k == 'panic':
                        out.append((r.st, r, it))
                    else:
                        work.append((r.st, j, to_iter(E, r.st, r.v)))
        return out
    if k == 'user':
        f = user_next(E, d)
        cell = E.newcell(st, d)
        out = []
        for r in E.call_fn(st, f, [cell]):
            if r.k == 'panic':
                out.append((r.st, r, it))
                continue
            v2 = E.deref(r.st, cell)
            a, b = E.fork(r.st, E.isvar(r.v, 1))
            if a is not None:
                out.append((a, E.field(a, r.v, 0, 1), IterV('user', v2)))
            if b is not None:
                out.append((b, None, IterV('user', v2)))
        return out
    raise Unsupported('next on iterator ' + k)


def rnext(E, st, it):
    """next through an inner iterator, which may be a &mut"""
    if isinstance(it, (Ref, ValRef)):
        r = it
        cur = E.deref_all(st, r)
        out = []
        for s, x, j in inext(E, st, cur):
            E.write(s, r, (), j)
            out.append((s, x, r))
        return out
    return inext(E, st, it)


@model('std::iter::Iterator::next')
def _(E, st, c):
    r = c.args[0]
    while isinstance(E.deref(st, r), Ref):
        r = E.deref(st, r)
    v = E.deref(st, r)
    if not isinstance(v, IterV):
        if isinstance(v, Agg) and E.k(v.ty).k == 'adt' and E.k(v.ty).t['name'] == 'std::ops::Range':
            a, b = E.fork(st, simp(_iz(v.f[0]) < _iz(v.f[1])))
            out = []
            if a is not None:
                E.write(a, r, (), Agg(v.ty, 0, (iadd(v.f[0], 1), v.f[1])))
                out.append(Ret(a, 'ret', some(c.dest, v.f[0])))
            if b is not None:
                out.append(Ret(b, 'ret', none(c.dest)))
            return out
        return NotImplemented
    out = []
    for s, x, j in inext(E, st, v):
        if isinstance(x, Ret):
            out.append(x)
            continue
        E.write(s, r, (), j)
        out.append(Ret(s, 'ret', none(c.dest) if x is None else some(c.dest, tupled(E, c.dest, x))))
    return out


def tupled(E, oty, x):
    """give anonymous tuples (enumerate, zip) the type the destination says"""
    if isinstance(x, Agg) and x.ty is None and x.f:
        k = E.k(oty)
        if k.k == 'adt' and k.t['name'] == 'std::option::Option':
            return Agg(k.t['ga'][0], 0, x.f)
    return x


@model('std::iter::Iterator::size_hint', 'std::iter::ExactSizeIterator::len')
def _(E, st, c):
    n = ilen(E, st, c.args[0])
    if n is None:
        raise Unsupported('iterator length')
    return n


@model('std::iter::Iterator::count')
def _(E, st, c):
    it = to_iter(E, st, c.args[0])
    n = ilen(E, st, it)
    if n is not None:
        return n
    return [Ret(s, 'ret', len(l)) if not isinstance(l, Ret) else l for s, l in drain(E, st, it)]


def drain(E, st, it):
    """all elements, path by path; symbolic lengths are bounded by E.unroll"""
    n = ilen(E, st, it)
    sym = not isinstance(n, int)
    work = [(st, it, ())]
    out = []
    while work:
        s, j, acc = work.pop()
        if sym and len(acc) > E.unroll or len(acc) > 4000:
            if not sym:
                raise Unsupported('very long iteration')
            E.cut(s)
            continue
        for s2, x, j2 in rnext(E, s, j):
            if x is None:
                out.append((s2, list(acc)))
            elif isinstance(x, Ret):
                out.append((s2, x))
            else:
                work.append((s2, j2, acc + (x,)))
    return out


def pure_seq(E, st, it):
    """the iterator as one sequence value, when it is only views and concatenation; None otherwise"""
    it = dr(E, st, it)
    k, d = it.k, it.d
    if k == 'vec':
        v, p, byref = d
        if isinstance(p, int) and p == 0:
            return v
        return E.vslice(st, v, p, isub(E.vlen(v), p))
    if k == 'cloned':
        return pure_seq(E, st, d[0])
    if k == 'chain':
        a, b = pure_seq(E, st, d[0]), pure_seq(E, st, d[1])
        if a is None or b is None:
            return None
        if isinstance(a, Bytes) and isinstance(b, Bytes):
            return a + b
        if isinstance(a, Bytes) or isinstance(b, Bytes):
            return None
        return E.vcat(a.e, a, b)
    if k == 'flat_map' and (len(d) < 3 or d[2] is None):
        n = ilen(E, st, d[0])
        if n is not None and isinstance(d[1], Identity):
            src, p = d[0], 0
            while src.k in ('take', 'cloned'):
                src = dr(E, st, src.d[0])
            if src.k == 'vec' and isinstance(getattr(src.d[0], 'key', None), tuple) and src.d[0].key[0] == 'chunks':
                _, v, w = src.d[0].key
                return E.vslice(st, v, simp(_iz(src.d[1]) * w), simp(_iz(n) * w))
        if n is None or isinstance(n, int):
            return None
        try:
            i, outs = elementwise(E, st, IterV('map', (d[0], d[1])), n)
        except Unsupported:
            return None
        if len(outs) != 1 or isinstance(outs[0][1], Ret):
            return None
        x = dr(E, st, outs[0][1])
        if not isinstance(x, Bytes) or outs[0][0] and not E.implied(st, outs[0][0], [z3.And(i >= 0, i < _iz(n))]):
            return None
        return flat_of(E, st, i, x.term(), n)
    if k in ('take', 'skip'):
        a = pure_seq(E, st, d[0])
        if a is None:
            return None
        n, L = d[1], E.vlen(a)
        if isinstance(n, int) and isinstance(L, int):
            return E.vslice(st, a, 0, min(n, L)) if k == 'take' else E.vslice(st, a, min(n, L), max(0, L - n))
        if k == 'take':
            m = simp(z3.If(_iz(n) < _iz(L), _iz(n), _iz(L)))
            return E.vslice(st, a, 0, m)
        m = simp(z3.If(_iz(n) < _iz(L), _iz(n), _iz(L)))
        return E.vslice(st, a, m, isub(L, m))
    return None


bflat = uf('bflat', z3.ArraySort(Int, B), Int, B)       # concatenation of the first n elements


def flat_of(E, st, i, t, n):
    """concatenation of t[i := 0..n) as one byte string"""
    if z3.is_select(t) and t.arg(1).eq(i) and not E.occurs(t.arg(0), i):
        arr = t.arg(0)
    else:
        arr = z3.Lambda([i], t)
    return Bytes.of(bflat(arr, _iz(n)))


def flat_bytes(E, st, v):
    """concatenation of a vector of byte strings"""
    if isinstance(v, VecV):
        b = Bytes(())
        for x in v.items:
            b = b + dr(E, st, x)
        return b
    i = z3.Int('flat!ix')
    return flat_of(E, st, i, dr(E, st, E.vat(st, v, i)).term(), E.vlen(v))


def elementwise(E, st, it, n):
    """execute element i (symbolic) of an iterator of n independent elements.
    returns (index variable, [(conds, value|Ret)]) ; raises Unsupported if the element has effects"""
    with E.all_paths():
        return _elementwise(E, st, it, n)


def _elementwise(E, st, it, n):
    i = E.fresh('ix', Int)
    s0 = st.copy()
    base = len(s0.pc)
    s0.add(z3.And(i >= 0, i < _iz(n)))
    base = len(s0.pc)
    store0, cells0 = dict(s0.store), dict(s0.cells)
    fc0 = E.fresh_n
    outs = []
    facts_id = set(x.get_id() for x in s0.pc)
    for s, x in iat(E, s0, it, i):
        # effects?
        for ns, e in s.store.items():
            if ns in store0 and store0[ns] is not e:
                raise Unsupported('iterator element writes storage')
        for cc, v in cells0.items():
            if cc in s.cells and s.cells[cc] is not v:
                raise Unsupported('iterator element writes captured state')
        for ns, e in s.store.items():
            if ns not in st.store:
                st.store[ns] = e
                st.ghost['st0'] = dict(st.ghost.get('st0', {}))
                st.ghost['st0'].setdefault(ns, e)
        # materialise references into the element's own cells
        if not isinstance(x, Ret):
            x = deep(E, s, x)
        outs.append(([p for p in s.pc if p.get_id() not in facts_id], x))
    if E.fresh_n != fc0:
        raise Unsupported('iterator element makes fresh values')
    return i, outs


def deep(E, st, v):
    """replace references by immutable values"""
    if isinstance(v, Ref):
        return ValRef(deep(E, st, E.deref(st, v)))
    if isinstance(v, ValRef):
        return ValRef(deep(E, st, v.v))
    if isinstance(v, Agg):
        return Agg(v.ty, v.var, [deep(E, st, x) for x in v.f])
    if isinstance(v, VecV):
        return VecV(v.e, [deep(E, st, x) for x in v.items])
    return v


def sub_conds(conds, i, j):
    return [z3.substitute(c, (i, _iz(j))) for c in conds]


def either(E, st, c, a, b):
    """the value that is a where c holds and b elsewhere"""
    if isinstance(a, (Ref, ValRef)) or isinstance(b, (Ref, ValRef)):
        return ValRef(either(E, st, c, dr(E, st, a), dr(E, st, b)))
    if isinstance(a, Agg) and isinstance(b, Agg) and a.var == b.var and isinstance(a.var, int) and len(a.f) == len(b.f):
        return Agg(a.ty, a.var, [either(E, st, c, x, y) for x, y in zip(a.f, b.f)])
    if isinstance(a, Bytes) and isinstance(b, Bytes):
        return a if a is b else Bytes.of(z3.If(c, a.term(), b.term()))
    ty = getattr(a, 'ty', None)
    if ty is None:
        ty = getattr(b, 'ty', None)
    if ty is not None:
        return E.from_term(st, ty, z3.If(c, E.term(st, a, ty), E.term(st, b, ty)))
    if isinstance(a, bool) or z3.is_bool(a):
        return simp(z3.If(c, a if z3.is_expr(a) else z3.BoolVal(a), b if z3.is_expr(b) else z3.BoolVal(b)))
    if isinstance(a, int) or z3.is_int(a):
        return simp(z3.If(c, _iz(a), _iz(b)))
    raise Unsupported('element type of merged iterator')


def merged_at(E, i, outs, ety, e0=None):
    """element function from elementwise outcomes (all Ok)"""
    if len(outs) == 1:
        conds, val = outs[0]
        def at(s, j):
            if s is not None:
                s.add(sub_conds(conds, i, j))
            return subst_val(val, i, _iz(j))
        return at
    if ety is None:
        s = State()
        v = outs[-1][1]
        for conds, val in reversed(outs[:-1]):
            v = either(E, s, z3.And(*conds) if len(conds) != 1 else conds[0], val, v)
        facts = list(s.pc)
        def at(s2, j):
            if s2 is not None:
                s2.add(sub_conds(facts, i, j))
            return subst_val(v, i, _iz(j))
        return at
    s = State()
    t = None
    for conds, val in reversed(outs):
        x = E.term(s, val, ety)
        t = x if t is None else z3.If(z3.And(*conds) if len(conds) != 1 else conds[0], x, t)
    def at(s, j):
        return E.from_term(s, ety, z3.substitute(t, (i, _iz(j))))
    return at


def collect_seq(E, st, it, ety, asbytes):
    """collect into a sequence: list of (state, sequence | Ret)"""
    p = pure_seq(E, st, it)
    if p is not None and (isinstance(p, Bytes) == asbytes):
        if isinstance(p, VecV):
            p = VecV(ety if ety is not None else p.e, [x for x in p.items])
        return [(st, p)]
    n = ilen(E, st, it)
    if n is None or isinstance(n, int) or asbytes:
        out = []
        for s, l in drain(E, st, it):
            if isinstance(l, Ret):
                out.append((s, l))
            elif asbytes:
                out.append((s, Bytes([Seg('e', conc(dr(E, s, x)), 1) for x in l])))
            else:
                out.append((s, VecV(ety, [retype(E, x, ety) for x in l])))
        return out
    i, outs = elementwise(E, st, it, n)
    good = [(cs, x) for cs, x in outs if not isinstance(x, Ret)]
    bad = [(cs, x) for cs, x in outs if isinstance(x, Ret)]
    res = []
    for cs, x in bad:
        s = st.copy()
        k = E.fresh('wit', Int)
        s.add(z3.And(k >= 0, k < _iz(n)))
        s.add(sub_conds(cs, i, k))
        if E.feasible(s):
            res.append((s, Ret(s, 'panic', x.v)))
    if good:
        s = st
        if bad:
            s.add(forall_ok(E, i, n, good))
        res.append((s, VecS(ety, n, merged_at(E, i, good, ety), ('map', next(E.fresh_c)))))
    return res


def retype(E, x, ety):
    if isinstance(x, Agg) and x.ty is None and ety is not None and x.f:
        return Agg(ety, 0, x.f)
    return x


def forall_ok(E, i, n, good):
    j = z3.Int('all!i')
    body = z3.Or(*[z3.And(*sub_conds(cs, i, j)) if cs else z3.BoolVal(True) for cs, _ in good])
    return z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < _iz(n)), body))


def collect_result(E, st, it, rty, container, isopt=False):
    """collect into Result<container, E> / Option<container>"""
    okv, badv = (1, 0) if isopt else (0, 1)
    ck = E.k(container)
    asbytes = ck.k == 'bytes'
    ety = ck.e if ck.k == 'vec' else None
    n = ilen(E, st, it)
    def mkbad(x=None):
        return none(rty) if isopt else Agg(rty, 1, (ERR,))
    if n is None or isinstance(n, int):
        out = []
        work = [(st, it, ())]
        while work:
            s, j, acc = work.pop()
            if n is None and len(acc) > E.unroll:
                E.cut(s)
                continue
            for s2, x, j2 in rnext(E, s, j):
                if x is None:
                    if asbytes:
                        out.append((s2, Agg(rty, okv, (Bytes([Seg('e', conc(dr(E, s2, y)), 1) for y in acc]),))))
                    else:
                        out.extend((s3, Agg(rty, okv, (w,))) for s3, w in finish_containers(E, s2, container, list(acc)))
                elif isinstance(x, Ret):
                    out.append((s2, x))
                else:
                    a, b = E.fork(s2, E.isvar(x, okv))
                    if a is not None:
                        work.append((a, j2, acc + (E.field(a, x, 0, okv),)))
                    if b is not None:
                        out.append((b, mkbad(x)))
        return out
    if ck.k != 'vec':
        raise Unsupported('collect of symbolic length into ' + E.P.ts(container))
    i, outs = elementwise(E, st, it, n)
    good, badl = [], []
    for cs, x in outs:
        if isinstance(x, Ret):
            badl.append((cs, x))
            continue
        c = E.isvar(x, okv)
        if is_true(c):
            good.append((cs, x.f[0] if isinstance(x, Agg) else E.field(None, x, 0, okv)))
        elif is_false(c):
            badl.append((cs, None))
        else:
            good.append((cs + [c], E.field(None, x, 0, okv)))
            badl.append((cs + [NOT(c)], None))
    res = []
    for cs, x in badl:
        s = st.copy()
        k = E.fresh('wit', Int)
        s.add(z3.And(k >= 0, k < _iz(n)))
        s.add(sub_conds(cs, i, k))
        if E.feasible(s):
            res.append((s, Ret(s, 'panic', x.v) if isinstance(x, Ret) else mkbad()))
    if good:
        s = st
        if badl:
            s.add(forall_ok(E, i, n, good))
        res.append((s, Agg(rty, okv, (VecS(ety, n, merged_at(E, i, good, ety), ('map', next(E.fresh_c))),))))
    return res


def finish_containers(E, st, ty, items):
    """like finish_container; a map forks on the order of its keys"""
    if E.k(ty).k != 'bmap':
        return [(st, finish_container(E, st, ty, items))]
    from .more import map_insert
    work = [(st, BMapV(ty, ()))]
    for x in items:
        x = E.expand(st, x) if not isinstance(x, Agg) else x
        work = [(s2, m2) for s, m in work for s2, m2, _ in map_insert(E, s, m, dr(E, s, x.f[0]), x.f[1])]
    return work


def finish_container(E, st, ty, items):
    k = E.k(ty)
    if k.k == 'vec':
        return VecV(k.e, [retype(E, x, k.e) for x in items])
    if k.k == 'bytes':
        # String from strings / Vec<u8> from bytes
        if items and isinstance(dr(E, st, items[0]), Bytes):
            out = Bytes(())
            for x in items:
                out = out + dr(E, st, x)
            return out
        return Bytes([Seg('e', conc(dr(E, st, y)), 1) for y in items])
    if k.k == 'bmap':
        l = finish_containers(E, st, ty, items)
        if len(l) != 1:
            raise Unsupported('map with undecided key order')
        return l[0][1]
    if k.k == 'set':
        s = SetV(ty, (), None)
        for x in items:
            s = SetV(ty, s.items + (x,), None)
        return s
    if k.k == 'tuple' and not k.t['e']:
        return UNIT
    raise Unsupported('collect into ' + E.P.ts(ty))


@model('std::iter::Iterator::collect', 'std::iter::FromIterator::from_iter')
def _(E, st, c):
    it = to_iter(E, st, c.args[0])
    k = E.k(c.dest)
    if k.k == 'adt' and k.t['name'] in ('std::result::Result', 'std::option::Option'):
        isopt = k.t['name'].endswith('Option')
        outs = collect_result(E, st, it, c.dest, k.t['ga'][0], isopt)
    elif k.k in ('vec', 'bytes') and not (k.k == 'bytes' and k.t.get('name', '').endswith('String')):
        outs = collect_seq(E, st, it, k.e, k.k == 'bytes')
    else:
        outs = []
        n = ilen(E, st, it)
        if k.k == 'bmap' and n is not None and not isinstance(n, int):
            for s, v in collect_seq(E, st, it, None, False):
                outs.append((s, v if isinstance(v, Ret) else bmap_of_seq(E, s, c.dest, v)))
            return [x if isinstance(x, Ret) else Ret(s, 'ret', x) for s, x in outs]
        for s, l in drain(E, st, it):
            outs.extend([(s, l)] if isinstance(l, Ret) else finish_containers(E, s, c.dest, l))
    return [x if isinstance(x, Ret) else Ret(s, 'ret', x) for s, x in outs]


def as_vecs(E, st, v):
    if isinstance(v, (Ref, ValRef)):
        v = dr(E, st, v)
    if is_seq(v):
        return [(st, v)]
    it = to_iter(E, st, v)
    ety = None
    i = it
    if it.k == 'map':
        ety = clo_ret(E, st, it.d[1])
    elif it.k == 'vec':
        ety = getattr(it.d[0], 'e', None)
    return collect_seq(E, st, it, ety, False)


def as_vec(E, st, v):
    l = as_vecs(E, st, v)
    if len(l) != 1 or isinstance(l[0][1], Ret) or l[0][0] is not st:
        raise Unsupported('forking iterator argument')
    return l[0][1]


# ---------------------------------------------------------------- consumers
@model('std::iter::Iterator::fold')
def _(E, st, c):
    it = to_iter(E, st, c.args[0])
    n = ilen(E, st, it)
    ty = c.dest
    if not isinstance(n, int):
        r = E.loop_consumer(st, c, it, n, 'fold')
        if r is not None:
            return r
    work = [(st, it, c.args[1], 0)]
    out = []
    while work:
        s, j, acc, m = work.pop()
        if not isinstance(n, int) and m > E.unroll:
            E.cut(s)
            continue
        for s2, x, j2 in rnext(E, s, j):
            if x is None:
                out.append(Ret(s2, 'ret', acc))
                continue
            if isinstance(x, Ret):
                out.append(x)
                continue
            x = argtype(E, s2, c.args[2], 1, x)
            base = s2.copy()
            rs = E.call_value(s2, c.args[2], [acc, x], ty)
            for r in merge_rets(E, base, rs, ty):
                if r.k == 'panic':
                    out.append(r)
                else:
                    work.append((r.st, j2, r.v, m + 1))
    return out


def argtype(E, st, f, idx, x):
    """type of anonymous tuple argument from the closure's signature"""
    if isinstance(x, Agg) and x.ty is None and x.f:
        fv = E.deref_all(st, f)
        if isinstance(fv, Clo):
            b = E.P.fns.get(E.P.types[fv.ty].get('id'))
            if b is not None and b['argc'] > idx + 1:
                return Agg(b['locals'][idx + 2], 0, x.f)
    return x


@model('std::iter::Iterator::try_fold', 'std::iter::Iterator::try_for_each')
def _(E, st, c):
    r0 = c.args[0]
    it = E.deref_all(st, r0)
    if not isinstance(it, IterV):
        it = to_iter(E, st, it)
    each = c.name.endswith('try_for_each')
    clo = c.args[1] if each else c.args[2]
    init = UNIT if each else c.args[1]
    n = ilen(E, st, it)
    ty = c.dest
    okv = 1 if E.k(ty).t['name'].endswith('Option') else 0
    if not isinstance(n, int):
        r = E.loop_consumer(st, c, it, n, 'try_for_each' if each else 'try_fold')
        if r is not None:
            return r
    work = [(st, it, init, 0)]
    out = []
    while work:
        s, j, acc, m = work.pop()
        if not isinstance(n, int) and m > E.unroll:
            E.cut(s)
            continue
        for s2, x, j2 in rnext(E, s, j):
            if x is None:
                out.append(Ret(s2, 'ret', Agg(ty, okv, (acc,))))
                continue
            if isinstance(x, Ret):
                out.append(x)
                continue
            x = argtype(E, s2, clo, 0 if each else 1, x)
            for r in E.call_value(s2, clo, [x] if each else [acc, x], ty):
                if r.k == 'panic':
                    out.append(r)
                    continue
                a, b = E.fork(r.st, E.isvar(r.v, okv))
                if a is not None:
                    work.append((a, j2, E.field(a, r.v, 0, okv), m + 1))
                if b is not None:
                    out.append(Ret(b, 'ret', Agg(ty, 1 - okv, () if okv else (ERR,))))
    return out


@model('std::iter::Iterator::for_each')
def _(E, st, c):
    it = to_iter(E, st, c.args[0])
    n = ilen(E, st, it)
    if not isinstance(n, int):
        r = E.loop_consumer(st, c, it, n, 'for_each')
        if r is not None:
            return r
    work = [(st, it, 0)]
    out = []
    while work:
        s, j, m = work.pop()
        if not isinstance(n, int) and m > E.unroll:
            E.cut(s)
            continue
        for s2, x, j2 in rnext(E, s, j):
            if x is None:
                out.append(Ret(s2, 'ret', UNIT))
            elif isinstance(x, Ret):
                out.append(x)
            else:
                for r in E.call_value(s2, c.args[1], [x]):
                    if r.k == 'panic':
                        out.append(r)
                    else:
                        work.append((r.st, j2, m + 1))
    return out


def _quant(E, st, c, alln):
    """all / any"""
    r0 = c.args[0]
    it = E.deref_all(st, r0)
    if not isinstance(it, IterV):
        it = to_iter(E, st, it)
    if it.k == 'chars':
        f = E.deref_all(st, c.args[1])
        return chars_all(E, st, it.d[0], f, alln)
    n = ilen(E, st, it)
    if n is None or isinstance(n, int):
        work = [(st, it, 0)]
        out = []
        while work:
            s, j, m = work.pop()
            if n is None and m > E.unroll:
                E.cut(s)
                continue
            for s2, x, j2 in rnext(E, s, j):
                if x is None:
                    out.append(Ret(s2, 'ret', alln))
                    continue
                if isinstance(x, Ret):
                    out.append(x)
                    continue
                x = argtype(E, s2, c.args[1], 0, x)
                for r in E.call_value(s2, c.args[1], [x], None):
                    if r.k == 'panic':
                        out.append(r)
                        continue
                    a, b = E.fork(r.st, r.v)
                    if not alln:
                        a, b = b, a
                    if a is not None:
                        work.append((a, j2, m + 1))
                    if b is not None:
                        out.append(Ret(b, 'ret', not alln))
        return out
    # symbolic length
    m = IterV('map', (it, c.args[1]))
    i, outs = elementwise(E, st, m, n)
    if any(isinstance(x, Ret) for _, x in outs):
        raise Unsupported('panic inside all/any')
    pos = []
    for cs, x in outs:
        v = x if alln else NOT(x)
        if is_false(v):
            continue
        pos.append((cs + ([v] if not is_true(v) else []), None))
    neg = []
    for cs, x in outs:
        v = NOT(x) if alln else x
        if is_false(v):
            continue
        neg.append(cs + ([v] if not is_true(v) else []))
    out = []
    for cs in neg:
        s = st.copy()
        k = E.fresh('wit', Int)
        s.add(z3.And(k >= 0, k < _iz(n)))
        s.add(sub_conds(cs, i, k))
        if E.feasible(s):
            out.append(Ret(s, 'ret', not alln))
    s = st
    if pos:
        s.add(forall_ok(E, i, n, pos))
    else:
        s.add(_iz(n) == 0)
    if E.feasible(s):
        out.append(Ret(s, 'ret', alln))
    return out


@model('std::iter::Iterator::all')
def _(E, st, c):
    return _quant(E, st, c, True)


@model('std::iter::Iterator::any')
def _(E, st, c):
    return _quant(E, st, c, False)


@model('std::iter::Iterator::find', 'std::iter::Iterator::position', 'std::iter::Iterator::find_map')
def _(E, st, c):
    what = c.name.split('::')[-1]
    it = E.deref_all(st, c.args[0])
    if not isinstance(it, IterV):
        it = to_iter(E, st, it)
    n = ilen(E, st, it)
    if not isinstance(n, int) and n is not None:
        try:
            return find_sym(E, st, c, it, n, what)
        except Unsupported:
            pass
    work = [(st, it, 0)]
    out = []
    while work:
        s, j, m = work.pop()
        if not isinstance(n, int) and m > E.unroll:
            E.cut(s)
            continue
        for s2, x, j2 in rnext(E, s, j):
            if x is None:
                out.append(Ret(s2, 'ret', none(c.dest)))
                continue
            if isinstance(x, Ret):
                out.append(x)
                continue
            x = tupled(E, c.dest, x)
            arg = ValRef(x) if what == 'find' else x
            for r in E.call_value(s2, c.args[1], [arg]):
                if r.k == 'panic':
                    out.append(r)
                    continue
                cnd = E.isvar(r.v, 1) if what == 'find_map' else r.v
                a, b = E.fork(r.st, cnd)
                if a is not None:
                    v = x if what == 'find' else m if what == 'position' else E.field(a, r.v, 0, 1)
                    out.append(Ret(a, 'ret', some(c.dest, v)))
                if b is not None:
                    work.append((b, j2, m + 1))
    return out


def find_sym(E, st, c, it, n, what='find'):
    """first element satisfying the predicate, symbolic length"""
    with E.all_paths():
        return _find_sym(E, st, c, it, n, what)


def _find_sym(E, st, c, it, n, what='find'):
    ety = E.k(c.dest).t['ga'][0]
    i = E.fresh('ix', Int)
    s0 = st.copy()
    s0.add(z3.And(i >= 0, i < _iz(n)))
    ids = set(x.get_id() for x in s0.pc)
    l = iat(E, s0, it, i)
    if len(l) != 1 or isinstance(l[0][1], Ret):
        raise Unsupported('find')
    s1, x = l[0]
    x = Agg(ety, 0, x.f) if what == 'find' and isinstance(x, Agg) and x.ty is None else argtype(E, s1, c.args[1], 0, x)
    fc = E.fresh_n
    cells0, store0 = dict(s1.cells), dict(s1.store)
    rs = E.call_value(s1, c.args[1], [ValRef(x) if what == 'find' else x])
    if E.fresh_n != fc:
        raise Unsupported('find: fresh')
    pos, neg = [], []
    for r in rs:
        if r.k == 'panic':
            raise Unsupported('panic in find')
        if any(k in r.st.cells and r.st.cells[k] is not v for k, v in cells0.items()) or any(r.st.store.get(k) is not v for k, v in store0.items()):
            raise Unsupported('effects in find')
        cs = [p for p in r.st.pc if p.get_id() not in ids]
        v = E.isvar(r.v, 1) if what == 'find_map' else r.v
        if not is_false(v):
            y = i if what == 'position' else deep(E, r.st, E.field(r.st, r.v, 0, 1)) if what == 'find_map' else x
            pos.append((cs + ([v] if not is_true(v) else []), y))
        if not is_true(v):
            neg.append(cs + ([NOT(v)] if not is_false(v) else []))
    out = []
    for cs, y in pos:
        s = st.copy()
        k = E.fresh('wit', Int)
        s.add(z3.And(k >= 0, k < _iz(n)))
        s.add(sub_conds(cs, i, k))
        j = z3.Int('all!i')
        nb = z3.Or(*[z3.And(*sub_conds(q, i, j)) if q else z3.BoolVal(True) for q in neg]) if neg else z3.BoolVal(False)
        s.add(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < k), nb)))
        if E.feasible(s):
            y = Ref(y.cell, tuple(('i', conc(z3.substitute(_iz(p[1]), (i, k)))) if isinstance(p, tuple) and p[0] == 'i' else p for p in y.path)) if isinstance(y, Ref) else subst_val(deep(E, s1, y), i, k)
            out.append(Ret(s, 'ret', some(c.dest, y)))
    s = st
    if neg:
        s.add(forall_ok(E, i, n, [(q, None) for q in neg]))
    else:
        s.add(_iz(n) == 0)
    if E.feasible(s):
        out.append(Ret(s, 'ret', none(c.dest)))
    return out


@model('std::iter::Iterator::sum')
def _(E, st, c):
    it = to_iter(E, st, c.args[0])
    out = []
    for s, l in drain(E, st, it):
        if isinstance(l, Ret):
            out.append(l)
            continue
        t = 0
        for x in l:
            t = iadd(t, dr(E, s, x))
        k = E.k(c.dest)
        a, b = E.fork(s, simp(_iz(t) < (1 << k.bits)))
        if a is not None:
            out.append(Ret(a, 'ret', t))
        if b is not None:
            out.append(Ret(b, 'panic', 'overflow in sum'))
    return out


@model('std::iter::Iterator::last', 'std::iter::Iterator::nth')
def _(E, st, c):
    it = E.deref_all(st, c.args[0])
    n = ilen(E, st, it)
    if n is None:
        raise Unsupported('last/nth')
    i = isub(n, 1) if c.name.endswith('last') else c.args[1]
    out = []
    a, b = E.fork(st, simp(z3.And(_iz(i) >= 0, _iz(i) < _iz(n))))
    if a is not None:
        for s, x in iat(E, a, it, i):
            out.append(x if isinstance(x, Ret) else Ret(s, 'ret', some(c.dest, x)))
    if b is not None:
        out.append(Ret(b, 'ret', none(c.dest)))
    return out


# ---------------------------------------------------------------- chars
@model('core::str::<impl str>::chars', 'core::str::<impl str>::bytes')
def _(E, st, c):
    return IterV('chars', (dr(E, st, c.args[0]),))


all_lower = uf('str_all_lowercase', B, BoolS)


def chars_all(E, st, s, f, alln):
    """s.chars().all(p): the predicate is identified by its body; only is_lowercase is known"""
    name = None
    if isinstance(f, FnV):
        name = f.fn['def']
    elif isinstance(f, Clo):
        b = E.P.fns.get(E.P.types[f.ty].get('id'))
        calls = [blk['t'] for blk in b['blocks'] if blk['t'][0] == 'call']
        rest = [x for blk in b['blocks'] for x in blk['s'] if x[0] == '=' and x[2][0] in ('un', 'bin')]
        if len(calls) == 1 and not rest and calls[0][1][0] == 'k' and all(blk['t'][0] != 'switch' for blk in b['blocks']):
            name = calls[0][1][1]['fn']['def']
    if name and name.endswith('::is_lowercase') and alln:
        if s.is_const():
            return s.const_value().decode().islower() or all(ch.islower() for ch in s.const_value().decode())
        return all_lower(s.term())
    if s.is_const():
        raise Unsupported('chars predicate')
    raise Unsupported('chars predicate %s' % name)


# ---------------------------------------------------------------- sets and maps
class SetV:
    """HashSet built by insertions"""
    __slots__ = ('ty', 'items', 'arr')

    def __init__(self, ty, items, arr):
        self.ty, self.items, self.arr = ty, tuple(items), arr


class BMapV:
    """BTreeMap built by insertions: key-ordered list of distinct (key, value), order decided by more.cmpval"""
    __slots__ = ('ty', 'items')

    def __init__(self, ty, items):
        self.ty, self.items = ty, tuple(items)


AV = z3.ArraySort(Int, B)
ord_n = uf('order_n', AV, Int, Int)          # number of distinct keys among the first n entries of the array
ord_src = uf('order_src', AV, Int, Int, Int)  # index of the last entry of the k-th distinct key, in key order


def ord_facts(arr, n, k):
    k = _iz(k)
    s, m = ord_src(arr, n, k), ord_n(arr, n)
    return [m >= 0, m <= n, z3.Implies(n > 0, m > 0), z3.Implies(z3.And(k >= 0, k < m), z3.And(s >= 0, s < n))]


def ord_defs(arr, n, lens, rank):
    """the definition of ord_n and ord_src for the given lengths, spelled out"""
    out = []
    for N in lens:
        x = [z3.Select(arr, i) for i in range(N)]
        last = [z3.And(*[x[i] != x[j] for j in range(i + 1, N)]) for i in range(N)]
        one = lambda c: z3.If(c, z3.IntVal(1), z3.IntVal(0))
        fs = [ord_n(arr, n) == z3.Sum([z3.IntVal(0)] + [one(l) for l in last])]
        for i in range(N):
            pos = z3.Sum([z3.IntVal(0)] + [one(z3.And(last[j], rank(x[j]) < rank(x[i]))) for j in range(N) if j != i])
            for k in range(N):
                fs.append(z3.Implies(z3.And(last[i], pos == k), ord_src(arr, n, z3.IntVal(k)) == i))
        out.append(z3.Implies(n == N, z3.And(*fs)))
    return out


class BMapS:
    """BTreeMap collected from a sequence of symbolic length: the distinct keys in key order from position pos on, each with
    the value of its last entry"""
    __slots__ = ('ty', 'vec', 'arr', 'n', 'pos')

    def __init__(self, ty, vec, arr, n, pos=0):
        self.ty, self.vec, self.arr, self.n, self.pos = ty, vec, arr, n, pos

    def len(self):
        return simp(ord_n(self.arr, self.n) - _iz(self.pos))

    def at(self, E, st, i):
        k = simp(_iz(self.pos) + _iz(i))
        for f in ord_facts(self.arr, self.n, k):
            st.add(f)
        x = self.vec.at(st, simp(ord_src(self.arr, self.n, _iz(k))))
        if not isinstance(x, Agg):
            x = E.expand(st, x)
        return x

    def moved(self, k):
        return BMapS(self.ty, self.vec, self.arr, self.n, simp(_iz(self.pos) + _iz(k)))


def bmap_of_seq(E, st, ty, v):
    if isinstance(v, VecV):
        return finish_container(E, st, ty, list(v.items))
    i = z3.Int('ord!i')
    s2 = State()
    x = v.at(s2, i)
    if not isinstance(x, Agg):
        x = E.expand(s2, x)
    key = dr(E, s2, x.f[0])
    if not isinstance(key, Bytes):
        raise Unsupported('map keys of symbolic length')
    t = z3.simplify(key.term())
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SELECT and t.arg(1).eq(i):
        arr = t.arg(0)
    else:
        arr = z3.Lambda([i], t)
    return BMapS(ty, v, arr, _iz(v.n))


HS = 'std::collections::HashSet::<T>::'
HSA = 'std::collections::HashSet::<T, S, A>::'


@model(HS + 'new', 'std::collections::BTreeSet::<T>::new')
def _(E, st, c):
    e = E.k(c.dest).e
    return SetV(c.dest, (), z3.K(E.S.sort(e), z3.BoolVal(False)))


def set_card(arr):
    """number of members of a finite set built by insertions"""
    return uf('set_card:%s' % arr.sort(), arr.sort(), Int)(arr)


@model(HSA + 'len', 'std::collections::BTreeSet::<T, A>::len', 'std::collections::HashSet::<T, S>::len')
def _(E, st, c):
    s = E.deref_all(st, c.args[0])
    a = set_arr(E, st, s)
    n = set_card(a)
    x = a
    st.add(n >= 0)
    # the insertions since the last set the verifier names
    while z3.is_app(x) and x.decl().kind() == z3.Z3_OP_STORE:
        p = x.arg(0)
        st.add(set_card(x) == z3.If(z3.Select(p, x.arg(1)), set_card(p), set_card(p) + 1))
        st.add(set_card(p) >= 0)
        x = p
    if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_CONST_ARRAY:
        st.add(set_card(x) == 0)
    return simp(n)


@model(HSA + 'is_empty', 'std::collections::BTreeSet::<T, A>::is_empty', 'std::collections::HashSet::<T, S>::is_empty')
def _(E, st, c):
    s = E.deref_all(st, c.args[0])
    a = set_arr(E, st, s)
    return simp(a == z3.K(a.sort().domain(), z3.BoolVal(False)))


def set_arr(E, st, s):
    if s.arr is not None:
        return s.arr
    e = E.k(s.ty).e
    a = z3.K(E.S.sort(e), z3.BoolVal(False))
    for x in s.items:
        a = z3.Store(a, E.term(st, x, e), z3.BoolVal(True))
    return a


@model(HSA + 'insert', 'std::collections::BTreeSet::<T, A>::insert', 'std::collections::HashSet::<T, S>::insert')
def _(E, st, c):
    s = E.deref_all(st, c.args[0])
    a = set_arr(E, st, s)
    t = E.term(st, dr(E, st, c.args[1]), E.k(s.ty).e)
    E.write(st, c.args[0], (), SetV(s.ty, s.items, z3.Store(a, t, z3.BoolVal(True))))
    return simp(z3.Not(z3.Select(a, t)))


@model(HSA + 'contains', 'std::collections::BTreeSet::<T, A>::contains', 'std::collections::HashSet::<T, S>::contains')
def _(E, st, c):
    s = E.deref_all(st, c.args[0])
    a = set_arr(E, st, s)
    t = E.term(st, dr(E, st, c.args[1]), E.k(s.ty).e)
    return simp(z3.Select(a, t))


BM = 'std::collections::BTreeMap::<K, V, A>::'


def bm(E, st, v):
    v = E.deref_all(st, v)
    while isinstance(v, Agg) and len(v.f) == 1:
        v = E.deref_all(st, v.f[0])
    if not isinstance(v, (BMapV, BMapS)):
        raise Unsupported('map value %r' % (v,))
    return v


@model(BM + 'len')
def _(E, st, c):
    m = bm(E, st, c.args[0])
    return m.len() if isinstance(m, BMapS) else len(m.items)


@model(BM + 'pop_first')
def _(E, st, c):
    m = bm(E, st, c.args[0])
    if isinstance(m, BMapS):
        def popped(s):
            x = m.at(E, s, 0)
            E.write(s, c.args[0], (), m.moved(1))
            return some(c.dest, Agg(E.k(c.dest).t['ga'][0], 0, x.f))
        if isinstance(conc(m.pos), int) and conc(m.pos) >= E.unroll:
            # popping without end: the loop that pops has no contract
            a, b = E.fork(st, simp(_iz(m.len()) > 0))
            if a is not None:
                E.cut(a)
            return [] if b is None else [Ret(b, 'ret', none(c.dest))]
        return branch(E, st, simp(_iz(m.len()) > 0), popped, lambda s: none(c.dest))
    if not m.items:
        return none(c.dest)
    k, v = m.items[0]
    E.write(st, c.args[0], (), BMapV(m.ty, m.items[1:]))
    return some(c.dest, Agg(E.k(c.dest).t['ga'][0], 0, (k, v)))


@model(BM + 'values', BM + 'keys')
def _(E, st, c):
    m = bm(E, st, c.args[0])
    j = 1 if c.name.endswith('values') else 0
    if isinstance(m, BMapS):
        e = E.k(m.ty).t['ga'][j]
        return IterV('vec', (VecS(e, m.len(), lambda s, i: E.deref_all(s, m.at(E, s, i).f[j]), ('bmap', j, m.arr, m.n, m.pos)), 0, True))
    return IterV('vec', (VecV(None, [x[j] for x in m.items]), 0, True))


@model('std::collections::BTreeMap::<K, V>::new')
def _(E, st, c):
    return BMapV(c.dest, ())


@model('std::ops::RangeInclusive::<Idx>::new')
def _(E, st, c):
    return Agg(c.dest, 0, (c.args[0], c.args[1], False)[:len(E.variants(c.dest)[0]['f'])])
