"""Assumed contracts of further std functions: ordering, sorting, slices, maps, strings, wide integers."""
import re
import z3
from .core import *
from .core import _iz
from .vm import *
from .models import (model, MODELS, ok, err, some, none, branch, PANIC, resty, dr, mk)
from . import coll
from .coll import (VEC, VECA, HS, HSA, BM, SetV, BMapV, BMapS, bm, is_seq, as_slice, empty_of, seqcat, to_iter, inext, rnext, ilen, iat,
                   drain, range_bounds, tupled, argtype, clo_ret)

Real = z3.RealSort()
rank = uf('text_rank', B, Real)        # an order embedding of byte strings in the reals


# ---------------------------------------------------------------- ordering
def bytes_lt(E, st, a, b):
    """lexicographic order of byte strings: a strict total order, exact on constants"""
    if a.is_const() and b.is_const():
        return a.const_value() < b.const_value()
    na, nb = conc(a.len()), conc(b.len())
    if isinstance(na, int) and na == nb and na <= 32:
        # equal lengths: the order of the big-endian values
        lt = simp(_iz(a.intval()) < _iz(b.intval()))
        if z3.is_expr(lt):
            st.add((rank(a.term()) < rank(b.term())) == lt)
        return lt
    cs = st.ghost.get('rank_consts', ())
    for v in (a, b):
        if v.is_const() and v.const_value() not in cs:
            for o in cs:
                lo, hi = sorted((o, v.const_value()))
                st.add(rank(Bytes.const(lo).term()) < rank(Bytes.const(hi).term()))
            cs = cs + (v.const_value(),)
            if v.const_value() == b'':
                pass
    st.ghost['rank_consts'] = cs
    x, y = a.term(), b.term()
    if x.eq(y):
        return False
    st.add((rank(x) == rank(y)) == (x == y))
    e = Bytes.const(b'').term()
    for t in (x, y):
        st.add(z3.And(rank(t) >= rank(e), (rank(t) == rank(e)) == (blen(t) == 0)))
    return rank(x) < rank(y)




def semver_part(E, st, t, i):
    """major, minor, patch of a version text"""
    if t.is_const():
        m = re.match(rb'^(\d+)\.(\d+)\.(\d+)', t.const_value())
        if m:
            return int(m.group(i + 1))
    v = uf('semver_num', B, Int, Int)(t.term(), z3.IntVal(i))
    if st is not None:
        st.add(z3.And(v >= 0, v < 1 << 64))
    return v


pre_rank = uf('semver_pre_rank', B, Real)    # precedence of the pre-release part (and build part: semver's total order)


def semver_pre(t):
    return pre_rank(t.term())


def semver_lt(E, st, x, y):
    if x.is_const() and y.is_const() and b'-' not in x.const_value() + y.const_value() and b'+' not in x.const_value() + y.const_value():
        a, b = ([semver_part(E, st, t, i) for i in range(3)] for t in (x, y))
        return a < b
    r = semver_pre(x) < semver_pre(y)
    if x.term().eq(y.term()):
        return False
    for i in (2, 1, 0):
        a, b = _iz(semver_part(E, st, x, i)), _iz(semver_part(E, st, y, i))
        r = z3.Or(a < b, z3.And(a == b, r))
    return r


SEMVER_FIELDS = ('major', 'minor', 'patch')


def cmpval(E, st, a, b):
    """(a < b, a == b) as formulas, for the derived / std orderings"""
    a, b = dr(E, st, a), dr(E, st, b)
    if isinstance(a, bool) or isinstance(b, bool) or (z3.is_expr(a) and z3.is_bool(a)):
        return AND(NOT(a), b), IFF(a, b)
    if (isinstance(a, int) or z3.is_expr(a)) and (isinstance(b, int) or z3.is_expr(b)):
        return E.binop(st, 'Lt', a, b, None), ieq(a, b)
    if isinstance(a, Bytes) and isinstance(b, Bytes):
        return bytes_lt(E, st, a, b), E.eq(st, a, b)
    if isinstance(a, Opq) and isinstance(b, Opq) and isinstance(a.d, Bytes) and isinstance(b.d, Bytes):
        return semver_lt(E, st, a.d, b.d), E.eq(st, a, b)
    if isinstance(a, VecV) and isinstance(b, VecV):
        return lex(E, st, list(a.items), list(b.items))
    if isinstance(a, (Agg, Sym)) and isinstance(b, (Agg, Sym)):
        ty = a.ty if a.ty is not None else b.ty
        if ty is None:
            return lex(E, st, list(a.f), list(b.f))
        vs = E.variants(ty)
        if len(vs) == 1:
            return lex(E, st, list(E.expand(st, a).f), list(E.expand(st, b).f))
        da, db = _iz(E.discr(st, a)), _iz(E.discr(st, b))
        k = E.k(ty)
        if k.k == 'adt' and k.t['name'] == 'std::cmp::Ordering':
            da, db = simp((da + 1) % 256), simp((db + 1) % 256)
        lt, eq = simp(_iz(da) < _iz(db)), []
        for i in range(len(vs)):
            both = AND(E.isvar(a, i), E.isvar(b, i))
            if is_false(both):
                continue
            l, e = lex(E, st, list(E.expand(st, a, i).f), list(E.expand(st, b, i).f))
            lt = OR(lt, AND(both, l))
            eq.append(AND(both, e))
        return lt, OR(*eq)
    raise Unsupported('ordering of %r and %r' % (a, b))


def lex(E, st, xs, ys):
    lt, eq = [], True
    for x, y in zip(xs, ys):
        l, e = cmpval(E, st, x, y)
        lt.append(AND(eq, l))
        eq = AND(eq, e)
    if len(xs) < len(ys):
        lt.append(eq)
        eq = False
    elif len(xs) > len(ys):
        eq = False
    return OR(*lt), eq


def local_body(E, c):
    f = E.P.fns.get(c.fn.get('id')) if c.fn.get('id') is not None else None
    return f is not None and f['crate'].startswith('hpl')


@model('std::cmp::PartialOrd::lt', 'std::cmp::PartialOrd::le', 'std::cmp::PartialOrd::gt', 'std::cmp::PartialOrd::ge')
def _(E, st, c):
    lt, eq = cmpval(E, st, c.args[0], c.args[1])
    n = c.name[-2:]
    return {'lt': lambda: lt, 'le': lambda: OR(lt, eq), 'gt': lambda: AND(NOT(lt), NOT(eq)), 'ge': lambda: NOT(lt)}[n]()


@model('std::cmp::Ord::cmp', 'std::cmp::PartialOrd::partial_cmp')
def _(E, st, c):
    lt, eq = cmpval(E, st, c.args[0], c.args[1])
    o = E.ordering(lt, eq)
    return some(c.dest, o) if c.name.endswith('partial_cmp') else o


@model('std::cmp::Ord::max', 'std::cmp::Ord::min', 'std::cmp::max', 'std::cmp::min')
def _(E, st, c):
    a, b = c.args
    lt, eq = cmpval(E, st, a, b)
    first = AND(NOT(lt), NOT(eq)) if c.name.endswith('max') else OR(lt, eq)      # max: the second when equal; min: the first
    if isinstance(a, int) or z3.is_expr(a):
        return ite(first, a, b)
    return branch(E, st, first, a, b)


@model('std::cmp::Ord::clamp')
def _(E, st, c):
    x, lo, hi = c.args
    l1, e1 = cmpval(E, st, lo, hi)
    def good(s):
        lt, _ = cmpval(E, s, x, lo)
        gt, _ = cmpval(E, s, hi, x)
        if isinstance(x, int) or z3.is_expr(x):
            return ite(lt, lo, ite(gt, hi, x))
        return branch(E, s, lt, lo, lambda s2: branch(E, s2, gt, hi, x))
    return branch(E, st, OR(l1, e1), good, lambda s: PANIC('clamp: min > max'))


# ---------------------------------------------------------------- sequences, item by item
def small(E, st, v, lim=None):
    """the items of a sequence, path by path: [(state, items)].  A sequence of symbolic length is cut at the unrolling bound."""
    v = dr(E, st, v)
    if isinstance(v, VecV):
        return [(st, list(v.items))]
    n = conc(E.vlen(v))
    if isinstance(n, int):
        if n > 64:
            raise Unsupported('long sequence')
        return [(st, [E.vat(st, v, i) for i in range(n)])]
    out = []
    lim = E.unroll if lim is None else lim
    s = st
    for k in range(lim + 1):
        a, b = E.fork(s, ieq(n, k))
        if a is not None:
            out.append((a, [E.vat(a, v, i) for i in range(k)]))
        if b is None:
            return out
        s = b
    E.cut(s)
    return out


def base_ref(E, st, r):
    while isinstance(E.deref(st, r), Ref):
        r = E.deref(st, r)
    return r


def make_seq(E, old, items):
    if isinstance(old, Bytes):
        return Bytes([Seg('e', conc(x), 1) for x in items])
    return VecV(old.e, items)


def inplace(E, st, r, f, result=lambda E, s, x: UNIT):
    """rewrite the sequence behind r item by item: f(state, items) -> [(state, items, extra) | Ret]"""
    r = base_ref(E, st, r)
    v = E.deref_all(st, r)
    outs = []
    for s, items in small(E, st, v):
        for x in f(s, items):
            if isinstance(x, Ret):
                outs.append(x)
                continue
            s2, new, extra = x
            E.write(s2, r, (), make_seq(E, v, new))
            outs.append(Ret(s2, 'ret', result(E, s2, extra)))
    return outs


def is_less(E, cmp):
    """how to compare two items: (state, x, y) -> [(state, condition x < y) | Ret]"""
    def f(s, x, y):
        return cmp(s, x, y)
    return f


def natural(E):
    def f(s, x, y):
        return [(s, cmpval(E, s, x, y)[0])]
    return f


def by_cmp(E, clo):
    def f(s, x, y):
        out = []
        for r in E.call_value(s, clo, [ValRef(x), ValRef(y)]):
            out.append(r if r.k == 'panic' else (r.st, E.isvar(r.v, 0)))
        return out
    return f


def by_key(E, clo):
    def f(s, x, y):
        out = []
        for r in E.call_value(s, clo, [ValRef(x)]):
            if r.k == 'panic':
                out.append(r)
                continue
            for q in E.call_value(r.st, clo, [ValRef(y)]):
                out.append(q if q.k == 'panic' else (q.st, cmpval(E, q.st, r.v, q.v)[0]))
        return out
    return f


def insert_sorted(E, st, done, x, less):
    """all ways to place x in the sorted list, after equal items (stable): [(state, list) | Ret]"""
    out = []
    work = [(st, len(done))]
    while work:
        s, i = work.pop()
        if i == 0:
            out.append((s, [x] + done))
            continue
        for q in less(s, x, done[i - 1]):
            if isinstance(q, Ret):
                out.append(q)
                continue
            a, b = E.fork(q[0], q[1])
            if a is not None:
                work.append((a, i - 1))
            if b is not None:
                out.append((b, done[:i] + [x] + done[i:]))
    return out


def sorted_items(E, st, items, less):
    work = [(st, [])]
    for x in items:
        nxt = []
        for w in work:
            if isinstance(w, Ret):
                nxt.append(w)
            else:
                nxt.extend(insert_sorted(E, w[0], w[1], x, less))
        work = nxt
    return [w if isinstance(w, Ret) else (w[0], w[1], None) for w in work]


SL = 'core::slice::<impl [T]>::'
SL2 = 'std::slice::<impl [T]>::'


def _sorts(suffix):
    return [p + n + suffix for p in (SL, SL2) for n in ('sort', 'sort_unstable')]


@model(*_sorts(''))
def _(E, st, c):
    return inplace(E, st, c.args[0], lambda s, l: sorted_items(E, s, l, natural(E)))


@model(*_sorts('_by'))
def _(E, st, c):
    return inplace(E, st, c.args[0], lambda s, l: sorted_items(E, s, l, by_cmp(E, c.args[1])))


@model(*(_sorts('_by_key') + [SL2 + 'sort_by_cached_key']))
def _(E, st, c):
    return inplace(E, st, c.args[0], lambda s, l: sorted_items(E, s, l, by_key(E, c.args[1])))


def _isort(E, st, items, less):
    """is the list sorted"""
    work, out = [(st, True)], []
    for x, y in zip(items, items[1:]):
        nxt = []
        for w in work:
            if isinstance(w, Ret):
                nxt.append(w)
                continue
            for q in less(w[0], y, x):
                nxt.append(q if isinstance(q, Ret) else (q[0], AND(w[1], NOT(q[1]))))
        work = nxt
    return [w if isinstance(w, Ret) else Ret(w[0], 'ret', w[1]) for w in work]


@model(SL + 'is_sorted', SL2 + 'is_sorted')
def _(E, st, c):
    return [r for s, l in small(E, st, c.args[0]) for r in _isort(E, s, l, natural(E))]


def dedup_items(E, st, items, same):
    work = [(st, [])]
    for x in items:
        nxt = []
        for w in work:
            if isinstance(w, Ret):
                nxt.append(w)
                continue
            s, l = w
            if not l:
                nxt.append((s, [x]))
                continue
            for q in same(s, x, l[-1]):
                if isinstance(q, Ret):
                    nxt.append(q)
                    continue
                a, b = E.fork(q[0], q[1])
                if a is not None:
                    nxt.append((a, l))
                if b is not None:
                    nxt.append((b, l + [x]))
        work = nxt
    return [w if isinstance(w, Ret) else (w[0], w[1], None) for w in work]


@model(VECA + 'dedup')
def _(E, st, c):
    return inplace(E, st, c.args[0], lambda s, l: dedup_items(E, s, l, lambda s2, x, y: [(s2, E.eq(s2, x, y))]))


@model(VECA + 'dedup_by_key')
def _(E, st, c):
    def same(s, x, y):
        out = []
        for r in E.call_value(s, c.args[1], [E.newcell(s, x)]):
            if r.k == 'panic':
                out.append(r)
                continue
            for q in E.call_value(r.st, c.args[1], [E.newcell(r.st, y)]):
                out.append(q if q.k == 'panic' else (q.st, E.eq(q.st, r.v, q.v)))
        return out
    return inplace(E, st, c.args[0], lambda s, l: dedup_items(E, s, l, same))


@model(VECA + 'dedup_by')
def _(E, st, c):
    def same(s, x, y):
        return [r if r.k == 'panic' else (r.st, r.v) for r in E.call_value(s, c.args[1], [E.newcell(s, x), E.newcell(s, y)])]
    return inplace(E, st, c.args[0], lambda s, l: dedup_items(E, s, l, same))


@model(VECA + 'retain', VECA + 'retain_mut')
def _(E, st, c):
    mut = c.name.endswith('_mut')
    def f(s0, items):
        work = [(s0, [])]
        for x in items:
            nxt = []
            for w in work:
                if isinstance(w, Ret):
                    nxt.append(w)
                    continue
                s, l = w
                cell = E.newcell(s, x) if mut else ValRef(x)
                for r in E.call_value(s, c.args[1], [cell]):
                    if r.k == 'panic':
                        nxt.append(r)
                        continue
                    y = E.deref(r.st, cell) if mut else x
                    a, b = E.fork(r.st, r.v)
                    if a is not None:
                        nxt.append((a, l + [y]))
                    if b is not None:
                        nxt.append((b, l))
            work = nxt
        return [w if isinstance(w, Ret) else (w[0], w[1], None) for w in work]
    return inplace(E, st, c.args[0], f)


@model(VECA + 'remove')
def _(E, st, c):
    r = base_ref(E, st, c.args[0])
    v = E.deref_all(st, r)
    n, i = E.vlen(v), c.args[1]
    def good(s):
        x = E.vat(s, v, i)
        a, b = E.vslice(s, v, 0, i), E.vslice(s, v, iadd(i, 1), isub(isub(n, i), 1))
        E.write(s, r, (), seqcat(E, a, b))
        return x
    return branch(E, st, simp(_iz(i) < _iz(n)), good, lambda s: PANIC('removal index'))


@model(VECA + 'swap_remove')
def _(E, st, c):
    r = base_ref(E, st, c.args[0])
    v = E.deref_all(st, r)
    n, i = E.vlen(v), c.args[1]
    def good(s):
        x = E.vat(s, v, i)
        last = E.vat(s, v, isub(n, 1))
        E.write(s, r, (('i', i),), last)
        w = E.deref_all(s, r)
        E.write(s, r, (), E.vslice(s, w, 0, isub(n, 1)))
        return x
    return branch(E, st, simp(_iz(i) < _iz(n)), good, lambda s: PANIC('swap_remove index'))


@model(SL + 'swap')
def _(E, st, c):
    r = base_ref(E, st, c.args[0])
    v = E.deref_all(st, r)
    n, (i, j) = E.vlen(v), c.args[1:3]
    def good(s):
        x, y = E.vat(s, v, i), E.vat(s, v, j)
        E.write(s, r, (('i', i),), y)
        E.write(s, r, (('i', j),), x)
        return UNIT
    return branch(E, st, simp(z3.And(_iz(i) < _iz(n), _iz(j) < _iz(n))), good, lambda s: PANIC('index out of bounds'))


@model(SL + 'reverse')
def _(E, st, c):
    r = base_ref(E, st, c.args[0])
    v = E.deref_all(st, r)
    n = conc(E.vlen(v))
    if isinstance(v, Bytes):
        if not isinstance(n, int):
            raise Unsupported('reverse')
        E.write(st, r, (), Bytes([Seg('e', conc(v.byte(n - 1 - i)), 1) for i in range(n)]))
    elif isinstance(n, int):
        E.write(st, r, (), VecV(v.e, [E.vat(st, v, n - 1 - i) for i in range(n)]))
    else:
        E.write(st, r, (), VecS(v.e, n, lambda s, i: E.vat(s, v, isub(isub(n, 1), i)), ('rev', getattr(v, 'key', None))))
    return UNIT


@model(SL + 'fill')
def _(E, st, c):
    r = base_ref(E, st, c.args[0])
    v = E.deref_all(st, r)
    n, x = conc(E.vlen(v)), c.args[1]
    if isinstance(v, Bytes) and isinstance(n, int):
        w = Bytes.const(bytes([x]) * n) if isinstance(conc(x), int) else Bytes([Seg('e', x, 1)] * n)
    elif isinstance(n, int):
        w = VecV(v.e, [x] * n)
    elif not isinstance(v, Bytes):
        w = VecS(v.e, n, lambda s, i: x, ('fill', x))
    else:
        raise Unsupported('fill')
    E.write(st, r, (), w)
    return UNIT


@model(SL + 'rotate_left', SL + 'rotate_right')
def _(E, st, c):
    r = base_ref(E, st, c.args[0])
    v = E.deref_all(st, r)
    n, k = E.vlen(v), c.args[1]
    def good(s):
        m = k if c.name.endswith('left') else isub(n, k)
        E.write(s, r, (), seqcat(E, E.vslice(s, v, m, isub(n, m)), E.vslice(s, v, 0, m)))
        return UNIT
    return branch(E, st, simp(_iz(k) <= _iz(n)), good, lambda s: PANIC('rotate'))


@model(VECA + 'resize')
def _(E, st, c):
    r = base_ref(E, st, c.args[0])
    v = E.deref_all(st, r)
    n, m, x = E.vlen(v), c.args[1], c.args[2]
    def grow(s):
        if isinstance(v, Bytes) and conc(x) == 0:
            E.write(s, r, (), v + zeros(E, s, isub(m, n)))
            return UNIT
        d = conc(simp(_iz(isub(m, n))))
        if isinstance(d, int):
            E.write(s, r, (), v + Bytes([Seg('e', conc(x), 1)] * d) if isinstance(v, Bytes) else seqcat(E, v, VecV(v.e, [x] * d)))
            return UNIT
        raise Unsupported('resize')
    def cut(s):
        E.write(s, r, (), E.vslice(s, v, 0, m))
        return UNIT
    return branch(E, st, simp(_iz(m) <= _iz(n)), cut, grow)


def zeros(E, st, n):
    """n zero bytes"""
    n = conc(simp(_iz(n)))
    if isinstance(n, int):
        return Bytes.const(bytes(n))
    # few values: case analysis is left to the callers, the value is the big-endian encoding of 0
    return Bytes([Seg('n', z3.IntVal(0), n)]) if False else Bytes.of(zpad(E, st, n))


_zp = uf('zero_bytes', Int, B)


def zpad(E, st, n):
    t = _zp(_iz(n))
    st.add(z3.Implies(_iz(n) >= 0, blen(t) == _iz(n)))
    st.add(bdec(t) == 0)
    return t


@model(VECA + 'split_off')
def _(E, st, c):
    r = base_ref(E, st, c.args[0])
    v = E.deref_all(st, r)
    n, i = E.vlen(v), c.args[1]
    def good(s):
        E.write(s, r, (), E.vslice(s, v, 0, i))
        return E.vslice(s, v, i, isub(n, i))
    return branch(E, st, simp(_iz(i) <= _iz(n)), good, lambda s: PANIC('split_off'))


@model(VECA + 'drain')
def _(E, st, c):
    r = base_ref(E, st, c.args[0])
    v = E.deref_all(st, r)
    lo, hi = range_bounds(E, st, v, c.args[1])
    n = E.vlen(v)
    def good(s):
        x = E.vslice(s, v, lo, isub(hi, lo))
        E.write(s, r, (), seqcat(E, E.vslice(s, v, 0, lo), E.vslice(s, v, hi, isub(n, hi))))
        return IterV('vec', (x, 0, False))
    return branch(E, st, AND(simp(_iz(lo) <= _iz(hi)), simp(_iz(hi) <= _iz(n))), good, lambda s: PANIC('drain range'))


@model(VECA + 'splice')
def _(E, st, c):
    raise Unsupported('splice')


@model('std::vec::from_elem')
def _(E, st, c):
    x, n = c.args[0], conc(c.args[1])
    k = E.k(c.dest)
    if k.k == 'bytes':
        if conc(x) == 0 and isinstance(conc(x), int):
            return zeros(E, st, n)
        if isinstance(n, int):
            return Bytes.const(bytes([x]) * n) if isinstance(conc(x), int) else Bytes([Seg('e', x, 1)] * n)
        raise Unsupported('vec![x; n]')
    if isinstance(n, int):
        return VecV(k.e, [x] * n)
    return VecS(k.e, n, lambda s, i: x, ('fill', x))


@model(SL2 + 'repeat', 'std::str::<impl str>::repeat', 'core::slice::<impl [T]>::repeat')
def _(E, st, c):
    v, n = dr(E, st, c.args[0]), conc(c.args[1])
    if not isinstance(n, int) or n > 256:
        raise Unsupported('repeat')
    out = empty_of(E, c.dest)
    for _ in range(n):
        out = seqcat(E, out, v)
    return out


# ---------------------------------------------------------------- slices
@model(SL + 'ends_with')
def _(E, st, c):
    v, p = dr(E, st, c.args[0]), dr(E, st, c.args[1])
    n, m = E.vlen(v), E.vlen(p)
    return branch(E, st, simp(_iz(n) >= _iz(m)), lambda s: E.eq(s, E.vslice(s, v, isub(n, m), m), p), lambda s: False)


def _strip(E, st, c, v, p, suffix):
    n, m = E.vlen(v), E.vlen(p)
    def long(s):
        cut = E.vslice(s, v, isub(n, m), m) if suffix else E.vslice(s, v, 0, m)
        rest = (lambda s2: E.vslice(s2, v, 0, isub(n, m))) if suffix else (lambda s2: E.vslice(s2, v, m, isub(n, m)))
        return branch(E, s, E.eq(s, cut, p), lambda s2: some(c.dest, ValRef(rest(s2))), lambda s2: none(c.dest))
    return branch(E, st, simp(_iz(n) >= _iz(m)), long, lambda s: none(c.dest))


STR = 'core::str::<impl str>::'
STR2 = 'std::str::<impl str>::'


def pattern(E, st, p):
    """a string or char constant used as a pattern"""
    p = dr(E, st, p)
    if isinstance(p, Bytes):
        return p
    if isinstance(conc(p), int) and not isinstance(conc(p), bool):
        return Bytes.const(chr(conc(p)).encode())
    raise Unsupported('pattern %r' % (p,))


@model(SL + 'strip_prefix', SL + 'strip_suffix', STR + 'strip_prefix', STR + 'strip_suffix')
def _(E, st, c):
    return _strip(E, st, c, dr(E, st, c.args[0]), pattern(E, st, c.args[1]), c.name.endswith('suffix'))


@model(STR + 'starts_with', STR + 'ends_with')
def _(E, st, c):
    v, p = dr(E, st, c.args[0]), pattern(E, st, c.args[1])
    n, m = E.vlen(v), E.vlen(p)
    e = c.name.endswith('ends_with')
    return branch(E, st, simp(_iz(n) >= _iz(m)), lambda s: E.eq(s, E.vslice(s, v, isub(n, m) if e else 0, m), p), lambda s: False)


@model(SL + 'windows')
def _(E, st, c):
    v, n = dr(E, st, c.args[0]), conc(c.args[1])
    if not isinstance(n, int):
        raise Unsupported('windows')
    if n == 0:
        return [Ret(st, 'panic', 'window size must be non-zero')]
    L = conc(E.vlen(v))
    if isinstance(L, int):
        return IterV('vec', (VecV(None, [E.vslice(st, v, i, n) for i in range(max(0, L - n + 1))]), 0, True))
    cnt = simp(z3.If(_iz(L) >= n, _iz(L) - (n - 1), 0))
    return IterV('vec', (VecS(None, cnt, lambda s, i: E.vslice(s, v, i, n), ('windows', v, n)), 0, True))


@model(SL + 'chunks')
def _(E, st, c):
    v, n = dr(E, st, c.args[0]), conc(c.args[1])
    if not isinstance(n, int):
        raise Unsupported('chunk size')
    if n == 0:
        return [Ret(st, 'panic', 'chunk size must be non-zero')]
    L = conc(E.vlen(v))
    if isinstance(L, int):
        return IterV('vec', (VecV(None, [E.vslice(st, v, i, min(n, L - i)) for i in range(0, L, n)]), 0, True))
    cnt = simp((_iz(L) + (n - 1)) / n)
    def at(s, i):
        o = simp(_iz(i) * n)
        rest = simp(_iz(L) - _iz(o))
        return E.vslice(s, v, o, simp(z3.If(_iz(rest) < n, _iz(rest), n)))
    return IterV('vec', (VecS(None, cnt, at, ('chunksr', v, n)), 0, True))


@model(SL + 'split_first', SL + 'split_last')
def _(E, st, c):
    v = dr(E, st, c.args[0])
    n = E.vlen(v)
    last = c.name.endswith('last')
    def good(s):
        t = E.k(c.dest).t['ga'][0]
        x = E.vat(s, v, isub(n, 1) if last else 0)
        return some(c.dest, Agg(t, 0, (ValRef(x), ValRef(E.vslice(s, v, 0 if last else 1, isub(n, 1))))))
    return branch(E, st, ieq(n, 0), lambda s: none(c.dest), good)


@model(SL + 'first_mut', SL + 'last_mut', SL + 'get_mut')
def _(E, st, c):
    r = base_ref(E, st, c.args[0])
    v = E.deref_all(st, r)
    n = E.vlen(v)
    op = c.name.rsplit('::', 1)[1]
    i = 0 if op == 'first_mut' else isub(n, 1) if op == 'last_mut' else c.args[1]
    if not (isinstance(i, int) or z3.is_expr(i)):
        raise Unsupported('get_mut of a range')
    if not isinstance(r, Ref):
        raise Unsupported('mutable access through a value')
    return branch(E, st, simp(z3.And(_iz(i) >= 0, _iz(i) < _iz(n))), lambda s: some(c.dest, Ref(r.cell, tuple(r.path) + (('i', i),))), lambda s: none(c.dest))


@model(SL + 'binary_search')
def _(E, st, c):
    v, x = dr(E, st, c.args[0]), dr(E, st, c.args[1])
    rt = E.k(c.dest).t
    outs = []
    # exact on sorted sequences; the result on others is unspecified by std
    for s, items in small(E, st, v):
        for w in _isort(E, s, items, natural(E)):
            if w.k == 'panic':
                outs.append(w)
                continue
            a, b = E.fork(w.st, w.v)
            if b is not None:
                raise Unsupported('binary search in an unsorted sequence')
            cur = a
            for i, y in enumerate(items):
                if cur is None:
                    break
                lt, eq = cmpval(E, cur, y, x)
                hit, cur = E.fork(cur, eq)
                if hit is not None:
                    outs.append(Ret(hit, 'ret', Agg(c.dest, 0, (i,))))
                if cur is not None:
                    cur, stop = E.fork(cur, lt)
                    if stop is not None:
                        outs.append(Ret(stop, 'ret', Agg(c.dest, 1, (i,))))
            if cur is not None:
                outs.append(Ret(cur, 'ret', Agg(c.dest, 1, (len(items),))))
    return outs


# ---------------------------------------------------------------- iterator consumers
IT = 'std::iter::Iterator::'


def items_of(E, st, it):
    """[(state, items | Ret)]"""
    return drain(E, st, to_iter(E, st, it))


def _best(E, st, c, keep_last, less):
    """reduce by comparison; less(s, x, y) -> [(s, cond)]; keep_last: among equals the last one (max) or the first (min)"""
    outs = []
    for s, l in items_of(E, st, c.args[0]):
        if isinstance(l, Ret):
            outs.append(l)
            continue
        if not l:
            outs.append(Ret(s, 'ret', none(c.dest)))
            continue
        work = [(s, l[0])]
        for x in l[1:]:
            nxt = []
            for w in work:
                if isinstance(w, Ret):
                    nxt.append(w)
                    continue
                s1, b = w
                # max: replace unless x < best ; min: replace only if x < best
                for q in less(s1, x, b):
                    if isinstance(q, Ret):
                        nxt.append(q)
                        continue
                    t, f = E.fork(q[0], q[1])
                    if t is not None:
                        nxt.append((t, b if keep_last else x))
                    if f is not None:
                        nxt.append((f, x if keep_last else b))
            work = nxt
        outs.extend(w if isinstance(w, Ret) else Ret(w[0], 'ret', some(c.dest, tupled(E, c.dest, w[1]))) for w in work)
    return outs


@model(IT + 'max', IT + 'min')
def _(E, st, c):
    mx = c.name.endswith('max')
    it = to_iter(E, st, c.args[0])
    n = ilen(E, st, it)
    if n is not None and not isinstance(n, int):
        # integers of a sequence of symbolic length: an element that bounds all of them
        try:
            i = z3.Int('max!i')
            s2 = State()
            o = iat(E, s2, it, i)
            x = dr(E, s2, o[0][1]) if len(o) == 1 and not isinstance(o[0][1], Ret) and not s2.pc and o[0][0] is s2 else None
        except Unsupported:
            x = None
        if z3.is_expr(x) and z3.is_int(x):
            def good(s):
                j = E.fresh('argmax', Int)
                r = iat(E, s, it, j)[0][1]
                y = _iz(dr(E, s, r))
                s.add(z3.And(j >= 0, j < _iz(n)))
                s.add(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < _iz(n)), x <= y if mx else x >= y)))
                return some(c.dest, r)
            return branch(E, st, simp(_iz(n) > 0), good, lambda s: none(c.dest))
    return _best(E, st, c, mx, natural(E))


@model(IT + 'max_by_key', IT + 'min_by_key')
def _(E, st, c):
    return _best(E, st, c, 'max' in c.name, by_key(E, c.args[1]))


@model(IT + 'max_by', IT + 'min_by')
def _(E, st, c):
    return _best(E, st, c, 'max' in c.name, by_cmp(E, c.args[1]))


@model(IT + 'partition')
def _(E, st, c):
    outs = []
    ts = E.k(c.dest).t['e']
    for s, l in items_of(E, st, c.args[0]):
        if isinstance(l, Ret):
            outs.append(l)
            continue
        work = [(s, [], [])]
        for x in l:
            nxt = []
            for w in work:
                if isinstance(w, Ret):
                    nxt.append(w)
                    continue
                s1, p, q = w
                for r in E.call_value(s1, c.args[1], [ValRef(x)]):
                    if r.k == 'panic':
                        nxt.append(r)
                        continue
                    a, b = E.fork(r.st, r.v)
                    if a is not None:
                        nxt.append((a, p + [x], q))
                    if b is not None:
                        nxt.append((b, p, q + [x]))
            work = nxt
        for w in work:
            outs.append(w if isinstance(w, Ret) else Ret(w[0], 'ret', Agg(c.dest, 0, [coll.finish_container(E, w[0], t, y) for t, y in zip(ts, w[1:])])))
    return outs


@model(IT + 'unzip')
def _(E, st, c):
    outs = []
    ts = E.k(c.dest).t['e']
    it = to_iter(E, st, c.args[0])
    n = ilen(E, st, it)
    if n is not None and not isinstance(n, int):
        try:
            outs2 = coll.collect_seq(E, st.copy(), it, None, False)
        except Unsupported:
            outs2 = None
        if outs2 is not None and len(outs2) == 1 and isinstance(outs2[0][1], VecS):
            s, v = outs2[0]
            def part(j, t):
                e = E.k(t).e
                return VecS(e, v.n, lambda s2, i: dr(E, s2, E.field(s2, v.at(s2, i), j)) if E.k(e).k != 'ref' else E.field(s2, v.at(s2, i), j), ('unzip', j, v.key))
            if all(E.k(t).k == 'vec' for t in ts):
                return [Ret(s, 'ret', Agg(c.dest, 0, [part(j, t) for j, t in enumerate(ts)]))]
    for s, l in items_of(E, st, it):
        if isinstance(l, Ret):
            outs.append(l)
            continue
        l = [x if isinstance(x, Agg) else E.expand(s, x) for x in l]
        outs.append(Ret(s, 'ret', Agg(c.dest, 0, [coll.finish_container(E, s, t, [x.f[j] for x in l]) for j, t in enumerate(ts)])))
    return outs


@model(IT + 'reduce')
def _(E, st, c):
    outs = []
    for s, l in items_of(E, st, c.args[0]):
        if isinstance(l, Ret):
            outs.append(l)
            continue
        if not l:
            outs.append(Ret(s, 'ret', none(c.dest)))
            continue
        work = [(s, l[0])]
        for x in l[1:]:
            nxt = []
            for w in work:
                if isinstance(w, Ret):
                    nxt.append(w)
                    continue
                for r in E.call_value(w[0], c.args[1], [w[1], x]):
                    nxt.append(r if r.k == 'panic' else (r.st, r.v))
            work = nxt
        outs.extend(w if isinstance(w, Ret) else Ret(w[0], 'ret', some(c.dest, w[1])) for w in work)
    return outs


@model(IT + 'step_by')
def _(E, st, c):
    it = to_iter(E, st, c.args[0])
    k = conc(c.args[1])
    if not isinstance(k, int) or k == 0:
        raise Unsupported('step_by')
    n = ilen(E, st, it)
    if n is None:
        raise Unsupported('step_by')
    if k == 1:
        return it
    if isinstance(n, int):
        outs = []
        l = []
        for i in range(0, n, k):
            o = iat(E, st, it, i)
            if len(o) != 1 or isinstance(o[0][1], Ret):
                raise Unsupported('step_by')
            l.append(o[0][1])
        return IterV('vec', (VecV(None, l), 0, False))
    cnt = simp((_iz(n) + (k - 1)) / k)
    def at(s, i):
        o = iat(E, s, it, simp(_iz(i) * k))
        if len(o) != 1 or isinstance(o[0][1], Ret):
            raise Unsupported('step_by')
        return o[0][1]
    return IterV('vec', (VecS(None, cnt, at, ('step', k)), 0, False))


@model('std::iter::Peekable::<I>::peek', 'std::iter::Peekable::<I>::next_if', 'std::iter::Peekable::<I>::next_if_eq')
def _(E, st, c):
    r = base_ref(E, st, c.args[0])
    it = E.deref(st, r)
    outs = []
    op = c.name.rsplit('::', 1)[1]
    for s, x, j in inext(E, st, it):
        if isinstance(x, Ret):
            outs.append(x)
        elif x is None:
            outs.append(Ret(s, 'ret', none(c.dest)))
        elif op == 'peek':
            outs.append(Ret(s, 'ret', some(c.dest, ValRef(tupled(E, c.dest, x)))))
        else:
            for q in ([Ret(s, 'ret', E.eq(s, x, c.args[1]))] if op.endswith('eq') else E.call_value(s, c.args[1], [ValRef(x)])):
                if q.k == 'panic':
                    outs.append(q)
                    continue
                a, b = E.fork(q.st, q.v)
                if a is not None:
                    E.write(a, r, (), j)
                    outs.append(Ret(a, 'ret', some(c.dest, tupled(E, c.dest, x))))
                if b is not None:
                    outs.append(Ret(b, 'ret', none(c.dest)))
    return outs


@model(IT + 'eq', IT + 'ne')
def _(E, st, c):
    a, b = to_iter(E, st, c.args[0]), to_iter(E, st, c.args[1])
    pa, pb = coll.pure_seq(E, st, a), coll.pure_seq(E, st, b)
    if pa is not None and pb is not None:
        r = E.eq(st, pa, pb)
        return r if c.name.endswith('eq') else NOT(r)
    outs = []
    for s, l in items_of(E, st, a):
        if isinstance(l, Ret):
            outs.append(l)
            continue
        for s2, m in items_of(E, s, b):
            if isinstance(m, Ret):
                outs.append(m)
                continue
            r = False if len(l) != len(m) else AND(*[E.eq(s2, x, y) for x, y in zip(l, m)])
            outs.append(Ret(s2, 'ret', r if c.name.endswith('eq') else NOT(r)))
    return outs


# ---------------------------------------------------------------- maps
HM = 'std::collections::HashMap::<K, V, S, A>::'
HM1 = 'std::collections::HashMap::<K, V, S>::'
BM1 = 'std::collections::BTreeMap::<K, V>::'


def ordered(E, ty):
    return E.k(ty).t['name'].endswith('BTreeMap')


@model('std::collections::HashMap::<K, V>::new', 'std::collections::HashMap::<K, V>::with_capacity', 'std::collections::BTreeMap::<K, V>::new')
def _(E, st, c):
    return BMapV(c.dest, ())


def map_at(E, st, m, key):
    """[(state, index or None)] of the entry with that key; None with the insertion position"""
    out = []
    s = st
    pos = len(m.items)
    ords = ordered(E, m.ty)
    for i, (k2, v2) in enumerate(m.items):
        e = E.eq(s, key, k2)
        hit, s = E.fork(s, e)
        if hit is not None:
            out.append((hit, i, None))
        if s is None:
            return out
        if ords:
            lt, _ = cmpval(E, s, key, k2)
            here, s = E.fork(s, lt)
            if here is not None:
                out.append((here, None, i))
            if s is None:
                return out
    out.append((s, None, pos))
    return out


def mref(E, st, r):
    """the reference to the map value itself"""
    return base_ref(E, st, r)


def mval(E, st, r):
    m = bm(E, st, r)
    return m


def map_key(E, st, k):
    return dr(E, st, k)


def map_insert(E, st, m, key, val):
    """[(state, new map, old value | None)]"""
    out = []
    for s, i, pos in map_at(E, st, m, key):
        l = list(m.items)
        if i is not None:
            old = l[i][1]
            l[i] = (l[i][0], val)
        else:
            old = None
            l.insert(pos, (key, val))
        out.append((s, BMapV(m.ty, l), old))
    return out


def need_v(m):
    if isinstance(m, BMapS):
        raise Unsupported('operation on a map of symbolic size')
    return m


@model(BM + 'insert', HM + 'insert', HM1 + 'insert')
def _(E, st, c):
    r = mref(E, st, c.args[0])
    m = need_v(bm(E, st, r))
    outs = []
    for s, m2, old in map_insert(E, st, m, map_key(E, st, c.args[1]), c.args[2]):
        E.write(s, r, (), m2)
        outs.append(Ret(s, 'ret', none(c.dest) if old is None else some(c.dest, old)))
    return outs


def bmaps_find(E, st, m, key, found, missing):
    """entry of a map collected from a sequence of symbolic length: the value of the last entry with the key"""
    i = z3.Int('mapk!i')
    n = m.n
    def keyeq(s, j):
        x = m.vec.at(s, j)
        x = x if isinstance(x, Agg) else E.expand(s, x)
        return E.eq(s, dr(E, s, x.f[0]), key)
    s2 = State()
    body = keyeq(s2, i)
    if s2.pc or not (isinstance(conc(m.pos), int) and conc(m.pos) == 0):
        raise Unsupported('lookup in a map of symbolic size')
    body = body if z3.is_expr(body) else z3.BoolVal(body)
    def good(s):
        j = E.fresh('mapk', Int)
        s.add(z3.And(j >= 0, j < n))
        e = keyeq(s, j)
        s.add(e if z3.is_expr(e) else z3.BoolVal(e))
        s.add(z3.ForAll([i], z3.Implies(z3.And(i > j, i < n), z3.Not(body))))
        x = m.vec.at(s, j)
        x = x if isinstance(x, Agg) else E.expand(s, x)
        return found(s, x.f[1])
    def bad(s):
        return missing(s)
    return branch(E, st, z3.Exists([i], z3.And(i >= 0, i < n, body)), good, bad)


@model(BM + 'get', BM + 'contains_key', HM + 'get', HM + 'contains_key', HM1 + 'get', HM1 + 'contains_key')
def _(E, st, c):
    m = bm(E, st, c.args[0])
    key = map_key(E, st, c.args[1])
    isget = c.name.endswith('get')
    if isinstance(m, BMapS):
        return bmaps_find(E, st, m, key, lambda s, v: some(c.dest, ValRef(v)) if isget else True, lambda s: none(c.dest) if isget else False)
    if not isget:
        return OR(*[E.eq(st, key, k) for k, _ in m.items])
    s, outs = st, []
    for k, v in m.items:
        hit, s = E.fork(s, E.eq(s, key, k))
        if hit is not None:
            outs.append(Ret(hit, 'ret', some(c.dest, ValRef(v))))
        if s is None:
            return outs
    outs.append(Ret(s, 'ret', none(c.dest)))
    return outs


def map_index(E, st, m, key):
    s, outs = st, []
    for k, v in m.items:
        hit, s = E.fork(s, E.eq(s, key, k))
        if hit is not None:
            outs.append(Ret(hit, 'ret', ValRef(v)))
        if s is None:
            return outs
    outs.append(Ret(s, 'panic', 'no entry found for key'))
    return outs


_index0 = MODELS['std::ops::Index::index']


@model('std::ops::Index::index')
def _(E, st, c):
    v = E.deref_all(st, c.args[0])
    if isinstance(v, BMapV):
        return map_index(E, st, v, map_key(E, st, c.args[1]))
    return _index0(E, st, c)


@model(BM + 'remove', HM + 'remove', HM1 + 'remove')
def _(E, st, c):
    r = mref(E, st, c.args[0])
    m = need_v(bm(E, st, r))
    key = map_key(E, st, c.args[1])
    s, outs = st, []
    for i, (k, v) in enumerate(m.items):
        hit, s = E.fork(s, E.eq(s, key, k))
        if hit is not None:
            E.write(hit, r, (), BMapV(m.ty, m.items[:i] + m.items[i + 1:]))
            outs.append(Ret(hit, 'ret', some(c.dest, v)))
        if s is None:
            return outs
    outs.append(Ret(s, 'ret', none(c.dest)))
    return outs


@model(BM + 'is_empty', HM + 'is_empty', HM1 + 'is_empty')
def _(E, st, c):
    m = bm(E, st, c.args[0])
    return ieq(m.len() if isinstance(m, BMapS) else len(m.items), 0)


@model(HM + 'len', HM1 + 'len')
def _(E, st, c):
    m = need_v(bm(E, st, c.args[0]))
    return len(m.items)


@model(BM + 'first_key_value', BM + 'last_key_value')
def _(E, st, c):
    m = need_v(bm(E, st, c.args[0]))
    if not m.items:
        return none(c.dest)
    k, v = m.items[0 if 'first' in c.name else -1]
    return some(c.dest, Agg(E.k(c.dest).t['ga'][0], 0, (ValRef(k), ValRef(v))))


def map_pairs(m, byref):
    return IterV('vec', (VecV(None, [Agg(None, 0, tuple(ValRef(x) for x in p) if byref else p) for p in m.items]), 0, False))


def hash_order(E, m):
    if not ordered(E, m.ty) and len(m.items) > 1:
        raise Unsupported('iteration order of a hash map')


@model(BM + 'iter', HM + 'iter', HM1 + 'iter')
def _(E, st, c):
    m = bm(E, st, c.args[0])
    if isinstance(m, BMapS):
        ts = E.k(m.ty).t['ga']
        def at(s, i):
            x = m.at(E, s, i)
            return Agg(None, 0, (ValRef(dr(E, s, x.f[0])), ValRef(dr(E, s, x.f[1]))))
        return IterV('vec', (VecS(None, m.len(), at, ('bmapi', m.arr, m.n, m.pos)), 0, False))
    hash_order(E, m)
    return map_pairs(m, True)


@model(HM + 'values', HM1 + 'values', HM + 'keys', HM1 + 'keys', BM + 'into_values', BM + 'into_keys', HM + 'into_values', HM + 'into_keys')
def _(E, st, c):
    m = need_v(bm(E, st, c.args[0]))
    hash_order(E, m)
    j = 1 if 'values' in c.name else 0
    return IterV('vec', (VecV(None, [x[j] for x in m.items]), 0, 'into' not in c.name))


# entry API: the entry is (map reference, key, index or insertion position)
class EntryV:
    __slots__ = ('r', 'key', 'i', 'pos')

    def __init__(self, r, key, i, pos):
        self.r, self.key, self.i, self.pos = r, key, i, pos


@model(BM + 'entry', HM + 'entry', HM1 + 'entry')
def _(E, st, c):
    r = mref(E, st, c.args[0])
    m = need_v(bm(E, st, r))
    return [Ret(s, 'ret', EntryV(r, c.args[1], i, pos)) for s, i, pos in map_at(E, st, m, map_key(E, st, c.args[1]))]


ENT = ['std::collections::btree_map::Entry::<\'a, K, V, A>::', 'std::collections::hash_map::Entry::<\'a, K, V, A>::', 'std::collections::hash_map::Entry::<\'a, K, V>::',
       'std::collections::btree_map::Entry::<\'a, K, V>::']


def _ent(*ns):
    return [p + n for p in ENT for n in ns]


def slot(e, i):
    return Ref(e.r.cell, tuple(e.r.path) + (('mv', i),))


def entry_put(E, s, e, val):
    m = bm(E, s, e.r)
    l = list(m.items)
    l.insert(e.pos, (map_key(E, s, e.key), val))
    E.write(s, e.r, (), BMapV(m.ty, l))
    return slot(e, e.pos)


@model(*_ent('or_insert', 'or_insert_with', 'or_default', 'or_insert_with_key'))
def _(E, st, c):
    e = c.args[0]
    if not isinstance(e, EntryV):
        raise Unsupported('map entry')
    if e.i is not None:
        return slot(e, e.i)
    if c.name.endswith('or_insert'):
        return entry_put(E, st, e, c.args[1])
    if c.name.endswith('or_default'):
        from .models import default_of
        return entry_put(E, st, e, default_of(E, E.k(c.dest).e))
    outs = []
    for r in E.call_value(st, c.args[1], [ValRef(e.key)] if c.name.endswith('key') else []):
        outs.append(r if r.k == 'panic' else Ret(r.st, 'ret', entry_put(E, r.st, e, r.v)))
    return outs


@model(*_ent('and_modify'))
def _(E, st, c):
    e = c.args[0]
    if e.i is None:
        return e
    outs = []
    for r in E.call_value(st, c.args[1], [slot(e, e.i)]):
        outs.append(r if r.k == 'panic' else Ret(r.st, 'ret', e))
    return outs


@model(BM + 'get_mut', HM + 'get_mut', HM1 + 'get_mut')
def _(E, st, c):
    r = mref(E, st, c.args[0])
    m = need_v(bm(E, st, r))
    key = map_key(E, st, c.args[1])
    s, outs = st, []
    for i, (k, v) in enumerate(m.items):
        hit, s = E.fork(s, E.eq(s, key, k))
        if hit is not None:
            outs.append(Ret(hit, 'ret', some(c.dest, Ref(r.cell, tuple(r.path) + (('mv', i),)))))
        if s is None:
            return outs
    outs.append(Ret(s, 'ret', none(c.dest)))
    return outs


# ---------------------------------------------------------------- VecDeque
VD = 'std::collections::VecDeque::<T>::'
VDA = 'std::collections::VecDeque::<T, A>::'


@model(VD + 'new', VD + 'with_capacity')
def _(E, st, c):
    return VecV(E.k(c.dest).e, ())


@model(VDA + 'push_back', VDA + 'push_front')
def _(E, st, c):
    v = E.deref(st, c.args[0])
    x = VecV(v.e, (c.args[1],))
    E.write(st, c.args[0], (), E.vcat(v.e, v, x) if c.name.endswith('back') else E.vcat(v.e, x, v))
    return UNIT


@model(VDA + 'pop_back', VDA + 'pop_front')
def _(E, st, c):
    v = E.deref(st, c.args[0])
    n = E.vlen(v)
    fr = c.name.endswith('front')
    def good(s):
        x = E.vat(s, v, 0 if fr else isub(n, 1))
        E.write(s, c.args[0], (), E.vslice(s, v, 1 if fr else 0, isub(n, 1)))
        return some(c.dest, x)
    return branch(E, st, ieq(n, 0), lambda s: none(c.dest), good)


@model(VDA + 'len')
def _(E, st, c):
    return coll.real_len(E, st, as_slice(E, st, c.args[0]))


@model(VDA + 'is_empty')
def _(E, st, c):
    return ieq(E.vlen(as_slice(E, st, c.args[0])), 0)


@model(VDA + 'iter')
def _(E, st, c):
    return coll.vec_iter(E, st, c.args[0])


# ---------------------------------------------------------------- strings
str_lower = uf('str_lower', B, B)
str_trim = uf('str_trim', B, B)


def lower(E, st, v):
    if v.is_const():
        return Bytes.const(v.const_value().lower())
    t = v.term()
    if z3.is_app(t) and t.decl().name() in ('str_lower', 'hex', 'dec'):
        return v
    st.add(str_lower(str_lower(t)) == str_lower(t))
    return Bytes.of(str_lower(t))


@model(STR2 + 'to_lowercase', STR2 + 'to_ascii_lowercase')
def _(E, st, c):
    v = dr(E, st, c.args[0])
    r = lower(E, st, v)
    if c.name.endswith('ascii_lowercase'):
        st.add(ieq(r.len(), v.len()) if z3.is_expr(ieq(r.len(), v.len())) else z3.BoolVal(True))
    return r


@model(STR + 'eq_ignore_ascii_case')
def _(E, st, c):
    return E.eq(st, lower(E, st, dr(E, st, c.args[0])), lower(E, st, dr(E, st, c.args[1])))


@model(STR + 'trim', STR + 'trim_end', STR + 'trim_start')
def _(E, st, c):
    v = dr(E, st, c.args[0])
    if v.is_const():
        s = v.const_value().decode()
        return ValRef(Bytes.const((s.strip() if c.name.endswith('trim') else s.rstrip() if c.name.endswith('end') else s.lstrip()).encode()))
    t = v.term()
    if z3.is_app(t) and t.decl().name() in ('hex', 'dec'):
        return ValRef(v)
    f = uf('str_' + c.name.rsplit('::', 1)[1], B, B)
    st.add(z3.And(blen(f(t)) <= blen(t), blen(f(t)) >= 0, f(f(t)) == f(t), z3.Implies(blen(f(t)) == blen(t), f(t) == t)))
    return ValRef(Bytes.of(f(t)))


@model(STR + 'contains')
def _(E, st, c):
    v, p = dr(E, st, c.args[0]), pattern(E, st, c.args[1])
    if p.is_const() and p.const_value() == b'':
        return True
    if v.is_const() and p.is_const():
        return p.const_value() in v.const_value()
    f = uf('str_contains', B, B, BoolS)
    st.add(z3.Implies(f(v.term(), p.term()), blen(v.term()) >= blen(p.term())))
    return f(v.term(), p.term())


_add0 = MODELS.get('std::ops::Add::add')


@model('std::ops::Add::add')
def _(E, st, c):
    a = c.args[0]
    if isinstance(a, Bytes):
        return a + dr(E, st, c.args[1])
    return _add0(E, st, c) if _add0 else NotImplemented


_addas0 = MODELS.get('std::ops::AddAssign::add_assign')


@model('std::ops::AddAssign::add_assign')
def _(E, st, c):
    a = E.deref_all(st, c.args[0])
    if isinstance(a, Bytes):
        r = base_ref(E, st, c.args[0])
        E.write(st, r, (), a + dr(E, st, c.args[1]))
        return UNIT
    return _addas0(E, st, c) if _addas0 else NotImplemented


# ---------------------------------------------------------------- intrinsics
@model('std::intrinsics::cold_path')
def _(E, st, c):
    return UNIT


@model('std::intrinsics::likely', 'std::intrinsics::unlikely', 'std::hint::black_box')
def _(E, st, c):
    return c.args[0]


@model('std::intrinsics::is_val_statically_known')
def _(E, st, c):
    return False


@model('std::intrinsics::discriminant_value')
def _(E, st, c):
    return E.discr(st, dr(E, st, c.args[0]))


@model('std::mem::discriminant')
def _(E, st, c):
    return Agg(c.dest, 0, (E.discr(st, dr(E, st, c.args[0])),))


def power(E, st, a, b):
    """a ** b; symbolic base with a small constant exponent, or a constant base with a symbolic exponent"""
    a, b = conc(a), conc(b)
    if isinstance(a, int) and isinstance(b, int):
        return a ** b
    if isinstance(b, int) and b <= 8:
        r = 1
        for _ in range(b):
            r = E.arith(st, 'Mul', r, a, None)
        return r
    return None


for _p, _bits in ([('core::num::<impl u%s>::' % x, y) for x, y in (('8', 8), ('16', 16), ('32', 32), ('64', 64), ('128', 128), ('size', 64))]
                  + [('cosmwasm_std::math::uint%d::Uint%d::' % (x, x), x) for x in (64, 128, 256, 512)]):
    def _mk(p, bits):
        mx = 1 << bits

        def pow_cases(E, st, c, good, bad):
            a, b = c.args[:2]
            v = power(E, st, a, b)
            if v is None and isinstance(conc(a), int) and conc(a) >= 2:
                # constant base: the exponents that fit
                outs, s = [], st
                n = 0
                while conc(a) ** n < mx:
                    hit, s = E.fork(s, ieq(conc(b), n))
                    if hit is not None:
                        outs.append(Ret(hit, 'ret', good(hit, conc(a) ** n)))
                    if s is None:
                        return outs
                    n += 1
                r = bad(s)
                if isinstance(r, Ret):
                    r.st = s
                    outs.append(r)
                else:
                    outs.append(Ret(s, 'ret', r))
                return outs
            if v is None:
                raise Unsupported('pow')
            return branch(E, st, simp(_iz(v) < mx), lambda s: good(s, v), bad)

        @model(p + 'pow')
        def _(E, st, c):
            return pow_cases(E, st, c, lambda s, v: v, lambda s: PANIC('attempt to multiply with overflow'))

        @model(p + 'checked_pow')
        def _(E, st, c):
            if p.startswith('core'):
                return pow_cases(E, st, c, lambda s, v: some(c.dest, v), lambda s: none(c.dest))
            return pow_cases(E, st, c, lambda s, v: ok(E, c, v), lambda s: err(E, c))

        @model(p + 'swap_bytes')
        def _(E, st, c):
            v, r = c.args[0], 0
            for i in range(bits // 8):
                r = iadd(r, simp(((_iz(v) / (1 << (8 * i))) % 256) * (1 << (bits - 8 - 8 * i))))
            return r

        if not p.startswith('core'):
            @model(p + 'wrapping_add', p + 'wrapping_sub', p + 'wrapping_mul')
            def _(E, st, c):
                v = E.arith(st, c.name.split('_')[-1].capitalize(), c.args[0], c.args[1], None)
                return v % mx if isinstance(v, int) else simp(v % mx)

            @model(p + 'checked_shr', p + 'shr')
            def _(E, st, c):
                n = conc(c.args[1])
                if not isinstance(n, int):
                    raise Unsupported('shift by a symbolic amount')
                v = simp(divc(_iz(c.args[0]), 1 << n)) if n < bits else None
                if c.name.endswith('checked_shr'):
                    return ok(E, c, v) if v is not None else err(E, c)
                return v if v is not None else [Ret(st, 'panic', 'shift overflow')]
    _mk(_p, _bits)


def _shift(op):
    old = MODELS.get('std::ops::%s::%s' % (op.capitalize(), op))

    @model('std::ops::%s::%s' % (op.capitalize(), op))
    def _(E, st, c):
        a, n = dr(E, st, c.args[0]), conc(dr(E, st, c.args[1]))
        if isinstance(n, int) and (isinstance(a, int) or z3.is_expr(a)):
            k = E.k(c.dest)
            if k.k == 'int':
                if n >= k.bits:
                    return [Ret(st, 'panic', 'shift overflow')]
                if op == 'shr':
                    return a >> n if isinstance(a, int) else simp(divc(a, 1 << n))
                return E.wrap(E.arith(st, 'Mul', a, 1 << n, None), k)
        return old(E, st, c) if old else NotImplemented


_shift('shr')
_shift('shl')


# ---------------------------------------------------------------- text and bytes
utf8 = uf('utf8_ok', B, BoolS)


@model('std::string::String::into_bytes', 'core::str::<impl str>::as_bytes', 'std::string::String::as_bytes', 'std::str::<impl str>::as_bytes')
def _(E, st, c):
    v = dr(E, st, c.args[0])
    if isinstance(v, Bytes) and not v.is_const():
        st.add(utf8(v.term()))
    return v if c.name.endswith('into_bytes') else c.args[0]


_from_utf8 = MODELS['std::string::String::from_utf8']


@model('std::string::String::from_utf8', 'core::str::from_utf8')
def _(E, st, c):
    v = dr(E, st, c.args[0])
    if v.is_const():
        try:
            v.const_value().decode()
            return ok(E, c, v)
        except UnicodeDecodeError:
            return err(E, c)
    return _from_utf8(E, st, c)
