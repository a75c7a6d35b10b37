"""Joining of paths and substitution in values."""
import z3
from .core import *
from .core import _iz


def subst_bytes(b, i, j):
    return Bytes([_ss(s, i, j) for s in b.segs])


def _sx(x, i, j):
    if z3.is_expr(x):
        return conc(z3.simplify(z3.substitute(x, (i, j))))
    return x


def _ss(s, i, j):
    if s.k == 'c':
        return s
    a = z3.substitute(s.a, (i, j)) if z3.is_expr(s.a) else s.a
    if s.k == 't' and z3.is_expr(a) and not a.eq(s.a):
        if isinstance(s.len, int):
            set_fixedlen(a, s.len)
        return term_seg(a)
    if s.k == 'e':
        return Seg('e', conc(a), s.len)
    return Seg(s.k, a, _sx(s.len, i, j), _sx(s.off, i, j))


def sub_key(key, i, j):
    if z3.is_expr(key):
        return z3.substitute(key, (i, j))
    if isinstance(key, tuple) and key and key[0] in ('slice', 'coins'):
        return tuple(z3.simplify(z3.substitute(x, (i, j))) if z3.is_expr(x) else sub_key(x, i, j) if isinstance(x, tuple) else x for x in key)
    return ('sub', key, i.get_id(), j.get_id())


def subst_val(v, i, j):
    if isinstance(v, (int, bool)) or v is None:
        return v
    if z3.is_expr(v):
        return _sx(v, i, j)
    if isinstance(v, Bytes):
        return subst_bytes(v, i, j)
    if isinstance(v, Agg):
        return Agg(v.ty, v.var, [subst_val(x, i, j) for x in v.f])
    if isinstance(v, Sym):
        return Sym(v.ty, z3.substitute(v.term, (i, j)))
    if isinstance(v, VecV):
        return VecV(v.e, [subst_val(x, i, j) for x in v.items])
    if isinstance(v, ValRef):
        return ValRef(subst_val(v.v, i, j))
    if isinstance(v, Opq):
        return v
    if isinstance(v, VecS):
        at, key = v.at, v.key
        return VecS(v.e, _sx(v.n, i, j), lambda s, x: subst_val(at(None, x), i, j), sub_key(key, i, j))
    if isinstance(v, Coins):
        return Coins(z3.substitute(v.arr, (i, j)))
    raise Unsupported('substitution in %r' % (v,))


def same_heap(a, b, frame):
    for k, e in b.store.items():
        if k in a.store and a.store[k] is not e:
            return False
    for k, v in a.cells.items():
        if k in b.cells and b.cells[k] is not v and k in frame:
            return False
    return True


def merge_rets(E, base, rets, ty):
    """join the returning paths of a call that changed nothing but the result"""
    good = [r for r in rets if r.k == 'ret']
    bad = [r for r in rets if r.k != 'ret']
    if len(good) < 2:
        return rets
    frame = set(base.cells)
    for r in good:
        if not same_heap(base, r.st, frame):
            return rets
    try:
        ids = set(p.get_id() for p in base.pc)
        deltas = [[p for p in r.st.pc if p.get_id() not in ids] for r in good]
        common = set(p.get_id() for p in deltas[0])
        for d in deltas[1:]:
            common &= set(p.get_id() for p in d)
        t = None
        conds = []
        for r, d in zip(good, deltas):
            c = [p for p in d if p.get_id() not in common]
            conds.append(z3.And(*c) if len(c) != 1 else c[0])
        vals = [E.term(r.st, r.v, ty) for r in good]
        t = vals[-1]
        for c, v in list(zip(conds, vals))[-2::-1]:
            t = v if v.eq(t) else z3.If(c, v, t)
        n = None
        if E.k(ty).k == 'bytes':
            ls = [r.v.len() for r in good]
            if all(isinstance(x, int) and x == ls[0] for x in ls):
                n = ls[0]
                set_fixedlen(t, n)
    except Unsupported:
        return rets
    s = base
    for p in deltas[0]:
        if p.get_id() in common:
            s.add(p)
    s.add(z3.Or(*conds))
    for r in good:
        for k, e in r.st.store.items():
            if k not in s.store:
                s.store[k] = e
                s.ghost['st0'] = dict(s.ghost.get('st0', {}))
                s.ghost['st0'].setdefault(k, e)
    return bad + [Ret_(s, E.from_term(s, ty, t))]


def Ret_(s, v):
    from .vm import Ret
    return Ret(s, 'ret', v)


def _same(E, a, b):
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, (int, bool)):
        return a == b
    if z3.is_expr(a):
        return z3.is_expr(b) and a.sort().eq(b.sort()) and a.eq(b)
    if isinstance(a, tuple):
        return len(a) == len(b) and all(_same(E, x, y) for x, y in zip(a, b))
    n = type(a).__name__
    if n in ('Ref', 'ValRef'):
        return repr(a) == repr(b) if n == 'Ref' else _same(E, a.v, b.v)
    if isinstance(a, Agg):
        return a.ty == b.ty and a.var == b.var and _same(E, tuple(a.f), tuple(b.f))
    if isinstance(a, Sym):
        return a.term.eq(b.term)
    if isinstance(a, Bytes):
        return a.term().eq(b.term())
    if isinstance(a, VecV):
        return _same(E, tuple(a.items), tuple(b.items))
    if isinstance(a, VecS):
        return a.key is b.key and a.n is b.n
    if n == 'IterV':
        return a.k == b.k and _same(E, tuple(a.d), tuple(b.d))
    return False


def merge_states(E, f, fr, sts):
    """join states that stand at one program point; None when they cannot be joined"""
    from .loops import HAVOC, as_iter
    a = sts[0]
    for s in sts[1:]:
        if set(s.store) != set(a.store) or any(s.store[k] is not a.store[k] for k in s.store):
            return None
        if set(s.ghost) != set(a.ghost) or any(s.ghost[k] is not a.ghost[k] and not (k == 'st0' and set(s.ghost[k]) == set(a.ghost[k])) for k in s.ghost):
            return None
    common = set(p.get_id() for p in a.pc)
    for s in sts[1:]:
        common &= set(p.get_id() for p in s.pc)
    conds = []
    for s in sts:
        c = [p for p in s.pc if p.get_id() not in common]
        conds.append(z3.And(*c) if len(c) != 1 else c[0])
    tys = {c: f['locals'][l] for l, c in (fr.items() if isinstance(fr, dict) else enumerate(fr))}
    m = State_()
    m.pc = []
    for p in a.pc:
        if p.get_id() in common:
            m.add(p)
    m.store = dict(a.store)
    m.ghost = dict(a.ghost)
    m.bounded = any(s.bounded for s in sts)
    keys = set()
    for s in sts:
        keys |= set(s.cells)
    for c in keys:
        vs = [s.cells.get(c) for s in sts if c in s.cells]
        if all(_same(E, vs[0], v) for v in vs[1:]):
            m.cells[c] = vs[0]
            continue
        if any(as_iter(v) is not None for v in vs):
            return None
        m.cells[c] = HAVOC
        if len(vs) != len(sts):
            continue
        ty = tys.get(c)
        if ty is None:
            continue
        try:
            ts = [E.term(s, v, ty) for s, v in zip(sts, vs)]
            t = ts[-1]
            for cd, v in list(zip(conds, ts))[-2::-1]:
                t = v if v.eq(t) else z3.If(cd, v, t)
            if E.k(ty).k == 'bytes':
                ls = [v.len() for v in vs]
                if all(isinstance(x, int) and x == ls[0] for x in ls):
                    set_fixedlen(t, ls[0])
            m.cells[c] = E.from_term(m, ty, t)
        except Exception:
            pass
    m.add(z3.Or(*conds))
    return m


def State_():
    from .vm import State
    return State()
