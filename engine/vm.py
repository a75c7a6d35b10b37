"""Symbolic execution of MIR, path by path, and the solver interface."""
import itertools, time
import z3
from .core import *
from .core import _iz, _same

MAXVISIT = 400
UNROLL = 3


class Panic(Exception):
    pass


class State:
    __slots__ = ('cells', 'pc', 'store', 'facts', 'bounded', 'ghost', 'hyps')

    def __init__(self):
        self.cells = {}
        self.pc = []
        self.store = {}
        self.facts = set()
        self.bounded = False
        self.ghost = {}

    def copy(self):
        s = State.__new__(State)
        s.cells = dict(self.cells)
        s.pc = list(self.pc)
        s.store = dict(self.store)
        s.facts = set(self.facts)
        s.bounded = self.bounded
        s.ghost = dict(self.ghost)
        return s

    def add(self, c):
        if isinstance(c, (list, tuple)):
            for x in c:
                self.add(x)
            return
        if is_true(c):
            return
        if isinstance(c, bool):
            c = z3.BoolVal(c)
        i = c.get_id()
        if i in self.facts:
            return
        self.facts.add(i)
        self.pc.append(c)


class Call:
    __slots__ = ('fn', 'args', 'argtys', 'dest', 'ga', 'name', 'rname', 'line', 'caller')


class Ret:
    __slots__ = ('st', 'k', 'v')

    def __init__(self, st, k, v):
        self.st = st
        self.k = k
        self.v = v

    def __repr__(self):
        return 'Ret(%s,%s)' % (self.k, self.v)


def divc(a, n):
    """a div n (n > 0 constant), repeated division joined"""
    if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_IDIV and z3.is_int_value(a.arg(1)) and a.arg(1).as_long() > 0:
        return divc(a.arg(0), n * a.arg(1).as_long())
    return a / n


class Engine:
    def __init__(self, prog):
        self.P = prog
        self.S = Sorts(prog)
        self.cellc = itertools.count()
        self.fresh_c = itertools.count()
        self.fresh_n = 0
        self.models_used = set()
        self._bi = {}
        self.cuts = 0
        self.nquery = 0
        self.solver_s = 0.0
        from . import models as M
        self.models = M.MODELS
        self.contracts = {}
        self.loops = []
        self.loop_log = []
        self.loop_hits = set()
        self.called = {}
        self.assumed = set()
        self.deadline = None
        self.tyids = {}
        for i in range(len(prog.types)):
            self.tyids.setdefault(prog.ts(i), i)
        self.unroll = UNROLL
        # lenient: a path with a construct outside the verifier's reach is dropped, and nothing counts as proved; the remaining
        # paths may still refute a clause.  strict > 0: inside a step that needs all paths.
        self.lenient, self.strict, self.dropped = False, 0, []
        # short: iterations of unknown length are enumerated up to the unroll bound (bounded, refutes only)
        self.short = False
        self.jsrc = {}
        self.headers = {}

    # -------------------------------------------------------------- types
    def ty(self, s):
        r = self.tyids.get(s)
        if r is None:
            raise Unsupported('type not in program: ' + s)
        return r

    def k(self, ty):
        return kind(self.P, ty)

    def fresh(self, name, sort):
        if name not in ('ix', 'json', 'display', 'fmt', 'join'):
            self.fresh_n += 1
        return z3.Const('%s!%d' % (name, next(self.fresh_c)), sort)

    def fresh_val(self, st, ty, name='x'):
        return self.from_term(st, ty, self.fresh(name, self.S.sort(ty)))

    def newcell(self, st, v):
        c = next(self.cellc)
        st.cells[c] = v
        return Ref(c, ())

    # -------------------------------------------------------------- terms
    def rng(self, st, t, k):
        if isinstance(t, int) or st is None:
            return
        if k.bits and z3.is_expr(t):
            if k.signed:
                st.add(z3.And(t >= -(1 << (k.bits - 1)), t < (1 << (k.bits - 1))))
            else:
                st.add(z3.And(t >= 0, t < (1 << k.bits)))

    def from_term(self, st, ty, t):
        k = self.k(ty)
        if k.k == 'int':
            t = conc(t)
            self.rng(st, t, k)
            return t
        if k.k == 'bool':
            return conc(t)
        if k.k == 'bytes':
            if k.n is not None and not (z3.is_app(t) and t.decl().eq(bcat)):
                if fixedlen(t) is None:
                    set_fixedlen(t, k.n)
                    if st is not None:
                        st.add(blen(t) == k.n)
            return Bytes.of(t)
        if k.k == 'ref':
            return ValRef(self.from_term(st, k.e, t))
        if k.k == 'box':
            return self.from_term(st, k.e, t)
        if k.k == 'coins':
            return Coins(t)
        if k.k == 'vec':
            so = self.S.sort(ty)
            n = conc(z3.simplify(so.vlen(t)))
            if k.n is not None:
                return VecV(k.e, [self.from_term(st, k.e, z3.Select(so.varr(t), i)) for i in range(k.n)])
            if isinstance(n, int):
                arr = z3.simplify(so.varr(t))
                return VecV(k.e, [self.from_term(st, k.e, z3.simplify(z3.Select(arr, i))) for i in range(n)])
            if st is not None:
                st.add(n >= 0)
            e = k.e
            arr = so.varr(t)
            return VecS(e, n, lambda s, i: self.from_term(s, e, z3.Select(arr, _iz(i))), t)
        if k.k == 'opaque':
            return Opq('opaque', t)
        if k.k in ('adt', 'tuple'):
            return self.expand_if_struct(st, Sym(ty, t))
        raise Unsupported('from_term ' + self.P.ts(ty))

    def variants(self, ty):
        k = self.k(ty)
        if k.k == 'tuple':
            return [dict(n='t', d=0, f=[(str(i), x) for i, x in enumerate(k.t['e'])])]
        return k.t['v']

    def is_enum(self, ty):
        k = self.k(ty)
        return k.k == 'adt' and k.t['enum']

    def expand_if_struct(self, st, s):
        """structs are kept symbolic; a constructor application becomes an Agg"""
        so = self.S.sort(s.ty)
        t = s.term
        if z3.is_app(t) and t.num_args() >= 0 and t.decl().kind() == z3.Z3_OP_DT_CONSTRUCTOR:
            vs = self.variants(s.ty)
            for vi in range(len(vs)):
                if so.constructor(vi).eq(t.decl()):
                    return Agg(s.ty, vi, [self.from_term(st, ft, t.arg(i)) for i, (fn, ft) in enumerate(vs[vi]['f'])])
        return s

    def field(self, st, v, i, var=None):
        """field i of v (under variant var)"""
        if isinstance(v, Down):
            var = v.var
            v = v.v
        if isinstance(v, Agg):
            if var is not None and v.var != var:
                raise VerifierBug('downcast to wrong variant')
            return v.f[i]
        if isinstance(v, Sym):
            vs = self.variants(v.ty)
            vi = var if var is not None else 0
            so = self.S.sort(v.ty)
            ft = vs[vi]['f'][i][1]
            t = z3.simplify(so.accessor(vi, i)(v.term))
            return self.from_term(st, ft, t)
        if isinstance(v, Opq) and v.tag == 'uninitbox':
            return v
        if isinstance(v, Opq) and v.tag == 'parsed' and isinstance(v.d, Bytes) and i < 3:
            from .more import semver_part
            return semver_part(self, st, v.d, i)
        if isinstance(v, Opq):
            return Opq('opq-field')
        if isinstance(v, (int, Bytes)) or z3.is_expr(v):
            return v          # transparent wrapper (Uint128, HexBinary, ...)
        if isinstance(v, Clo):
            return v.ups[i]
        raise Unsupported('field of %r' % (v,))

    def fname(self, st, v, name):
        """field by name (struct)"""
        if isinstance(v, (Ref, ValRef)):
            v = self.deref(st, v)
        fs = self.variants(v.ty)[v.var if isinstance(v, Agg) else 0]['f']
        for i, (n, _) in enumerate(fs):
            if n == name:
                return self.field(st, v, i, 0 if isinstance(v, Sym) else None)
        raise Unsupported('no field %s in %s' % (name, self.P.ts(v.ty)))

    def expand(self, st, v, var=None):
        if isinstance(v, Agg):
            return v
        if isinstance(v, Sym):
            vs = self.variants(v.ty)
            vi = 0 if var is None else var
            return Agg(v.ty, vi, [self.field(st, v, i, vi) for i in range(len(vs[vi]['f']))])
        raise Unsupported('expand %r' % (v,))

    def term(self, st, v, ty):
        k = self.k(ty)
        if k.k == 'int':
            return _iz(v)
        if k.k == 'bool':
            return z3.BoolVal(v) if isinstance(v, bool) else v
        if k.k == 'bytes':
            if isinstance(v, (Ref, ValRef)):
                v = self.deref(st, v)
            if isinstance(v, Bytes):
                return v.term()
            raise Unsupported('bytes term of %r' % (v,))
        if k.k in ('ref', 'box'):
            return self.term(st, self.deref(st, v) if isinstance(v, (Ref, ValRef)) else v, k.e)
        if k.k == 'opaque':
            return z3.Const('opaque', self.S._named('Opaque'))
        if k.k == 'coins':
            return v.arr
        if k.k == 'vec':
            so = self.S.sort(ty)
            if isinstance(v, VecS):
                if z3.is_expr(v.key) and v.key.sort().eq(so):
                    return v.key
                i = z3.Int('lam!i')
                s2 = State()
                b = self.term(s2, v.at(s2, i), k.e)
                return so.vec(_iz(v.n), z3.Lambda([i], b))
            if isinstance(v, VecCat):
                if not all(isinstance(p, VecV) for p in v.parts[1:]):
                    # positions past the end read the first part, like those of a vector that was pushed to
                    i = z3.Int('lam!i')
                    s2 = State()
                    p0 = v.parts[0]
                    if isinstance(p0, VecV):
                        raise Unsupported('term of concatenation')
                    at = p0.at
                    segs, off = [], 0
                    for p in v.parts:
                        m = self.vlen(p)
                        segs.append((iadd(off, m), off, p))
                        off = iadd(off, m)
                    b = self.term(s2, at(s2, i), k.e)
                    for end, lo, p in reversed(segs[1:]):
                        if isinstance(p, VecV):
                            for j, x in enumerate(p.items):
                                b = z3.If(i == _iz(iadd(lo, j)), self.term(st, x, k.e), b)
                        else:
                            b = z3.If(z3.And(i >= _iz(lo), i < _iz(end)), self.term(s2, self.vat(s2, p, simp(i - _iz(lo))), k.e), b)
                    return so.vec(_iz(off), z3.Lambda([i], b))
                t0 = self.term(st, v.parts[0], ty)
                n, arr = so.vlen(t0), so.varr(t0)
                for p in v.parts[1:]:
                    for x in p.items:
                        arr = z3.Store(arr, n, self.term(st, x, k.e))
                        n = simp(n + 1)
                return so.vec(n, arr)
            arr = z3.Const('arr0!' + so.name(), so.varr(z3.Const('d', so)).sort())
            for i, x in enumerate(v.items):
                arr = z3.Store(arr, i, self.term(st, x, k.e))
            return so.vec(len(v.items), arr)
        if isinstance(v, Sym):
            return v.term
        if isinstance(v, Agg):
            so = self.S.sort(ty)
            fs = self.variants(ty)[v.var]['f']
            return so.constructor(v.var)(*[self.term(st, x, ft) for x, (fn, ft) in zip(v.f, fs)])
        raise Unsupported('term of %r : %s' % (v, self.P.ts(ty)))

    def discr(self, st, v):
        if isinstance(v, Down):
            v = v.v
        if isinstance(v, Agg):
            return int(self.variants(v.ty)[v.var]['d'])
        if isinstance(v, Sym):
            vs = self.variants(v.ty)
            so = self.S.sort(v.ty)
            e = z3.IntVal(int(vs[-1]['d']))
            for i in range(len(vs) - 2, -1, -1):
                e = z3.If(so.recognizer(i)(v.term), z3.IntVal(int(vs[i]['d'])), e)
            return simp(e)
        raise Unsupported('discriminant of %r' % (v,))

    def isvar(self, v, i):
        if isinstance(v, Agg):
            return v.var == i
        if isinstance(v, Sym):
            return simp(self.S.sort(v.ty).recognizer(i)(v.term))
        raise Unsupported('isvar %r' % (v,))

    # -------------------------------------------------------------- equality
    def json_src(self, b):
        """(value, type name) when b is the JSON of a value"""
        if len(b.segs) != 1 or b.segs[0].k != 't':
            return None
        r = self.jsrc.get(b.segs[0].a.get_id())
        return r[1:] if r is not None else None

    def eq(self, st, a, b, goal=False):
        """structural equality.  goal=True: vectors of symbolic length are compared at a fresh
        index (sound when the result is only proved, never assumed)."""
        a = self.deref_all(st, a)
        b = self.deref_all(st, b)
        if isinstance(a, Bytes) and isinstance(b, Bytes):
            if goal:
                ja, jb = self.json_src(a), self.json_src(b)
                if ja is not None and jb is not None and ja[1] == jb[1] and not a.term().eq(b.term()):
                    # JSON of one type: equal exactly when the values are
                    return self.eq(st, ja[0], jb[0], goal)
            return beq(a, b)
        if isinstance(a, bool) or isinstance(b, bool) or (z3.is_expr(a) and z3.is_bool(a)):
            return IFF(a, b)
        if (isinstance(a, int) or z3.is_expr(a)) and (isinstance(b, int) or z3.is_expr(b)):
            return ieq(a, b)
        if isinstance(a, Coins) and isinstance(b, Coins):
            if goal:
                d = self.fresh('skd', B)
                return z3.Select(a.arr, d) == z3.Select(b.arr, d)
            return a.arr == b.arr
        va, vb = isinstance(a, (VecV, VecS, VecCat)), isinstance(b, (VecV, VecS, VecCat))
        if va and vb:
            if isinstance(a, VecV) and isinstance(b, VecV):
                if len(a.items) != len(b.items):
                    return False
                return AND(*[self.eq(st, x, y, goal) for x, y in zip(a.items, b.items)])
            if isinstance(a, VecS) and isinstance(b, VecS) and z3.is_expr(a.key) and z3.is_expr(b.key) and a.key.eq(b.key):
                return True
            la, lb = self.vlen(a), self.vlen(b)
            for x, y, lx in ((a, b, la), (b, a, lb)):
                if isinstance(lx, int):
                    return AND(ieq(la, lb), *[IMP(_iz(self.vlen(y)) > i, self.eq(st, self.vat(st, x, i), self.vat(st, y, i), goal)) for i in range(lx)])
            if goal and isinstance(b, VecCat) and not isinstance(a, VecCat):
                a, b, la, lb = b, a, lb, la
            if goal and isinstance(a, VecCat) and not isinstance(b, VecCat):
                # piece by piece: the pieces cover all positions
                off, conj = 0, [ieq(la, lb)]
                for p in a.parts:
                    n = self.vlen(p)
                    if isinstance(n, int):
                        conj += [IMP(_iz(lb) > _iz(iadd(off, j)), self.eq(st, self.vat(st, p, j), self.vat(st, b, iadd(off, j)), goal)) for j in range(n)]
                    else:
                        i = self.fresh('sk', Int)
                        conj.append(IMP(z3.And(i >= 0, i < _iz(n)), self.eq(st, self.vat(st, p, i), self.vat(st, b, iadd(off, i)), goal)))
                    off = iadd(off, n)
                return AND(*conj)
            if goal:
                i = self.fresh('sk', Int)
                return AND(ieq(la, lb), IMP(z3.And(i >= 0, i < _iz(la)), self.eq(st, self.vat(st, a, i), self.vat(st, b, i), goal)))
            ka, kb = a.key if isinstance(a, VecS) else None, b.key if isinstance(b, VecS) else None
            if z3.is_expr(ka) and z3.is_expr(kb) and ka.sort().eq(kb.sort()):
                return ka == kb
            raise Unsupported('vector equality')
        if isinstance(a, (Agg, Sym)) and isinstance(b, (Agg, Sym)):
            if isinstance(a, Sym) and isinstance(b, Sym):
                if a.term.eq(b.term):
                    return True
                if a.term.sort().eq(b.term.sort()) and not goal:
                    return a.term == b.term
            ty = a.ty if a.ty is not None else b.ty
            if ty is None:
                return AND(*[self.eq(st, x, y, goal) for x, y in zip(a.f, b.f)]) if isinstance(a, Agg) and isinstance(b, Agg) else self._bad(a, b)
            vs = self.variants(ty)
            if isinstance(a, Agg) and isinstance(b, Agg):
                if a.var != b.var:
                    return False
                return AND(*[self.eq(st, x, y, goal) for x, y in zip(a.f, b.f)])
            out = []
            for i in range(len(vs)):
                ca, cb = self.isvar(a, i), self.isvar(b, i)
                c = AND(ca, cb)
                if is_false(c):
                    continue
                ea, eb = self.expand(st, a, i), self.expand(st, b, i)
                out.append(AND(c, *[self.eq(st, x, y, goal) for x, y in zip(ea.f, eb.f)]))
            return OR(*out)
        if isinstance(a, Opq) and isinstance(b, Opq) and a.tag == b.tag:
            if isinstance(a.d, Bytes) and isinstance(b.d, Bytes):
                return beq(a.d, b.d)
            return True
        raise Unsupported('equality of %r and %r' % (a, b))

    def _bad(self, a, b):
        raise Unsupported('equality of %r and %r' % (a, b))

    # -------------------------------------------------------------- vectors
    def vlen(self, v):
        if isinstance(v, Bytes):
            return v.len()
        if isinstance(v, VecV):
            return len(v.items)
        if isinstance(v, VecS):
            return v.n
        if isinstance(v, VecCat):
            n = 0
            for p in v.parts:
                n = iadd(n, self.vlen(p))
            return n
        raise Unsupported('len of %r' % (v,))

    def vat(self, st, v, i):
        if isinstance(v, Bytes):
            return v.byte(i)
        i = conc(i)
        if isinstance(v, VecV):
            if isinstance(i, int):
                return v.items[i]
            if not v.items:
                return self.from_term(st, v.e, self.fresh('outside', self.S.sort(v.e)))
            so = self.S.sort(v.e)
            t = self.term(st, v.items[-1], v.e)
            for j in range(len(v.items) - 2, -1, -1):
                t = z3.If(i == j, self.term(st, v.items[j], v.e), t)
            return self.from_term(st, v.e, t)
        if isinstance(v, VecS):
            return v.at(st, i)
        if isinstance(v, VecCat):
            off = i
            for p in v.parts:
                n = self.vlen(p)
                if isinstance(n, int) and isinstance(off, int):
                    if off < n:
                        return self.vat(st, p, off)
                    off -= n
                elif isinstance(n, int) and n == 0:
                    continue
                else:
                    d = simp(_iz(off) < _iz(n))
                    if d is True:
                        return self.vat(st, p, off)
                    if d is False:
                        off = isub(off, n)
                        continue
                    raise Unsupported('symbolic index into concatenation')
        raise Unsupported('index into %r' % (v,))

    def vcat(self, e, a, b):
        if isinstance(a, VecV) and isinstance(b, VecV):
            return VecV(e, a.items + b.items)
        if isinstance(a, VecV) and not a.items:
            return b
        if isinstance(b, VecV) and not b.items:
            return a
        pa = a.parts if isinstance(a, VecCat) else (a,)
        pb = b.parts if isinstance(b, VecCat) else (b,)
        return VecCat(e, pa + pb)

    # -------------------------------------------------------------- memory
    def deref(self, st, r):
        if isinstance(r, ValRef):
            v = r.v
        elif isinstance(r, Ref):
            v = st.cells[r.cell]
            for p in r.path:
                v = self.proj(st, v, p)
        else:
            return r
        return v

    def deref_all(self, st, r):
        while isinstance(r, (Ref, ValRef)):
            r = self.deref(st, r)
        return r

    def boxinner(self, ty):
        r = self._bi.get(ty)
        if r is None:
            r = self._bi[ty] = self.P.ts(ty).startswith(('std::ptr::Unique<', 'std::ptr::NonNull<', 'std::boxed::BoxRaw<'))
        return r

    def proj(self, st, v, p):
        if p == '*':
            if isinstance(v, (Ref, ValRef)):
                return self.deref(st, v)
            return v            # Box<T> is T
        op = p[0]
        if op == 'f':
            if len(p) > 2 and self.boxinner(p[2]):
                return v
            return self.field(st, v, p[1])
        if op == 'd':
            if isinstance(v, Agg):
                if v.var != p[1]:
                    raise VerifierBug('downcast')
                return v
            return Down(v, p[1])
        if op == 'i':
            return self.vat(st, v, p[1])
        if op == 'c':
            off, mn, fe = p[1], p[2], p[3]
            return self.vat(st, v, isub(self.vlen(v), off) if fe else off)
        if op == 's':
            a, b, fe = p[1], p[2], p[3]
            n = self.vlen(v)
            end = isub(n, b) if fe else b
            return self.vslice(st, v, a, isub(end, a))
        if op == 'S':
            return self.vslice(st, v, p[1], p[2])
        if op == 'o':
            return v
        if op == 'mv':
            return v.items[p[1]][1]
        raise Unsupported('projection %r' % (p,))

    def vslice(self, st, v, a, n):
        if isinstance(v, Bytes):
            return v.slice(a, n)
        a, n = conc(a), conc(n)
        if isinstance(v, VecV) and isinstance(a, int) and isinstance(n, int):
            return VecV(v.e, v.items[a:a + n])
        if isinstance(v, (VecS, VecV)):
            w = v
            return VecS(v.e, n, lambda s, i: self.vat(s, w, iadd(a, i)), ('slice', getattr(v, 'key', None), a, n))
        raise Unsupported('slice of %r' % (v,))

    def put(self, st, v, path, new):
        if not path:
            return new
        p = path[0]
        if isinstance(v, Opq) and v.tag == 'uninit':
            return new
        if p == '*':
            if isinstance(v, Ref):
                self.write(st, v, path[1:], new)
                return v
            if isinstance(v, ValRef):
                raise Unsupported('write through immutable ref')
            return self.put(st, v, path[1:], new)
        op = p[0]
        if op == 'd':
            if isinstance(v, Sym):
                v = self.expand(st, v, p[1])
            if isinstance(v, Agg):
                return self.put(st, v, path[1:], new)
            raise Unsupported('write under downcast of %r' % (v,))
        if op == 'f':
            i = p[1]
            if isinstance(v, Sym):
                v = self.expand(st, v)
            if isinstance(v, Clo):
                ups = list(v.ups)
                ups[i] = self.put(st, ups[i], path[1:], new)
                return Clo(v.ty, ups)
            if isinstance(v, Agg):
                f = list(v.f)
                f[i] = self.put(st, f[i], path[1:], new)
                return Agg(v.ty, v.var, f)
            if v is None:
                raise Unsupported('write to field of uninitialised value')
            if isinstance(v, (int, Bytes)) or z3.is_expr(v):
                return self.put(st, v, path[1:], new)
            raise Unsupported('write to field of %r' % (v,))
        if op == 'i' or op == 'c':
            i = conc(p[1])
            if op == 'c' and p[3]:
                i = isub(self.vlen(v), i)
            if isinstance(v, Bytes):
                b = new if not path[1:] else None
                n = v.len()
                x = Bytes.be(1, b)
                return v.slice(0, i) + x + v.slice(iadd(i, 1), isub(n, iadd(i, 1)))
            if isinstance(v, VecV) and isinstance(i, int):
                it = list(v.items)
                it[i] = self.put(st, it[i], path[1:], new)
                return VecV(v.e, it)
            if isinstance(v, VecV):
                it = list(v.items)
                so_e = v.e
                for j in range(len(it)):
                    nv = self.put(st, it[j], path[1:], new)
                    it[j] = self.from_term(st, so_e, z3.If(i == j, self.term(st, nv, so_e), self.term(st, it[j], so_e)))
                return VecV(v.e, it)
            if isinstance(v, VecS) and v.e is not None:
                old = v.at(st, i)
                nv = self.put(st, old, path[1:], new)
                so = self.S.sort(v.e)
                x = self.term(st, nv, v.e)
                e = v.e
                def at(s, j, v=v, i=i, nv=nv, x=x, e=e):
                    c = ieq(i, j)
                    if c is True:
                        return nv
                    o = v.at(s, j)
                    if c is False:
                        return o
                    return self.from_term(s, e, z3.If(c, x, self.term(s, o, e)))
                return VecS(v.e, v.n, at, ('set', v.key, i, x, nv, old))
            raise Unsupported('indexed write to %r' % (v,))
        if op == 'S':
            if path[1:]:
                raise Unsupported('nested slice write')
            n = self.vlen(v)
            a, ln = p[1], p[2]
            if isinstance(v, Bytes):
                e = iadd(a, ln)
                return v.slice(0, a) + new + v.slice(e, isub(n, e))
            raise Unsupported('slice write')
        if op == 'mv':
            it = list(v.items)
            it[p[1]] = (it[p[1]][0], self.put(st, it[p[1]][1], path[1:], new))
            return type(v)(v.ty, it)
        raise Unsupported('write %r' % (p,))

    def write(self, st, ref, path, new):
        if isinstance(ref, Ref):
            st.cells[ref.cell] = self.put(st, st.cells.get(ref.cell), tuple(ref.path) + tuple(path), new)
        else:
            raise Unsupported('write through %r' % (ref,))

    # -------------------------------------------------------------- solver
    def _bfacts(self, exprs):
        """facts about byte-string terms occurring in the query"""
        seen = set()
        out = []
        bts = {}
        decs = {}
        st = [e for e in exprs if z3.is_expr(e)]
        while st:
            x = st.pop()
            i = x.get_id()
            if i in seen:
                continue
            seen.add(i)
            if z3.is_quantifier(x):
                continue
            if z3.is_app(x):
                d = x.decl()
                st.extend(x.children())
                if x.sort().eq(B) and not _has_var(x):
                    bts[i] = x
                nm = d.name()
                if d.eq(bdec) and not _has_var(x):
                    n = fixedlen(x.arg(0))
                    out.append(x >= 0)
                    if n is not None:
                        out.append(x < (1 << (8 * n)))
                        decs.setdefault(n, []).append(x)
                elif d.eq(bat) and not _has_var(x):
                    out.append(z3.And(x >= 0, x < 256))
                elif nm in self.term_facts and not _has_var(x):
                    out.extend(self.term_facts[nm](x))
        extra = []
        for x in bts.values():
            d = x.decl()
            n = fixedlen(x)
            nm = d.name()
            if d.eq(bcat):
                out.append(blen(x) == blen(x.arg(0)) + blen(x.arg(1)))
                extra += [x.arg(0), x.arg(1)]
            elif d.eq(bslice):
                out.append(z3.Implies(x.arg(2) >= 0, blen(x) == x.arg(2)))
            if n is not None:
                out.append(blen(x) == n)
            elif not d.eq(bcat):
                out.append(blen(x) >= 0)
                out.append((blen(x) == 0) == (x == bconst(b'')))
        cs = [x for x in bts.values() if x.num_args() == 0 and x.decl().name().startswith('b!')]
        e = bconst(b'')
        if bts and e.get_id() not in {c.get_id() for c in cs}:
            cs.append(e)
            out.append(blen(e) == 0)
        if len(cs) > 1:
            out.append(z3.Distinct(*cs))
        # an integer is made of its bytes, where single bytes of it are looked at
        ones = {}
        for x in decs.get(1, []):
            a = x.arg(0)
            if a.decl().eq(bslice) and z3.is_int_value(a.arg(1)):
                ones.setdefault(a.arg(0).get_id(), set()).add(a.arg(1).as_long())
        if ones:
            def look(a, n):
                """the bytes of a string some byte of which is looked at"""
                off = 0
                if a.decl().eq(bslice):
                    if not z3.is_int_value(a.arg(1)):
                        return None
                    a, off = a.arg(0), a.arg(1).as_long()
                if not any(off <= j < off + n for j in ones.get(a.get_id(), ())):
                    return None
                l = []
                for j in range(n):
                    y = bdec(bslice(a, z3.IntVal(off + j), z3.IntVal(1)))
                    out.append(z3.And(y >= 0, y < 256))
                    l.append(y)
                return l
            for n, l in list(decs.items()):
                for x in l[:6] if 1 < n <= 32 else ():
                    ys = look(x.arg(0), n)
                    if ys:
                        tot = 0
                        for y in ys:
                            tot = tot * 256 + y
                        out.append(x == z3.simplify(tot))
            for x in list(bts.values()):
                n = fixedlen(x)
                if n is None or not 1 < n <= 32 or not (x.decl().eq(bslice) or x.num_args() == 0) or x.decl().name().startswith('b!'):
                    continue
                same = [c for c in cs if len(c.decl().name()) == 2 + 2 * n]
                ys = look(x, n) if same else None
                if ys:
                    for c in same:
                        v = bytes.fromhex(c.decl().name()[2:])
                        out.append((x == c) == z3.And(*[y == int(b) for y, b in zip(ys, v)]))
        # big-endian decoding is injective on strings of one length
        for n, l in decs.items():
            l = l[:12]
            for c in cs:
                v = bytes.fromhex(c.decl().name()[2:])
                if len(v) == n:
                    for x in l:
                        out.append((x.arg(0) == c) == (x == int.from_bytes(v, 'big')))
            for i in range(len(l)):
                for j in range(i):
                    out.append(z3.Implies(l[i] == l[j], l[i].arg(0) == l[j].arg(0)))
        return out

    term_facts = {}

    def check(self, conds, timeout=4000):
        """z3 result for the conjunction"""
        if any(is_false(c) for c in conds):
            return 'unsat', None
        es = [c for c in conds if z3.is_expr(c)]
        t0 = time.time()
        s = z3.Solver()
        s.set('timeout', timeout)
        f = self._bfacts(es)
        # facts may introduce new terms once
        f2 = self._bfacts(f)
        s.add(*es)
        s.add(*f)
        s.add(*f2)
        r = s.check()
        self.nquery += 1
        self.solver_s += time.time() - t0
        m = s.model() if r == z3.sat else None
        return str(r), m

    def prove(self, pc, goal, timeout=20000):
        """'unsat' when pc implies goal; large equalities are first compared in lockstep, part by part"""
        if z3.is_expr(goal) and self._big(goal) and self._split(pc, goal, {}):
            return 'unsat', None
        return self.check(pc + [NOT(goal)], timeout)

    @staticmethod
    def _big(t, lim=40):
        n, todo, seen = 0, [t], set()
        while todo:
            x = todo.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE:
                n += 1
                if n >= 5:
                    return True
            todo.extend(x.children())
        return False

    def _split(self, pc, g, memo):
        if z3.is_and(g):
            return all(self._split(pc, x, memo) for x in g.children())
        if z3.is_eq(g):
            return self._lock(pc, g.arg(0), g.arg(1), memo)
        if z3.is_or(g):
            return any(z3.is_eq(x) and self._big(x) and self._lock(pc, x.arg(0), x.arg(1), memo) for x in g.children())
        return False

    def _lock(self, pc, a, b, memo):
        if a.eq(b):
            return True
        k = (a.get_id(), b.get_id())
        if k not in memo:
            memo[k] = (self._lock1(pc, a, b, memo), a, b)
        return memo[k][0]

    def _unsat(self, pc, x):
        return self.check([x], 2000)[0] == 'unsat' or self.check(pc + [x], 3000)[0] == 'unsat'

    def _lock1(self, pc, a, b, memo):
        if not a.sort().eq(b.sort()):
            return False
        ite = lambda x: z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE
        if ite(a) and ite(b):
            c, d = a.arg(0), b.arg(0)
            if c.eq(d) or self._unsat(pc, c != d):
                return self._lock(pc, a.arg(1), b.arg(1), memo) and self._lock(pc, a.arg(2), b.arg(2), memo)
            if self._unsat(pc, c == d):
                return self._lock(pc, a.arg(1), b.arg(2), memo) and self._lock(pc, a.arg(2), b.arg(1), memo)
            return False
        if ite(a) or ite(b):
            return not (self._big(a) or self._big(b)) and self._unsat(pc, a != b)
        if z3.is_app(a) and z3.is_app(b) and a.num_args() and a.decl().eq(b.decl()):
            if all(self._lock(pc, x, y, memo) for x, y in zip(a.children(), b.children())):
                return True
        return not (self._big(a) or self._big(b)) and self._unsat(pc, a != b)

    def feasible(self, st, c=True):
        if is_false(c):
            return False
        if self.deadline and time.time() > self.deadline:
            raise Unsupported('time budget exhausted')
        r, _ = self.check(st.pc + [c], timeout=1500)
        return r != 'unsat'

    def implied(self, st, conds, hyp=()):
        c = AND(*conds)
        return is_true(c) or self.check(st.pc + list(hyp) + [NOT(c)], 4000)[0] == 'unsat'

    @staticmethod
    def occurs(t, x):
        y = z3.Const('occurs!probe', x.sort())
        return not z3.substitute(t, (x, y)).eq(t)

    def all_paths(self):
        E = self

        class C:
            def __enter__(self):
                E.strict += 1

            def __exit__(self, *a):
                E.strict -= 1
        return C()

    def cut(self, st):
        """a path is given up at the unrolling bound: everything below is bounded"""
        self.cuts += 1

    def loop_consumer(self, st, c, it, n, what):
        from . import loops
        return loops.consumer(self, st, c, it, n, what)

    def fork(self, st, c):
        """(state with c or None, state with not c or None)"""
        c = simp(c) if z3.is_expr(c) else c
        if c is True:
            return st, None
        if c is False:
            return None, st
        if c.get_id() in st.facts:
            return st, None
        nc = NOT(c)
        if nc.get_id() in st.facts:
            return None, st
        ft = self.feasible(st, c)
        ff = self.feasible(st, nc)
        if ft and ff:
            s2 = st.copy()
            st.add(c)
            s2.add(nc)
            return st, s2
        if ft:
            st.add(c)
            return st, None
        if ff:
            st.add(nc)
            return None, st
        return None, None

    # -------------------------------------------------------------- execution
    def _rplace(self, st, fr, pl):
        loc, pr = pl
        v = st.cells.get(fr[loc])
        for p in pr:
            if p == '*':
                v = self.deref(st, v) if isinstance(v, (Ref, ValRef)) else v
            elif p[0] == 'i':
                idx = st.cells[fr[p[1]]]
                v = self.vat(st, v, idx)
            else:
                v = self.proj(st, v, p)
        if isinstance(v, Down):
            v = v.v
        return v

    def _refplace(self, st, fr, pl):
        """reference to a place"""
        loc, pr = pl
        base = Ref(fr[loc], ())
        path = []
        for p in pr:
            if p == '*':
                v = self.deref(st, Ref(base.cell, base.path + tuple(path))) if isinstance(base, Ref) else self._vr(st, base, path)
                if isinstance(v, (Ref, ValRef)):
                    base = v
                    path = []
                elif isinstance(v, Opq) and v.tag == 'uninitbox':
                    base = Ref(v.d, ())
                    path = []
                # else Box: stay
            elif p[0] == 'i':
                path.append(('i', st.cells[fr[p[1]]]))
            elif p[0] == 's':
                cur = Ref(base.cell, base.path + tuple(path)) if isinstance(base, Ref) else None
                v = self.deref(st, cur) if cur else self._vr(st, base, path)
                n = self.vlen(v)
                end = isub(n, p[2]) if p[3] else p[2]
                path.append(('S', p[1], isub(end, p[1])))
            elif p[0] == 'o':
                pass
            else:
                path.append(tuple(p) if isinstance(p, list) else p)
        if isinstance(base, Ref):
            return Ref(base.cell, tuple(base.path) + tuple(path))
        if path:
            return ValRef(self._vr(st, base, path))
        return base

    def _vr(self, st, base, path):
        v = base.v
        for p in path:
            v = self.proj(st, v, p)
        if isinstance(v, Down):
            v = v.v
        return v

    def _wplace(self, st, fr, pl, val):
        loc, pr = pl
        if not pr:
            st.cells[fr[loc]] = val
            return
        r = self._refplace(st, fr, pl)
        if not isinstance(r, Ref):
            raise Unsupported('write through immutable reference')
        self.write(st, Ref(r.cell, ()), r.path, val)

    def constval(self, st, ty, v):
        k = self.k(ty)
        if 'unk' in v:
            raise Unsupported('constant ' + self.P.ts(ty))
        if 'i' in v:
            return int(v['i'])
        if 'b' in v:
            return bool(v['b'])
        if 'bytes' in v:
            b = Bytes.const(bytes.fromhex(v['bytes']))
            return b
        if 'ref' in v:
            e = k.e if k.k == 'ref' else None
            if e is None:
                raise Unsupported('const ref of ' + self.P.ts(ty))
            return ValRef(self.constval(st, e, v['ref']))
        if 'zst' in v:
            return self.zst(ty)
        if 'arr' in v:
            if k.k == 'int':
                # limbs of a wide integer, least significant first
                return sum(int(x['i']) << (64 * i) for i, x in enumerate(v['arr']))
            if k.k == 'bytes':
                return Bytes.const(bytes(int(x['i']) for x in v['arr']))
            return VecV(k.e, [self.constval(st, k.e, x) for x in v['arr']])
        if 'f' in v:
            if k.k == 'bytes':
                # struct wrapping bytes, e.g. String::new()
                return Bytes(())
            if k.k == 'int' and 'arr' in str(v):
                w = v
                while 'f' in w:
                    w = w['f'][0]
                return self.constval(st, ty, w)
            if k.k == 'int':
                fs = k.t['v'][0]['f']
                return self.constval(st, fs[0][1], v['f'][0])
            if k.k == 'vec':
                return VecV(k.e, ())
            if k.k == 'adt' and k.t['name'] in ('cw_storage_plus::item::Item', 'cw_storage_plus::map::Map'):
                b = self.constval(st, k.t['v'][0]['f'][0][1], v['f'][0])
                return MapObj('item' if 'item' in k.t['name'] else 'map', self.deref(st, b).const_value())
            if k.k == 'tuple':
                return Agg(ty, 0, [self.constval(st, t, x) for t, x in zip(k.t['e'], v['f'])])
            if k.k == 'opaque' or k.k == 'adt' and 'v' not in k.t:
                raise Unsupported('constant of ' + self.P.ts(ty))
            vi = v.get('v', 0) or 0
            fs = self.variants(ty)[vi]['f']
            return Agg(ty, vi, [self.constval(st, ft, x) for (fn, ft), x in zip(fs, v['f'])])
        if 'fnptr' in v or 'id' in v:
            return FnV(v)
        if 'static' in v:
            raise Unsupported('static')
        raise Unsupported('constant %r' % (v,))

    def zst(self, ty):
        k = self.k(ty)
        if k.k == 'tuple':
            return Agg(ty, 0, [self.zst(x) for x in k.t['e']])
        if k.k == 'fndef':
            return FnV(k.t['f'])
        if k.k == 'closure':
            return Clo(ty, ())
        if k.k == 'adt':
            vs = k.t['v']
            if not vs:
                return Agg(ty, 0, ())
            return Agg(ty, 0, [self.zst(ft) for fn, ft in vs[0]['f']])
        if k.k == 'bytes':
            return Bytes(())
        if k.k == 'vec':
            return VecV(k.e, ())
        return Opq('zst')

    def operand(self, st, fr, o):
        if o[0] in ('cp', 'mv'):
            return self._rplace(st, fr, o[1])
        if o[0] == 'k':
            c = o[1]
            if 'fn' in c:
                return FnV(c['fn'])
            return self.constval(st, c['t'], c['val'])
        if o[0] == 'rc':
            return False
        raise Unsupported('operand %r' % (o[0],))

    def place_ty(self, f, pl):
        ty = f['locals'][pl[0]]
        var = 0
        for p in pl[1]:
            k = self.k(ty)
            if p == '*':
                ty = k.e if k.k in ('ref', 'box') else (k.t['ga'][0] if k.k == 'adt' else ty)
            elif p[0] == 'f':
                ty = p[2]
            elif p[0] == 'i' or p[0] == 'c':
                if k.k == 'bytes':
                    ty = self.tyids['u8']
                else:
                    ty = k.e
            elif p[0] == 's':
                pass
        return ty

    def operand_ty(self, f, o):
        if o[0] in ('cp', 'mv'):
            return self.place_ty(f, o[1])
        if o[0] == 'k' and 't' in o[1]:
            return o[1]['t']
        return None

    def arith(self, st, op, a, b, k):
        """mathematical result of op"""
        if op in ('Add', 'AddUnchecked'):
            return iadd(a, b)
        if op in ('Sub', 'SubUnchecked'):
            return isub(a, b)
        if op in ('Mul', 'MulUnchecked'):
            if isinstance(a, int) and isinstance(b, int):
                return a * b
            return simp(_iz(a) * _iz(b))
        raise Unsupported('arith ' + op)

    def wrap(self, v, k):
        if k.signed:
            h = 1 << (k.bits - 1)
            if isinstance(v, int):
                return (v + h) % (1 << k.bits) - h
            return simp((v + h) % (1 << k.bits) - h)
        if isinstance(v, int):
            return v % (1 << k.bits)
        return simp(v % (1 << k.bits))

    def binop(self, st, op, a, b, k):
        if op in ('Eq', 'Ne'):
            r = self.eq(st, a, b)
            return r if op == 'Eq' else NOT(r)
        if op in ('Lt', 'Le', 'Gt', 'Ge'):
            if isinstance(a, bool):
                a = int(a)
            if isinstance(b, bool):
                b = int(b)
            if isinstance(a, int) and isinstance(b, int):
                return {'Lt': a < b, 'Le': a <= b, 'Gt': a > b, 'Ge': a >= b}[op]
            A, C = _iz(a), _iz(b)
            return simp({'Lt': A < C, 'Le': A <= C, 'Gt': A > C, 'Ge': A >= C}[op])
        isb = isinstance(a, bool) or isinstance(b, bool) or (z3.is_expr(a) and z3.is_bool(a))
        if op == 'BitAnd':
            if isb:
                return AND(a, b)
            if isinstance(a, int) and isinstance(b, int):
                return a & b
            if isinstance(a, int):
                a, b = b, a
            if isinstance(b, int) and (b & (b + 1)) == 0:
                return simp(a % (b + 1))
            if isinstance(b, int) and b and (b & (b - 1)) == 0:
                return simp(((a / b) % 2) * b)
            f = uf('bitand', Int, Int, Int)
            r = f(_iz(a), _iz(b))
            self.rng(st, r, k)
            return r
        if op == 'BitOr':
            if isb:
                return OR(a, b)
            if isinstance(a, int) and isinstance(b, int):
                return a | b
            r = uf('bitor', Int, Int, Int)(_iz(a), _iz(b))
            self.rng(st, r, k)
            return r
        if op == 'BitXor':
            if isb:
                return NOT(IFF(a, b))
            if isinstance(a, int) and isinstance(b, int):
                return a ^ b
            r = uf('bitxor', Int, Int, Int)(_iz(a), _iz(b))
            self.rng(st, r, k)
            return r
        if op in ('Shr', 'ShrUnchecked') and isinstance(b, int):
            b %= k.bits
            if isinstance(a, int):
                return a >> b
            return simp(divc(a, 1 << b))
        if op in ('Shl', 'ShlUnchecked') and isinstance(b, int):
            b %= k.bits
            return self.wrap(a << b if isinstance(a, int) else a * (1 << b), k)
        if op in ('Shl', 'Shr') and isinstance(a, int):
            # shift by symbolic amount: case split on the amount
            r = None
            for n in range(k.bits):
                v = self.wrap(a << n, k) if op == 'Shl' else a >> n
                r = _iz(v) if r is None else z3.If(_iz(b) == n, _iz(v), r)
            return r
        if op == 'Div':
            if isinstance(a, int) and isinstance(b, int):
                return a // b if a >= 0 and b > 0 else int(a / b)
            return simp(divc(_iz(a), b)) if isinstance(b, int) and b > 0 else simp(_iz(a) / _iz(b))
        if op == 'Rem':
            if isinstance(a, int) and isinstance(b, int):
                return a % b
            return simp(_iz(a) % _iz(b))
        if op == 'Cmp':
            A, C = _iz(a) if not isinstance(a, bool) else int(a), _iz(b) if not isinstance(b, bool) else int(b)
            if z3.is_expr(A) and z3.is_bool(A):
                A, C = ite(A, 1, 0), ite(C, 1, 0)
            return self.ordering(self.binop(st, 'Lt', A, C, k), ieq(A, C))
        return self.wrap(self.arith(st, op, a, b, k), k)

    def ordering(self, lt, eq):
        """an Ordering value"""
        ty = self.ty('std::cmp::Ordering')
        if is_true(lt):
            return Agg(ty, 0, ())
        if is_false(lt) and (is_true(eq) or is_false(eq)):
            return Agg(ty, 1 if is_true(eq) else 2, ())
        so = self.S.sort(ty)
        L, Q, G = (so.constructor(i)() for i in range(3))
        return Sym(ty, z3.If(lt if z3.is_expr(lt) else z3.BoolVal(lt), L, z3.If(eq if z3.is_expr(eq) else z3.BoolVal(eq), Q, G)))

    def rvalue(self, st, fr, f, r, dty):
        op = r[0]
        if op == 'use':
            return self.operand(st, fr, r[1])
        if op == 'ref':
            return self._refplace(st, fr, r[2])
        if op == 'addr':
            return self._refplace(st, fr, r[1])
        if op == 'bin':
            a, b = self.operand(st, fr, r[2]), self.operand(st, fr, r[3])
            kt = self.operand_ty(f, r[2])
            return self.binop(st, r[1], a, b, self.k(kt) if kt is not None else self.k(dty))
        if op == 'cbin':
            a, b = self.operand(st, fr, r[2]), self.operand(st, fr, r[3])
            k = self.k(self.k(dty).t['e'][0])
            if r[1] in ('Shl', 'Shr'):
                raise Unsupported('checked shift')
            v = self.arith(st, r[1], a, b, k)
            lo, hi = (-(1 << (k.bits - 1)), 1 << (k.bits - 1)) if k.signed else (0, 1 << k.bits)
            if isinstance(v, int):
                ov = not (lo <= v < hi)
            else:
                ov = simp(z3.Or(v < lo, v >= hi))
            # the value is used only when ov is false (MIR asserts it)
            return Agg(dty, 0, (v, ov))
        if op == 'un':
            a = self.operand(st, fr, r[2])
            if r[1] == 'Not':
                if isinstance(a, bool) or (z3.is_expr(a) and z3.is_bool(a)):
                    return NOT(a)
                k = self.k(dty)
                return isub((1 << k.bits) - 1, a)
            if r[1] == 'Neg':
                return isub(0, a)
            if r[1] == 'PtrMetadata':
                return self.vlen(self.deref_all(st, a))
            raise Unsupported('unary ' + r[1])
        if op == 'cast':
            ck = r[1]
            if r[2][0] in ('cp', 'mv') and ('BoxDeref' in ck or ck.startswith('Transmute')):
                # the address inside a box: a reference to the box's place, so that
                # writes through it reach the box
                loc, pr = r[2][1]
                pr = list(pr)
                n = len(pr)
                while pr and pr[-1] != '*' and pr[-1][0] == 'f' and len(pr[-1]) > 2 and self.boxinner(pr[-1][2]):
                    pr.pop()
                if len(pr) < n and self.k(self.place_ty(f, (loc, pr))).k == 'box':
                    v = self._rplace(st, fr, (loc, pr))
                    if isinstance(v, Opq) and v.tag == 'uninitbox':
                        return Ref(v.d, ())
                    return self._refplace(st, fr, (loc, pr))
                if 'BoxDeref' in ck:
                    raise Unsupported('address of the inside of %s' % self.P.ts(self.operand_ty(f, r[2])))
            v = self.operand(st, fr, r[2])
            if ck.startswith('IntToInt'):
                k = self.k(r[3])
                if isinstance(v, bool) or (z3.is_expr(v) and z3.is_bool(v)):
                    return ite(v, 1, 0)
                if isinstance(v, (int,)) or z3.is_expr(v):
                    st_k = self.operand_ty(f, r[2])
                    sk = self.k(st_k) if st_k is not None else None
                    if sk is not None and sk.k == 'int' and not sk.signed and not k.signed and sk.bits <= k.bits:
                        return v
                    return self.wrap(v, k)
            if 'BoxDeref' in ck or ck.startswith(('PointerCoercion', 'PtrToPtr', 'Transmute', 'Subtype')):
                if ck.startswith('Transmute'):
                    a, b = self.operand_ty(f, r[2]), r[3]
                    ka, kb = self.k(a), self.k(b)
                    if not (ka.k == kb.k or self.boxinner(a)):
                        raise Unsupported('transmute %s -> %s of %r' % (self.P.ts(a), self.P.ts(b), v))
                if 'ReifyFnPointer' in ck or 'ClosureFnPointer' in ck:
                    return v
                if isinstance(v, Opq) and v.tag == 'uninitbox':
                    return Ref(v.d, ())
                return v
            raise Unsupported('cast ' + ck)
        if op == 'discr':
            d = self.discr(st, self._rplace(st, fr, r[1]))
            k = self.k(dty)
            if k.k == 'int' and k.signed and k.bits < 64:
                h = 1 << (k.bits - 1)
                return (d + h) % (2 * h) - h if isinstance(d, int) else simp(z3.If(d >= h, d - 2 * h, d))
            return d
        if op == 'len':
            return self.vlen(self._rplace(st, fr, r[1]))
        if op == 'rep':
            v = self.operand(st, fr, r[1])
            n = int(r[2])
            k = self.k(dty)
            if k.k == 'bytes':
                return Bytes([Seg('e', v, 1)] * n) if not isinstance(v, int) else Bytes.const(bytes([v]) * n)
            return VecV(k.e, [v] * n)
        if op == 'arr':
            xs = [self.operand(st, fr, o) for o in r[2]]
            e = r[1]
            if self.k(e).k == 'int' and self.k(e).bits == 8 and not self.k(e).signed:
                return Bytes([Seg('e', conc(x), 1) for x in xs])
            return VecV(e, xs)
        if op == 'tup':
            return Agg(dty, 0, [self.operand(st, fr, o) for o in r[1]])
        if op == 'adt':
            ty, var, ops = r[1], r[2], r[3]
            k = self.k(ty)
            xs = [self.operand(st, fr, o) for o in ops]
            if k.k == 'opaque':
                return ERR
            if k.k in ('bytes', 'int', 'box'):
                return xs[0]
            return Agg(ty, var, xs)
        if op == 'clo':
            return Clo(r[1], [self.operand(st, fr, o) for o in r[2]])
        if op == 'rawptr':
            return self.operand(st, fr, r[2][0])
        raise Unsupported('rvalue ' + op)

    def call_fn(self, st, f, args):
        """execute function instance f; returns list of Ret"""
        name = f['def']
        self.called[name] = self.called.get(name, 0) + 1
        con = self.contracts.get(name)
        if con is not None:
            r = con(self, st, args, f)
            if r is not None:
                return r
        return self.exec_fn(st, f, args)

    def exec_fn(self, st, f, args):
        nl = len(f['locals'])
        base = {}
        for i in range(nl):
            base[i] = next(self.cellc)
        argc = f['argc']
        if f.get('spread') is not None:
            sp = int(f['spread'])
            # last arg is a tuple passed spread
            head = args[:sp - 1]
            tup = Agg(f['locals'][sp], 0, args[sp - 1:])
            args = list(head) + [tup]
        if len(args) != argc:
            raise VerifierBug('arity of %s: %d vs %d' % (f['def'], len(args), argc))
        for i, a in enumerate(args):
            st.cells[base[i + 1]] = a
        out = []
        self.run(f, base, [(st, 0, {})], out)
        for r in out:
            for c in base.values():
                r.st.cells.pop(c, None)
        return out

    def run(self, f, base, work, out, stop=None):
        """worklist execution; stop = (header, body, exits, backs) confines it to a loop"""
        fr = base
        park = {}
        while work or park:
            if not work:
                # paths through one iteration of a loop of known length are joined
                from . import loops as LP
                key = min(park, key=lambda k: (len(LP.loop_info(self, f, k[0])[0]), k[1]))
                g = park.pop(key)
                from .merge import merge_states
                m = merge_states(self, f, fr, [x[0] for x in g])
                work = [(m, key[0], dict(g[0][1]))] if m is not None else [(s, key[0], v) for s, v in g]
                for x in work:
                    x[2]['joined'] = (key[0], x[2].get(key[0], 0))
            st, b, visits = work.pop()
            n = visits.get(b, 0) + 1
            if n > 1 and ('unr', b) in visits and visits.get('joined') != (b, n - 1) and self.known_length(st, f, fr, b):
                if work or (b, n) in park:
                    park.setdefault((b, n), []).append((st, visits))
                    continue
            if n > MAXVISIT:
                raise Unsupported('loop bound in ' + f['def'])
            if stop is not None:
                if b == stop[0] and ('seen', b) in visits:
                    stop[3].append(st)
                    continue
                if b not in stop[1]:
                    visits = {k: v for k, v in visits.items() if k != ('seen', stop[0])}
                    stop[2].append((st, b, visits))
                    continue
            if n > 80 and ('unr', b) in visits:
                self.cut(st)
                continue
            blk = f['blocks'][b]
            visits = dict(visits)
            visits[b] = n
            if stop is not None and b == stop[0]:
                visits[('seen', b)] = 1
            if self.loops:
                hs = self.loop_headers(f)
                if hs:
                    from . import loops as LP
                    for m in [m for m in visits if isinstance(m, tuple) and m[0] == 'unr' and b not in LP.loop_info(self, f, m[1])[0]]:
                        del visits[m]
                    if b in hs and ('unr', b) not in visits:
                        if self.apply_loop(st, f, fr, b, visits, self.loops, out, work):
                            continue
                        visits[('unr', b)] = 1
            try:
                for s in blk['s']:
                    if s[0] == '=':
                        pl = s[1]
                        dty = f['locals'][pl[0]] if not pl[1] else self.place_ty(f, pl)
                        self._wplace(st, fr, pl, self.rvalue(st, fr, f, s[2], dty))
                    elif s[0] == 'sd':
                        raise Unsupported('set discriminant')
                    elif s[0] == 'assume':
                        pass
                    else:
                        raise Unsupported('statement %s' % s[1])
                self.terminator(st, f, fr, blk['t'], visits, out, work, b)
            except Unsupported as e:
                if not getattr(e, 'where', None):
                    e.where = '%s bb%d' % (f['def'], b)
                    e.args = (str(e) + ' [in %s bb%d]' % (f['def'], b),)
                if self.lenient and not self.strict:
                    self.dropped.append(str(e))
                    continue
                raise
            except (z3.Z3Exception, AttributeError, TypeError, KeyError, IndexError, AssertionError, VerifierBug) as e:
                if self.lenient and not self.strict:
                    self.dropped.append('%s: %s' % (type(e).__name__, e))
                    continue
                raise

    def known_length(self, st, f, fr, b):
        from . import loops as LP
        from .coll import ilen
        for l in LP.loop_info(self, f, b)[1]:
            v = LP.as_iter(st.cells.get(fr[l]))
            if v is not None:
                try:
                    return isinstance(ilen(self, st, v), int)
                except Unsupported:
                    return False
        return False

    def loop_headers(self, f):
        h = self.headers.get(f['id'])
        if h is None:
            h = set()
            succ = {}
            for i, b in enumerate(f['blocks']):
                t = b['t']
                s = []
                if t[0] == 'goto':
                    s = [t[1]] if isinstance(t[1], int) else list(t[1])
                elif t[0] == 'switch':
                    s = [x[1] for x in t[2]] + [t[3]]
                elif t[0] == 'call':
                    s = [t[4]] if t[4] is not None else []
                elif t[0] == 'assert':
                    s = [t[4]]
                succ[i] = s
            color = {}
            stack = [(0, iter(succ[0]))]
            color[0] = 1
            while stack:
                n, it = stack[-1]
                for m in it:
                    if color.get(m) == 1:
                        h.add(m)
                    elif m not in color:
                        color[m] = 1
                        stack.append((m, iter(succ[m])))
                        break
                else:
                    color[n] = 2
                    stack.pop()
            self.headers[f['id']] = h
            f['_succ'] = succ
        return h

    def apply_loop(self, st, f, fr, b, visits, specs, out, work):
        from . import loops
        return loops.apply(self, st, f, fr, b, visits, specs, out, work)

    def terminator(self, st, f, fr, t, visits, out, work, b):
        op = t[0]
        if op == 'goto':
            work.append((st, t[1][0] if isinstance(t[1], list) else t[1], visits))
            return
        if op == 'ret':
            out.append(Ret(st, 'ret', st.cells.get(fr[0], UNIT)))
            return
        if op == 'switch':
            v = self.operand(st, fr, t[1])
            rest = st
            isb = isinstance(v, bool) or (z3.is_expr(v) and z3.is_bool(v))
            for val, tgt in t[2]:
                val = int(val)
                if isb:
                    c = NOT(v) if val == 0 else v
                else:
                    if val >= 128:
                        kk = self.k(self.operand_ty(f, t[1]))
                        if kk.k == 'int' and kk.signed and val >= (1 << (kk.bits - 1)):
                            val -= 1 << kk.bits
                    c = ieq(v, val)
                a, rest = self.fork(rest, c)
                if a is not None:
                    work.append((a, tgt, visits))
                if rest is None:
                    break
            if rest is not None:
                if f['blocks'][t[3]]['t'][0] == 'unreach' and not f['blocks'][t[3]]['s']:
                    return
                work.append((rest, t[3], visits))
            return
        if op == 'assert':
            c = self.operand(st, fr, t[1])
            if not t[2]:
                c = NOT(c)
            a, z = self.fork(st, c)
            if z is not None:
                out.append(Ret(z, 'panic', t[3]))
            if a is not None:
                work.append((a, t[4], visits))
            return
        if op == 'call':
            fn = self.operand(st, fr, t[1])
            args = [self.operand(st, fr, o) for o in t[2]]
            dty = f['locals'][t[3][0]] if not t[3][1] else self.place_ty(f, t[3])
            argtys = [self.operand_ty(f, o) for o in t[2]]
            for r in self.invoke(st, fn, args, dty, argtys, f, t[5]):
                if r.k == 'panic':
                    out.append(r)
                    continue
                if t[4] is None:
                    out.append(Ret(r.st, 'panic', 'diverges'))
                    continue
                self._wplace(r.st, fr, t[3], r.v)
                work.append((r.st, t[4], visits))
            return
        if op == 'unreach':
            return
        if op == 'resume' or op == 'abort':
            out.append(Ret(st, 'panic', 'unwind'))
            return
        raise Unsupported('terminator %s' % op)

    def invoke(self, st, fn, args, dty, argtys=None, caller=None, line=None):
        """call a function value; list of Ret"""
        fn = self.deref_all(st, fn)
        if isinstance(fn, Clo):
            return self.call_closure(st, fn, args)
        if not isinstance(fn, FnV):
            raise Unsupported('call of %r' % (fn,))
        F = fn.fn
        c = Call()
        c.fn = F
        c.args = args
        c.argtys = argtys or [None] * len(args)
        c.dest = dty
        c.ga = F.get('ga', [])
        c.name = F.get('def', '').replace('hplprobe::', '')
        c.rname = (F.get('rdef') or '').replace('hplprobe::', '')
        c.line = line
        c.caller = caller
        m = self.models.get(c.name) or self.models.get(c.rname)
        if m is not None:
            r = m(self, st, c)
            if r is not NotImplemented:
                self.models_used.add(c.name)
                return self.wrapres(st, r)
        if F.get('id') is not None and F['id'] in self.P.fns:
            return self.call_fn(st, self.P.fns[F['id']], list(args))
        raise Unsupported('no model for %s (%s)' % (c.name, c.rname))

    def wrapres(self, st, r):
        if isinstance(r, list) and (not r or isinstance(r[0], Ret)):
            return r
        return [Ret(st, 'ret', r)]

    def call_closure(self, st, clo, args, refarg=None):
        """call closure value with positional args (not tupled)"""
        t = self.P.types[clo.ty]
        f = self.P.fns.get(t.get('id'))
        if f is None:
            raise Unsupported('closure body missing: ' + t['name'])
        # first param: closure by value or by ref
        k1 = self.k(f['locals'][1])
        if k1.k == 'ref':
            me = refarg if refarg is not None else self.newcell(st, clo)
        else:
            me = clo
        if f.get('spread') is not None:
            return self.call_fn(st, f, [me] + list(args))
        # closure bodies in MIR take (self, a, b, ...) after untupling
        if f['argc'] == len(args) + 1:
            return self.call_fn(st, f, [me] + list(args))
        if f['argc'] == 2 and len(args) != 1:
            return self.call_fn(st, f, [me, Agg(f['locals'][2], 0, args)])
        raise VerifierBug('closure arity')

    def call_value(self, st, fv, args, dty=None):
        """call closure / fn value; fv may be a reference to a closure"""
        if isinstance(fv, (Ref, ValRef)):
            tgt = self.deref_all(st, fv)
            if isinstance(tgt, Clo):
                r = fv
                while isinstance(r, Ref) and isinstance(self.deref(st, r), (Ref,)):
                    r = self.deref(st, r)
                return self.call_closure(st, tgt, args, refarg=r)
            fv = tgt
        if isinstance(fv, Clo):
            return self.call_closure(st, fv, args)
        if isinstance(fv, Identity):
            return [Ret(st, 'ret', args[0])]
        return self.invoke(st, fv, args, dty)


def _has_var(x):
    # bound variables of lambdas/quantifiers
    st = [x]
    n = 0
    while st:
        y = st.pop()
        if z3.is_var(y):
            return True
        n += 1
        if n > 400:
            return False
        if z3.is_app(y):
            st.extend(y.children())
    return False
