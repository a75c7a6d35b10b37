"""Values, sorts, byte strings and type table of the verifier.

The verifier executes the compiler's MIR of the real functions symbolically.  Values:
  python int / z3 Int        integers (mathematical; ranges are facts, overflow is a MIR assert)
  python bool / z3 Bool      booleans
  Bytes                      every byte-like type: String, &str, [u8], Vec<u8>, [u8;N], Addr,
                             Binary, HexBinary (normalised list of segments)
  Agg                        struct / tuple / enum value with known variant
  Sym                        value of an adt/tuple type given by a z3 datatype term
  VecV                       vector / slice / array of known length
  VecS                       vector of symbolic length, element i given by a python function
  Ref / ValRef               reference to a place / to an immutable value
  Opq                        opaque (errors, events, handles)
"""
import json, re
import z3

z3.set_param('model.completion', False)


class Unsupported(Exception):
    pass


class VerifierBug(Exception):
    pass


# ------------------------------------------------------------------ program
class Prog:
    def __init__(self, path):
        d = json.load(open(path))
        self.types = d['types']
        self.fns = {f['id']: f for f in d['fns']}
        self.byname = {}
        for t in self.types:
            if t['k'] == 'adt':
                t['name'] = t['name'].replace('hplprobe::', '')
                t['s'] = t['s'].replace('hplprobe::', '')
        for f in d['fns']:
            f['def'] = f['def'].replace('hplprobe::', '')
            f['inst'] = f['inst'].replace('hplprobe::', '')
            self.byname.setdefault(f['def'], []).append(f)
        self._ts = {}
        self._kind = {}

    def fn(self, name):
        l = self.byname.get(name, [])
        if not l:
            raise Unsupported('function not found: ' + name)
        return l[0]

    def has_fn(self, name):
        return name in self.byname

    def ts(self, i):
        """canonical type string"""
        r = self._ts.get(i)
        if r is None:
            self._ts[i] = '...'
            r = self._ts[i] = self._tstr(i)
        return r

    def _tstr(self, i):
        t = self.types[i]
        k = t['k']
        if k == 'adt':
            return t['s']
        if k in ('ref', 'ptr'):
            return '&' + self.ts(t['e'])
        if k == 'tuple':
            return '(' + ','.join(self.ts(x) for x in t['e']) + ')'
        if k == 'array':
            return '[%s;%s]' % (self.ts(t['e']), t['n'])
        if k == 'slice':
            return '[%s]' % self.ts(t['e'])
        if k == 'int':
            return ('i' if t['signed'] else 'u') + ('size' if t.get('size') else str(t['bits']))
        if k == 'closure':
            return 'closure:' + t['name']
        if k == 'fndef':
            return 'fn:' + t['f']['def']
        if k == 'dyn':
            return 'dyn ' + str(t.get('name'))
        return k


BYTES_ADTS = {
    'std::string::String', 'cosmwasm_std::hex_binary::HexBinary', 'cosmwasm_std::binary::Binary',
    'cosmwasm_std::addresses::Addr',
}
INT_ADTS = {
    'cosmwasm_std::math::uint128::Uint128': 128,
    'cosmwasm_std::math::uint256::Uint256': 256,
    'cosmwasm_std::math::uint64::Uint64': 64,
    'cosmwasm_std::math::uint512::Uint512': 512,
}
OPAQUE_ADTS = {'cosmwasm_std::results::events::Event', 'cosmwasm_std::results::events::Attribute'}


class TK:
    """classification of a type"""
    __slots__ = ('k', 'e', 'n', 'bits', 'signed', 't', 'id')

    def __init__(self, k, **kw):
        self.k = k
        self.e = self.n = self.bits = self.t = self.id = None
        self.signed = False
        for a, b in kw.items():
            setattr(self, a, b)


def kind(P, i):
    r = P._kind.get(i)
    if r is None:
        r = P._kind[i] = _kind(P, i)
        r.id = i
    return r


def _is_u8(P, i):
    t = P.types[i]
    return t['k'] == 'int' and t['bits'] == 8 and not t['signed']


def _kind(P, i):
    t = P.types[i]
    k = t['k']
    if k == 'int':
        return TK('int', bits=t['bits'], signed=t['signed'], t=t)
    if k == 'bool':
        return TK('bool', t=t)
    if k == 'char':
        return TK('int', bits=32, t=t)
    if k == 'str':
        return TK('bytes', t=t)
    if k == 'never':
        return TK('never', t=t)
    if k in ('array', 'slice'):
        if _is_u8(P, t['e']):
            return TK('bytes', n=int(t['n']) if k == 'array' else None, t=t)
        return TK('vec', e=t['e'], n=int(t['n']) if k == 'array' else None, t=t)
    if k in ('ref', 'ptr'):
        return TK('ref', e=t['e'], t=t)
    if k == 'tuple':
        return TK('tuple', t=t)
    if k in ('fndef', 'fnptr', 'closure', 'dyn'):
        return TK(k, t=t)
    if k == 'adt':
        n = t['name']
        if n in BYTES_ADTS:
            return TK('bytes', t=t)
        if n in INT_ADTS:
            return TK('int', bits=INT_ADTS[n], t=t)
        if n in OPAQUE_ADTS or n.endswith('Error') or '::error::' in n or n.startswith(('schemars::', 'serde_json::', 'semver::')):
            return TK('opaque', t=t)
        if n == 'std::vec::Vec':
            e = t['ga'][0]
            if _is_u8(P, e):
                return TK('bytes', t=t)
            return TK('vec', e=e, t=t)
        if n == 'std::boxed::Box':
            return TK('box', e=t['ga'][0], t=t)
        if n == 'cosmwasm_std::coins::Coins':
            return TK('coins', t=t)
        if n == 'std::collections::HashSet' or n == 'std::collections::BTreeSet':
            return TK('set', e=t['ga'][0], t=t)
        if n == 'std::collections::BTreeMap' or n == 'std::collections::HashMap':
            return TK('bmap', t=t)
        return TK('adt', t=t)
    return TK('other', t=t)


# ------------------------------------------------------------------ sorts
B = z3.DeclareSort('B')
Int = z3.IntSort()
BoolS = z3.BoolSort()
AmtArr = z3.ArraySort(B, Int)          # denom -> amount

_fn_cache = {}


def uf(name, *sorts):
    key = (name,) + tuple(s.get_id() for s in sorts)
    f = _fn_cache.get(key)
    if f is None:
        f = _fn_cache[key] = z3.Function(name, *sorts)
    return f


blen = uf('blen', B, Int)
bcat = uf('bcat', B, B, B)
bslice = uf('bslice', B, Int, Int, B)     # (b, off, len)
bbe = uf('bbe', Int, Int, B)              # (n, value) big-endian
bdec = uf('bdec', B, Int)                 # big-endian value of a byte string
bat = uf('bat', B, Int, Int)
keccak = uf('keccak', B, B)
_bconsts = {}


def bconst(b):
    b = bytes(b)
    c = _bconsts.get(b)
    if c is None:
        c = _bconsts[b] = z3.Const('b!' + b.hex(), B)
    return c


def is_true(x):
    return x is True or (z3.is_expr(x) and z3.is_true(x))


def is_false(x):
    return x is False or (z3.is_expr(x) and z3.is_false(x))


def conc(x):
    """python int/bool if the expression is a numeral, else the expression"""
    if isinstance(x, (int, bool)):
        return x
    if z3.is_int_value(x):
        return x.as_long()
    if z3.is_true(x):
        return True
    if z3.is_false(x):
        return False
    return x


def simp(x):
    if isinstance(x, (int, bool)):
        return x
    return conc(z3.simplify(x))


def AND(*xs):
    l = []
    for x in xs:
        if isinstance(x, (list, tuple)):
            x = AND(*x)
        elif callable(x) and not z3.is_expr(x):
            x = x()
        if is_true(x):
            continue
        if is_false(x):
            return False
        l.append(x)
    if not l:
        return True
    return l[0] if len(l) == 1 else z3.And(*l)


def OR(*xs):
    l = []
    for x in xs:
        if isinstance(x, (list, tuple)):
            x = OR(*x)
        elif callable(x) and not z3.is_expr(x):
            x = x()
        if is_false(x):
            continue
        if is_true(x):
            return True
        l.append(x)
    if not l:
        return False
    return l[0] if len(l) == 1 else z3.Or(*l)


def NOT(x):
    if isinstance(x, bool):
        return not x
    if z3.is_true(x):
        return False
    if z3.is_false(x):
        return True
    if z3.is_not(x):
        return x.arg(0)
    return z3.Not(x)


def IMP(a, b):
    if is_false(a):
        return True
    if callable(b) and not z3.is_expr(b):
        b = b()
    return OR(NOT(a), b)


def IFF(a, b):
    if isinstance(a, bool):
        return b if a else NOT(b)
    if isinstance(b, bool):
        return a if b else NOT(a)
    return a == b


def ieq(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if z3.is_expr(a) and z3.is_expr(b) and a.eq(b):
        return True
    return simp(a == b)


def ite(c, a, b):
    if is_true(c):
        return a
    if is_false(c):
        return b
    if isinstance(a, bool) and isinstance(b, bool) and a == b:
        return a
    if not z3.is_expr(a) and not z3.is_expr(b):
        if isinstance(a, bool):
            return c if a else NOT(c)
    if isinstance(a, bool):
        a = z3.BoolVal(a)
    if isinstance(b, bool):
        b = z3.BoolVal(b)
    if isinstance(a, int):
        a = z3.IntVal(a)
    if isinstance(b, int):
        b = z3.IntVal(b)
    return z3.If(c, a, b)


# ------------------------------------------------------------------ byte strings
class Seg:
    """one segment: kind c (constant bytes), t (term, whole), s (slice of term), e (big-endian int)"""
    __slots__ = ('k', 'a', 'off', 'len')

    def __init__(self, k, a, ln, off=0):
        self.k = k
        self.a = a
        self.len = ln
        self.off = off

    def term(self):
        if self.k == 'c':
            return bconst(self.a)
        if self.k == 't':
            return self.a
        if self.k == 's':
            return bslice(self.a, _iz(self.off), _iz(self.len))
        return bbe(_iz(self.len), _iz(self.a))

    def same(self, o):
        if self.k != o.k:
            return False
        if self.k == 'c':
            return self.a == o.a
        if self.k == 't':
            return self.a.eq(o.a)
        if self.k == 's':
            return self.a.eq(o.a) and _same(self.off, o.off) and _same(self.len, o.len)
        return self.len == o.len and _same(self.a, o.a)

    def __repr__(self):
        if self.k == 'c':
            return repr(self.a)
        if self.k == 't':
            return str(self.a)
        if self.k == 's':
            return '%s[%s+%s]' % (self.a, self.off, self.len)
        return 'be%s(%s)' % (self.len, self.a)


def _iz(x):
    return z3.IntVal(x) if isinstance(x, int) else x


def _same(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if isinstance(a, int) or isinstance(b, int):
        return simp(_iz(a) == _iz(b)) is True
    return a.eq(b) or simp(a == b) is True


def _allzero(t):
    n = t.decl().name()
    return n.startswith('b!') and len(n) > 2 and not n[2:].strip('0')


def _norm(segs):
    out = []
    for s in segs:
        if s.k == 'c' and len(s.a) == 0:
            continue
        if isinstance(s.len, int) and s.len == 0:
            continue
        if s.k == 'e' and isinstance(s.a, int):
            s = Seg('c', (s.a % (1 << (8 * s.len))).to_bytes(s.len, 'big'), s.len)
        if s.k == 'e' and z3.is_expr(s.a) and z3.is_app(s.a) and s.a.decl().eq(bdec):
            # BE_n(bdec(x)) with |x| = n  is x
            x = s.a.arg(0)
            s2 = term_seg(x)
            if isinstance(s2.len, int) and s2.len == s.len:
                s = s2
        if s.k == 's' and not isinstance(s.len, int) and z3.is_app(s.a) and s.a.num_args() == 0 and _allzero(s.a):
            # a run of zero bytes: one representation whatever it was cut from
            s = Seg('s', ZEROS, s.len, 0)
        if s.k == 's' and _same(s.off, 0) and isinstance(s.len, int) is False and s.len.eq(blen(s.a)):
            s = Seg('t', s.a, s.len)
        if s.k == 's' and isinstance(s.off, int) and s.off == 0 and fixedlen(s.a) is not None and _same(s.len, fixedlen(s.a)):
            s = Seg('t', s.a, s.len)
        if out:
            p = out[-1]
            if p.k == 'c' and s.k == 'c':
                out[-1] = Seg('c', p.a + s.a, p.len + s.len)
                continue
            if p.k == 's' and s.k == 's' and p.a.eq(s.a) and _same(iadd(p.off, p.len), s.off):
                out[-1] = Seg('s', p.a, iadd(p.len, s.len), p.off)
                q = out[-1]
                fl = fixedlen(q.a)
                tl = fl if fl is not None else blen(q.a)
                if _same(q.off, 0) and _same(q.len, tl):
                    out[-1] = Seg('t', q.a, tl)
                continue
        out.append(s)
    return tuple(out)


def iadd(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a + b
    return simp(_iz(a) + _iz(b))


def isub(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a - b
    return simp(_iz(a) - _iz(b))


_fixedlen = {}     # ast id -> (term, n)


def set_fixedlen(term, n):
    _fixedlen[term.get_id()] = (term, n)


def fixedlen(term):
    r = _fixedlen.get(term.get_id())
    if r is not None:
        return r[1]
    if z3.is_app(term):
        d = term.decl()
        if d.eq(keccak):
            return 32
        if d.eq(bbe) and z3.is_int_value(term.arg(0)):
            return term.arg(0).as_long()
        if d.eq(bslice) and z3.is_int_value(term.arg(2)):
            return term.arg(2).as_long()
        if d.name() in ('sha256', 'bt32'):
            return 32
        if d.name() in ('ripemd160',):
            return 20
        if term.num_args() == 0 and d.name().startswith('b!'):
            return len(d.name()[2:]) // 2
    return None


def term_seg(t):
    if z3.is_app(t):
        d = t.decl()
        if t.num_args() == 0 and d.name().startswith('b!'):
            b = bytes.fromhex(d.name()[2:])
            return Seg('c', b, len(b))
        if d.eq(bbe) and z3.is_int_value(t.arg(0)):
            return Seg('e', conc(t.arg(1)), t.arg(0).as_long())
        if d.eq(bslice):
            return Seg('s', t.arg(0), conc(t.arg(2)), conc(t.arg(1)))
    n = fixedlen(t)
    return Seg('t', t, n if n is not None else blen(t))


ZEROS = bconst(b'\0' * 64)


class Bytes:
    __slots__ = ('segs', '_term')

    def __init__(self, segs):
        self.segs = _norm(segs)
        self._term = None

    @staticmethod
    def const(b):
        if isinstance(b, str):
            b = b.encode()
        return Bytes((Seg('c', bytes(b), len(b)),))

    @staticmethod
    def of(t):
        if z3.is_app(t) and t.decl().eq(bcat):
            return Bytes(Bytes.of(t.arg(0)).segs + Bytes.of(t.arg(1)).segs)
        return Bytes((term_seg(t),))

    @staticmethod
    def be(n, v):
        return Bytes((Seg('e', conc(v), n),))

    def term(self):
        if self._term is None:
            if not self.segs:
                self._term = bconst(b'')
            else:
                t = self.segs[-1].term()
                for s in reversed(self.segs[:-1]):
                    t = bcat(s.term(), t)
                self._term = t
        return self._term

    def len(self):
        n = 0
        for s in self.segs:
            n = iadd(n, s.len)
        return n

    def is_const(self):
        return all(s.k == 'c' for s in self.segs)

    def const_value(self):
        return b''.join(s.a for s in self.segs)

    def __add__(self, o):
        return Bytes(self.segs + o.segs)

    def slice(self, off, ln):
        """sub-string; offsets assumed in range"""
        off, ln = conc(off), conc(ln)
        if _same(ln, 0):
            return Bytes(())
        if _same(off, 0) and _same(ln, self.len()):
            return self
        out = []
        segs = list(self.segs)
        i = 0
        pos = 0
        # skip whole segments before off
        while i < len(segs):
            end = iadd(pos, segs[i].len)
            if _same(pos, off):
                break
            if isinstance(end, int) and isinstance(off, int):
                if end <= off:
                    pos = end
                    i += 1
                    continue
                break
            if _same(end, off):
                pos = end
                i += 1
                continue
            if _known_ge(off, end):
                pos = end
                i += 1
                continue
            # symbolic: is off - pos a known constant within this segment?
            d = isub(off, pos)
            if isinstance(d, int) and isinstance(segs[i].len, int):
                if d >= segs[i].len:
                    pos = end
                    i += 1
                    continue
                break
            if i == len(segs) - 1:
                break
            if isinstance(d, int) and d >= 0:
                break
            return Bytes((Seg('s', self.term(), ln, off),))
        rem = ln
        cur = off
        while i < len(segs):
            if _same(rem, 0):
                break
            s = segs[i]
            inner = isub(cur, pos)
            avail = isub(s.len, inner)
            take = None
            if isinstance(rem, int) and isinstance(avail, int):
                take = min(rem, avail)
            elif _same(rem, avail):
                take = avail
            elif i == len(segs) - 1:
                take = rem
            elif isinstance(avail, int) and not isinstance(rem, int):
                take = avail          # more segments follow: assume range is valid and spans past
                # only right if rem >= avail; known when rem = k + nonneg-length terms
                if not _known_ge(rem, avail):
                    return Bytes((Seg('s', self.term(), ln, off),))
            else:
                return Bytes((Seg('s', self.term(), ln, off),))
            out.append(_sub(s, inner, take))
            rem = isub(rem, take)
            cur = iadd(cur, take)
            pos = iadd(pos, s.len)
            i += 1
        return Bytes(out)

    def intval(self):
        """big-endian integer value"""
        if not self.segs:
            return 0
        if len(self.segs) == 1:
            s = self.segs[0]
            if s.k == 'c':
                return int.from_bytes(s.a, 'big')
            if s.k == 'e':
                return s.a
            return bdec(s.term())
        v = 0
        for s in self.segs:
            if not isinstance(s.len, int):
                return bdec(self.term())
            x = Bytes((s,)).intval()
            sh = 1 << (8 * s.len)
            v = v * sh + x if not (isinstance(v, int) and v == 0) else x
        return simp(v)

    def byte(self, i):
        b = self.slice(i, 1)
        if len(b.segs) == 1:
            return b.intval()
        return bat(self.term(), _iz(i))

    def __repr__(self):
        return '<' + ' '.join(map(repr, self.segs)) + '>'


def _known_ge(rem, n):
    s = z3.Solver()
    s.set('timeout', 300)
    s.add(_iz(rem) < _iz(n))
    for x in _blens(rem):
        s.add(x >= 0)
    return s.check() == z3.unsat


def _blens(e):
    out = []
    st = [e] if z3.is_expr(e) else []
    while st:
        x = st.pop()
        if z3.is_app(x) and x.decl().eq(blen):
            out.append(x)
        else:
            st.extend(x.children())
    return out


def _sub(s, off, ln):
    if _same(off, 0) and _same(ln, s.len):
        return s
    if s.k == 'c':
        if isinstance(off, int) and isinstance(ln, int):
            return Seg('c', s.a[off:off + ln], ln)
        return Seg('s', bconst(s.a), ln, off)
    if s.k == 't':
        return Seg('s', s.a, ln, off)
    if s.k == 's':
        return Seg('s', s.a, ln, iadd(s.off, off))
    # big endian integer
    if isinstance(off, int) and isinstance(ln, int):
        hi = s.len - off - ln            # bytes to drop at the low end
        v = s.a
        if hi:
            v = simp(_iz(v) / (1 << (8 * hi)))
        if off:
            v = simp(_iz(v) % (1 << (8 * ln)))
        return Seg('e', v, ln)
    return Seg('s', s.term(), ln, off)


def beq(a, b):
    """equality of two Bytes as python bool / z3 Bool"""
    A, C = list(a.segs), list(b.segs)
    conj = []

    def cancel(first):
        while A and C:
            x, y = (A[0], C[0]) if first else (A[-1], C[-1])
            if x.same(y):
                (A.pop(0), C.pop(0)) if first else (A.pop(), C.pop())
                continue
            if isinstance(x.len, int) and isinstance(y.len, int):
                n = min(x.len, y.len)
                if first:
                    xs, ys = _sub(x, 0, n), _sub(y, 0, n)
                else:
                    xs, ys = _sub(x, x.len - n, n), _sub(y, y.len - n, n)
                xn, yn = _norm((xs,))[0], _norm((ys,))[0]
                if not xn.same(yn):
                    if xn.k == 'c' and yn.k == 'c':
                        return False
                    if 'e' in (xn.k, yn.k) or ('c' in (xn.k, yn.k)):
                        if xn.k == 'e' and yn.k in 'ec' or yn.k == 'e' and xn.k in 'ec':
                            r = ieq(Bytes((xn,)).intval(), Bytes((yn,)).intval())
                        else:
                            r = xn.term() == yn.term()
                    else:
                        r = xn.term() == yn.term()
                    if is_false(r):
                        return False
                    conj.append(r)
                # pop / shorten
                for L, s in ((A, x), (C, y)):
                    rest = None
                    if s.len > n:
                        rest = _sub(s, n, s.len - n) if first else _sub(s, 0, s.len - n)
                    if first:
                        L.pop(0)
                        if rest is not None:
                            L.insert(0, rest)
                    else:
                        L.pop()
                        if rest is not None:
                            L.append(rest)
                continue
            break
        return True

    # quick length mismatch
    la, lb = a.len(), b.len()
    if isinstance(la, int) and isinstance(lb, int) and la != lb:
        return False
    if cancel(True) is False or cancel(False) is False:
        return False
    if not A and not C:
        return AND(*conj)
    if not A or not C:
        R = Bytes(A or C)
        return AND(AND(*conj), simp(_iz(R.len()) == 0))
    x, y = Bytes(A), Bytes(C)
    lx, ly = x.len(), y.len()
    # a known minimum length on one side and a shorter fixed length on the other
    if simp(z3.And(_iz(lx) == _iz(ly), *[l >= 0 for l in _blens(lx) + _blens(ly)])) is False:
        return False
    return AND(AND(*conj), x.term() == y.term())


# ------------------------------------------------------------------ other values
class Agg:
    __slots__ = ('ty', 'var', 'f')

    def __init__(self, ty, var, f):
        self.ty = ty
        self.var = var
        self.f = tuple(f)

    def __repr__(self):
        return 'Agg(%s,%s,%s)' % (self.ty, self.var, list(self.f))


class Sym:
    __slots__ = ('ty', 'term')

    def __init__(self, ty, term):
        self.ty = ty
        self.term = term

    def __repr__(self):
        return 'Sym(%s)' % self.term


class Down:
    """enum value viewed as a given variant"""
    __slots__ = ('v', 'var')

    def __init__(self, v, var):
        self.v = v
        self.var = var


class VecV:
    __slots__ = ('e', 'items')

    def __init__(self, e, items):
        self.e = e
        self.items = tuple(items)

    def __repr__(self):
        return 'VecV%s' % (list(self.items),)


class VecS:
    """symbolic-length vector: length (z3 Int), element function (state, index) -> value.
    key identifies it (z3 term of the vector sort, or a tuple)"""
    __slots__ = ('e', 'n', 'at', 'key')

    def __init__(self, e, n, at, key):
        self.e = e
        self.n = n
        self.at = at
        self.key = key

    def __repr__(self):
        return 'VecS(%s)' % (self.key,)


class VecCat:
    """concatenation of vectors (VecV / VecS)"""
    __slots__ = ('e', 'parts')

    def __init__(self, e, parts):
        self.e = e
        self.parts = tuple(parts)


class Coins:
    """cosmwasm Coins: denom -> amount (z3 array, 0 = absent)"""
    __slots__ = ('arr',)

    def __init__(self, arr):
        self.arr = arr


class Ref:
    __slots__ = ('cell', 'path')

    def __init__(self, cell, path=()):
        self.cell = cell
        self.path = path

    def __repr__(self):
        return 'Ref(%s%s)' % (self.cell, self.path)


class ValRef:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return '&' + repr(self.v)


class Opq:
    __slots__ = ('tag', 'd')

    def __init__(self, tag, d=None):
        self.tag = tag
        self.d = d

    def __repr__(self):
        return 'Opq(%s)' % self.tag


class Clo:
    __slots__ = ('ty', 'ups')

    def __init__(self, ty, ups):
        self.ty = ty
        self.ups = tuple(ups)


class FnV:
    __slots__ = ('fn',)

    def __init__(self, fn):
        self.fn = fn


class Identity:
    """the function x -> x"""
    __slots__ = ()


class IterV:
    __slots__ = ('k', 'd')

    def __init__(self, k, d):
        self.k = k
        self.d = d

    def __repr__(self):
        return 'Iter(%s)' % self.k


class MapObj:
    """cw-storage-plus Item / Map object value"""
    __slots__ = ('kind', 'ns')

    def __init__(self, kind, ns):
        self.kind = kind
        self.ns = ns


UNIT = Agg(None, 0, ())
STORAGE, API, QUERIER = Opq('storage'), Opq('api'), Opq('querier')
ERR = Opq('err')


# ------------------------------------------------------------------ sorts of types
class Sorts:
    def __init__(self, P):
        self.P = P
        self.cache = {}
        self.dt = {}

    def sort(self, ty):
        ts = self.P.ts(ty)
        s = self.cache.get(ts)
        if s is None:
            s = self._sort(ty, ts)
            self.cache[ts] = s
        return s

    def _sort(self, ty, ts):
        k = kind(self.P, ty)
        if k.k == 'int':
            return Int
        if k.k == 'bool':
            return BoolS
        if k.k == 'bytes':
            return B
        if k.k in ('ref', 'box'):
            return self.sort(k.e)
        if k.k == 'opaque':
            return self._named('Opaque')
        if k.k == 'coins':
            return AmtArr
        if k.k == 'vec':
            es = self.sort(k.e)
            d = z3.Datatype('Vec<%s>' % es.name() if es.name() != 'Array' else 'Vec<%s>' % es.sexpr())
            key = d.name
            if key in self.dt:
                return self.dt[key]
            d.declare('vec', ('vlen', Int), ('varr', z3.ArraySort(Int, es)))
            r = self.dt[key] = d.create()
            return r
        if k.k == 'tuple':
            return self._datatype(ts, [('t', [(str(i), x) for i, x in enumerate(k.t['e'])])])
        if k.k == 'adt':
            return self._datatype(ts, [(v['n'], v['f']) for v in k.t['v']])
        if k.k in ('fndef', 'closure', 'fnptr', 'dyn', 'other', 'never', 'set', 'bmap'):
            raise Unsupported('no sort for ' + ts)
        raise Unsupported('no sort for ' + ts)

    def _named(self, n):
        if n not in self.dt:
            self.dt[n] = z3.DeclareSort(n)
        return self.dt[n]

    def _datatype(self, ts, variants):
        if ts in self.dt:
            if self.dt[ts] is None:
                raise Unsupported('recursive type ' + ts)
            return self.dt[ts]
        self.dt[ts] = None
        d = z3.Datatype(ts)
        vs = []
        for n, fs in variants:
            vs.append((n, [(fn, self.sort(ft)) for fn, ft in fs]))
        for n, fs in vs:
            d.declare('%s::%s' % (ts, n), *[('%s::%s.%s' % (ts, n, fn), s) for fn, s in fs])
        if not vs:
            d.declare('%s::!' % ts)
        r = self.dt[ts] = d.create()
        return r
