"""C08: the encoding of an aggregate-module metadata, for any number of modules"""
from .common import *
from engine import loops as L, coll as C
from engine.coll import BMapS, ord_n
from engine.vm import State
from engine.check import Lemma
from engine.core import uf
from .aggism import entry, zb

I = 'hpl_interface::'
META = I + 'types::AggregateMetadata'
FN = I + 'types::metadata::<impl std::convert::From<%s> for cosmwasm_std::hex_binary::HexBinary>::from' % META
SO = [B, Int]


class Parts:
    """ghost functions of the position k (of the n modules in address order):
         offset(k)   bytes of the metadata of the modules before k
         table(k)    the first k rows of the position table
         data(k)     the metadata of the first k modules, joined"""

    def __init__(self, n, meta):
        self.n, self.meta = n, meta
        self._o, self._t, self._d = uf('ae_offset', Int, Int), uf('ae_table', Int, B), uf('ae_data', Int, B)

    def offset(self, k):
        return self._o(z3.simplify(iz(k)))

    def start(self, k):
        return 8 * iz(self.n) + self.offset(k)

    def table(self, k):
        return Bytes.of(self._t(z3.simplify(iz(k))))

    def data(self, k):
        return Bytes.of(self._d(z3.simplify(iz(k))))

    def row(self, k):
        return be(8, self.start(k)).slice(4, 4) + be(8, self.start(iz(k) + 1)).slice(4, 4)

    def definition(self, ks):
        out = [self.offset(0) == 0, self.table(0).len() == 0, self.data(0).len() == 0]
        # an encoding whose positions do not fit four bytes cannot be expressed: the requirement of the contract
        out += [self.offset(self.n) >= 0, self.start(self.n) < 2 ** 32]
        for k in ks:
            k = z3.simplify(iz(k))
            if z3.is_int_value(k) and k.as_long() < 0:
                continue
            s2 = State()
            m = self.meta(s2, k)
            row = self.row(k)
            out += s2.pc
            out.append(z3.Implies(z3.And(k >= 0, k < self.n), z3.And(
                self.offset(k + 1) == self.offset(k) + iz(m.len()), self.offset(k + 1) <= self.offset(self.n),
                self.table(k + 1).term() == (self.table(k) + row).term(), self.data(k + 1).term() == (self.data(k) + m).term())))
            # lemma: lengths
            out.append(z3.Implies(z3.And(k >= 0, k <= self.n), z3.And(self.offset(k) >= 0, self.offset(k) <= self.offset(self.n),
                                                                        iz(self.table(k).len()) == 8 * k, iz(self.data(k).len()) == self.offset(k))))
        return [zb(x) for x in out]


class Rows(L.Template):
    """the fold has listed the first k ranges"""

    def __init__(self, G, slot, e):
        self.G, self.slot, self.e = G, slot, e

    def facts(self, E, st, k):
        return self.G.definition([0] if isinstance(k, int) and k == 0 else [k, z3.simplify(iz(k) - 1)])

    def values(self, E, st, k):
        G, e = self.G, self.e

        def at(s, j):
            for f in G.definition([iz(j)]):
                s.add(f)
            return Agg(e, 0, [G.start(j), z3.simplify(G.start(iz(j) + 1)), G.meta(s, iz(j))])
        return {self.slot: VecS(e, k, at, None)}


class Joined(L.Template):
    def __init__(self, G, pos, data):
        self.G, self.pos, self.data = G, pos, data

    def facts(self, E, st, k):
        return self.G.definition([0] if isinstance(k, int) and k == 0 else [k, z3.simplify(iz(k) - 1)])

    def values(self, E, st, k):
        return {self.pos: self.G.table(k), self.data: self.G.data(k)}


def rows_loop(E, st, L_):
    for s, (ty, v) in L_.changed.items():
        if ty is not None and E.k(ty).k == 'vec' and isinstance(v, (VecV, VecS)):
            return Rows(E.ae, s, E.k(ty).e)
    return None


def joined(flip):
    def f(E, st, L_):
        l = [s for s, (ty, v) in L_.changed.items() if isinstance(v, Bytes) or isinstance(v, VecV) and not v.items]
        if len(l) != 2 or not L.prove(E, st, ieq(L_.n, E.ae.n)):
            return None
        return Joined(E.ae, *(l[::-1] if flip else l))
    f.__name__ = 'rows and data joined'
    return f


def scene(E, st, ty):
    bt = E.variants(ty)[0]['f'][0][1]
    ga = E.k(bt).t['ga']
    vt = z3.Const('orig!entries', E.S.sort(E.ty('std::vec::Vec<(cosmwasm_std::addresses::Addr, cosmwasm_std::hex_binary::HexBinary)>')))
    v = E.from_term(st, E.ty('std::vec::Vec<(cosmwasm_std::addresses::Addr, cosmwasm_std::hex_binary::HexBinary)>'), vt)
    m = C.bmap_of_seq(E, st, bt, v)
    n = z3.simplify(iz(m.len()))
    st.add(n >= 0)
    return m, n


def arguments(E, st, over):
    ty = E.ty(META)
    m, n = scene(E, st, ty)
    E.ae = Parts(n, lambda s, k: E.deref_all(s, m.at(E, s, k).f[1]))
    for f in E.ae.definition([0, n]):
        st.add(f)
    over['v'] = Agg(ty, 0, [m])


def body(o):
    G = o.E.ae
    n = G.n
    o.ensure('it answers for every metadata whose positions fit four bytes', o.k == 'ret')
    if o.k != 'ret':
        return
    for f in G.definition((list(range(o.E.unroll + 2)) if o.E.cuts else []) + [n]):
        o.st.add(f)
    clause = 'the position table, then the metadata of every module in address order'
    if not o.E.cuts:
        o.ensure(clause, beq(o.v, G.table(n) + G.data(n)))
        return
    # a path of the bounded fallback: the number of modules is one of these, and the layout is spelled out
    cs = []
    for c in range(o.E.unroll + 2):
        rows = data = Bytes.const(b'')
        for k in range(c):
            rows, data = rows + G.row(k), data + G.meta(o.st, z3.IntVal(k))
        cs.append(IMP(iz(n) == c, beq(o.v, rows + data)))
    o.ensure(clause, AND(*cs))


def lemma(E, st):
    """the entry of module i of the encoding is the metadata of module i.  By induction over k in i+1..=n:
       table(k) = table(i) . row(i) . some rest, and data(k) = data(i) . metadata(i) . some rest"""
    k, n, i = z3.Int('lem!k'), z3.Int('lem!n'), z3.Int('lem!i')
    meta = uf('lem_meta', Int, B)
    G = Parts(n, lambda s, j: Bytes.of(meta(z3.simplify(iz(j)))))
    m = lambda j: Bytes.of(meta(j))
    tr, dr = Bytes.of(z3.Const('lem!table_rest', B)), Bytes.of(z3.Const('lem!data_rest', B))

    def step(j):  # the definition of the ghost functions at j
        return [beq(G.table(j + 1), G.table(j) + G.row(j)), beq(G.data(j + 1), G.data(j) + m(j)), G.offset(j + 1) == G.offset(j) + iz(m(j).len()), iz(m(j).len()) >= 0]

    def sizes(j):
        return [G.offset(j) >= 0, iz(G.table(j).len()) == 8 * j, iz(G.data(j).len()) == G.offset(j)]
    start = [G.offset(0) == 0, G.table(0).len() == 0, G.data(0).len() == 0]
    rng = [n >= 0, k >= 0, k < n, i >= 0, i < n]
    yield 'sizes: at the first module', start, AND(*sizes(z3.IntVal(0)))
    yield 'sizes: at the next module', rng + step(k) + sizes(k), AND(*[zb(x) for x in sizes(k + 1)])
    yield 'positions grow', rng + step(k), G.offset(k + 1) >= G.offset(k)
    yield 'a row is at its place when it is written', rng + step(i), AND(beq(G.table(i + 1), G.table(i) + G.row(i)), beq(G.data(i + 1), G.data(i) + m(i)))
    # rewriting with the induction hypothesis, table(k) and data(k) are
    T, D = G.table(i) + G.row(i) + tr, G.data(i) + m(i) + dr
    yield 'and stays there', rng, AND(beq(T + G.row(k), G.table(i) + G.row(i) + (tr + G.row(k))), beq(D + m(k), G.data(i) + m(i) + (dr + m(k))))
    # and so are table(n) and data(n)
    fin = rng + sizes(i) + step(i) + [iz(T.len()) == 8 * n, iz(D.len()) == G.offset(n), G.offset(i + 1) <= G.offset(n), G.start(n) < 2 ** 32]
    enc = T + D
    at, to = G.table(i).len(), (T + G.data(i)).len()
    yield 'row i is at 8 i', fin, AND(ieq(at, 8 * i), beq(enc.slice(at, 8), G.row(i)))
    a, b = G.row(i).slice(0, 4), G.row(i).slice(4, 4)
    yield 'it reads as the range of module i', fin, AND(ieq(a.intval(), G.start(i)), ieq(b.intval(), G.start(i + 1)), ieq(G.start(i + 1), G.start(i) + iz(m(i).len())))
    yield 'that range holds the metadata of module i', fin, AND(ieq(to, G.start(i)), beq(enc.slice(to, m(i).len()), m(i)))


def contracts(P):
    if not P.has_fn(FN):
        return []
    return [Contract('C08', FN, body, args=arguments, reach=(), loops=[rows_loop, joined(False), joined(True)]),
            Lemma('C08', 'the encoding of an aggregate metadata holds every entry at its place', lemma)]
