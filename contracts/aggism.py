"""C14 the aggregate module"""
from .common import *
from .table import *
from .multisig import zb, typ_of, ism_type
from .lifecycle import stored
from engine.vm import State
from engine import loops as L
from engine.coll import ord_n, ord_src, ord_facts, ord_defs
from engine.more import rank

AG = 'hpl_ism_aggregate::'
ADDRS = 'std::vec::Vec<%s>' % A
ISM = 'hpl_interface::ism::'


class Tally:
    """the ghost history of a verification: the distinct configured modules are asked in address order; after the first k
         accepted(k)  how many of them accepted
         answered(k)  each of them answered"""

    def __init__(self, key, n, ask):
        so = [x.sort() for x in key] + [Int]
        self.key, self.n, self.ask = key, n, ask
        self._c, self._r = uf('ag_accepted', *(so + [Int])), uf('ag_answered', *(so + [BoolS]))

    def count(self, k):
        return self._c(*self.key, z3.simplify(iz(k)))

    def clear(self, k):
        return self._r(*self.key, z3.simplify(iz(k)))

    def definition(self, E, ks):
        out = [self.count(0) == 0, self.clear(0)]
        for k in ks:
            k = z3.simplify(iz(k))
            if z3.is_int_value(k) and k.as_long() < 0:
                continue
            s2 = State()
            answered, yes = self.ask(s2, k)
            out += s2.pc
            out.append(z3.Implies(z3.And(k >= 0, k < iz(self.n)), z3.And(
                self.count(k + 1) == self.count(k) + z3.If(z3.And(zb(answered), zb(yes)), 1, 0),
                self.clear(k + 1) == z3.And(self.clear(k), zb(answered)))))
        return out


class Asked(L.Template):
    def __init__(self, G, slot, t0, up):
        self.G, self.slot, self.t0, self.up = G, slot, t0, up

    def facts(self, E, st, k):
        return self.G.definition(E, [0] if isinstance(k, int) and k == 0 else [k, z3.simplify(iz(k) - 1)])

    def inv(self, E, st, k, goal):
        c_ = self.G.count(k)
        return [c_ >= 0, c_ < iz(self.t0), self.G.clear(k)]

    def values(self, E, st, k):
        return {self.slot: self.G.count(k) if self.up else isub(self.t0, self.G.count(k))}


def modules_loop(E, st, L_):
    G = getattr(E, 'tally', None)
    if G is None or not L.prove(E, st, ieq(L_.n, G.n)):
        return None
    cnt = None
    for s, (ty, v) in L_.changed.items():
        if ty is not None and E.P.ts(ty) in ('u8', 'u16', 'u32', 'u64', 'usize') and (isinstance(v, int) or z3.is_expr(v)):
            if cnt is not None:
                return None
            cnt = (s, v)
    if cnt is None:
        return None
    return Asked(G, cnt[0], E.tally_t0, isinstance(cnt[1], int) and cnt[1] == 0)


def entry(md, i):
    """(readable, bytes) of the metadata entry of the module at position i of the configuration"""
    i = iz(i)
    a, b = md.slice(8 * i, 4).intval(), md.slice(8 * i + 4, 4).intval()
    a, b = iz(a), iz(b)
    return AND(8 * i + 8 <= iz(md.len()), a <= b, b <= iz(md.len())), md.slice(a, b - a)


def arr_of(E, st, isms):
    i = z3.Int('ord!i')
    t = z3.simplify(E.deref_all(st, E.vat(st, isms, i)).term())
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SELECT and t.arg(1).eq(i):
        return t.arg(0)
    return z3.Lambda([i], t)


def conf(o):
    return o.item0('isms', ADDRS), o.item0('threshold', 'u8')


def verify_requires(md, m):
    def req(o):
        E, st = o.E, o.st
        i0, t0 = conf(o)
        md_, m_ = md(o), m(o)
        arr, n = arr_of(E, st, i0.val), iz(E.vlen(i0.val))

        def ask(s, k):
            for f in ord_facts(arr, n, k):
                s.add(f)
            src = ord_src(arr, n, k)
            a = E.deref_all(s, E.vat(s, i0.val, z3.simplify(src)))
            okq, yes = ism_verify(o, a, entry(md_, src)[1], m_)
            return okq, yes()
        E.tally = Tally([md_.term(), m_.term(), arr, n], ord_n(arr, n), ask)
        E.tally_t0 = t0.val
        E.tally_isms = (arr, n)
        st.add(ord_n(arr, n) >= 0)
        # a stored threshold is positive (established by instantiate and SetIsms, kept by everything else: below); no
        # allocation exceeds isize::MAX bytes, 24 per address
        return [z3.Implies(zb(t0.present), iz(t0.val) >= 1), n < 2 ** 58]
    return req


def positions(st, decl, names=()):
    """the positions the path mentions: last arguments of decl, and the named constants"""
    out, seen = {}, set()
    todo = [p for p in st.pc if z3.is_expr(p)]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            continue
        if decl is not None and z3.is_app(x) and x.decl().eq(decl):
            a = x.arg(x.num_args() - 1)
            out[a.get_id()] = a
        elif z3.is_const(x) and x.sort().eq(Int) and any(x.decl().name().startswith(n) for n in names):
            out[x.get_id()] = x
        todo.extend(x.children())
    return list(out.values())


def verify(md, m, value):
    def body(o):
        E, st = o.E, o.st
        G = E.tally
        md_ = md(o)
        i0, t0 = conf(o)
        t = iz(t0.val)
        for x in G.definition(E, range(E.unroll + 1)):
            st.add(x)
        if E.cuts:
            for x in ord_defs(*E.tally_isms, range(E.unroll + 1), rank):
                st.add(x)
        o.post('modules and a threshold are configured', lambda: AND(i0.present, t0.present))
        r = lambda: o.get(value(o), 'verified')
        ks = positions(st, G._c) + short(E)
        o.post('a verified message was accepted by as many modules as the threshold, each asked about its own entry',
               lambda: IMP(r(), OR(*[AND(k >= 0, k <= G.n, G.clear(k), G.count(k) == t) for k in ks])))
        o.post('an unverified message was accepted by fewer, and every module answered', lambda: IMP(NOT(r()), AND(G.count(G.n) < t, G.clear(G.n))))
        o.post('a verification changes nothing', lambda: o.frame())
        arr, n = E.tally_isms
        w = positions(st, None, ('wit',)) + [z3.IntVal(i) for i in range(E.unroll + 1)]
        o.ensure('it can fail only for want of configuration, on an unreadable entry, or on a module that does not answer before the threshold is reached',
                 OR(o.ok, NOT(i0.present), NOT(t0.present),
                    lambda: OR(*[AND(k >= 0, k < n, NOT(entry(md_, k)[0])) for k in w]),
                    lambda: OR(*[AND(k >= 0, k < G.n, G.clear(k), G.count(k) < t, NOT(G.ask(State(), k)[0])) for k in ks])))
    return body


def range_ok(n, t):
    return AND(iz(t) >= 1, iz(t) <= iz(n))


def valid_list(o, v):
    E, st = o.E, o.st
    n = E.vlen(v)
    if isinstance(n, int):
        return AND(*[valid(E.deref_all(st, E.vat(st, v, j))) for j in range(n)])
    i = z3.Int('valid!i')
    return z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < iz(n)), zb(valid(E.deref_all(st, E.vat(st, v, i))))))


def set_isms(o):
    f = lambda n: o.var(o.msg, 'SetIsms', n)
    isms, t = f('isms'), f('threshold')
    own = o.item0('owner', A)
    auth = AND(own.present, o.eq(own.val, o.sender))
    rng = range_ok(o.E.vlen(isms), t)
    o.post('only the owner sets the modules', lambda: auth)
    o.post('the threshold is between one and the number of modules', lambda: rng)
    stores(o, isms, t)
    o.post('nothing else changes', lambda: o.frame('isms', 'threshold'))
    o.ensure('a well-formed configuration by the owner is accepted', IMP(AND(auth, rng, valid_list(o, isms)), o.ok))


def stores(o, isms, t):
    i1, t1 = o.item1('isms', ADDRS), o.item1('threshold', 'u8')
    o.post('every module is a valid address', lambda: valid_list(o, isms))
    o.post('exactly these modules are stored', lambda: AND(i1.present, lambda: same_list(o, i1.val, isms)))
    o.post('exactly this threshold is stored', lambda: AND(t1.present, ieq(t1.val, t)))
    o.post('no message is sent', lambda: no_messages(o))


def same_list(o, a, b):
    E, st = o.E, o.st
    n, m = E.vlen(a), E.vlen(b)
    i = E.fresh('anyix', Int)
    return AND(ieq(n, m), IMP(z3.And(i >= 0, i < iz(n)), lambda: o.eq(E.deref_all(st, E.vat(st, a, i)), E.deref_all(st, E.vat(st, b, i)))))


def init(o):
    isms, t = o.get(o.msg, 'isms'), o.get(o.msg, 'threshold')
    o.post('the threshold is between one and the number of modules', lambda: range_ok(o.E.vlen(isms), t))
    stores(o, isms, t)
    o.ensure('a well-formed configuration is accepted', IMP(AND(range_ok(o.E.vlen(isms), t), valid_list(o, isms), valid(o.get(o.msg, 'owner')), NOT(o.item0('owner', A).present)), o.ok))


def q_isms(o):
    i0, t0 = conf(o)
    r = lambda: o.parsed(o.value, ISM + 'aggregate::IsmsResponse')
    o.post('exactly the stored modules', lambda: AND(i0.present, same_list(o, o.get(r(), 'isms'), i0.val)))
    o.post('exactly the stored threshold', lambda: AND(t0.present, ieq(o.get(r(), 'threshold'), t0.val)))
    o.post('a query changes nothing', lambda: o.frame())
    o.ensure('an instantiated module answers', IMP(AND(i0.present, t0.present), o.ok))


def q_info(o):
    E, st = o.E, o.st
    i0, t0 = conf(o)
    r = lambda: o.parsed(o.value, ISM + 'VerifyInfoResponse')

    def vals():
        v = o.get(r(), 'validators')
        i = E.fresh('anyix', Int)
        at = lambda x: E.deref_all(st, E.vat(st, x, i))
        return AND(ieq(E.vlen(v), E.vlen(i0.val)), IMP(z3.And(i >= 0, i < iz(E.vlen(v))), lambda: beq(at(v), b32data(at(i0.val)))))
    o.post('the modules in raw form, in order', lambda: AND(i0.present, vals()))
    o.post('exactly the stored threshold', lambda: AND(t0.present, ieq(o.get(r(), 'threshold'), t0.val)))
    o.post('a query changes nothing', lambda: o.frame())


def others(o):
    """operations that are not configuration leave the configuration alone"""
    o.post('the configuration is unchanged', lambda: o.unchanged('isms', 'threshold'))


def contracts(P):
    X, Q = AG + 'execute', AG + 'query'
    qv = lambda n: (lambda o: o.var(o.var(o.msg, 'Ism'), 'Verify', n))
    ar = lambda n: (lambda o: o.arg(n))
    ans = lambda o: o.parsed(o.value, ISM + 'VerifyResponse')
    out = [
        Contract('C14', AG + 'verify', verify(ar('metadata'), ar('message'), lambda o: o.value), requires=verify_requires(ar('metadata'), ar('message')), loops=[modules_loop]),
        Contract('C14', Q, verify(qv('metadata'), qv('message'), ans), requires=verify_requires(qv('metadata'), qv('message')), loops=[modules_loop], variant=('Ism', 'Verify')),
        Contract('C14', Q, ism_type('Aggregation'), variant=('Ism', 'ModuleType')),
        Contract('C14', Q, q_info, variant=('Ism', 'VerifyInfo')),
        Contract('C14', Q, q_isms, variant=('AggregateIsm', 'Isms')),
        Contract('C14', X, set_isms, variant=('SetIsms',)),
        Contract('C14', AG + 'instantiate', init),
        Contract('C14', AG + 'migrate', others),
    ]
    for v in msg_variants(P, X):
        if v[0] == 'Ownable':
            out.append(Contract('C14', X, others, variant=v))
    return out
