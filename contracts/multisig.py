"""C12 multisig verification, C13 multisig configuration"""
from .common import *
from .table import *
from engine import loops as L
from engine.vm import State
from engine.check import Lemma
from engine.coll import SetV, contains, set_card

MS = 'hpl_ism_multisig::'
VALS = 'std::vec::Vec<cosmwasm_std::hex_binary::HexBinary>'
HEX = 'cosmwasm_std::hex_binary::HexBinary'


class Ghost:
    """the ghost history of a verification: after the first k signatures
         distinct(k)  the set of enrolled validators that signed one of them
         count(k)     how many they are
         readable(k)  a signer could be recovered from each of them"""

    def __init__(self, E, st, key, n, signer, enrolled):
        so = [x.sort() for x in key] + [Int]
        self.key, self.n, self.signer, self.enrolled = key, n, signer, enrolled
        self.SS = z3.ArraySort(B, BoolS)
        self._d = uf('ms_distinct', *(so + [self.SS]))
        self._c = uf('ms_count', *(so + [Int]))
        self._r = uf('ms_readable', *(so + [BoolS]))

    def distinct(self, k):
        return self._d(*self.key, z3.simplify(iz(k)))

    def count(self, k):
        return self._c(*self.key, z3.simplify(iz(k)))

    def readable(self, k):
        return self._r(*self.key, z3.simplify(iz(k)))

    def definition(self, E, ks):
        out = [self.distinct(0) == z3.K(B, z3.BoolVal(False)), self.count(0) == 0, self.readable(0)]
        for k in [0] + list(ks):
            out.append(set_card(self.distinct(k)) == self.count(k))
        for k in ks:
            k = z3.simplify(iz(k))
            if z3.is_int_value(k) and k.as_long() < 0:
                continue
            s2 = State()
            okr, who = self.signer(E, s2, k)
            new = z3.And(zb(self.enrolled(E, s2, who)), z3.Not(z3.Select(self.distinct(k), who.term())))
            out += s2.pc
            out.append(z3.Implies(z3.And(k >= 0, k < iz(self.n)), z3.And(
                self.distinct(k + 1) == z3.If(new, z3.Store(self.distinct(k), who.term(), True), self.distinct(k)),
                self.count(k + 1) == z3.If(new, self.count(k) + 1, self.count(k)),
                self.readable(k + 1) == z3.And(self.readable(k), zb(okr)))))
        return out


def zb(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


class Signatures(L.Template):
    """after k signatures: the set of matched validators is distinct(k), and either count(k) of the threshold have been
    counted down or up"""

    def __init__(self, G, sset, scount, t0, up):
        self.G, self.sset, self.scount, self.t0, self.up = G, sset, scount, t0, up

    def facts(self, E, st, k):
        return self.G.definition(E, [0] if isinstance(k, int) and k == 0 else [k, z3.simplify(iz(k) - 1)])

    def inv(self, E, st, k, goal):
        c_ = self.G.count(k)
        return [c_ >= 0, c_ < iz(self.t0), self.G.readable(k)]

    def values(self, E, st, k):
        slot, ty = self.sset
        out = {slot: SetV(ty, (), self.G.distinct(k))}
        if self.scount is not None:
            out[self.scount] = self.G.count(k) if self.up else isub(self.t0, self.G.count(k))
        return out


def signatures_loop(E, st, L_):
    G = getattr(E, 'sigs', None)
    if G is None or ieq(L_.n, G.n) is not True and not L.prove(E, st, ieq(L_.n, G.n)):
        return None
    sset, cnt = None, None
    for s, (ty, v) in L_.changed.items():
        if ty is None:
            continue
        n = E.P.ts(ty)
        if n.startswith('std::collections::HashSet<') or n.startswith('std::collections::BTreeSet<'):
            if isinstance(v, SetV):
                sset = (s, ty)
        elif n in ('u8', 'u16', 'u32', 'u64', 'usize') and (isinstance(v, int) or z3.is_expr(v)):
            if cnt is not None:
                return None
            cnt = (s, v)
    if sset is None:
        return None
    return Signatures(G, sset, cnt and cnt[0], E.sigs_t0, cnt is not None and isinstance(cnt[1], int) and cnt[1] == 0)


def scene(o_or, E, st, raw_meta, raw_msg, vals, t0):
    """the ghost history for a verification call"""
    m, md = raw_msg, raw_meta
    origin = m.slice(5, 4)
    dh = ksum(origin, md.slice(0, 32), c('HYPERLANE'))
    dig = ksum(dh, md.slice(32, 32), md.slice(64, 4), ksum(m))
    eth = ksum(c('\x19Ethereum Signed Message:\n32'), dig)
    n = z3.simplify((iz(md.len()) - 68) / 65)

    def signer(E, s, k):
        sg = md.slice(68 + 65 * iz(k), 65)
        rs, rid = sg.slice(0, 64), z3.simplify(iz(sg.slice(64, 1).intval()) - 27)
        pk = M.rec_val(eth.term(), rs.term(), rid)
        set_fixedlen(pk, 65)
        return AND(rid >= 0, M.rec_ok(eth.term(), rs.term(), rid)), ksum(Bytes.of(pk).slice(1, 64)).slice(12, 20)
    key = [md.term(), m.term(), E.term(st, vals, E.ty(VALS))]
    return Ghost(E, st, key, n, signer, lambda E, s, w: contains(E, s, vals, w))


def origin_of(m):
    return m.slice(5, 4).intval()


def verify_requires(md, m):
    """builds the ghost history; storage invariant: a stored threshold is positive and reachable (C13)"""
    def req(o):
        E, st = o.E, o.st
        md_, m_ = md(o), m(o)
        d = origin_of(m_)
        v0, t0 = o.map0('validators', 'u32', VALS), o.map0('threshold', 'u32', 'u8')
        vals, t = o.at(v0, d), o.at(t0, d)
        E.sigs = scene(o, E, st, md_, m_, vals, t)
        E.sigs_t0 = t
        return [z3.Implies(zb(o.has(t0, d)), iz(t) >= 1)]
    return req


def verify(md, m, value):
    def body(o):
        E, st = o.E, o.st
        md_, m_ = md(o), m(o)
        d = origin_of(m_)
        v0, t0 = o.map0('validators', 'u32', VALS), o.map0('threshold', 'u32', 'u8')
        G = E.sigs
        n = G.n
        for x in G.definition(E, range(E.unroll + 1)):
            st.add(x)
        hv, ht = o.has(v0, d), o.has(t0, d)
        t = iz(o.at(t0, d))
        long_ = AND(iz(m_.len()) >= 77, iz(md_.len()) >= 68)
        o.post('validators and a threshold are configured for the origin domain', lambda: AND(hv, ht, long_))
        r = lambda: o.get(value(o), 'verified')
        o.post('a verified message carries signatures of as many distinct enrolled validators as the threshold', lambda: IMP(r(), witness(E, st, G, t)))
        o.post('an unverified message does not, and every signature was readable', lambda: IMP(NOT(r()), AND(G.count(n) < t, G.readable(n))))
        o.post('a verification changes nothing', lambda: o.frame())
        o.ensure('it can fail only for want of configuration or on an unreadable signature that comes before the threshold is reached',
                 OR(o.ok, NOT(hv), NOT(ht), NOT(long_), lambda: unreadable(E, st, G, t)))
    return body


def ks_of(E, st, G):
    """the positions the path mentions"""
    out = {}
    def walk(t, seen):
        todo = [t]
        while todo:
            x = todo.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_quantifier(x):
                continue
            if z3.is_app(x) and x.decl().eq(G._c):
                a = x.arg(x.num_args() - 1)
                out[a.get_id()] = a
            todo.extend(x.children())
    seen = set()
    for p in st.pc:
        if z3.is_expr(p):
            walk(p, seen)
    return list(out.values()) + short(E)


def witness(E, st, G, t):
    """some prefix of readable signatures reaches the threshold: one of the positions of the path"""
    return OR(*[AND(k >= 0, k <= iz(G.n), G.readable(k), G.count(k) == t) for k in ks_of(E, st, G)])


def unreadable(E, st, G, t):
    return OR(*[AND(k >= 0, k < iz(G.n), NOT(G.signer(E, State(), k)[0]), G.readable(k), G.count(k) < t) for k in ks_of(E, st, G)])


def lemma_count(E, st):
    """the count never decreases and grows only by a validator not counted before: it is the number of distinct validators"""
    S, w, e, c0, k = z3.Const('S', z3.ArraySort(B, BoolS)), z3.Const('w', B), z3.Bool('enrolled'), z3.Int('c0'), z3.Int('size')
    new = z3.And(e, z3.Not(z3.Select(S, w)))
    S1, c1 = z3.If(new, z3.Store(S, w, True), S), z3.If(new, c0 + 1, c0)
    x = z3.Const('x', B)
    yield 'the count never decreases', [], c1 >= c0
    yield 'members stay members', [z3.Select(S, x)], z3.Select(S1, x)
    yield 'only an enrolled signer is added', [z3.Select(S1, x), z3.Not(z3.Select(S, x))], z3.And(x == w, e)
    yield 'a validator is counted once', [z3.Select(S, w)], z3.And(c1 == c0, S1 == S)


# ------------------------------------------------ C13
ISM = 'hpl_interface::ism::'


def both(o, after=False):
    f = o.map1 if after else o.map0
    return f('validators', 'u32', VALS), f('threshold', 'u32', 'u8')


def len20(o, vals):
    E, st = o.E, o.st
    n = E.vlen(vals)
    i = z3.Int('len20!i')
    if isinstance(n, int):
        return AND(*[ieq(E.deref_all(st, E.vat(st, vals, j)).len(), 20) for j in range(n)])
    return z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < iz(n)), zb(ieq(E.deref_all(st, E.vat(st, vals, i)).len(), 20))))


def set_validators(o):
    E, st = o.E, o.st
    f = lambda n: o.var(o.msg, 'SetValidators', n)
    d, t, vals = f('domain'), f('threshold'), f('validators')
    own = o.item0('owner', A)
    auth = AND(own.present, o.eq(own.val, o.sender))
    wf = AND(iz(t) >= 1, iz(t) <= iz(E.vlen(vals)))
    o.post('only the owner sets validators', lambda: auth)
    o.post('every validator has a 20-byte address', lambda: len20(o, vals))
    o.post('the threshold is positive and can be reached', lambda: wf)
    v1, t1 = both(o, True)
    o.post('exactly these validators are stored', lambda: AND(o.has(v1, d), lambda: o.eq(o.at(v1, d), vals)))
    o.post('exactly this threshold is stored', lambda: AND(o.has(t1, d), ieq(o.at(t1, d), t)))
    o.post('other domains keep their validators', lambda: o.map_frame('validators', d))
    o.post('other domains keep their threshold', lambda: o.map_frame('threshold', d))
    o.post('nothing else changes', lambda: o.frame('validators', 'threshold'))
    o.post('no message is sent', lambda: no_messages(o))
    o.ensure('a well-formed configuration by the owner is accepted', IMP(AND(auth, wf, len20(o, vals)), o.ok))


def unset_domain(o):
    d = o.var(o.msg, 'UnsetDomain', 'domain')
    own = o.item0('owner', A)
    auth = AND(own.present, o.eq(own.val, o.sender))
    v1, t1 = both(o, True)
    o.post('only the owner un-sets a domain', lambda: auth)
    o.post('the domain has no validators any more', lambda: NOT(o.has(v1, d)))
    o.post('the domain has no threshold any more', lambda: NOT(o.has(t1, d)))
    o.post('other domains keep their validators', lambda: o.map_frame('validators', d))
    o.post('other domains keep their threshold', lambda: o.map_frame('threshold', d))
    o.post('nothing else changes', lambda: o.frame('validators', 'threshold'))
    o.post('no message is sent', lambda: no_messages(o))
    o.ensure('the owner can un-set any domain', IMP(auth, o.ok))


def report(domain, resp, long_):
    def body(o):
        d = domain(o)
        v0, t0 = both(o)
        have = AND(o.has(v0, d), o.has(t0, d), long_(o))
        r = lambda: o.parsed(o.value, resp)
        o.post('only a configured domain has an answer', lambda: have)
        o.post('exactly the stored validators', lambda: o.eq(o.get(r(), 'validators'), o.at(v0, d)))
        o.post('exactly the stored threshold', lambda: ieq(o.get(r(), 'threshold'), o.at(t0, d)))
        o.post('a query changes nothing', lambda: o.frame())
        o.ensure('a configured domain has an answer', IMP(have, o.ok))
    return body


def ism_type(variant):
    def body(o):
        o.post('the module reports its kind', lambda: o.isv(typ_of(o), variant))
        o.ensure('the kind can always be asked', o.ok)
    return body


def typ_of(o):
    return o.get(o.parsed(o.value, 'hpl_interface::ism::ModuleTypeResponse'), 'typ')


def contracts(P):
    meta, msg = lambda o: o.arg('raw_metadata'), lambda o: o.arg('raw_message')
    qv = lambda n: (lambda o: o.var(o.var(o.msg, 'Ism'), 'Verify', n))
    ans = lambda o: o.parsed(o.value, ISM + 'VerifyResponse')
    X, Q = MS + 'contract::execute', MS + 'contract::query'
    return [
        Contract('C12', MS + 'query::verify_message', verify(meta, msg, lambda o: o.value), requires=verify_requires(meta, msg), loops=[signatures_loop]),
        Contract('C12', Q, verify(qv('metadata'), qv('message'), ans), requires=verify_requires(qv('metadata'), qv('message')), loops=[signatures_loop], variant=('Ism', 'Verify')),
        Contract('C12', Q, ism_type('MessageIdMultisig'), variant=('Ism', 'ModuleType')),
        Lemma('C12', 'the count is the number of distinct enrolled signers', lemma_count),
        Contract('C13', X, set_validators, variant=('SetValidators',)),
        Contract('C13', X, unset_domain, variant=('UnsetDomain',)),
        Contract('C13', Q, report(lambda o: o.var(o.var(o.msg, 'MultisigIsm'), 'EnrolledValidators', 'domain'), ISM + 'multisig::EnrolledValidatorsResponse', lambda o: True), variant=('MultisigIsm', 'EnrolledValidators')),
        Contract('C13', Q, report(lambda o: origin_of(o.var(o.var(o.msg, 'Ism'), 'VerifyInfo', 'message')), ISM + 'VerifyInfoResponse',
                                  lambda o: iz(o.var(o.var(o.msg, 'Ism'), 'VerifyInfo', 'message').len()) >= 77), variant=('Ism', 'VerifyInfo')),
    ]
