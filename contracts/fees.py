"""C18 the aggregate hook, C19 the fee hook"""
from .common import *
from .table import *
from .aggism import valid_list, same_list, positions
from .routing import owner_is_sender, unrestricted, carries, hooks_kept
from .router import zb
from engine.vm import State
from engine import loops as L

AH, FH = 'hpl_hook_aggregate::', 'hpl_hook_fee::'
ADDRS = 'std::vec::Vec<%s>' % A
COIN = 'cosmwasm_std::coin::Coin'
MAX = 2 ** 128


# ------------------------------------------------ C18
def hooks0(o):
    return o.item0('hooks', ADDRS)


def nth(o, v, i):
    return o.E.deref_all(o.st, o.E.vat(o.st, v, i))


def agg_post(o):
    E, st = o.E, o.st
    pd = o.var(o.msg, 'PostDispatch')
    md, m = o.get(pd, 'metadata'), o.get(pd, 'message')
    h = hooks0(o)
    n = E.vlen(h.val)
    o.post('the hooks are configured', lambda: h.present)
    o.post('one message per hook', lambda: ieq(E.vlen(o.messages), n))
    i = E.fresh('anyix', Int)
    inr = z3.And(i >= 0, i < iz(n))

    def nth_msg():
        return E.deref_all(st, E.vat(st, o.messages, i))
    o.post('message i calls hook i with exactly the metadata and message', lambda: IMP(inr, lambda: is_exec(o, nth_msg(), nth(o, h.val, i), post_dispatch_msg(o, md, m))))
    o.post('message i carries exactly the fee hook i quotes for them', lambda: IMP(inr, lambda: quoted(o, nth(o, h.val, i), md, m, lambda fees: carries(o, nth_msg(), o.S.amt(fees)))))
    o.post('every hook must succeed', lambda: IMP(inr, lambda: no_reply(o, nth_msg())))
    o.post('nothing changes', lambda: o.frame())
    w = positions(st, None, ('wit',)) + [z3.IntVal(k) for k in range(E.unroll + 1)]
    o.ensure('it can fail only when a hook does not quote', OR(o.ok, NOT(h.present), iz(m.len()) < 77, lambda: OR(*[AND(k >= 0, k < iz(n), NOT(hook_quote(o, nth(o, h.val, k), md, m)[0])) for k in w])))


def quoted(o, hook, md, m, f):
    okq, fees = hook_quote(o, hook, md, m)
    return AND(okq, lambda: f(fees()))


class Totals:
    """total(k): amount per denomination of the fees the first k hooks quote"""

    def __init__(self, key, n, fees):
        self.key, self.n, self.fees = key, n, fees
        self._t = uf('agg_total', *([x.sort() for x in key] + [Int, AmtArr]))

    def at(self, k):
        return self._t(*self.key, z3.simplify(iz(k)))

    def definition(self, E, ks):
        out = [self.at(0) == M.zero_amt]
        d = z3.Const('tot!d', B)
        for k in ks:
            k = z3.simplify(iz(k))
            if z3.is_int_value(k) and k.as_long() < 0:
                continue
            s2 = State()
            f = self.fees(s2, k)
            out += s2.pc
            out.append(z3.Implies(z3.And(k >= 0, k < iz(self.n)), self.at(z3.simplify(k + 1)) == z3.Lambda([d], z3.Select(self.at(k), d) + z3.Select(f, d))))
        return out


class Summed(L.Template):
    def __init__(self, G, slot):
        self.G, self.slot = G, slot

    def facts(self, E, st, k):
        return self.G.definition(E, [0] if isinstance(k, int) and k == 0 else [k, z3.simplify(iz(k) - 1)])

    def inv(self, E, st, k, goal):
        if goal:
            d = E.fresh('gd', B)
            st.add(z3.Select(self.G.at(z3.simplify(iz(k) - 1) if not (isinstance(k, int) and k == 0) else 0), d) >= 0)
            return [z3.Select(self.G.at(k), d) >= 0]
        d = z3.Const('inv!d', B)
        return [z3.ForAll([d], z3.Select(self.G.at(k), d) >= 0, patterns=[z3.Select(self.G.at(k), d)])]

    def values(self, E, st, k):
        return {self.slot: Coins(self.G.at(k))}


def hooks_loop(E, st, L_):
    G = getattr(E, 'totals', None)
    if G is None or not L.prove(E, st, ieq(L_.n, G.n)):
        return None
    slot = L_.slot_of_type('cosmwasm_std::coins::Coins')
    return None if slot is None else Summed(G, slot)


def agg_requires(o):
    E, st = o.E, o.st
    q = o.var(o.var(o.msg, 'Hook'), 'QuoteDispatch')
    md, m = o.get(q, 'metadata'), o.get(q, 'message')
    h = hooks0(o)

    def fees(s, k):
        okq, f = hook_quote(o, E.deref_all(s, E.vat(s, h.val, k)), md, m)
        return o.S.amt(f())
    E.totals = Totals([md.term(), m.term(), E.term(st, h.val, E.ty(ADDRS))], E.vlen(h.val), fees)
    return []


def agg_quote(o):
    E, st = o.E, o.st
    h = hooks0(o)
    G = E.totals
    for x in G.definition(E, range(E.unroll + 1)):
        st.add(x)
    q = o.var(o.var(o.msg, 'Hook'), 'QuoteDispatch')
    md, m = o.get(q, 'metadata'), o.get(q, 'message')
    o.post('the hooks are configured', lambda: h.present)
    o.post('the quote is the sum of the quotes of all hooks, per denomination',
           lambda: funds_are(o, o.get(o.parsed(o.value, 'hpl_interface::hook::QuoteDispatchResponse'), 'fees'), G.at(G.n)))
    o.post('a query changes nothing', lambda: o.frame())
    ks = positions(st, G._t) + short(E)

    def too_much():
        d = z3.Const('big!d', B)
        pre = prefix_terms(st)
        pairs = [(k, p) for k in ks for p in pre]
        for k in short(E):
            tot = z3.simplify(G.fees(State(), k))
            if tot.decl().name() == 'vec_amt':
                pairs += [(k, uf('coins_prefix', tot.arg(0).sort(), Int, AmtArr)(tot.arg(0), j)) for j in short(E)]
        return z3.Or(*[z3.Exists([d], z3.And(k >= 0, k < iz(G.n), z3.Select(G.at(k), d) + z3.Select(p, d) >= MAX)) for k, p in pairs]) if pairs else False
    o.ensure('it can fail only when a hook does not quote or a sum is not an amount', OR(o.ok, NOT(h.present),
             lambda: OR(*[AND(k >= 0, k < iz(G.n), NOT(hook_quote(o, nth(o, h.val, k), md, m)[0])) for k in ks]), too_much))


def prefix_terms(st):
    out, seen = {}, set()
    todo = [p for p in st.pc if z3.is_expr(p)]
    while todo:
        x = todo.pop()
        if x.get_id() in seen or z3.is_quantifier(x):
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().name() == 'coins_prefix' or z3.is_app(x) and x.decl().name() == 'vec_amt':
            out[x.get_id()] = x
        todo.extend(x.children())
    return list(out.values())


def set_hooks(o):
    v = o.var(o.msg, 'SetHooks', 'hooks')
    o.post('only the owner sets the hooks', lambda: owner_is_sender(o))
    hooks_stored(o, v)
    o.post('nothing else changes', lambda: o.frame('hooks'))
    o.ensure('the owner can set any valid addresses', IMP(AND(owner_is_sender(o), valid_list(o, v)), o.ok))


def hooks_stored(o, v):
    h1 = o.item1('hooks', ADDRS)
    o.post('every hook is a valid address', lambda: valid_list(o, v))
    o.post('exactly these hooks are stored, in order', lambda: AND(h1.present, lambda: same_list(o, h1.val, v)))
    o.post('no message is sent', lambda: no_messages(o))


def agg_init(o):
    v = o.get(o.msg, 'hooks')
    hooks_stored(o, v)
    o.ensure('any valid addresses are accepted', IMP(AND(valid(o.get(o.msg, 'owner')), NOT(o.item0('owner', A).present), valid_list(o, v)), o.ok))


def q_hooks(o):
    h = hooks0(o)
    o.post('exactly the stored hooks', lambda: AND(h.present, same_list(o, o.get(o.parsed(o.value, 'hpl_interface::hook::aggregate::HooksResponse'), 'hooks'), h.val)))
    o.post('a query changes nothing', lambda: o.frame())
    o.ensure('an instantiated hook answers', IMP(h.present, o.ok))


def c18(P):
    X, Q = AH + 'execute', AH + 'query'
    kept = hooks_kept('hooks')
    out = [
        Contract('C18', X, agg_post, variant=('PostDispatch',)),
        Contract('C18', X, set_hooks, variant=('SetHooks',)),
        Contract('C18', Q, agg_quote, variant=('Hook', 'QuoteDispatch'), requires=agg_requires, loops=[hooks_loop]),
        Contract('C18', Q, unrestricted, variant=('Hook', 'Mailbox')),
        Contract('C18', Q, q_hooks, variant=('AggregateHook', 'Hooks')),
        Contract('C18', AH + 'instantiate', agg_init),
        Contract('C18', AH + 'migrate', kept),
    ]
    return out + [Contract('C18', X, kept, variant=v) for v in msg_variants(P, X) if v[0] == 'Ownable']


# ------------------------------------------------ C19
def fee0(o):
    return o.item0('coin_fee', COIN)


def fee_post(o):
    E, st = o.E, o.st
    fee = fee0(o)
    d, a = o.get(fee.val, 'denom'), iz(o.get(fee.val, 'amount'))
    n = E.vlen(o.funds)
    only = lambda: nth(o, o.funds, 0)
    paid = AND(ieq(n, 1), lambda: AND(o.eq(o.get(only(), 'denom'), d), iz(o.get(only(), 'amount')) >= a))
    o.post('exactly one kind of coin is attached, the configured one, and at least the fee', lambda: AND(fee.present, paid))
    o.post('nothing changes', lambda: o.frame())
    o.post('no message is sent', lambda: no_messages(o))
    o.ensure('a caller that attached at least the fee is served', IMP(AND(fee.present, paid, lambda: iz(o.get(only(), 'amount')) > 0), o.ok))


def fee_claim(o):
    E, st = o.E, o.st
    r = o.var(o.var(o.msg, 'FeeHook'), 'Claim', 'recipient')
    own = o.item0('owner', A)
    o.post('only the owner claims', lambda: owner_is_sender(o))
    o.post('exactly one message is sent', lambda: nmsgs(o, 1))
    some = o.isv(r, 'Some')

    def send():
        w = o.var(o.get(one(o), 'msg'), 'Bank')
        return lambda f: o.var(w, 'Send', f)
    o.post('it is a bank transfer', lambda: AND(o.isv(o.get(one(o), 'msg'), 'Bank'), o.isv(o.var(o.get(one(o), 'msg'), 'Bank'), 'Send')))
    o.post('to the chosen recipient, the owner if none is given',
           lambda: AND(some_and(o, r, lambda x: o.eq(send()('to_address'), x)) if not is_false(some) and is_true(some) else IMP(some, lambda: o.eq(send()('to_address'), o.var(r, 'Some'))),
                       IMP(NOT(some), lambda: o.eq(send()('to_address'), own.val))))
    self_ = o.get(o.get(o.arg('env'), 'contract'), 'address')
    bal = E.from_term(st, E.ty('std::vec::Vec<%s>' % COIN), uf('bank_all_balances', B, E.S.sort(E.ty('std::vec::Vec<%s>' % COIN)))(self_.term()))
    o.post('of exactly the whole balance of the hook', lambda: o.eq(send()('amount'), bal))
    o.post('nothing changes', lambda: o.frame())
    o.ensure('the owner can always claim', IMP(AND(owner_is_sender(o), uf('all_balances_ok', B, BoolS)(self_.term())), o.ok))


def set_fee(o):
    fee = o.var(o.var(o.msg, 'FeeHook'), 'SetFee', 'fee')
    f1 = o.item1('coin_fee', COIN)
    o.post('only the owner sets the fee', lambda: owner_is_sender(o))
    o.post('exactly the given fee is stored', lambda: AND(f1.present, o.eq(f1.val, fee)))
    o.post('nothing else changes', lambda: o.frame('coin_fee'))
    o.post('no message is sent', lambda: no_messages(o))
    o.ensure('the owner can set any fee', IMP(owner_is_sender(o), o.ok))


def fee_quote(o):
    fee = fee0(o)
    v = lambda: o.get(o.parsed(o.value, 'hpl_interface::hook::QuoteDispatchResponse'), 'fees')
    o.post('the quote is exactly the configured fee', lambda: AND(fee.present, ieq(o.E.vlen(v()), 1), lambda: o.eq(nth(o, v(), 0), fee.val)))
    o.post('a query changes nothing', lambda: o.frame())
    o.ensure('an instantiated hook quotes', IMP(fee.present, o.ok))


def q_fee(o):
    fee = fee0(o)
    o.post('the answer is the configured fee', lambda: AND(fee.present, o.eq(o.get(o.parsed(o.value, 'hpl_interface::hook::fee::FeeResponse'), 'fee'), fee.val)))
    o.post('a query changes nothing', lambda: o.frame())
    o.ensure('an instantiated hook answers', IMP(fee.present, o.ok))


def fee_init(o):
    f1 = o.item1('coin_fee', COIN)
    o.post('exactly the given fee is stored', lambda: AND(f1.present, o.eq(f1.val, o.get(o.msg, 'fee'))))
    o.post('no message is sent', lambda: no_messages(o))
    o.ensure('any fee is accepted', IMP(AND(valid(o.get(o.msg, 'owner')), NOT(o.item0('owner', A).present)), o.ok))


def fee_kept(o):
    o.post('the fee is unchanged', lambda: o.unchanged('coin_fee'))
    o.post('no message is sent', lambda: no_messages(o))


def c19(P):
    X, Q = FH + 'execute', FH + 'query'
    b = {('PostDispatch',): fee_post, ('FeeHook', 'Claim'): fee_claim, ('FeeHook', 'SetFee'): set_fee}
    out = [Contract('C19', X, b.get(tuple(v), fee_kept), variant=v) for v in msg_variants(P, X)]
    q = {('Hook', 'QuoteDispatch'): fee_quote, ('Hook', 'Mailbox'): unrestricted, ('FeeHook', 'Fee'): q_fee}
    out += [Contract('C19', Q, q[tuple(v)], variant=v) for v in msg_variants(P, Q) if tuple(v) in q]
    return out + [Contract('C19', FH + 'instantiate', fee_init), Contract('C19', FH + 'migrate', fee_kept)]


def contracts(P):
    return c18(P) + c19(P)
