"""C20 gas payment, C21 the gas oracle"""
from .common import *
from .table import *
from . import batches as Bt
from .aggism import positions
from .router import zb, range_args, bounds, seq_eq, RO
from .routing import owner_is_sender, unrestricted
from .lifecycle import map_eq, stored
from engine import loops as L

IP, OP = 'hpl_igp::contract::', 'hpl_igp_oracle::contract::'
OPTA = 'std::option::Option<%s>' % A
STR = 'std::string::String'
SCALE = 10_000_000_000
U128, U256 = 2 ** 128, 2 ** 256
DATA = 'hpl_igp_oracle::state::RemoteGasData'
ANSWER = 'hpl_interface::igp::oracle::GetExchangeRateAndGasPriceResponse'


# ------------------------------------------------ C20: the price
def oracle_answer(o, dom):
    """(the domain has an oracle and it answered, exchange rate, gas price)"""
    m = o.map0('routes', 'u32', OPTA)
    r = o.at(m, dom)
    set_ = AND(o.has(m, dom), o.isv(r, 'Some'))
    q = o.S.tup('hpl_interface::igp::oracle::QueryMsg', 'Oracle',
                o.S.mk('hpl_interface::igp::oracle::IgpGasOracleQueryMsg', 'GetExchangeRateAndGasPrice', dest_domain=dom))
    okq, v = o.S.query(ANSWER, o.var(r, 'Some'), q)
    return AND(set_, okq), v


def price(o, dom, gas):
    """(a price exists, the price)"""
    ok, v = oracle_answer(o, dom)
    v = v()
    rate, gp = iz(o.get(v, 'exchange_rate')), iz(o.get(v, 'gas_price'))
    g = iz(gas) * gp
    t = g * rate
    return AND(ok, g < U256, t < U256), z3.simplify(t / SCALE)


def token(o):
    return o.item0('gas_token', STR)


def bank_send(o, sm):
    """(is a bank transfer, receiver, coins)"""
    m = o.get(sm, 'msg')
    b = lambda: o.var(m, 'Bank')
    return AND(o.isv(m, 'Bank'), lambda: o.isv(b(), 'Send')), lambda: o.var(b(), 'Send', 'to_address'), lambda: o.var(b(), 'Send', 'amount')


def one_coin(o, vec, denom, amount):
    return AND(ieq(o.E.vlen(vec), 1), lambda: AND(o.eq(o.get(nth(o, vec, 0), 'denom'), denom), ieq(o.get(nth(o, vec, 0), 'amount'), amount)))


def nth(o, v, i):
    return o.E.deref_all(o.st, o.E.vat(o.st, v, i))


def payment(o, dom, gas, refund):
    """the caller pays the price of `gas` for `dom`; refund(address) decides who gets the rest. Returns the precondition of success."""
    E = o.E
    tk = token(o)
    okp, q = price(o, dom, gas)
    one_ = AND(ieq(E.vlen(o.funds), 1), lambda: o.eq(o.get(nth(o, o.funds, 0), 'denom'), tk.val))
    paid = iz(o.get(nth(o, o.funds, 0), 'amount'))
    rest = paid - q
    o.post('exactly the gas token is attached', lambda: AND(tk.present, one_))
    o.post('the oracle of the destination priced the gas', lambda: okp)
    o.post('at least the price is attached', lambda: paid >= q)
    exact = rest == 0
    o.post('exactly the price is kept: nothing is refunded of an exact payment', lambda: IMP(exact, no_messages(o)))
    o.post('exactly the price is kept: of a larger payment one transfer is made', lambda: IMP(NOT(exact), nmsgs(o, 1)))

    def refunded(f):
        l = msg_items(o)
        if l is None or len(l) > 1:
            return False
        if not l:
            return exact
        k, to, coins = bank_send(o, l[0])
        return IMP(NOT(exact), AND(k, lambda: f(l[0], to, coins)))
    o.post('the whole rest is refunded in the gas token', lambda: refunded(lambda m, to, coins: one_coin(o, coins(), tk.val, rest)))
    o.post('the refund goes to the refund address', lambda: refunded(lambda m, to, coins: refund(to())))
    o.post('the refund must succeed', lambda: refunded(lambda m, to, coins: no_reply(o, m)))
    o.post('nothing changes', lambda: o.frame())
    return AND(tk.present, one_, okp, paid >= q, paid > 0)


def pay_for_gas(o):
    f = lambda n: o.var(o.msg, 'PayForGas', n)
    ok = payment(o, f('dest_domain'), f('gas_amount'), lambda to: o.eq(to, f('refund_address')))
    o.ensure('a caller that attached at least the price is served', IMP(ok, o.ok))


def default_gas(o, dom):
    """(known, amount): the gas set for the domain, else the default"""
    d, m = o.item0('default_gas_usage', 'u128'), o.map0('gas_for_domain', 'u32', 'u128')
    has = o.has(m, dom)
    return OR(has, d.present), z3.If(zb(has), iz(o.at(m, dom)), iz(d.val))


def gas_of(o, md, dom):
    """(known, amount) of gas: named by metadata of 32 bytes or more, else the default of the domain"""
    short = iz(md.len()) < 32
    known, dg = default_gas(o, dom)
    return OR(NOT(short), known), z3.If(zb(short), dg, iz(md.slice(0, 32).intval())), short


def post_dispatch(o):
    E, st = o.E, o.st
    pd = o.var(o.msg, 'PostDispatch')
    md, m = o.get(pd, 'metadata'), o.get(pd, 'message')
    long_ = iz(m.len()) >= 77
    dom, sender = m.slice(41, 4).intval(), m.slice(9, 32)
    known, gas, short = gas_of(o, md, dom)
    hrp = o.item0('hrp', STR)
    d, gd = o.item0('default_gas_usage', 'u128'), o.map0('gas_for_domain', 'u32', 'u128')

    def refund(to):
        n = md.len()
        own = AND(NOT(short), OR(ieq(n, 52), ieq(n, 64)))
        return AND(IMP(NOT(own), lambda: addr_is(o, to, hrp.val, sender)),
                   IMP(AND(own, ieq(n, 64)), lambda: addr_is(o, to, hrp.val, md.slice(32, 32))),
                   IMP(AND(own, ieq(n, 52)), lambda: o.eq(to, bech32(hrp.val, md.slice(32, 20)))))
    ok = payment(o, dom, gas, refund)
    o.ensure('a caller that attached at least the price is served', IMP(AND(ok, long_, hrp.present, M.b32_enc_ok(hrp.val.term()), known, d.present), o.ok))


def claim(o):
    tk, b = token(o), o.item0('beneficiary', A)
    self_ = o.self_addr
    allowed = AND(b.present, o.eq(b.val, o.sender))
    bal = M.balance(self_.term(), tk.val.term())
    o.post('only the beneficiary claims', lambda: allowed)
    o.post('exactly one message is sent', lambda: nmsgs(o, 1))
    k = lambda: bank_send(o, one(o))
    o.post('it is a bank transfer', lambda: k()[0])
    o.post('it goes to the beneficiary', lambda: o.eq(k()[1](), b.val))
    o.post('of exactly the gas tokens the paymaster holds', lambda: one_coin(o, k()[2](), tk.val, bal))
    o.post('the transfer must succeed', lambda: no_reply(o, one(o)))
    o.post('nothing changes', lambda: o.frame())
    o.ensure('the beneficiary can always claim', IMP(AND(allowed, tk.present, uf('balance_ok', B, B, BoolS)(self_.term(), tk.val.term())), o.ok))


# ------------------------------------------------ C20: configuration
def set_beneficiary(o):
    a = o.var(o.msg, 'SetBeneficiary', 'beneficiary')
    o.post('only the owner names the beneficiary', lambda: owner_is_sender(o))
    o.post('exactly the given address becomes beneficiary', lambda: AND(valid(a), stored(o, 'beneficiary', a, A)))
    o.post('nothing else changes', lambda: o.frame('beneficiary'))
    o.post('no coin moves', lambda: no_messages(o))
    o.ensure('the owner can name any valid address', IMP(AND(owner_is_sender(o), valid(a)), o.ok))


def set_default_gas(o):
    g = o.var(o.msg, 'SetDefaultGas', 'gas')
    o.post('only the owner sets the default gas', lambda: owner_is_sender(o))
    o.post('exactly the given amount is stored', lambda: AND(o.item1('default_gas_usage', 'u128').present, ieq(o.item1('default_gas_usage').val, g)))
    o.post('nothing else changes', lambda: o.frame('default_gas_usage'))
    o.post('no coin moves', lambda: no_messages(o))
    o.ensure('the owner can set any amount', IMP(owner_is_sender(o), o.ok))


def gas_batch(field, tag, f):
    def body(o):
        v = o.var(o.msg, o_variant(o), field)
        o.post('only the owner sets the gas of domains', lambda: owner_is_sender(o))
        o.post('every entry of the batch is applied, in order', lambda: map_eq(o, o.map1('gas_for_domain', 'u32', 'u128'),
               L.seq_result(o.E, o.st, o.map0('gas_for_domain', 'u32', 'u128'), v, tag, f)))
        o.post('nothing else changes', lambda: o.frame('gas_for_domain'))
        o.post('no coin moves', lambda: no_messages(o))
        o.ensure('the owner can set any domains', IMP(owner_is_sender(o), o.ok))

    def o_variant(o):
        return {'config': 'SetGasForDomain', 'domains': 'UnsetGasForDomain'}[field]
    return body


def kept(o):
    o.post('beneficiary, token and gas tables are unchanged', lambda: o.unchanged('beneficiary', 'gas_token', 'hrp', 'default_gas_usage', 'gas_for_domain'))
    o.post('no coin moves', lambda: no_messages(o))


def migrate(o):
    o.post('the configuration is unchanged', lambda: o.unchanged('beneficiary', 'gas_token', 'hrp', 'default_gas_usage', 'gas_for_domain', 'routes'))
    o.post('no coin moves', lambda: no_messages(o))


# ------------------------------------------------ C20: queries
IG = 'hpl_interface::igp::core::'


def quote_dispatch(o):
    q = o.var(o.var(o.msg, 'Hook'), 'QuoteDispatch')
    md, m = o.get(q, 'metadata'), o.get(q, 'message')
    dom = m.slice(41, 4).intval()
    known, gas, short = gas_of(o, md, dom)
    okp, p = price(o, dom, gas)
    tk = token(o)
    v = lambda: o.get(o.parsed(o.value, 'hpl_interface::hook::QuoteDispatchResponse'), 'fees')
    o.post('the gas has a price', lambda: okp)
    o.post('the quote is exactly the price, in the gas token', lambda: IMP(p != 0, lambda: AND(tk.present, one_coin(o, v(), tk.val, p))))
    o.post('a free message is quoted no coins', lambda: IMP(p == 0, lambda: ieq(o.E.vlen(v()), 0)))
    o.post('a query changes nothing', lambda: o.frame())
    o.ensure('every priced message is quoted', IMP(AND(iz(m.len()) >= 77, known, okp, p < U128, tk.present, o.item0('default_gas_usage', 'u128').present), o.ok))


def quote_gas(o):
    f = lambda n: o.var(o.var(o.msg, 'Igp'), 'QuoteGasPayment', n)
    okp, p = price(o, f('dest_domain'), f('gas_amount'))
    o.post('the quote is exactly the price', lambda: AND(okp, ieq(o.get(o.parsed(o.value, IG + 'QuoteGasPaymentResponse'), 'gas_needed'), p)))
    o.post('a query changes nothing', lambda: o.frame())
    o.ensure('every priced payment is quoted', IMP(okp, o.ok))


def q_default(o):
    d = o.item0('default_gas_usage', 'u128')
    o.post('the answer is the default gas', lambda: AND(d.present, ieq(o.get(o.parsed(o.value, IG + 'DefaultGasResponse'), 'gas'), d.val)))
    o.post('a query changes nothing', lambda: o.frame())
    o.ensure('an instantiated paymaster answers', IMP(d.present, o.ok))


def q_beneficiary(o):
    b = o.item0('beneficiary', A)
    o.post('the answer is the beneficiary', lambda: AND(b.present, o.eq(o.get(o.parsed(o.value, IG + 'BeneficiaryResponse'), 'beneficiary'), b.val)))
    o.post('a query changes nothing', lambda: o.frame())
    o.ensure('an instantiated paymaster answers', IMP(b.present, o.ok))


def q_gas(o):
    E, st = o.E, o.st
    v = o.var(o.var(o.msg, 'Igp'), 'GasForDomain', 'domains')
    m = o.map0('gas_for_domain', 'u32', 'u128')
    n = E.vlen(v)

    def ans():
        r = o.get(o.parsed(o.value, IG + 'GasForDomainResponse'), 'gas')
        return seq_eq(o, r, (n, lambda i, x: AND(ieq(o.get(x, '0'), nth(o, v, i)), o.has(m, nth(o, v, i)), ieq(o.get(x, '1'), o.at(m, nth(o, v, i))))))
    o.post('the answer is the gas set for each domain, in order', ans)
    o.post('a query changes nothing', lambda: o.frame())
    ks = positions(st, None, ('wit', 'k')) + [z3.IntVal(k) for k in range(E.unroll + 1)]
    o.ensure('it fails only for a domain without gas', OR(o.ok, OR(*[AND(k >= 0, k < iz(n), lambda: NOT(o.has(m, nth(o, v, k)))) for k in ks])))


def q_list(o):
    E, st = o.E, o.st
    f = lambda n: o.var(o.var(o.msg, 'Igp'), 'ListGasForDomains', n)
    m = o.map0('gas_for_domain', 'u32', 'u128')
    okl, off, desc, lim = range_args(o, f)
    o.post('a query changes nothing', lambda: o.frame())
    o.post('pages beyond the limit are refused', lambda: okl)
    o.ensure('every page can be queried', IMP(okl, o.ok))

    def ans():
        r = o.get(o.parsed(o.value, IG + 'GasForDomainResponse'), 'gas')
        mn, mx = bounds(o, off, desc, Int)
        v = M.range_val(E, st, m.pres, m.vals, Int, m.vty, E.k(E.ty('u32')), None, mn, mx, z3.simplify(z3.Not(zb(desc))))
        n = z3.If(iz(v.n) < lim, iz(v.n), lim)

        def el(i, x):
            kv = v.at(st, i).f[0]
            return AND(ieq(o.get(x, '0'), kv.f[0]), ieq(o.get(x, '1'), kv.f[1]))
        return seq_eq(o, r, (n, el))
    o.post('the answer is the page of the stored gas amounts', ans)


def q_oracle(o):
    d = o.var(o.var(o.msg, 'Oracle'), 'GetExchangeRateAndGasPrice', 'dest_domain')
    ok, v = oracle_answer(o, d)

    def ans():
        r = o.parsed(o.value, ANSWER)
        return AND(ok, ieq(o.get(r, 'exchange_rate'), o.get(v(), 'exchange_rate')), ieq(o.get(r, 'gas_price'), o.get(v(), 'gas_price')))
    o.post('the answer is that of the oracle of the domain', ans)
    o.post('a query changes nothing', lambda: o.frame())
    o.ensure('an answering oracle is reported', IMP(ok, o.ok))


def refund_address(o):
    m, hrp = o.arg('self'), o.arg('hrp')
    a, d = o.get(m, 'refund_address'), o.arg('default')
    n = a.len()
    o.post('no or an unusable refund address: the default', lambda: IMP(NOT(OR(ieq(n, 20), ieq(n, 32))), o.eq(o.value, d)))
    o.post('20 bytes name that address', lambda: IMP(ieq(n, 20), lambda: o.eq(o.value, bech32(hrp, a))))
    o.post('32 bytes name that address', lambda: IMP(ieq(n, 32), lambda: addr_is(o, o.value, hrp, a)))
    o.ensure('every refund address is usable', IMP(M.b32_enc_ok(hrp.term()), o.ok))


def c20(P):
    X, Q = IP + 'execute', IP + 'query'
    b = {('PostDispatch',): post_dispatch, ('PayForGas',): pay_for_gas, ('Claim',): claim, ('SetBeneficiary',): set_beneficiary,
         ('SetDefaultGas',): set_default_gas, ('SetGasForDomain',): gas_batch('config', 'gas_for', Bt.gas_for),
         ('UnsetGasForDomain',): gas_batch('domains', 'gas_unset', Bt.drop_domain)}
    out = [Contract('C20', X, b.get(tuple(v), kept), variant=v, loops=Bt.loops_of('hpl_igp', v)) for v in msg_variants(P, X)]
    q = {('Hook', 'QuoteDispatch'): quote_dispatch, ('Hook', 'Mailbox'): unrestricted, ('Igp', 'QuoteGasPayment'): quote_gas, ('Igp', 'DefaultGas'): q_default,
         ('Igp', 'Beneficiary'): q_beneficiary, ('Igp', 'GasForDomain'): q_gas, ('Igp', 'ListGasForDomains'): q_list, ('Oracle', 'GetExchangeRateAndGasPrice'): q_oracle}
    out += [Contract('C20', Q, q[tuple(v)], variant=v) for v in msg_variants(P, Q) if tuple(v) in q]
    out.append(Contract('C20', 'hpl_interface::types::IGPMetadata::get_refund_address', refund_address))
    return out + [Contract('C20', IP + 'migrate', migrate)]


# ------------------------------------------------ C21
def data(o, cfg):
    return o.S.mk(DATA, token_exchange_rate=o.get(cfg, 'token_exchange_rate'), gas_price=o.get(cfg, 'gas_price'))


def nonzero(o, m, k):
    return IMP(o.has(m, k), iz(o.get(o.at(m, k), 'token_exchange_rate')) > 0)


def set_one(o):
    cfg = o.var(o.msg, 'SetRemoteGasData', 'config')
    d, rate = o.get(cfg, 'remote_domain'), iz(o.get(cfg, 'token_exchange_rate'))
    m1 = lambda: o.map1('remote_gas_data', 'u32', DATA)
    o.post('only the owner sets data', lambda: owner_is_sender(o))
    o.post('a zero exchange rate is refused', lambda: rate > 0)
    o.post('exactly the given data is stored for the domain', lambda: AND(o.has(m1(), d), o.eq(o.at(m1(), d), data(o, cfg))))
    o.post('no other domain changes', lambda: o.map_frame('remote_gas_data', d))
    o.post('nothing else changes', lambda: o.frame('remote_gas_data'))
    o.post('no message is sent', lambda: no_messages(o))
    o.ensure('the owner can set any data with a rate', IMP(AND(owner_is_sender(o), rate > 0), o.ok))


def set_batch(o):
    E, st = o.E, o.st
    v = o.var(o.msg, 'SetRemoteGasDataConfigs', 'configs')
    n = E.vlen(v)
    o.post('only the owner sets data', lambda: owner_is_sender(o))
    o.post('every entry of the batch is applied, in order', lambda: map_eq(o, o.map1('remote_gas_data', 'u32', DATA),
           L.seq_result(E, st, o.map0('remote_gas_data', 'u32', DATA), v, 'gas_data', Bt.gas_data)))
    i = E.fresh('anyix', Int)
    rate = lambda k: iz(o.get(nth(o, v, k), 'token_exchange_rate'))
    o.post('a zero exchange rate anywhere is refused', lambda: IMP(z3.And(i >= 0, i < iz(n)), lambda: rate(i) > 0))
    o.post('nothing else changes', lambda: o.frame('remote_gas_data'))
    o.post('no message is sent', lambda: no_messages(o))
    ks = positions(st, None, ('wit', 'k')) + [z3.IntVal(k) for k in range(E.unroll + 1)]
    o.ensure('the owner can set any data with rates', OR(o.ok, NOT(owner_is_sender(o)), OR(*[AND(k >= 0, k < iz(n), lambda: rate(k) == 0) for k in ks])))


def get_data(o):
    d = o.var(o.var(o.msg, 'Oracle'), 'GetExchangeRateAndGasPrice', 'dest_domain')
    m = o.map0('remote_gas_data', 'u32', DATA)

    def ans():
        r, w = o.parsed(o.value, ANSWER), o.at(m, d)
        return AND(o.has(m, d), ieq(o.get(r, 'exchange_rate'), o.get(w, 'token_exchange_rate')), ieq(o.get(r, 'gas_price'), o.get(w, 'gas_price')))
    o.post('the answer is exactly the data stored for the domain', ans)
    o.post('a domain never set has no answer', lambda: o.has(m, d))
    o.post('a query changes nothing', lambda: o.frame())
    o.ensure('a set domain has an answer', IMP(o.has(m, d), o.ok))


def data_kept(o):
    o.post('the data is unchanged', lambda: o.unchanged('remote_gas_data'))
    o.post('no message is sent', lambda: no_messages(o))


def oracle_init(o):
    o.post('no data is stored', lambda: o.unchanged('remote_gas_data'))


def c21(P):
    X, Q = OP + 'execute', OP + 'query'
    b = {('SetRemoteGasData',): set_one, ('SetRemoteGasDataConfigs',): set_batch}
    out = [Contract('C21', X, b.get(tuple(v), data_kept), variant=v, loops=Bt.loops_of('hpl_igp_oracle', v)) for v in msg_variants(P, X)]
    out.append(Contract('C21', Q, get_data, variant=('Oracle', 'GetExchangeRateAndGasPrice')))
    return out + [Contract('C21', OP + 'instantiate', oracle_init), Contract('C21', OP + 'migrate', data_kept)]


def contracts(P):
    return c20(P) + c21(P)
