"""C22 outgoing warp transfers, C23 incoming warp deliveries"""
from .common import *
from .table import *
from .aggism import positions
from .igp import bank_send, one_coin, nth
from .lifecycle import MODE, prost
from .router import zb
from . import batches as Bt

HB = 'cosmwasm_std::hex_binary::HexBinary'
STR = 'std::string::String'
WC, WN = 'hpl_warp_cw20::contract::', 'hpl_warp_native::contract::'
CW20 = 'cw20::msg::Cw20ExecuteMsg'
EXEC = 'hpl_interface::core::mailbox::ExecuteMsg'
DISPATCH = 'hpl_interface::core::mailbox::DispatchMsg'
U128 = 2 ** 128


def state(o, tty):
    t, m, b = o.item0('token', tty), o.item0('mode', MODE), o.item0('mailbox', A)
    return t, m, b


def route(o, dom):
    """(registered, 32-byte remote route)"""
    m = o.map0('routes', 'u32', 'std::option::Option<%s>' % HB)
    r = o.at(m, dom)
    return AND(o.has(m, dom), o.isv(r, 'Some')), lambda: o.var(r, 'Some')


def msgs_when(o, cond, n, f):
    """when cond: exactly n messages, and f of them"""
    l = msg_items(o)
    if l is None or len(l) != n:
        return NOT(cond)
    return IMP(cond, lambda: f(l))


def silent(o, l):
    return AND(*[no_reply(o, m) for m in l])


def token_call(o, sm, token, variant, **fs):
    """the message calls the token contract, without coins, with exactly this request"""
    return is_exec(o, sm, token, o.S.json(o.S.mk(CW20, variant, **fs)), [])


def proto_call(o, sm, kind, denom, amount):
    """the message asks the token factory to mint to, or burn from, this contract"""
    want = o.S.mk('hpl_warp_native::proto::Msg' + kind, sender=o.self_addr,
                  amount=o.S.some('std::option::Option<hpl_warp_native::proto::Coin>', o.S.mk('hpl_warp_native::proto::Coin', denom=denom, amount=Bytes.of(M.dec(amount)))))
    m = o.get(sm, 'msg')
    return AND(o.isv(m, 'Stargate'), lambda: AND(o.eq(o.var(m, 'Stargate', 'type_url'), c('/osmosis.tokenfactory.v1beta1.Msg' + kind)), o.eq(o.var(m, 'Stargate', 'value'), prost(o, want))))


# ------------------------------------------------ C22
def transfer(native):
    tty = STR if native else A

    def body(o):
        E, st = o.E, o.st
        f = lambda n: o.var(o.msg, 'TransferRemote', n)
        dom, to, amount, hook, md = f('dest_domain'), f('recipient'), f('amount'), f('hook'), f('metadata')
        a = iz(amount)
        token, mode, mailbox = state(o, tty)
        bridged = o.isv(mode.val, 'Bridged')
        reg, remote = route(o, dom)
        ch = o.item0('conn::hook', A)
        attached = o.S.amt(o.funds)
        rest = z3.Store(attached, token.val.term(), z3.Select(attached, token.val.term()) - a) if native else attached
        o.post('the transfer names a recipient of 32 bytes', lambda: ieq(to.len(), 32))
        o.post('token, mode and mailbox are configured', lambda: AND(token.present, mode.present, mailbox.present))
        o.post('the destination has a registered route', lambda: reg)
        if native:
            for k in positions(st, None, ('wit',)) + short(E):
                M.member_fact(E, st, o.funds, k)
            o.post('the caller attached at least the amount of the token', lambda: z3.Select(attached, token.val.term()) >= a)
        k = 0 if native else 1
        o.post('a collateral transfer locks the tokens and sends one dispatch', lambda: IMP(NOT(bridged), nmsgs(o, k + 1)))
        o.post('a bridged transfer burns the tokens and sends one dispatch', lambda: IMP(bridged, nmsgs(o, k + 2)))

        def each(g):
            return AND(msgs_when(o, NOT(bridged), k + 1, g), msgs_when(o, bridged, k + 2, g))
        if not native:
            o.post('exactly the amount is taken from the caller first', lambda: each(lambda l: token_call(o, l[0], token.val, 'TransferFrom', owner=o.sender, recipient=o.self_addr, amount=amount)))
            o.post('a bridged token is burnt, exactly the amount', lambda: msgs_when(o, bridged, 3, lambda l: token_call(o, l[1], token.val, 'Burn', amount=amount)))
        else:
            o.post('a bridged token is burnt, exactly the amount', lambda: msgs_when(o, bridged, 2, lambda l: proto_call(o, l[0], 'Burn', token.val, a)))
        payload = to + be(32, a)

        def dispatched(l):
            m = l[-1]
            w = o.var(o.get(m, 'msg'), 'Wasm')
            e = o.parsed(o.var(w, 'Execute', 'msg'), EXEC)
            d = o.var(e, 'Dispatch')
            h, g = o.get(d, 'hook'), o.get(d, 'metadata')
            some, conn = o.isv(hook, 'Some'), ch.present
            hs = o.isv(h, 'Some')
            hk = AND(IFF(hs, OR(some, conn)), IMP(AND(hs, some), lambda: o.eq(o.var(h, 'Some'), o.var(hook, 'Some'))),
                     IMP(AND(hs, NOT(some), conn), lambda: o.eq(o.var(h, 'Some'), ch.val)))
            return [('to the mailbox, as a dispatch', AND(is_exec(o, m, mailbox.val), o.isv(e, 'Dispatch'))),
                    ('for the destination domain', ieq(o.get(d, 'dest_domain'), dom)),
                    ('to the registered route of the destination', o.eq(o.get(d, 'recipient_addr'), remote())),
                    ('of exactly the recipient and the amount', o.eq(o.get(d, 'msg_body'), payload)),
                    ('with the chosen hook, else the connected one', hk),
                    ('with exactly the given metadata', o.eq(g, md)),
                    ('with exactly the coins beyond the amount' if native else 'with exactly the attached coins', funds_are(o, o.var(w, 'Execute', 'funds'), rest))]
        for j, n in enumerate(['to the mailbox, as a dispatch', 'for the destination domain', 'to the registered route of the destination', 'of exactly the recipient and the amount',
                               'with the chosen hook, else the connected one', 'with exactly the given metadata', 'with exactly the coins beyond the amount']):
            o.post('one dispatch: ' + n, lambda: each(lambda l: dispatched(l)[j][1]))
        o.post('every message must succeed', lambda: each(lambda l: silent(o, l)))
        o.post('nothing changes', lambda: o.frame())
        good = IMP(o.isv(hook, 'Some'), lambda: valid(o.var(hook, 'Some')))
        pre = AND(ieq(to.len(), 32), token.present, mode.present, mailbox.present, reg, good)
        if native:
            n = E.vlen(o.funds)
            j = E.fresh('tokenix', Int)
            i = z3.Int('other!ix')
            s2 = st
            den = lambda x: o.get(nth(o, o.funds, x), 'denom')
            pre = AND(pre, j >= 0, j < iz(n), o.eq(den(j), token.val), iz(o.get(nth(o, o.funds, j), 'amount')) >= a,
                      z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < iz(n), i != j), zb(NOT(o.eq(den(i), token.val))))))
        o.ensure('a well-formed transfer is accepted', IMP(pre, o.ok))
    return body


def no_tokens_move(o):
    o.post('no token moves', lambda: no_messages(o))


def cfg_kept(o):
    o.post('the token and its mode are unchanged', lambda: o.unchanged('token', 'mode', 'hrp', 'mailbox'))
    o.post('no token moves', lambda: no_messages(o))


def q_mode(tty):
    def body(o):
        m = o.item0('mode', MODE)
        r = lambda: o.get(o.parsed(o.value, 'hpl_interface::warp::TokenModeResponse'), 'mode')
        o.post('the answer is the stored mode', lambda: AND(m.present, o.eq(r(), m.val)))
        o.post('a query changes nothing', lambda: o.frame())
        o.ensure('an instantiated route answers', IMP(m.present, o.ok))
    return body


def q_type(native):
    def body(o):
        t = o.item0('token', STR if native else A)

        def ans():
            r = o.get(o.parsed(o.value, 'hpl_interface::warp::TokenTypeResponse'), 'typ')
            if native:
                x = o.var(r, 'Native')
                return AND(o.isv(r, 'Native'), o.isv(x, 'Fungible'), o.eq(o.var(x, 'Fungible', 'denom'), t.val))
            return AND(o.isv(r, 'CW20'), o.eq(o.var(r, 'CW20', 'contract'), t.val))
        o.post('the answer is the token the transfers use', lambda: AND(t.present, ans()))
        o.post('a query changes nothing', lambda: o.frame())
        o.ensure('a route with a token answers', IMP(t.present, o.ok))
    return body


# ------------------------------------------------ C23
def handle(native):
    tty = STR if native else A

    def body(o):
        E, st = o.E, o.st
        h = o.var(o.msg, 'Handle')
        origin, sender, b = o.get(h, 'origin'), o.get(h, 'sender'), o.get(h, 'body')
        token, mode, mailbox = state(o, tty)
        hrp = o.item0('hrp', STR)
        bridged = o.isv(mode.val, 'Bridged')
        reg, remote = route(o, origin)
        auth = AND(mailbox.present, o.eq(o.sender, mailbox.val))
        enrolled = AND(reg, lambda: o.eq(sender, remote()))
        full = iz(b.len()) >= 64
        to, a = b.slice(0, 32), iz(b.slice(32, 32).intval())
        o.post('only the configured mailbox delivers', lambda: auth)
        o.post('the message comes from exactly the registered route of its origin', lambda: enrolled)
        o.post('the body carries a recipient and an amount', lambda: full)
        o.post('token, mode and prefix are configured', lambda: AND(token.present, mode.present, hrp.present))
        o.post('the amount is payable', lambda: a < U128)
        if native:
            o.post('a collateral token is released by one transfer', lambda: IMP(NOT(bridged), nmsgs(o, 1)))
            o.post('a bridged token is minted and handed over', lambda: IMP(bridged, nmsgs(o, 2)))
            o.post('exactly the amount is minted', lambda: msgs_when(o, bridged, 2, lambda l: proto_call(o, l[0], 'Mint', token.val, a)))

            def sent(g):
                return AND(msgs_when(o, NOT(bridged), 1, lambda l: g(bank_send(o, l[-1]))), msgs_when(o, bridged, 2, lambda l: g(bank_send(o, l[-1]))))
            o.post('a bank transfer is made', lambda: sent(lambda x: x[0]))
            o.post('of exactly the amount of the token', lambda: sent(lambda x: AND(x[0], lambda: one_coin(o, x[2](), token.val, a))))
            o.post('to exactly the encoded recipient', lambda: sent(lambda x: AND(x[0], lambda: addr_is(o, x[1](), hrp.val, to))))
            o.post('every message must succeed', lambda: AND(msgs_when(o, NOT(bridged), 1, lambda l: silent(o, l)), msgs_when(o, bridged, 2, lambda l: silent(o, l))))
        else:
            o.post('exactly one message is sent', lambda: nmsgs(o, 1))

            def call(g):
                m = one(o)
                w = o.var(o.get(m, 'msg'), 'Wasm')
                e = o.parsed(o.var(w, 'Execute', 'msg'), CW20)
                return AND(IMP(bridged, lambda: AND(o.isv(e, 'Mint'), lambda: g(lambda n: o.var(e, 'Mint', n)))),
                           IMP(NOT(bridged), lambda: AND(o.isv(e, 'Transfer'), lambda: g(lambda n: o.var(e, 'Transfer', n)))))
            o.post('it calls the token, without coins', lambda: is_exec(o, one(o), token.val, None, []))
            o.post('it mints a bridged token or transfers a collateral one', lambda: call(lambda f: True))
            o.post('of exactly the amount', lambda: call(lambda f: ieq(f('amount'), a)))
            o.post('to exactly the encoded recipient', lambda: call(lambda f: addr_is(o, f('recipient'), hrp.val, to)))
            o.post('the message must succeed', lambda: no_reply(o, one(o)))
        o.post('nothing changes', lambda: o.frame())
        o.ensure('a message of the enrolled route is paid out', IMP(AND(auth, enrolled, full, token.present, mode.present, hrp.present, a < U128, M.b32_enc_ok(hrp.val.term())), o.ok))
    return body


def contracts(P):
    out = []
    for p, native in ((WC, False), (WN, True)):
        X, Q = p + 'execute', p + 'query'
        for v in msg_variants(P, X):
            if v == ('TransferRemote',):
                out.append(Contract('C22', X, transfer(native), variant=v))
            elif v == ('Handle',):
                out.append(Contract('C23', X, handle(native), variant=v))
            else:
                out.append(Contract('C22', X, cfg_kept, variant=v, loops=Bt.loops_of('hpl_warp', v)))
                out.append(Contract('C23', X, no_tokens_move, variant=v, loops=Bt.loops_of('hpl_warp', v)))
        out.append(Contract('C22', Q, q_mode(None), variant=('TokenDefault', 'TokenMode')))
        out.append(Contract('C22', Q, q_type(native), variant=('TokenDefault', 'TokenType')))
        out.append(Contract('C22', p + 'reply', no_tokens_move, reach=()))
        out.append(Contract('C22', p + 'migrate', cfg_kept))
    return out
