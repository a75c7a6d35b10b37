"""C15 the routing module, C16 pausable module and hook, C17 the routing hooks"""
from .common import *
from .table import *
from . import batches as Bt
from .lifecycle import map_eq
from .router import zb, range_args, bounds, seq_eq
from .aggism import positions
from .multisig import ism_type
from .merkle import no_fee
from engine import loops as L

RI = 'hpl_ism_routing::contract::'
ISM = 'hpl_interface::ism::'
OPT = 'std::option::Option<%s>'


# ------------------------------------------------ C15
def owner_is_sender(o):
    e = o.item0('owner', A)
    return AND(e.present, o.eq(e.val, o.sender))


def ism_set(o):
    f = o.var(o.msg, 'Set', 'ism')
    d, a = o.get(f, 'domain'), o.get(f, 'address')
    m1 = o.map1('modules', 'u32', A)
    o.post('only the owner sets a module', lambda: owner_is_sender(o))
    o.post('the module of the domain is exactly the given address', lambda: AND(valid(a), o.has(m1, d), o.eq(o.at(m1, d), a)))
    o.post('other domains keep their module', lambda: o.map_frame('modules', d))
    o.post('nothing else changes', lambda: o.frame('modules'))
    o.post('no message is sent', lambda: no_messages(o))
    o.ensure('the owner can set any valid address', IMP(AND(owner_is_sender(o), valid(a)), o.ok))


def ism_unset(o):
    v = o.var(o.msg, 'Unset', 'domains')
    o.post('only the owner removes modules', lambda: owner_is_sender(o))
    o.post('exactly the named domains lose their module', lambda: map_eq(o, o.map1('modules', 'u32', A), L.seq_result(o.E, o.st, o.map0('modules', 'u32', A), v, 'mod_unset', Bt.drop_domain)))
    o.post('nothing else changes', lambda: o.frame('modules'))
    o.post('no message is sent', lambda: no_messages(o))
    o.ensure('the owner can remove any domains', IMP(owner_is_sender(o), o.ok))


def ism_init(o):
    v = o.get(o.msg, 'isms')
    o.post('the table holds the given modules, applied in order', lambda: map_eq(o, o.map1('modules', 'u32', A), L.seq_result(o.E, o.st, o.map0('modules', 'u32', A), v, 'mod_set', Bt.ism_set)))
    o.post('no message is sent', lambda: no_messages(o))


def ism_unchanged(o):
    o.post('the table is unchanged', lambda: o.unchanged('modules'))


def module_for(o, m):
    """(configured, address) of the module of the origin domain of message bytes m"""
    t = o.map0('modules', 'u32', A)
    d = m.slice(5, 4).intval()
    return AND(iz(m.len()) >= 77, o.has(t, d)), o.at(t, d)


def delegate(kind, resp, fields):
    def body(o):
        q = o.var(o.msg, 'Ism')
        m = o.var(q, kind, 'message')
        conf, a = module_for(o, m)
        args = {f: o.var(q, kind, f) for f in fields}
        okq, v = o.S.query(ISM + resp, a, o.S.tup(ISM + 'ExpectedIsmQueryMsg', 'Ism', o.S.mk(ISM + 'IsmQueryMsg', kind, **args)))
        o.post('fails when no module is configured for the origin domain', lambda: conf)
        o.post('the module of the origin domain was asked the same', lambda: okq)
        o.post('its answer is passed on unchanged', lambda: o.eq(o.parsed(o.value, ISM + resp), v()))
        o.post('a query changes nothing', lambda: o.frame())
        o.ensure('an answer of the configured module is always passed on', IMP(AND(conf, okq), o.ok))
    return body


def route_query(o):
    m = o.var(o.var(o.msg, 'RoutingIsm'), 'Route', 'message')
    conf, a = module_for(o, m)
    o.post('the route is the configured module', lambda: AND(conf, o.eq(o.get(o.parsed(o.value, ISM + 'routing::RouteResponse'), 'ism'), a)))
    o.post('a query changes nothing', lambda: o.frame())
    o.ensure('a configured domain has a route', IMP(conf, o.ok))


def c15(P):
    X, Q = RI + 'execute', RI + 'query'
    out = [
        Contract('C15', Q, delegate('Verify', 'VerifyResponse', ('metadata', 'message')), variant=('Ism', 'Verify')),
        Contract('C15', Q, delegate('VerifyInfo', 'VerifyInfoResponse', ('message',)), variant=('Ism', 'VerifyInfo')),
        Contract('C15', Q, ism_type('Routing'), variant=('Ism', 'ModuleType')),
        Contract('C15', Q, route_query, variant=('RoutingIsm', 'Route')),
        Contract('C15', X, ism_set, variant=('Set',)),
        Contract('C15', X, ism_unset, variant=('Unset',), loops=[Bt.MODUNSET]),
        Contract('C15', RI + 'instantiate', ism_init, loops=[Bt.MODSET]),
        Contract('C15', RI + 'migrate', ism_unchanged),
    ]
    out += [Contract('C15', X, ism_unchanged, variant=v) for v in msg_variants(P, X) if v[0] == 'Ownable']
    return out


# ------------------------------------------------ C16
PM, PH = 'hpl_ism_pausable::', 'hpl_hook_pausable::'


def toggle(to, path):
    def body(o):
        p0, p1 = o.item0('pause', 'bool'), o.item1('pause', 'bool')
        auth = owner_is_sender(o)
        was = p0.val if not to else NOT(p0.val)
        o.post('only the owner changes the pause state', lambda: auth)
        o.post('only a running contract pauses' if to else 'only a paused contract resumes', lambda: AND(p0.present, was))
        o.post('the contract is paused' if to else 'the contract runs', lambda: AND(p1.present, p1.val if to else NOT(p1.val)))
        o.post('nothing else changes', lambda: o.frame('pause'))
        o.post('no message is sent', lambda: no_messages(o))
        o.ensure('the owner can pause a running contract' if to else 'the owner can resume a paused contract', IMP(AND(auth, p0.present, was), o.ok))
    return body


def pause_info(o):
    p = o.item0('pause', 'bool')
    o.post('the answer is the stored state', lambda: AND(p.present, IFF(o.get(o.parsed(o.value, 'hpl_interface::pausable::PauseInfoResponse'), 'paused'), p.val)))
    o.post('a query changes nothing', lambda: o.frame())
    o.ensure('an instantiated contract answers', IMP(p.present, o.ok))


def module_verify(o):
    p = o.item0('pause', 'bool')
    o.post('a paused module verifies nothing', lambda: AND(p.present, NOT(p.val)))
    o.post('a running module accepts', lambda: o.get(o.parsed(o.value, ISM + 'VerifyResponse'), 'verified'))
    o.post('a query changes nothing', lambda: o.frame())
    o.ensure('a running module accepts every message', IMP(AND(p.present, NOT(p.val)), o.ok))


def hook_post(o):
    p = o.item0('pause', 'bool')
    o.post('a paused hook accepts nothing', lambda: AND(p.present, NOT(p.val)))
    o.post('nothing changes', lambda: o.frame())
    o.post('no message is sent', lambda: no_messages(o))
    o.ensure('a running hook accepts every message', IMP(AND(p.present, NOT(p.val)), o.ok))


def pause_init(o):
    p1 = o.item1('pause', 'bool')
    o.post('the requested state is stored', lambda: AND(p1.present, IFF(p1.val, o.get(o.msg, 'paused'))))
    o.ensure('any state can be requested', IMP(AND(valid(o.get(o.msg, 'owner')), NOT(o.item0('owner', A).present)), o.ok))


def pause_kept(o):
    o.post('the pause state is unchanged', lambda: o.unchanged('pause'))


def unrestricted(o):
    o.post('the answer names no mailbox', lambda: o.eq(o.get(o.parsed(o.value, 'hpl_interface::hook::MailboxResponse'), 'mailbox'), c('unrestricted')))
    o.post('a query changes nothing', lambda: o.frame())
    o.ensure('it always answers', o.ok)


def c16(P):
    out = []
    for p in (PM, PH):
        X, Q = p + 'execute', p + 'query'
        for v in msg_variants(P, X):
            if v == ('Pausable', 'Pause'):
                b = toggle(True, v)
            elif v == ('Pausable', 'Release'):
                b = toggle(False, v)
            elif v[0] == 'PostDispatch':
                b = hook_post
            else:
                b = pause_kept
            out.append(Contract('C16', X, b, variant=v))
        for v in msg_variants(P, Q):
            b = {('Pausable', 'PauseInfo'): pause_info, ('Ism', 'Verify'): module_verify, ('Ism', 'ModuleType'): ism_type('Null'),
                 ('Hook', 'Mailbox'): unrestricted, ('Hook', 'QuoteDispatch'): no_fee}.get(tuple(v))
            if b:
                out.append(Contract('C16', Q, b, variant=v))
        out += [Contract('C16', p + 'instantiate', pause_init), Contract('C16', p + 'migrate', pause_kept)]
    return out


# ------------------------------------------------ C17
RH, RC, RF = 'hpl_hook_routing::', 'hpl_hook_routing_custom::', 'hpl_hook_routing_fallback::'
KEY = '(u32,std::vec::Vec<u8>)'


def selected(o, kind, m):
    """[(condition, hook)] in order of precedence, and the condition under which some hook applies"""
    d, r = m.slice(41, 4).intval(), m.slice(45, 32)
    t = o.map0('routes', 'u32', OPT % A)
    rt = lambda: o.at(t, d)
    routed = AND(o.has(t, d), lambda: o.isv(rt(), 'Some'))
    lev = []
    if kind == 'custom':
        cm = o.map0('custom_hooks', KEY, A)
        key = Agg(None, 0, (d, r))
        lev.append((o.has(cm, key), lambda: o.at(cm, key)))
    lev.append((routed, lambda: o.var(rt(), 'Some')))
    need = iz(m.len()) >= 77
    if kind == 'fallback':
        f = o.item0('fallback_hook', A)
        lev.append((f.present, lambda: f.val))
        need = AND(need, f.present)
    return need, lev


def pick(lev, f):
    """f(hook) for the first level that applies"""
    out = False
    for cond, h in reversed(lev):
        out = OR(AND(cond, lambda: f(h())), AND(NOT(cond), out))
    return out


def carries(o, sm, amounts):
    w = o.var(o.get(sm, 'msg'), 'Wasm')
    return funds_are(o, o.var(w, 'Execute', 'funds'), amounts)


def applies(lev):
    return OR(*[x for x, _ in lev])


def post(kind):
    def body(o):
        pd = o.var(o.msg, 'PostDispatch')
        md, m = o.get(pd, 'metadata'), o.get(pd, 'message')
        need, lev = selected(o, kind, m)
        o.post('some hook applies', lambda: AND(need, applies(lev)))
        o.post('exactly one message is sent', lambda: nmsgs(o, 1))
        fwd = lambda h: is_exec(o, one(o), h, post_dispatch_msg(o, md, m))
        o.post('the selected hook gets exactly the metadata and message', lambda: pick(lev, fwd))
        o.post('the attached coins go with it', lambda: carries(o, one(o), o.S.amt(o.funds)))
        o.post('the hook must succeed', lambda: no_reply(o, one(o)))
        o.post('nothing changes', lambda: o.frame())
        o.ensure('a message some hook applies to is dispatched', IMP(AND(need, applies(lev)), o.ok))
    return body


def quote(kind):
    def body(o):
        q = o.var(o.var(o.msg, 'Hook'), 'QuoteDispatch')
        md, m = o.get(q, 'metadata'), o.get(q, 'message')
        need, lev = selected(o, kind, m)
        def same(h):
            okq, v = o.S.query('hpl_interface::hook::QuoteDispatchResponse', h, o.S.tup('hpl_interface::hook::ExpectedHookQueryMsg', 'Hook', o.S.tup('hpl_interface::hook::HookQueryMsg', 'QuoteDispatch', o.S.mk('hpl_interface::hook::QuoteDispatchMsg', metadata=md, message=m))))
            return okq, v
        o.post('some hook applies', lambda: AND(need, applies(lev)))
        o.post('the quote is the selected hook\'s quote for this metadata and message', lambda: pick(lev, lambda h: AND(same(h)[0], lambda: o.eq(o.parsed(o.value, 'hpl_interface::hook::QuoteDispatchResponse'), same(h)[1]()))))
        o.post('a query changes nothing', lambda: o.frame())
        o.ensure('a quote of the selected hook is passed on', IMP(AND(need, pick(lev, lambda h: same(h)[0])), o.ok))
    return body


def set_fallback(o):
    h = o.var(o.msg, 'SetFallbackHook', 'hook')
    f1 = o.item1('fallback_hook', A)
    o.post('only the owner sets the fallback', lambda: owner_is_sender(o))
    o.post('exactly the given hook is stored', lambda: AND(valid(h), f1.present, o.eq(f1.val, h)))
    o.post('nothing else changes', lambda: o.frame('fallback_hook'))
    o.post('no message is sent', lambda: no_messages(o))
    o.ensure('the owner can set any valid address', IMP(AND(owner_is_sender(o), valid(h)), o.ok))


def custom_args(o, v):
    """the batch: a list of entries, or one entry"""
    return o.var(o.msg, v)


def custom(v, setting):
    tag, f = ('custom_set', Bt.custom_set) if setting else ('custom_clear', Bt.custom_clear)
    many = v.endswith('s')

    def body(o):
        E, st = o.E, o.st
        x = o.var(o.msg, v)
        vec = x if many else VecV(None, [x])
        o.post('only the owner changes custom hooks', lambda: owner_is_sender(o))
        o.post('every entry is applied, in order', lambda: map_eq(o, o.map1('custom_hooks', KEY, A), L.seq_result(E, st, o.map0('custom_hooks', KEY, A), vec, tag, f)))
        o.post('nothing else changes', lambda: o.frame('custom_hooks'))
        o.post('no message is sent', lambda: no_messages(o))
        n = E.vlen(vec)
        i = E.fresh('anyix', Int)
        good = lambda k: (Bt.custom_good if setting else Bt.hex_key)(E, st, E.deref_all(st, E.vat(st, vec, k)))
        what = 'names a 32-byte recipient and a valid hook' if setting else 'names a recipient in hexadecimal'
        o.post('every entry ' + what, lambda: IMP(z3.And(i >= 0, i < iz(n)), lambda: good(i)) if many else good(0))
        ks = positions(st, None, ('wit', 'k')) + [z3.IntVal(k) for k in range(E.unroll + 1)] if many else [z3.IntVal(0)]
        o.ensure('well-formed entries by the owner are accepted', OR(o.ok, NOT(owner_is_sender(o)), OR(*[AND(k >= 0, k < iz(n), lambda k=k: NOT(good(k))) for k in ks])))
    return body


def custom_query(o):
    q = o.var(o.msg, 'CustomRoutingHook')
    d, r = o.var(q, 'CustomHook', 'dest_domain'), o.var(q, 'CustomHook', 'recipient')
    cm = o.map0('custom_hooks', KEY, A)
    raw = Bytes.of(M.unhex(r.term()))
    key = Agg(None, 0, (d, raw))
    p = lambda: o.parsed(o.value, 'hpl_interface::hook::routing_custom::CustomHookResponse')
    o.post('the answer is the registered hook', lambda: AND(M.unhex_ok(r.term()), o.has(cm, key), o.eq(o.get(p(), 'hook'), o.at(cm, key)), ieq(o.get(p(), 'dest_domain'), d), o.eq(o.get(p(), 'recipient'), M.hex_of(raw))))
    o.post('a query changes nothing', lambda: o.frame())
    o.ensure('a registered hook is reported', IMP(AND(M.unhex_ok(r.term()), o.has(cm, key)), o.ok))


def custom_list(o):
    """one page of the hooks registered for a domain, by recipient"""
    E, st = o.E, o.st
    q = o.var(o.msg, 'CustomRoutingHook')
    f = lambda n: o.var(q, 'CustomHooks', n)
    d = f('dest_domain')
    m = o.map0('custom_hooks', KEY, A)
    okl, off, desc, lim = range_args(o, f)
    some = zb(o.isv(off, 'Some'))
    hexed = lambda: M.unhex_ok(o.var(off, 'Some').term())
    o.post('a query changes nothing', lambda: o.frame())
    o.post('pages beyond the limit are refused', lambda: okl)
    o.post('an offset is a recipient in hexadecimal', lambda: IMP(some, hexed))
    o.ensure('every page can be queried', IMP(AND(okl, IMP(some, hexed)), o.ok))

    def ans():
        R = 'hpl_interface::hook::routing_custom::CustomHooksResponse'
        r = o.get(o.parsed(o.value, R), 'custom_hooks')
        z, nk = M.nobound(B)
        k = nk if is_false(some) else M.unhex(o.var(off, 'Some').term())
        lo, hi = z3.And(some, z3.Not(zb(desc))), z3.And(some, zb(desc))
        g = lambda cnd: (z3.simplify(z3.If(cnd, 2, z)), z3.simplify(z3.If(cnd, k, nk)))
        kid = E.k(E.ty('std::vec::Vec<u8>'))
        v = M.range_val(E, st, m.pres, m.vals, B, m.vty, kid, iz(d), g(lo), g(hi), z3.simplify(z3.Not(zb(desc))))
        n = z3.If(iz(v.n) < lim, iz(v.n), lim)

        def el(i, x):
            kv = v.at(st, i).f[0]
            return AND(ieq(o.get(x, 'dest_domain'), d), o.eq(o.get(x, 'recipient'), M.hex_of(kv.f[0])), o.eq(o.get(x, 'hook'), kv.f[1]))
        return seq_eq(o, r, (n, el))
    o.post('the answer is the page of the registered hooks', ans)


def hooks_kept(*ns):
    def body(o):
        o.post('the selection is unchanged', lambda: o.unchanged(*ns))
    return body


def c17(P):
    out = []
    for p, kind, ns in ((RH, 'plain', ('routes',)), (RC, 'custom', ('routes', 'custom_hooks')), (RF, 'fallback', ('routes', 'fallback_hook'))):
        X, Q = p + 'execute', p + 'query'
        for v in msg_variants(P, X):
            lp = []
            if v[0] == 'PostDispatch':
                b = post(kind)
            elif v[0] == 'SetFallbackHook':
                b = set_fallback
            elif v[0].startswith('RegisterCustomHook'):
                b, lp = custom(v[0], True), [Bt.CUSTOMSET]
            elif v[0].startswith('ClearCustomHook'):
                b, lp = custom(v[0], False), [Bt.CUSTOMCLR]
            elif v[0] == 'Router':
                b, lp = hooks_kept(*[n for n in ns if n != 'routes']) if len(ns) > 1 else None, [Bt.ROUTES_ADDR]
            else:
                b = hooks_kept(*ns)
            if b:
                out.append(Contract('C17', X, b, variant=v, loops=lp))
        for v in msg_variants(P, Q):
            b = {('Hook', 'QuoteDispatch'): quote(kind), ('Hook', 'Mailbox'): unrestricted, ('CustomRoutingHook', 'CustomHook'): custom_query, ('CustomRoutingHook', 'CustomHooks'): custom_list}.get(tuple(v))
            if b:
                out.append(Contract('C17', Q, b, variant=v))
        out += [Contract('C17', p + f, hooks_kept(*ns)) for f in ('instantiate', 'migrate')]
    return out


def contracts(P):
    return c15(P) + c16(P) + c17(P)
