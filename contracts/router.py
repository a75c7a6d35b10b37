"""C24 routers and connections"""
from .common import *
from .table import *
from . import batches as Bt
from .lifecycle import map_eq, stored
from engine import loops as L

RO = {'hpl_hook_routing': A, 'hpl_hook_routing_custom': A, 'hpl_hook_routing_fallback': A, 'hpl_igp': A,
      'hpl_warp_cw20': 'cosmwasm_std::hex_binary::HexBinary', 'hpl_warp_native': 'cosmwasm_std::hex_binary::HexBinary'}
OPT = 'std::option::Option<%s>'
SETT = 'hpl_interface::router::DomainRouteSet<%s>'


def inner(o, depth):
    m = o.msg
    for v in depth:
        m = o.var(m, v)
    return m


def payload(o, path):
    """the last message of a variant path, as (enum value, variant name)"""
    m = o.msg
    for v in path[:-1]:
        m = o.var(m, v)
    return lambda f: o.var(m, path[-1], f)


def set_route(t, path):
    def body(o):
        f = payload(o, path)
        s = f('set')
        dom, route = o.get(s, 'domain'), o.get(s, 'route')
        m1 = lambda: o.map1('routes', 'u32', OPT % t)
        o.post('the route of the domain is exactly the requested one', lambda: AND(o.has(m1(), dom), o.eq(o.at(m1(), dom), route)))
        o.post('no other domain changes', lambda: o.map_frame('routes', dom))
        o.post('nothing else changes', lambda: o.frame('routes'))
        o.post('no message is sent', lambda: no_messages(o))
        e = o.item0('owner', A)
        o.post('only the owner sets routes', lambda: AND(e.present, o.eq(e.val, o.sender)))
        o.ensure('the owner can set any route', IMP(AND(e.present, o.eq(e.val, o.sender)), o.ok))
    return body


def set_routes(t, path):
    def body(o):
        f = payload(o, path)
        v = f('set')
        seq = Bt.ROUTES_ADDR if t == A else Bt.ROUTES_HEX
        o.post('every entry of the batch is applied, in order', lambda: map_eq(o, o.map1('routes', 'u32', OPT % t),
                L.seq_result(o.E, o.st, o.map0('routes', 'u32', OPT % t), v, seq.tag, Bt.route_set)))
        o.post('nothing else changes', lambda: o.frame('routes'))
        o.post('no message is sent', lambda: no_messages(o))
        e = o.item0('owner', A)
        o.post('only the owner sets routes', lambda: AND(e.present, o.eq(e.val, o.sender)))
        o.ensure('the owner can set any routes', IMP(AND(e.present, o.eq(e.val, o.sender)), o.ok))
    return body


def get_route(t, path):
    def body(o):
        f = payload(o, path)
        dom = f('domain')
        m = o.map0('routes', 'u32', OPT % t)
        o.post('a query changes nothing', lambda: o.frame())

        def ans():
            r = o.get(o.parsed(o.value, 'hpl_interface::router::RouteResponse<%s>' % t), 'route')
            want = o.at(m, dom)
            set_ = AND(o.has(m, dom), o.isv(want, 'Some'))
            return AND(ieq(o.get(r, 'domain'), dom), opt_is(o, o.get(r, 'route'), set_, lambda: o.var(want, 'Some')))
        o.post('the answer is the route last set, or none', ans)
        o.ensure('every domain can be queried', o.ok)
    return body


def range_args(o, f):
    """(precondition of success, bounds, direction, limit) of a paginated query"""
    off, lim, order = f('offset'), f('limit'), f('order')
    n = opt_term(o, lim, iz, z3.IntVal(10))
    okl = n <= 30
    desc = some_and(o, order, lambda x: o.isv(x, 'Desc'))
    return okl, off, desc, n


def zb(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


def bounds(o, off, desc, ks):
    """exclusive lower bound when ascending, exclusive upper bound when descending: (kind, key) terms"""
    z, nk = M.nobound(ks)
    some = zb(o.isv(off, 'Some'))
    k = nk if is_false(some) else M.key_term(o.E, o.st, o.var(off, 'Some'))
    lo, hi = z3.And(some, z3.Not(zb(desc))), z3.And(some, zb(desc))
    f = lambda cnd: (z3.simplify(z3.If(cnd, 2, z)), z3.simplify(z3.If(cnd, k, nk)))
    return f(lo), f(hi)


def domains(t, path):
    def body(o):
        m = o.map0('routes', 'u32', OPT % t)
        o.post('a query changes nothing', lambda: o.frame())

        def ans():
            r = o.get(o.parsed(o.value, 'hpl_interface::router::DomainsResponse'), 'domains')
            want = range_keys(o, m)
            return seq_eq(o, r, want)
        o.post('the answer lists exactly the stored domains, ascending', ans)
        o.ensure('reach:answers', o.ok)
    return body


def seq_eq(o, got, want):
    """sequences of equal length whose elements agree at an arbitrary index"""
    E, st = o.E, o.st
    n, k = E.vlen(got), want[0]
    i = E.fresh('anyix', Int)
    return AND(ieq(n, k), IMP(z3.And(i >= 0, i < iz(k)), lambda: want[1](i, E.deref_all(st, E.vat(st, got, i)))))


def range_keys(o, m):
    E, st = o.E, o.st
    u32 = E.ty('u32')
    v = M.range_val(E, st, m.pres, m.vals, Int, m.vty, E.k(u32), None, M.nobound(Int), M.nobound(Int), z3.BoolVal(True), True)
    return v.n, lambda i, x: ieq(x, v.at(st, i).f[0])


def list_routes(t, path):
    def body(o):
        f = payload(o, path)
        m = o.map0('routes', 'u32', OPT % t)
        okl, off, desc, lim = range_args(o, f)
        o.post('a query changes nothing', lambda: o.frame())
        o.post('pages beyond the limit are refused', lambda: okl)
        o.ensure('every page can be queried', IMP(okl, o.ok))

        def ans():
            E, st = o.E, o.st
            r = o.get(o.parsed(o.value, 'hpl_interface::router::RoutesResponse<%s>' % t), 'routes')
            mn, mx = bounds(o, off, desc, Int)
            v = M.range_val(E, st, m.pres, m.vals, Int, m.vty, E.k(E.ty('u32')), None, mn, mx, z3.simplify(z3.Not(zb(desc))))
            n = z3.If(iz(v.n) < lim, iz(v.n), lim)

            def el(i, x):
                kv = v.at(st, i).f[0]
                return AND(ieq(o.get(x, 'domain'), kv.f[0]), o.eq(o.get(x, 'route'), kv.f[1]))
            return seq_eq(o, r, (n, el))
        o.post('the answer is the page of the stored routes', ans)
    return body


# ------------------------------------------------ connections
CONN = {'Mailbox': 'conn::mailbox', 'Ism': 'conn::ism', 'Hook': 'conn::hook'}


def conn_set(kind, path):
    ns = CONN[kind]

    def body(o):
        f = payload(o, path)
        a = f(kind.lower())
        o.post('the connection is exactly the requested address, validated', lambda: AND(valid(a), stored(o, ns, a, A)))
        o.post('nothing else changes', lambda: o.frame(ns))
        o.post('no message is sent', lambda: no_messages(o))
        e = o.item0('owner', A)
        o.post('only the owner sets connections', lambda: AND(e.present, o.eq(e.val, o.sender)))
        o.ensure('the owner can set any valid connection', IMP(AND(e.present, o.eq(e.val, o.sender), valid(a)), o.ok))
    return body


def conn_get(kind, path):
    ns = CONN[kind]

    def body(o):
        e = o.item0(ns, A)
        o.post('a query changes nothing', lambda: o.frame())

        def ans():
            r = o.get(o.parsed(o.value, 'hpl_interface::connection::%sResponse' % kind), kind.lower())
            return opt_is(o, r, e.present, lambda: e.val)
        o.post('the answer is the address last set, or none', ans)
        o.ensure('the connection can always be queried', o.ok)
    return body


def ism_specifier(path):
    def body(o):
        e = o.item0('conn::ism', A)

        def ans():
            r = o.get(o.parsed(o.value, 'hpl_interface::ism::InterchainSecurityModuleResponse'), 'ism')
            return opt_is(o, r, e.present, lambda: e.val)
        o.post('recipients name exactly the module last set, or none', ans)
        o.post('a query changes nothing', lambda: o.frame())
        o.ensure('the module can always be queried', o.ok)
    return body


def contracts(P):
    out = []
    for cr, t in RO.items():
        p = T[cr]['p']
        for v in msg_variants(P, p + 'execute'):
            b = None
            if v[0] == 'Router':
                b = {'SetRoute': set_route, 'SetRoutes': set_routes}[v[1]](t, v)
            elif v[0] == 'Connection':
                b = conn_set(v[1][3:], v)
            if b:
                out.append(Contract('C24', p + 'execute', b, variant=v, loops=Bt.loops_of(cr, v)))
        for v in msg_variants(P, p + 'query'):
            b = None
            if v[0] == 'Router' and v[1] != 'Placeholder':
                b = {'Domains': domains, 'GetRoute': get_route, 'ListRoutes': list_routes}[v[1]](t, v)
            elif v[0] == 'Connection':
                b = conn_get(v[1][3:], v)
            elif v[0] == 'IsmSpecifier':
                b = ism_specifier(v)
            if b:
                out.append(Contract('C24', p + 'query', b, variant=v))
    return out
