"""Batch operations: every entry is applied in order to one map (loop contracts and their specification)."""
from .common import *
from .table import A
from engine import loops as L


def fld(E, st, x, n):
    return E.deref_all(st, E.fname(st, x, n))


def route_set(E, st, x):
    return fld(E, st, x, 'domain'), fld(E, st, x, 'route')


def gas_data(E, st, x):
    ty = E.ty('hpl_igp_oracle::state::RemoteGasData')
    return fld(E, st, x, 'remote_domain'), M.mk(E, ty, None, token_exchange_rate=fld(E, st, x, 'token_exchange_rate'), gas_price=fld(E, st, x, 'gas_price'))


def rated(E, st, x):
    return iz(fld(E, st, x, 'token_exchange_rate')) > 0


def gas_for(E, st, x):
    return fld(E, st, x, '0'), fld(E, st, x, '1')


def drop_domain(E, st, x):
    return x, None


def custom_key(E, st, x):
    return Agg(None, 0, (fld(E, st, x, 'dest_domain'), Bytes.of(M.unhex(fld(E, st, x, 'recipient').term()))))


def custom_set(E, st, x):
    return custom_key(E, st, x), fld(E, st, x, 'hook')


def hex_key(E, st, x):
    return M.unhex_ok(fld(E, st, x, 'recipient').term())


def custom_good(E, st, x):
    r = fld(E, st, x, 'recipient').term()
    return AND(M.unhex_ok(r), ieq(Bytes.of(M.unhex(r)).len(), 32), M.addr_ok(fld(E, st, x, 'hook').term()))


def custom_clear(E, st, x):
    return custom_key(E, st, x), None


def ism_set(E, st, x):
    return fld(E, st, x, 'domain'), fld(E, st, x, 'address')


def u32(E):
    return E.ty('u32')


def addr(E):
    return E.ty(A)


def tyf(s):
    return lambda E: E.ty(s)


OPT = 'std::option::Option<%s>'
ROUTES_ADDR = L.SeqStore('routes', u32, tyf(OPT % A), 'route_set', route_set)
ROUTES_HEX = L.SeqStore('routes', u32, tyf(OPT % 'cosmwasm_std::hex_binary::HexBinary'), 'route_set_hex', route_set)
GASDATA = L.SeqStore('remote_gas_data', u32, tyf('hpl_igp_oracle::state::RemoteGasData'), 'gas_data', gas_data, rated)
RATED = L.CheckAll(rated)
GASFOR = L.SeqStore('gas_for_domain', u32, tyf('u128'), 'gas_for', gas_for)
GASUNSET = L.SeqStore('gas_for_domain', u32, tyf('u128'), 'gas_unset', drop_domain)
MODUNSET = L.SeqStore('modules', u32, addr, 'mod_unset', drop_domain)
MODSET = L.SeqStore('modules', u32, addr, 'mod_set', ism_set)
CUSTOM_KEY = lambda E: E.ty('(u32,std::vec::Vec<u8>)')
CUSTOMSET = L.SeqStore('custom_hooks', CUSTOM_KEY, addr, 'custom_set', custom_set, custom_good)
CUSTOMCLR = L.SeqStore('custom_hooks', CUSTOM_KEY, addr, 'custom_clear', custom_clear, hex_key)


def loops_of(cr, v):
    k = (cr, v[-1])
    if v[-1] == 'SetRoutes':
        return [ROUTES_HEX if 'warp' in cr else ROUTES_ADDR]
    return {('hpl_igp_oracle', 'SetRemoteGasDataConfigs'): [GASDATA, RATED], ('hpl_igp', 'SetGasForDomain'): [GASFOR], ('hpl_igp', 'UnsetGasForDomain'): [GASUNSET],
            ('hpl_ism_routing', 'Unset'): [MODUNSET], ('hpl_hook_routing_custom', 'RegisterCustomHooks'): [CUSTOMSET],
            ('hpl_hook_routing_custom', 'ClearCustomHooks'): [CUSTOMCLR], ('hpl_hook_routing_custom', 'RegisterCustomHook'): [CUSTOMSET],
            ('hpl_hook_routing_custom', 'ClearCustomHook'): [CUSTOMCLR]}.get(k, [])
