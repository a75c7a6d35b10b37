"""Symbolic arguments for entry points."""
import z3
from .core import *
from .vm import *


def symarg(E, st, ty, name):
    """symbolic value of a type; borrowed contexts are handles"""
    k = E.k(ty)
    ts = E.P.ts(ty)
    if ts.startswith(('cosmwasm_std::deps::DepsMut', 'cosmwasm_std::deps::Deps')):
        return Agg(ty, 0, (STORAGE, API, QUERIER))
    if k.k == 'ref':
        t = E.P.ts(k.e)
        if 'dyn' in t and 'Storage' in t:
            return STORAGE
        if 'dyn' in t and 'Api' in t:
            return API
        if 'QuerierWrapper' in t:
            return QUERIER
        v = symarg(E, st, k.e, name)
        return E.newcell(st, v)
    if 'QuerierWrapper' in ts:
        return QUERIER
    return E.from_term(st, ty, z3.Const('arg!' + name, E.S.sort(ty)))


def symargs(E, st, f, **over):
    args = []
    for i in range(f['argc']):
        nm = f['names'].get(str(i + 1)) or 'a%d' % i
        nm = nm.lstrip('_')
        args.append(over[nm] if nm in over else symarg(E, st, f['locals'][i + 1], nm))
    return args
