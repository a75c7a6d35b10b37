"""The contracts of the workspace: entry points, storage, message kinds."""
from engine.core import *

A = 'cosmwasm_std::addresses::Addr'

# crate -> (module path of the entry points, privileged storage, open storage)
# privileged: changed only on the owner's request; open: may be changed by operations open to everyone
T = {
    'hpl_mailbox': dict(p='hpl_mailbox::contract::', own='Ownable', priv=['config'], open=['nonce', 'latest_dispatched_id', 'deliveries'],
                        anyone=['Dispatch', 'Process']),
    'hpl_validator_announce': dict(p='hpl_validator_announce::contract::', own=None, priv=['mailbox', 'local_domain'],
                                   open=['validators', 'storage_locations', 'replay_protections'], anyone=['Announce']),
    'hpl_hook_aggregate': dict(p='hpl_hook_aggregate::', own='Ownable', priv=['hooks', 'mailbox'], open=[], anyone=['PostDispatch']),
    'hpl_hook_fee': dict(p='hpl_hook_fee::', own='Ownable', priv=['coin_fee'], open=[], anyone=['PostDispatch']),
    'hpl_hook_merkle': dict(p='hpl_hook_merkle::', own=None, priv=['mailbox'], open=['message_tree'], anyone=['PostDispatch']),
    'hpl_hook_pausable': dict(p='hpl_hook_pausable::', own='Ownable', priv=['pause'], open=[], anyone=['PostDispatch']),
    'hpl_hook_routing': dict(p='hpl_hook_routing::', own='Ownable', priv=['routes'], open=[], anyone=['PostDispatch']),
    'hpl_hook_routing_custom': dict(p='hpl_hook_routing_custom::', own='Ownable', priv=['routes', 'custom_hooks'], open=[], anyone=['PostDispatch']),
    'hpl_hook_routing_fallback': dict(p='hpl_hook_routing_fallback::', own='Ownable', priv=['routes', 'fallback_hook'], open=[], anyone=['PostDispatch']),
    'hpl_igp': dict(p='hpl_igp::contract::', own='Ownable', priv=['routes', 'hrp', 'gas_token', 'default_gas_usage', 'gas_for_domain', 'beneficiary'],
                    open=[], anyone=['PostDispatch', 'PayForGas', 'Claim']),
    'hpl_igp_oracle': dict(p='hpl_igp_oracle::contract::', own='Ownership', priv=['remote_gas_data'], open=[], anyone=[]),
    'hpl_ism_aggregate': dict(p='hpl_ism_aggregate::', own='Ownable', priv=['isms', 'threshold'], open=[], anyone=[]),
    'hpl_ism_multisig': dict(p='hpl_ism_multisig::contract::', own='Ownable', priv=['validators', 'threshold'], open=[], anyone=[]),
    'hpl_ism_pausable': dict(p='hpl_ism_pausable::', own='Ownable', priv=['pause'], open=[], anyone=[]),
    'hpl_ism_routing': dict(p='hpl_ism_routing::contract::', own='Ownable', priv=['modules'], open=[], anyone=[]),
    'hpl_warp_cw20': dict(p='hpl_warp_cw20::contract::', own='Ownable', priv=['token', 'mode', 'hrp', 'mailbox', 'routes', 'conn::mailbox', 'conn::ism', 'conn::hook'],
                          open=[], anyone=['Handle', 'TransferRemote']),
    'hpl_warp_native': dict(p='hpl_warp_native::contract::', own='Ownable', priv=['token', 'mode', 'hrp', 'mailbox', 'routes', 'conn::mailbox', 'conn::ism', 'conn::hook'],
                            open=[], anyone=['Handle', 'TransferRemote']),
}

NEST = ('::OwnableMsg', '::PausableMsg', '::RouterMsg', '::ConnectionMsg', '::FeeHookMsg', '::OwnableQueryMsg', '::PausableQueryMsg', '::RouterQuery',
        '::ConnectionQueryMsg', '::IsmQueryMsg', '::HookQueryMsg', '::MailboxQueryMsg', '::MailboxHookQueryMsg')


def msg_variants(P, fn, arg='msg'):
    """variant paths of the message argument of an entry point"""
    f = P.fn(fn)
    ix = None
    for k, v in f['names'].items():
        if v.lstrip('_') == arg and int(k) <= f['argc']:
            ix = int(k)
    ty = f['locals'][ix]
    return sub_variants(P, ty)


def sub_variants(P, ty, depth=0):
    out = []
    t = P.types[ty]
    for v in t['v']:
        fs = v['f']
        if depth < 2 and len(fs) == 1:
            s = P.types[fs[0][1]]
            if s['k'] == 'adt' and s['enum'] and any(s['name'].endswith(n) for n in NEST) or (depth == 0 and s['k'] == 'adt' and s['enum'] and 'QueryMsg' in s['name']):
                for p in sub_variants(P, fs[0][1], depth + 1):
                    out.append((v['n'],) + p)
                continue
        out.append((v['n'],))
    return out


def has_fn(P, name):
    try:
        P.fn(name)
        return True
    except Exception:
        return False
