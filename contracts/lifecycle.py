"""C26 initialization, C27 migration"""
import os, re, glob
from .common import *
from .table import *
from . import batches as Bt
from engine import loops as L
from engine.more import semver_lt

REPO = os.environ.get('VERIF_REPO', '/repo')


def packages():
    out = {}
    ver = re.search(r'\[workspace\.package\][^\[]*?version\s*=\s*"([^"]+)"', open(REPO + '/Cargo.toml').read(), re.S).group(1)
    for p in glob.glob(REPO + '/contracts/*/*/Cargo.toml'):
        s = open(p).read()
        n = re.search(r'^name\s*=\s*"([^"]+)"', s, re.M).group(1)
        v = re.search(r'^version\s*=\s*"([^"]+)"', s, re.M)
        out[n.replace('-', '_')] = (n, v.group(1) if v else ver)
    return out


CV = 'cw2::ContractVersion'


def migration(name, version):
    def body(o):
        e = o.item0('contract_info', CV)
        vn, vv = c(name), c(version)
        st_n, st_v = o.get(e.val, 'contract'), o.get(e.val, 'version')
        newer = semver_lt(o.E, o.st, st_v, vv)
        o.post('only the same contract migrates', lambda: AND(e.present, o.eq(st_n, vn)))
        o.post('only a lower version migrates', lambda: newer)
        o.post('the new version is recorded', lambda: AND(o.item1('contract_info').present, o.eq(o.item1('contract_info').val, o.S.mk(CV, contract=vn, version=vv))))
        o.post('no other state changes', lambda: o.frame('contract_info'))
        o.post('no message is sent', lambda: no_messages(o))
        pok = uf('parse_ok<semver::Version>', B, BoolS)
        o.ensure('a lower version migrates', IMP(AND(e.present, o.eq(st_n, vn), newer, pok(st_v.term()), pok(vv.term())), o.ok))
    return body


# ------------------------------------------------ instantiate
def stored(o, ns, val, ty):
    e = o.item1(ns, ty)
    return AND(e.present, o.eq(e.val, val))


def init(name, version, spec_, frame):
    """spec_: list of (clause, function of o -> condition on success); frame: namespaces written"""
    def body(o):
        if is_false(o.ok):
            return
        o.post('contract name and version are recorded', lambda: stored(o, 'contract_info', o.S.mk(CV, contract=c(name), version=c(version)), CV))
        for n, f in spec_:
            o.post(n, lambda: f(o))
        o.post('nothing else is stored', lambda: o.frame('contract_info', *frame))
        o.ensure('reach:instantiates', o.ok)
    return body


def m_(o, f):
    return o.get(o.msg, f)


OWN = ('the owner is the requested address, validated', lambda o: AND(valid(m_(o, 'owner')), stored(o, 'owner', m_(o, 'owner'), A)))
NOMSG = ('no message is sent', no_messages)


def addrs_valid(o, v):
    """every element of a list of addresses is valid (at an arbitrary index)"""
    n = o.E.vlen(v)
    if isinstance(n, int):
        return AND(*[valid(o.E.vat(o.st, v, i)) for i in range(n)])
    i = o.E.fresh('anyix', Int)
    return IMP(z3.And(i >= 0, i < n), valid(o.E.deref_all(o.st, o.E.vat(o.st, v, i))))


def lower(s):
    from engine.coll import all_lower
    return all_lower(s.term())


def mailbox_cfg(o):
    CFG = 'hpl_mailbox::state::Config'
    NA = o.S.none('std::option::Option<%s>' % A)
    return stored(o, 'config', o.S.mk(CFG, hrp=m_(o, 'hrp'), local_domain=m_(o, 'domain'), default_ism=NA, default_hook=NA, required_hook=NA), CFG)


def va_domain(o):
    q = o.S.tup('hpl_interface::core::mailbox::QueryMsg', 'Mailbox', o.S.mk('hpl_interface::core::mailbox::MailboxQueryMsg', 'LocalDomain'))
    okq, v = o.S.query('hpl_interface::core::mailbox::LocalDomainResponse', m_(o, 'mailbox'), q)
    return AND(okq, stored(o, 'local_domain', o.get(v(), 'local_domain'), 'u32'))


def ism_modules(o):
    v = m_(o, 'isms')
    m0 = o.map0('modules', 'u32', A)
    want = L.seq_result(o.E, o.st, m0, v, 'mod_set', Bt.ism_set)
    got = o.map1('modules')
    return map_eq(o, got, want)


def map_eq(o, got, want):
    if got.pres.eq(want.pres) and got.vals.eq(want.vals):
        return True
    k = o.E.fresh('anykey', got.pres.sort().domain())
    return AND(z3.Select(got.pres, k) == z3.Select(want.pres, k), IMP(z3.Select(want.pres, k), z3.Select(got.vals, k) == z3.Select(want.vals, k)))


MODE = 'hpl_interface::warp::TokenMode'


def warp_mode(o):
    t = m_(o, 'token')
    br = o.isv(t, 'Bridged')
    e = o.item1('mode', MODE)
    return AND(e.present, IFF(br, o.isv(e.val, 'Bridged')), IFF(NOT(br), o.isv(e.val, 'Collateral')))


def warp_token_native(o):
    t = m_(o, 'token')
    br = o.isv(t, 'Bridged')
    if is_true(br):
        return o.unchanged('token')
    return AND(IMP(br, lambda: o.unchanged('token')), IMP(NOT(br), lambda: stored(o, 'token', o.get(o.var(t, 'Collateral'), 'denom'), 'std::string::String')))


def warp_token_cw20(o):
    t = m_(o, 'token')
    br = o.isv(t, 'Bridged')
    if is_true(br):
        return o.unchanged('token')
    a = lambda: o.get(o.var(t, 'Collateral'), 'address')
    return AND(IMP(br, lambda: o.unchanged('token')), IMP(NOT(br), lambda: AND(valid(a()), stored(o, 'token', a(), A))))


def warp_msgs_native(o):
    """a collateral route sends nothing; a bridged one creates exactly its denom first"""
    t = m_(o, 'token')
    br = o.isv(t, 'Bridged')
    l = msg_items(o)
    if l is None or len(l) > 2:
        return False
    if not l:
        return NOT(br)
    b = o.var(t, 'Bridged')
    meta = o.get(b, 'metadata')
    want = o.S.mk('hpl_warp_native::proto::MsgCreateDenom', sender=o.self_addr, subdenom=o.get(b, 'denom'))
    msg = o.get(l[0], 'msg')
    second = denom_metadata(o, l[1], meta) if len(l) == 2 else True
    return AND(br, IFF(o.isv(meta, 'Some'), len(l) == 2), second, o.isv(msg, 'Stargate'), lambda: AND(o.eq(o.var(msg, 'Stargate', 'type_url'), c('/osmosis.tokenfactory.v1beta1.MsgCreateDenom')),
               o.eq(o.var(msg, 'Stargate', 'value'), prost(o, want))), o.isv(o.get(l[0], 'reply_on'), 'Success'), ieq(o.get(l[0], 'id'), 0))


def denom_metadata(o, sm, meta):
    """the message gives the created denom exactly the requested description"""
    msg = o.get(sm, 'msg')
    ty = o.E.ty('hpl_warp_native::proto::MsgSetDenomMetadata')
    if is_false(o.isv(msg, 'Stargate')):
        return False
    t = o.var(msg, 'Stargate', 'value').term()
    if not z3.is_app(t) or t.decl().name() != 'prost<%s>' % o.E.P.ts(ty):
        return False
    v = o.E.from_term(o.st, ty, t.arg(0))
    some = o.get(v, 'metadata')

    def same():
        got, want = o.var(some, 'Some'), o.var(meta, 'Some')
        gu, wu = o.get(got, 'denom_units'), o.get(want, 'denom_units')
        E, st = o.E, o.st
        i = E.fresh('anyix', Int)
        el = lambda v: E.deref_all(st, E.vat(st, v, i))
        return AND(*[o.eq(o.get(got, f), o.get(want, f)) for f in ('description', 'base', 'display', 'name', 'symbol')],
                   ieq(E.vlen(gu), E.vlen(wu)), IMP(z3.And(i >= 0, i < iz(E.vlen(gu))), lambda: AND(*[o.eq(o.get(el(gu), f), o.get(el(wu), f)) for f in ('denom', 'exponent', 'aliases')])))
    return AND(o.eq(o.var(msg, 'Stargate', 'type_url'), c('/osmosis.tokenfactory.v1beta1.MsgSetDenomMetadata')), o.eq(o.get(v, 'sender'), o.self_addr),
               o.isv(meta, 'Some'), o.isv(some, 'Some'), same, o.isv(o.get(sm, 'reply_on'), 'Never'))


def prost(o, v):
    t = o.E.term(o.st, v, v.ty)
    return Bytes.of(uf('prost<%s>' % o.E.P.ts(v.ty), t.sort(), B)(t))


def warp_msgs_cw20(o):
    """a collateral route sends nothing; a bridged one instantiates exactly its token, mintable by itself only"""
    t = m_(o, 'token')
    br = o.isv(t, 'Bridged')
    l = msg_items(o)
    if l is None or len(l) > 1:
        return False
    if not l:
        return NOT(br)
    b = o.var(t, 'Bridged')
    im = o.get(b, 'init_msg')
    decl = o.E.variants(im.ty)[0]['f']
    fields = {fn: o.get(im, fn) for fn, _ in decl}
    fields['mint'] = o.S.some(dict(decl)['mint'], minter(o, im))
    want = Agg(im.ty, 0, [fields[fn] for fn, _ in decl])
    msg = o.get(l[0], 'msg')
    if is_false(o.isv(msg, 'Wasm')):
        return False
    w = o.var(msg, 'Wasm')

    def inst():
        adm = o.var(w, 'Instantiate', 'admin')
        return AND(o.isv(adm, 'Some'), lambda: o.eq(o.var(adm, 'Some'), o.self_addr), ieq(o.var(w, 'Instantiate', 'code_id'), o.get(b, 'code_id')),
                   o.eq(o.var(w, 'Instantiate', 'msg'), o.S.json(want)), funds_are(o, o.var(w, 'Instantiate', 'funds'), []))
    return AND(br, o.isv(msg, 'Wasm'), o.isv(w, 'Instantiate'), inst, o.isv(o.get(l[0], 'reply_on'), 'Success'), ieq(o.get(l[0], 'id'), 0))


def minter(o, im):
    E = o.E
    fs = dict(E.variants(im.ty)[0]['f'])
    mt = E.k(fs['mint']).t['ga'][0]
    mf = dict(E.variants(mt)[0]['f'])
    return M.mk(E, mt, None, minter=o.self_addr, cap=Agg(mf['cap'], 0, ()))


WARP = [OWN, ('the mailbox is the requested address, validated', lambda o: AND(valid(m_(o, 'mailbox')), stored(o, 'mailbox', m_(o, 'mailbox'), A))),
        ('the prefix is stored', lambda o: stored(o, 'hrp', m_(o, 'hrp'), 'std::string::String')),
        ('the mode is stored', warp_mode)]

U = ('u32',)
INIT = {
    'hpl_mailbox': ([OWN, NOMSG, ('the configuration is the requested one', mailbox_cfg), ('the prefix is lowercase', lambda o: lower(m_(o, 'hrp'))),
                     ('the nonce is zero', lambda o: stored(o, 'nonce', 0, 'u32'))], ['owner', 'config', 'nonce']),
    'hpl_validator_announce': ([NOMSG, ('the mailbox is the requested one, decoded', lambda o: AND(valid(m_(o, 'mailbox')), b32ok(m_(o, 'mailbox')), stored(o, 'mailbox', b32data(m_(o, 'mailbox')), 'std::vec::Vec<u8>'))),
                                ('the domain is what the mailbox answers', va_domain)], ['mailbox', 'local_domain']),
    'hpl_hook_aggregate': ([OWN, NOMSG, ('the hooks are stored', lambda o: stored(o, 'hooks', m_(o, 'hooks'), 'std::vec::Vec<%s>' % A)),
                            ('every hook address is valid', lambda o: addrs_valid(o, m_(o, 'hooks')))], ['owner', 'hooks']),
    'hpl_hook_fee': ([OWN, NOMSG, ('the fee is stored', lambda o: stored(o, 'coin_fee', m_(o, 'fee'), 'cosmwasm_std::coin::Coin'))], ['owner', 'coin_fee']),
    'hpl_hook_merkle': ([NOMSG, ('the mailbox is the requested address, validated', lambda o: AND(valid(m_(o, 'mailbox')), stored(o, 'mailbox', m_(o, 'mailbox'), A))),
                         ('the tree is empty', lambda o: empty_tree(o))], ['mailbox', 'message_tree']),
    'hpl_hook_pausable': ([OWN, NOMSG, ('the pause state is stored', lambda o: stored(o, 'pause', m_(o, 'paused'), 'bool'))], ['owner', 'pause']),
    'hpl_hook_routing': ([OWN, NOMSG], ['owner']),
    'hpl_hook_routing_custom': ([OWN, NOMSG], ['owner']),
    'hpl_hook_routing_fallback': ([OWN, NOMSG], ['owner']),
    'hpl_igp': ([OWN, NOMSG, ('the beneficiary is the requested address, validated', lambda o: AND(valid(m_(o, 'beneficiary')), stored(o, 'beneficiary', m_(o, 'beneficiary'), A))),
                 ('the gas token is stored', lambda o: stored(o, 'gas_token', m_(o, 'gas_token'), 'std::string::String')),
                 ('the prefix is stored and lowercase', lambda o: AND(lower(m_(o, 'hrp')), stored(o, 'hrp', m_(o, 'hrp'), 'std::string::String'))),
                 ('the default gas is stored', lambda o: stored(o, 'default_gas_usage', m_(o, 'default_gas_usage'), 'u128'))],
                ['owner', 'beneficiary', 'gas_token', 'hrp', 'default_gas_usage']),
    'hpl_igp_oracle': ([OWN, NOMSG], ['owner']),
    'hpl_ism_aggregate': ([OWN, NOMSG, ('the modules are stored', lambda o: stored(o, 'isms', m_(o, 'isms'), 'std::vec::Vec<%s>' % A)),
                           ('every module address is valid', lambda o: addrs_valid(o, m_(o, 'isms'))),
                           ('the threshold is stored', lambda o: stored(o, 'threshold', m_(o, 'threshold'), 'u8'))], ['owner', 'isms', 'threshold']),
    'hpl_ism_multisig': ([OWN, NOMSG], ['owner']),
    'hpl_ism_pausable': ([OWN, NOMSG, ('the pause state is stored', lambda o: stored(o, 'pause', m_(o, 'paused'), 'bool'))], ['owner', 'pause']),
    'hpl_ism_routing': ([OWN, NOMSG, ('the modules are the requested ones', ism_modules)], ['owner', 'modules']),
    'hpl_warp_cw20': (WARP + [('the token of a collateral route is stored', warp_token_cw20), ('a bridged route creates its token', warp_msgs_cw20)], ['owner', 'mailbox', 'hrp', 'mode', 'token']),
    'hpl_warp_native': (WARP + [('the token of a collateral route is stored', warp_token_native), ('a bridged route creates its denom', warp_msgs_native)], ['owner', 'mailbox', 'hrp', 'mode', 'token']),
}


def empty_tree(o):
    e = o.item1('message_tree', 'hpl_interface::types::MerkleTree')
    t = e.val
    br = o.get(t, 'branch')
    return AND(e.present, ieq(o.get(t, 'count'), 0), ieq(o.E.vlen(br), 32))


def reply_cw20(o):
    b = lambda: o.var(o.get(o.msg, 'result'), 'Ok')
    e = o.item1('token', A)
    o.post('only the token creation is answered', lambda: AND(ieq(o.get(o.msg, 'id'), 0), o.isv(o.get(o.msg, 'result'), 'Ok')))
    def tok():
        data = o.var(o.get(b(), 'data'), 'Some')
        ty = o.E.ty('cw_utils::parse_reply::MsgInstantiateContractResponse')
        v = o.E.from_term(o.st, ty, uf('parse_instantiate', B, o.E.S.sort(ty))(data.term()))
        a = o.get(v, 'contract_address')
        return AND(e.present, o.eq(e.val, a), valid(a))
    o.post('the token is the created contract', tok)
    o.post('nothing else changes', lambda: o.frame('token'))
    o.post('no message is sent', lambda: no_messages(o))


def reply_native(o):
    b = lambda: o.var(o.get(o.msg, 'result'), 'Ok')
    e = o.item1('token', 'std::string::String')
    o.post('only the denom creation is answered', lambda: AND(ieq(o.get(o.msg, 'id'), 0), o.isv(o.get(o.msg, 'result'), 'Ok')))
    def tok():
        data = o.var(o.get(b(), 'data'), 'Some')
        ty = o.E.ty('hpl_warp_native::proto::MsgCreateDenomResponse')
        v = o.E.from_term(o.st, ty, uf('unprost<%s>' % o.E.P.ts(ty), B, o.E.S.sort(ty))(data.term()))
        return AND(e.present, o.eq(e.val, o.get(v, 'new_token_denom')))
    o.post('the token is the created denom', tok)
    o.post('nothing else changes', lambda: o.frame('token'))
    o.post('no message is sent', lambda: no_messages(o))


def contracts(P):
    pk = packages()
    out = []
    for cr, t in T.items():
        name, version = pk[cr]
        out.append(Contract('C27', t['p'] + 'migrate', migration(name, version)))
        sp, fr = INIT[cr]
        variants = [None]
        if 'warp' in cr:
            pass
        loops = [Bt.MODSET] if cr == 'hpl_ism_routing' else []
        out.append(Contract('C26', t['p'] + 'instantiate', init(name, version, sp, fr), loops=loops))
    out.append(Contract('C26', 'hpl_warp_cw20::contract::reply', reply_cw20))
    out.append(Contract('C26', 'hpl_warp_native::contract::reply', reply_native))
    return out
