"""C25 validator announcements"""
from .common import *
from .table import *
from .router import seq_eq, zb
from .codecs import eth_prefixed

V = 'hpl_validator_announce::contract::'
BY = 'std::vec::Vec<u8>'
EM = 'cosmwasm_std::empty::Empty'   # canonical name looked up below
LOCS = 'std::vec::Vec<std::string::String>'


def empty_ty(E):
    return next(t for t in E.tyids if t.endswith('Empty') and 'cosmwasm_std' in t and '<' not in t)


def maps(o, after):
    m = o.map1 if after else o.map0
    e = empty_ty(o.E)
    return m('validators', BY, e), m('storage_locations', BY, LOCS), m('replay_protections', BY, e)


def announcement(o):
    """digest the validator signs"""
    mb, dom = o.item0('mailbox', BY), o.item0('local_domain', 'u32')
    m = mb.val
    padded = c(b'\0' * 32).slice(0, isub(32, m.len())) + m
    dh = ksum(be(4, dom.val), padded, c('HYPERLANE_ANNOUNCEMENT'))
    return AND(mb.present, dom.present), m, eth_prefixed(o, ksum(dh, o.var(o.msg, 'Announce', 'storage_location')))


def locations(o, m, key):
    """(length, element) of the list recorded for a validator; empty if none"""
    E, st = o.E, o.st
    p = o.has(m, key)
    v = o.at(m, key)
    n = z3.If(zb(p), iz(E.vlen(v)), z3.IntVal(0))
    return p, n, lambda i: E.deref_all(st, E.vat(st, v, i))


def announce(o):
    E, st = o.E, o.st
    f = lambda n: o.var(o.msg, 'Announce', n)
    val, loc, sig = f('validator'), f('storage_location'), f('signature')
    key = ksum(val, loc)
    v0, l0, r0 = maps(o, False)
    conf, mb, dig = announcement(o)
    rs, rv = sig.slice(0, 64), sig.slice(64, 1).intval()
    rid = z3.simplify(iz(rv) - 27)
    rok = M.rec_ok(dig.term(), rs.term(), rid)
    pk = Bytes.of(M.rec_val(dig.term(), rs.term(), rid))
    set_len(pk, 65)
    who = ksum(pk.slice(1, 64)).slice(12, 20)
    fresh = NOT(o.has(r0, key))
    n = sig.len()
    o.post('the signature recovers exactly the validator', lambda: AND(iz(n) >= 65, rok, o.eq(who, val)))
    o.post('the announcement is new', lambda: fresh)
    v1, l1, r1 = maps(o, True)
    o.post('the announcement is recorded as used', lambda: o.has(r1, key))
    o.post('no other announcement is marked', lambda: o.map_frame('replay_protections', key))
    o.post('the validator is listed', lambda: o.has(v1, val))
    o.post('no other validator is listed or dropped', lambda: o.map_frame('validators', val))

    def appended():
        p0, n0, at0 = locations(o, l0, val)
        p1, n1, at1 = locations(o, l1, val)
        i = E.fresh('anyix', Int)
        return AND(p1, n1 == n0 + 1, lambda: o.eq(at1(n0), loc), IMP(z3.And(i >= 0, i < n0), lambda: o.eq(at1(i), at0(i))))
    o.post('the location is appended to the list of the validator', appended)
    o.post('the list of every other validator is unchanged', lambda: o.map_frame('storage_locations', val))
    o.post('nothing else changes', lambda: o.frame('validators', 'storage_locations', 'replay_protections'))
    o.post('no message is sent', lambda: no_messages(o))
    o.ensure('an authentic new announcement is accepted', IMP(AND(conf, iz(mb.len()) <= 32, iz(n) >= 65, iz(rv) >= 27, fresh, rok, o.eq(who, val), ieq(val.len(), 20)), o.ok))


def set_len(b, n):
    t = b.term()
    if z3.is_app(t):
        from engine.core import set_fixedlen
        set_fixedlen(t, n)


def q_locations(o):
    E, st = o.E, o.st
    vs = o.var(o.msg, 'GetAnnounceStorageLocations', 'validators')
    m = maps(o, False)[1]
    o.post('a query changes nothing', lambda: o.frame())

    def ans():
        r = o.get(o.parsed(o.value, 'hpl_interface::core::va::GetAnnounceStorageLocationsResponse'), 'storage_locations')

        def el(i, x):
            v = E.deref_all(st, E.vat(st, vs, i))
            p, n, at = locations(o, m, v)
            got = o.get(x, '1')
            j = E.fresh('anyj', Int)
            return AND(o.eq(o.get(x, '0'), M.hex_of(v)), ieq(E.vlen(got), n), IMP(z3.And(j >= 0, j < n), lambda: o.eq(E.deref_all(st, E.vat(st, got, j)), at(j))))
        return seq_eq(o, r, (E.vlen(vs), el))
    o.post('for every requested validator its list, in order', ans)
    o.ensure('every list of validators can be queried', o.ok)


def q_validators(o):
    E, st = o.E, o.st
    m = maps(o, False)[0]
    o.post('a query changes nothing', lambda: o.frame())

    def ans():
        r = o.get(o.parsed(o.value, 'hpl_interface::core::va::GetAnnouncedValidatorsResponse'), 'validators')
        ks = M.keysort(E, E.ty(BY))
        v = M.range_val(E, st, m.pres, m.vals, ks, m.vty, E.k(E.ty(BY)), None, M.nobound(ks), M.nobound(ks), z3.BoolVal(True), True)
        return seq_eq(o, r, (v.n, lambda i, x: o.eq(x, M.hex_of(v.at(st, i).f[0]))))
    o.post('exactly the announced validators', ans)
    o.ensure('the validators can always be queried', o.ok)


def q_mailbox(o):
    e = o.item0('mailbox', BY)
    o.post('the configured mailbox', lambda: AND(e.present, o.eq(o.get(o.parsed(o.value, 'hpl_interface::core::va::MailboxResponse'), 'mailbox'), M.hex_of(e.val))))
    o.post('a query changes nothing', lambda: o.frame())
    o.ensure('it can be queried once instantiated', IMP(e.present, o.ok))


def q_domain(o):
    e = o.item0('local_domain', 'u32')
    o.post('the recorded domain', lambda: AND(e.present, ieq(o.get(o.parsed(o.value, 'hpl_interface::core::va::LocalDomainResponse'), 'local_domain'), e.val)))
    o.post('a query changes nothing', lambda: o.frame())
    o.ensure('it can be queried once instantiated', IMP(e.present, o.ok))


def contracts(P):
    Q = {'GetAnnounceStorageLocations': q_locations, 'GetAnnouncedValidators': q_validators, 'Mailbox': q_mailbox, 'LocalDomain': q_domain}
    out = [Contract('C25', V + 'execute', announce, variant=('Announce',))]
    for v in msg_variants(P, V + 'query'):
        if v[0] in Q:
            out.append(Contract('C25', V + 'query', Q[v[0]], variant=v))
    return out
