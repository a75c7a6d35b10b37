"""C06 ownership, C07 privileged configuration"""
from .common import *
from .table import *


def owner0(o):
    return o.item0('owner', A)


def owner1(o):
    return o.item1('owner', A)


def pend0(o):
    return o.item0('pending_owner', A)


def pend1(o):
    return o.item1('pending_owner', A)


def is_owner(o):
    e = owner0(o)
    return AND(e.present, o.eq(o.sender, e.val))


def other(o):
    o.post('owner and nominee stay as they were', lambda: o.unchanged('owner', 'pending_owner'))


def init_transfer(own):
    def body(o):
        m = o.var(o.msg, own)
        next_ = o.var(m, 'InitOwnershipTransfer', 'next_owner')
        ok = o.ok
        o.post('only the owner offers the ownership', lambda: is_owner(o))
        o.post('no offer while one is pending', lambda: NOT(pend0(o).present))
        o.post('the offered address is valid', lambda: valid(next_))
        o.post('the nominee is stored', lambda: AND(pend1(o).present, o.eq(pend1(o).val, next_)))
        o.post('nothing else changes', lambda: o.frame('pending_owner'))
        o.ensure('the owner can offer', IMP(AND(is_owner(o), NOT(pend0(o).present), valid(next_)), ok))
        o.post('no message is sent', lambda: no_messages(o))
    return body


def revoke(o):
    ok = o.ok
    o.post('only the owner revokes', lambda: AND(is_owner(o), pend0(o).present))
    o.post('the nominee is cleared', lambda: NOT(pend1(o).present))
    o.post('nothing else changes', lambda: o.frame('pending_owner'))
    o.ensure('the owner can revoke', IMP(AND(is_owner(o), pend0(o).present), ok))
    o.post('no message is sent', lambda: no_messages(o))


def claim(o):
    ok = o.ok
    nominee = AND(pend0(o).present, o.eq(o.sender, pend0(o).val))
    o.post('only the nominee claims', lambda: nominee)
    o.post('the nominee becomes owner', lambda: AND(owner1(o).present, o.eq(owner1(o).val, pend0(o).val), NOT(pend1(o).present)))
    o.post('nothing else changes', lambda: o.frame('owner', 'pending_owner'))
    o.ensure('the nominee can claim', IMP(nominee, ok))
    o.post('no message is sent', lambda: no_messages(o))


def get_owner(o):
    e = owner0(o)
    o.ensure('answers when there is an owner', IMP(e.present, o.ok))
    o.post('answers the stored owner', lambda: AND(e.present, o.eq(o.value, o.S.json(o.S.mk('hpl_interface::ownable::OwnerResponse', owner=e.val)))))


def get_pending(o):
    e = pend0(o)
    t = 'std::option::Option<%s>' % A
    o.ensure('always answers', o.ok)
    o.post('answers the stored nominee', lambda: AND(*[IMP(c_, lambda: o.eq(o.value, o.S.json(o.S.mk('hpl_interface::ownable::PendingOwnerResponse', pending_owner=v))))
                                                     for c_, v in ((e.present, o.S.some(t, e.val)), (NOT(e.present), o.S.none(t)))]))


def priv_op(ns):
    def body(o):
        o.ensure('anyone but the owner is refused', IMP(NOT(is_owner(o)), o.failed))
    return body


def open_op(ns):
    def body(o):
        o.post('privileged configuration stays as it was', lambda: o.unchanged('owner', *ns))
        o.post('so does the nominee', lambda: o.unchanged('pending_owner'))
    return body


def contracts(P):
    out = []
    for cr, t in T.items():
        ex, q, own = t['p'] + 'execute', t['p'] + 'query', t['own']
        for v in msg_variants(P, ex):
            loops = loops_of(cr, v)
            if own and v[0] == own and len(v) == 2:
                body = {'InitOwnershipTransfer': init_transfer(own), 'RevokeOwnershipTransfer': revoke, 'ClaimOwnership': claim}.get(v[1])
                if body:
                    out.append(Contract('C06', ex, body, variant=v))
                    continue
            if own:
                out.append(Contract('C06', ex, other, variant=v, loops=loops, reach=()))
            if v[0] in t['anyone']:
                out.append(Contract('C07', ex, open_op(t['priv']), variant=v, loops=loops, reach=()))
            else:
                out.append(Contract('C07', ex, priv_op(t['priv']), variant=v, loops=loops, reach=()))
        if own:
            for v in msg_variants(P, q):
                if v[-1] == 'GetOwner':
                    out.append(Contract('C06', q, get_owner, variant=v))
                if v[-1] == 'GetPendingOwner':
                    out.append(Contract('C06', q, get_pending, variant=v))
        for v in ('reply',):
            if has_fn(P, t['p'] + v) and own:
                out.append(Contract('C06', t['p'] + v, other, reach=()))
    from .mailbox import config_contracts
    return out + config_contracts(P)


def loops_of(cr, v):
    from . import batches
    return batches.loops_of(cr, v)
