from .common import *
from .table import A

MB = 'hpl_mailbox::contract::'
CFG = 'hpl_mailbox::state::Config'


def cfg(o):
    e = o.item0('config', CFG)
    return e.present, e.val


def dispatch_terms(o):
    p, cf = cfg(o)
    d = o.var(o.msg, 'Dispatch')
    nonce = o.item0('nonce', 'u32').val
    body, dest, rec = o.get(d, 'msg_body'), o.get(d, 'dest_domain'), o.get(d, 'recipient_addr')
    m = wire(3, nonce, o.get(cf, 'local_domain'), h256(o.sender), dest, rec, body)
    md = o.get(d, 'metadata')
    return cf, d, nonce, m, md


def cases_opt(o, opt):
    """None / Some cases of an optional input, decided on this path when possible"""
    some = o.isv(opt, 'Some')
    if is_true(some):
        return [(True, o.var(opt, 'Some'))]
    if is_false(some):
        return [(True, None)]
    return [(some, o.var(opt, 'Some')), (NOT(some), None)]


def dispatch_ok(o):
    """what a successful dispatch did; yields (condition, metadata, hook) cases"""
    cf, d, nonce, m, md = dispatch_terms(o)
    for cm, mdv in cases_opt(o, md):
        mdv = mdv if mdv is not None else Bytes(())
        for ch, hk in cases_opt(o, o.get(d, 'hook')):
            hook = hk if hk is not None else o.var(o.get(cf, 'default_hook'), 'Some')
            yield AND(cm, ch), mdv, hook


def c03(o):
    ok = o.ok
    if is_false(ok):
        o.ensure('a failed dispatch changes no state that is kept', True)
        return
    cf, d, nonce, m, md = dispatch_terms(o)
    rec = o.get(d, 'recipient_addr')
    o.ensure('recipient longer than 32 bytes is rejected', IMP(ok, simp(iz(rec.len()) <= 32)))
    mid = ksum(m)
    o.ensure('data is the id of the message', IMP(ok, o.eq(o.var(o.data(), 'Some'), o.S.json(o.S.mk('hpl_interface::core::mailbox::DispatchResponse', message_id=mid)))))
    o.ensure('data is set', IMP(ok, o.isv(o.data(), 'Some')))
    n1, l1 = o.item1('nonce', 'u32'), o.item1('latest_dispatched_id', 'std::vec::Vec<u8>')
    o.ensure('nonce grows by exactly one', IMP(ok, AND(n1.present, ieq(n1.val, iadd(nonce, 1)))))
    o.ensure('latest id is the id of the message', IMP(ok, AND(l1.present, o.eq(l1.val, mid))))
    o.ensure('nothing else changes', IMP(ok, o.frame('nonce', 'latest_dispatched_id')))
    req = o.var(o.get(cf, 'required_hook'), 'Some')
    l = msg_items(o)
    o.ensure('exactly two messages', IMP(ok, l is not None and len(l) == 2))
    if l is None or len(l) != 2:
        return
    for cond, mdv, hook in dispatch_ok(o):
        pd = post_dispatch_msg(o, mdv, m)
        o.ensure('the required hook gets exactly the message', IMP(AND(ok, cond), AND(o.isv(o.get(cf, 'required_hook'), 'Some'), is_exec(o, l[0], req, pd))))
        o.ensure('the chosen hook gets exactly the message', IMP(AND(ok, cond), is_exec(o, l[1], hook, pd)))
    o.ensure('reach:succeeds', ok)


def c04(o):
    ok = o.ok
    cf, d, nonce, m, md = dispatch_terms(o)
    if is_false(ok):
        return
    req = o.var(o.get(cf, 'required_hook'), 'Some')
    l = msg_items(o)
    if l is None or len(l) != 2:
        o.ensure('two messages carry the coins', NOT(ok))
        return
    E, st = o.E, o.st
    paid = amt(o, o.funds)
    for cond, mdv, hook in dispatch_ok(o):
        okq, fees = hook_quote(o, req, mdv, m)
        o.ensure('required hook is asked for its fee', IMP(AND(ok, cond), okq))
        fee = amt(o, fees())
        f0 = M.vec_amt(E, st, o.var(o.var(o.get(l[0], 'msg'), 'Wasm'), 'Execute', 'funds'))
        f1 = M.vec_amt(E, st, o.var(o.var(o.get(l[1], 'msg'), 'Wasm'), 'Execute', 'funds'))
        x = E.fresh('anydenom', B)
        o.ensure('required hook receives exactly its fee', IMP(AND(ok, cond), z3.Select(f0, x) == z3.Select(fee, x)))
        o.ensure('the other hook receives everything else', IMP(AND(ok, cond), z3.Select(f1, x) == z3.Select(paid, x) - z3.Select(fee, x)))
        o.ensure('attached coins cover the fee', IMP(AND(ok, cond), z3.Select(paid, x) >= z3.Select(fee, x)))
        o.ensure('required hook is called', IMP(AND(ok, cond), is_exec(o, l[0], req)))
        o.ensure('the other hook is called', IMP(AND(ok, cond), is_exec(o, l[1], hook)))



# ------------------------------------------------ process
def process_terms(o):
    m = o.msg
    raw = o.var(m, 'Process', 'message')
    md = o.var(m, 'Process', 'metadata')
    return raw, md


def parts(raw):
    """fields of an encoded message"""
    n = raw.len()
    return dict(version=raw.slice(0, 1).intval(), nonce=raw.slice(1, 4).intval(), origin=raw.slice(5, 4).intval(), sender=raw.slice(9, 32),
                dest=raw.slice(41, 4).intval(), recipient=raw.slice(45, 32), body=raw.slice(77, isub(n, 77)))


def has_len(raw):
    return simp(iz(raw.len()) >= 77)


DEL = 'hpl_mailbox::state::Delivery'


def deliveries(o):
    return o.map0('deliveries', 'std::vec::Vec<u8>', DEL)


def c01_process(o):
    raw, md = process_terms(o)
    mid = ksum(raw)
    m0 = deliveries(o)
    o.post('a message already delivered is rejected', lambda: NOT(o.has(m0, mid)))
    m1 = o.map1('deliveries')
    o.post('the delivery is recorded', lambda: o.has(m1, mid))
    o.post('the record names caller and block', lambda: o.eq(o.at(m1, mid), o.S.mk(DEL, sender=o.sender, block_number=o.get(o.env, 'block.height'))))
    o.post('no other delivery record changes', lambda: o.map_frame('deliveries', mid))
    o.post('nothing else changes', lambda: o.frame('deliveries'))


def c01_other(o):
    o.post('delivery records stay as they were', lambda: o.unchanged('deliveries'))


def c01_query(o):
    mid = o.var(o.var(o.msg, 'Mailbox'), 'MessageDelivered', 'id')
    m0 = deliveries(o)
    o.ensure('always answers', o.ok)
    o.post('answers whether the message is recorded', lambda: o.eq(o.value, o.S.json(o.S.mk('hpl_interface::core::mailbox::MessageDeliveredResponse', delivered=o.has(m0, mid)))))


def module_of(o, cf, raw):
    """cases (condition, module) for the module that must accept the message"""
    p = parts(raw)
    q = o.S.tup('hpl_interface::ism::ExpectedIsmSpecifierQueryMsg', 'IsmSpecifier', o.S.mk('hpl_interface::ism::IsmSpecifierQueryMsg', 'InterchainSecurityModule'))
    short, lo, sh = addr_of(o.get(cf, 'hrp'), p['recipient'])
    for c1, rec in ((NOT(short), lo), (short, sh)):
        if is_false(c1):
            continue
        okq, v = o.S.query('hpl_interface::ism::InterchainSecurityModuleResponse', rec, q)
        named = o.get(v(), 'ism')
        some = o.isv(named, 'Some')
        yield AND(c1, some), okq, o.var(named, 'Some'), rec
        yield AND(c1, NOT(some)), okq, o.var(o.get(cf, 'default_ism'), 'Some'), rec


def c02(o):
    pr, cf = cfg(o)
    raw, md = process_terms(o)
    if is_false(o.ok):
        return
    p = parts(raw)
    o.post('the message is complete', lambda: has_len(raw))
    o.post('protocol version', lambda: ieq(p['version'], 3))
    o.post('addressed to the local domain', lambda: ieq(p['dest'], o.get(cf, 'local_domain')))
    l = msg_items(o)
    o.post('exactly one call', lambda: l is not None and len(l) == 1)
    if l is None or len(l) != 1:
        return
    call = o.S.json(o.S.tup('hpl_interface::core::ExpectedHandleMsg', 'Handle',
                            o.S.mk('hpl_interface::core::HandleMsg', origin=p['origin'], sender=p['sender'], body=p['body'])))
    for cond, okq, ism, rec in module_of(o, cf, raw):
        ans, ver = ism_verify(o, ism, md, raw)
        o.post('the module of the recipient accepted exactly this message', lambda: IMP(cond, AND(okq, ans, ver())))
        o.post('the recipient is called with origin, sender and body', lambda: IMP(cond, is_exec(o, l[0], rec, call, [])))
    o.post('the call is fire and forget', lambda: no_reply(o, l[0]))
    o.ensure('reach:delivers', o.ok)


def c02_live(o):
    """a message that meets every condition is delivered"""
    pr, cf = cfg(o)
    raw, md = process_terms(o)
    p = parts(raw)
    m0 = deliveries(o)
    for cond, okq, ism, rec in module_of(o, cf, raw):
        ans, ver = ism_verify(o, ism, md, raw)
        pre = AND(pr, has_len(raw), ieq(p['version'], 3), ieq(p['dest'], o.get(cf, 'local_domain')), o.isv(o.get(cf, 'default_ism'), 'Some'),
                  NOT(o.has(m0, ksum(raw))), okq, ans, ver(), M.b32_enc_ok(o.get(cf, 'hrp').term()), cond)
        o.ensure('an authenticated message is delivered', IMP(pre, o.ok))


# ------------------------------------------------ quote
def c05(o):
    pr, cf = cfg(o)
    q = o.var(o.msg, 'Hook')
    sender = o.var(q, 'QuoteDispatch', 'sender')
    d = o.var(q, 'QuoteDispatch', 'msg')
    nonce = o.item0('nonce', 'u32').val
    o.post('the state stays as it was', lambda: o.frame())
    if is_false(o.ok):
        return
    m = wire(3, nonce, o.get(cf, 'local_domain'), h256(sender), o.get(d, 'dest_domain'), o.get(d, 'recipient_addr'), o.get(d, 'msg_body'))
    req = o.var(o.get(cf, 'required_hook'), 'Some')
    ans = o.get(o.parsed(o.value, 'hpl_interface::hook::QuoteDispatchResponse'), 'fees')
    x = o.E.fresh('anydenom', B)
    got = z3.Select(amt(o, ans), x)
    for cm, mdv in cases_opt(o, o.get(d, 'metadata')):
        mdv = mdv if mdv is not None else Bytes(())
        for ch, hk in cases_opt(o, o.get(d, 'hook')):
            hook = hk if hk is not None else o.var(o.get(cf, 'default_hook'), 'Some')
            ok1, f1 = hook_quote(o, req, mdv, m)
            ok2, f2 = hook_quote(o, hook, mdv, m)
            o.post('both hooks are asked about the message', lambda: IMP(AND(cm, ch), AND(ok1, ok2)))
            o.post('the quote is the sum of both', lambda: IMP(AND(cm, ch), got == z3.Select(amt(o, f1()), x) + z3.Select(amt(o, f2()), x)))
    o.ensure('reach:quotes', o.ok)


def c03_other(o):
    o.post('nonce and latest id stay as they were', lambda: o.unchanged('nonce', 'latest_dispatched_id'))


def q_nonce(o):
    e = o.item0('nonce', 'u32')
    o.ensure('a stored nonce is reported', IMP(e.present, o.ok))
    o.post('answers the stored nonce', lambda: o.eq(o.value, o.S.json(o.S.mk('hpl_interface::core::mailbox::NonceResponse', nonce=e.val))))


def q_latest(o):
    e = o.item0('latest_dispatched_id', 'std::vec::Vec<u8>')
    o.ensure('a stored id is reported', IMP(e.present, o.ok))
    o.post('answers the stored id', lambda: o.eq(o.value, o.S.json(o.S.mk('hpl_interface::core::mailbox::LatestDispatchedIdResponse', message_id=e.val))))


# ------------------------------------------------ configuration
FIELDS = ('hrp', 'local_domain', 'default_ism', 'default_hook', 'required_hook')
MBX = 'hpl_interface::core::mailbox::'


def set_config(field, v):
    def body(o):
        from .ownership import is_owner
        pr, cf = cfg(o)
        a = o.var(o.msg, v, 'ism' if v.endswith('Ism') else 'hook')
        opt = 'std::option::Option<%s>' % A
        c1 = lambda: o.item1('config', CFG)
        want = lambda: o.S.mk(CFG, **{f: (o.S.some(opt, a) if f == field else o.get(cf, f)) for f in FIELDS})
        o.post('only the owner sets it', lambda: is_owner(o))
        o.post('exactly the given address is set and every other setting is kept', lambda: AND(valid(a), c1().present, o.eq(c1().val, want())))
        o.post('nothing else changes', lambda: o.frame('config'))
        o.post('no message is sent', lambda: no_messages(o))
        o.ensure('the owner can set any valid address', IMP(AND(is_owner(o), pr, valid(a)), o.ok))
    return body


def get_config(field, resp, rfield=None):
    def body(o):
        pr, cf = cfg(o)
        val = o.get(cf, field)
        if field.startswith('default') or field.startswith('required'):
            some = o.isv(val, 'Some')
            val = o.var(val, 'Some')
        else:
            some = True
        o.post('the answer is the stored setting', lambda: AND(pr, some, lambda: o.eq(o.value, o.S.json(o.S.mk(MBX + resp, **{field: val})))))
        o.post('a query changes nothing', lambda: o.frame())
        o.ensure('a stored setting is reported', IMP(AND(pr, some), o.ok))
    return body


def q_recipient_ism(o):
    """the module the recipient names, else the default one"""
    pr, cf = cfg(o)
    rec = o.var(o.var(o.msg, 'Mailbox'), 'RecipientIsm', 'recipient_addr')
    q = o.S.tup('hpl_interface::ism::ExpectedIsmSpecifierQueryMsg', 'IsmSpecifier', o.S.mk('hpl_interface::ism::IsmSpecifierQueryMsg', 'InterchainSecurityModule'))
    okq, v = o.S.query('hpl_interface::ism::InterchainSecurityModuleResponse', rec, q)
    named = lambda: o.get(v(), 'ism')
    dflt = o.get(cf, 'default_ism')
    ans = lambda x: o.eq(o.value, o.S.json(o.S.mk(MBX + 'RecipientIsmResponse', ism=x)))
    o.post('the recipient is asked', lambda: AND(pr, valid(rec), okq))
    o.post('the module the recipient names is reported', lambda: AND(okq, lambda: IMP(o.isv(named(), 'Some'), lambda: ans(o.var(named(), 'Some')))))
    o.post('the default module is reported for a recipient that names none', lambda: AND(okq, lambda: IMP(o.isv(named(), 'None'), lambda: AND(o.isv(dflt, 'Some'), lambda: ans(o.var(dflt, 'Some'))))))
    o.post('a query changes nothing', lambda: o.frame())
    o.ensure('an answering recipient is reported', IMP(AND(pr, valid(rec), okq, o.isv(dflt, 'Some')), o.ok))


def contracts(P):
    from .table import msg_variants
    from .ownership import loops_of
    ex, q = MB + 'execute', MB + 'query'
    out = [Contract('C03', ex, c03, variant='Dispatch'), Contract('C04', ex, c04, variant='Dispatch'),
           Contract('C01', ex, c01_process, variant='Process'), Contract('C02', ex, c02, variant='Process'),
           Contract('C02', ex, c02_live, variant='Process', tag='live')]
    for v in msg_variants(P, ex):
        if v != ('Process',):
            out.append(Contract('C01', ex, c01_other, variant=v, reach=()))
        if v != ('Dispatch',):
            out.append(Contract('C03', ex, c03_other, variant=v, reach=()))
    out.append(Contract('C01', MB + 'migrate', c01_other, reach=()))
    out.append(Contract('C03', MB + 'migrate', c03_other, reach=()))
    out.append(Contract('C01', q, c01_query, variant=('Mailbox', 'MessageDelivered')))
    out.append(Contract('C03', q, q_nonce, variant=('Mailbox', 'Nonce')))
    out.append(Contract('C03', q, q_latest, variant=('Mailbox', 'LatestDispatchId')))
    out.append(Contract('C02', q, q_recipient_ism, variant=('Mailbox', 'RecipientIsm')))
    out.append(Contract('C05', q, c05, variant=('Hook', 'QuoteDispatch')))
    return out


def config_contracts(P):
    ex, q = MB + 'execute', MB + 'query'
    out = []
    for v, f in (('SetDefaultIsm', 'default_ism'), ('SetDefaultHook', 'default_hook'), ('SetRequiredHook', 'required_hook')):
        out.append(Contract('C07', ex, set_config(f, v), variant=(v,), tag='effect'))
    for v, f in (('Hrp', 'hrp'), ('LocalDomain', 'local_domain'), ('DefaultIsm', 'default_ism'), ('DefaultHook', 'default_hook'), ('RequiredHook', 'required_hook')):
        out.append(Contract('C07', q, get_config(f, v + 'Response'), variant=('Mailbox', v)))
    return out
