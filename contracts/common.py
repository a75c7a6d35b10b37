"""Vocabulary shared by the contracts: wire formats, addresses, interface messages."""
import z3
from engine.core import *
from engine.core import _iz as iz
from engine import models as M, spec
from engine.spec import msg_items, is_exec, funds_are, no_reply
from engine.check import Contract

c = Bytes.const
be = Bytes.be


# ------------------------------------------------ addresses
def b32ok(s):
    return AND(M.b32_ok(s.term()), M.b32_pad(s.term()))


def b32data(s):
    t = s.term()
    if z3.is_app(t) and t.decl().eq(M.b32):
        return Bytes.of(t.arg(1))
    return Bytes.of(M.b32_data(t))


def h256(s):
    """32-byte form of a bech32 address: the decoded bytes left-padded with zeros"""
    d = b32data(s)
    n = d.len()
    return c(b'\0' * 32).slice(0, isub(32, n)) + d


def bech32(hrp, data):
    return Bytes.of(M.b32(hrp.term(), data.term()))


def addr_of(hrp, b):
    """(is a short address, long form, short form) of 32 bytes b"""
    short = beq(b.slice(0, 12), c(b'\0' * 12))
    return short, bech32(hrp, b), bech32(hrp, b.slice(12, 20))


def addr_is(o, a, hrp, b):
    """address a is the human-readable form of the 32 bytes b"""
    short, lo, sh = addr_of(hrp, b)
    return AND(IMP(short, o.eq(a, sh)), IMP(NOT(short), o.eq(a, lo)))


def valid(s):
    return M.addr_ok(s.term())


# ------------------------------------------------ messages
def wire(version, nonce, origin, sender, dest, recipient, body):
    return be(1, version) + be(4, nonce) + be(4, origin) + sender + be(4, dest) + recipient + body


def ksum(*bs):
    return spec.Spec.keccak(*bs)


MSG = 'hpl_interface::types::message::Message'


def enum1(o, ty, var, payload):
    return o.S.tup(ty, var, payload)


def post_dispatch_msg(o, metadata, message):
    return o.S.json(o.S.tup('hpl_interface::hook::ExpectedHookMsg', 'PostDispatch',
                            o.S.mk('hpl_interface::hook::PostDispatchMsg', metadata=metadata, message=message)))


def hook_quote(o, hook, metadata, message):
    """(answered, fees) of the hook's quote"""
    q = o.S.tup('hpl_interface::hook::ExpectedHookQueryMsg', 'Hook',
                o.S.tup('hpl_interface::hook::HookQueryMsg', 'QuoteDispatch',
                        o.S.mk('hpl_interface::hook::QuoteDispatchMsg', metadata=metadata, message=message)))
    okq, v = o.S.query('hpl_interface::hook::QuoteDispatchResponse', hook, q)
    return okq, lambda: o.get(v(), 'fees')


def ism_verify(o, ism, metadata, message):
    q = o.S.tup('hpl_interface::ism::ExpectedIsmQueryMsg', 'Ism',
                o.S.mk('hpl_interface::ism::IsmQueryMsg', 'Verify', metadata=metadata, message=message))
    okq, v = o.S.query('hpl_interface::ism::VerifyResponse', ism, q)
    return okq, lambda: o.get(v(), 'verified')


def amt(o, vec):
    return o.S.amt(vec)


def opt_or(o, opt, default):
    """list of (condition, value) for an optional value"""
    some = o.isv(opt, 'Some')
    return some, o.var(opt, 'Some')


def one(o):
    """the only message of the response"""
    l = msg_items(o)
    return l[0] if l is not None and len(l) == 1 else None


def no_messages(o):
    n = o.E.vlen(o.messages)
    return ieq(n, 0)


def nmsgs(o, k):
    return ieq(o.E.vlen(o.messages), k)


def fails(o, cond, name):
    """the call fails when cond holds"""
    o.ensure(name, OR(NOT(cond), o.failed))


# ------------------------------------------------ optional values
def some_and(o, opt, f):
    """the optional value is present and f holds of it"""
    p = o.isv(opt, 'Some')
    return False if is_false(p) else AND(p, lambda: f(o.var(opt, 'Some')))


def opt_is(o, got, cond, want):
    """got is Some(want()) when cond, None otherwise"""
    p = o.isv(got, 'Some')
    if is_false(p):
        return NOT(cond)
    return AND(IFF(p, cond), IMP(cond, lambda: o.eq(o.var(got, 'Some'), want())))


def opt_term(o, opt, f, default):
    """f(value) if present, else default (integer terms)"""
    p = o.isv(opt, 'Some')
    if is_false(p):
        return default
    v = f(o.var(opt, 'Some'))
    return v if is_true(p) else z3.If(p, v, default)


def short(E):
    """the positions of a loop that had to be unrolled"""
    return [z3.IntVal(k) for k in range(E.unroll + 2)] if E.cuts else []
