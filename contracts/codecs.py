"""C08 wire formats, C09 identifiers and digests, C28 address encodings"""
from .common import *
from .table import *
from engine.vm import *
from engine import coll as C
from engine.check import Lemma

I = 'hpl_interface::'
HB = 'cosmwasm_std::hex_binary::HexBinary'


def enc_of(t, mod):
    return I + mod + '<impl std::convert::From<%s> for %s>::from' % (I + t, HB)


def dec_of(t):
    return '<%s as std::convert::From<%s>>::from' % (I + t, HB)


def g(o, v, f):
    return o.get(v, f)


# layouts: (field, kind) in order; kind = fixed byte count (bytes), ('be', n) or 'rest'
LAYOUT = {
    'types::Message': ('types::message::', [('version', ('be', 1)), ('nonce', ('be', 4)), ('origin_domain', ('be', 4)), ('sender', 32), ('dest_domain', ('be', 4)), ('recipient', 32), ('body', 'rest')]),
    'types::MerkleRootMultisigIsmMetadata': ('types::metadata::', [('origin_mailbox', 32), ('checkpoint_index', ('be', 4)), ('message_id', 32), ('proof', 1024), ('signatures', 'rest')]),
    'types::IGPMetadata': ('types::metadata::', [('gas_limit', ('be', 32)), ('refund_address', 'rest')]),
    'warp::Message': ('warp::', [('recipient', 32), ('amount', ('be', 32)), ('metadata', 'rest')]),
}


def size(lay):
    return sum(k[1] if isinstance(k, tuple) else k for _, k in lay if k != 'rest')


def encoding(o, v, lay):
    b = Bytes(())
    for f, k in lay:
        x = o.get(v, f)
        b = b + (be(k[1], x) if isinstance(k, tuple) else x)
    return b


def enc_body(lay):
    def body(o):
        v = o.arg('v')
        o.ensure('encoding never fails', o.k == 'ret')
        if o.k == 'ret':
            o.ensure('the encoding is the protocol layout of every field', beq(o.v, encoding(o, v, lay)))
    return body


def dec_body(lay):
    def body(o):
        v = o.arg('v')
        n = v.len()
        done = o.k == 'ret'
        o.ensure('everything long enough decodes', IMP(iz(n) >= size(lay), done))
        o.ensure('nothing shorter decodes', IMP(iz(n) < size(lay), not done))
        if not done:
            return
        pos = 0
        for f, k in lay:
            x = o.get(o.v, f)
            if k == 'rest':
                o.ensure('%s is the rest of the bytes' % f, beq(x, v.slice(pos, isub(n, pos))))
            elif isinstance(k, tuple):
                o.ensure('%s is read from its own bytes' % f, ieq(x, v.slice(pos, k[1]).intval()))
                pos += k[1]
            else:
                o.ensure('%s is read from its own bytes' % f, beq(x, v.slice(pos, k)))
                pos += k
    return body


def original(t, lay, st=None):
    """an arbitrary value: field name -> value; fixed-length fields have their length (precondition)"""
    from engine.core import set_fixedlen
    out = {}
    for f, k in lay:
        n = 'orig!%s.%s' % (t, f)
        if isinstance(k, tuple):
            x = z3.Int(n)
            if st is not None:
                st.add(z3.And(x >= 0, x < 256 ** k[1]))
        else:
            tm = z3.Const(n, B)
            if isinstance(k, int):
                set_fixedlen(tm, k)
                if st is not None:
                    st.add(blen(tm) == k)
            elif st is not None:
                st.add(blen(tm) >= 0)
            x = Bytes.of(tm)
        out[f] = x
    return out


def layout_bytes(v, lay):
    b = Bytes(())
    for f, k in lay:
        b = b + (be(k[1], v[f]) if isinstance(k, tuple) else v[f])
    return b


def rt_setup(t, lay):
    def setup(E, st, args, names):
        args[names['v']] = layout_bytes(original(t, lay, st), lay)
    return setup


def rt_body(t, lay):
    def body(o):
        o.ensure('an encoded value always decodes', o.k == 'ret')
        if o.k != 'ret':
            return
        v = original(t, lay)
        for f, k in lay:
            x, y = o.get(o.v, f), v[f]
            o.ensure('decoding gives back %s' % f, ieq(x, y) if isinstance(k, tuple) else beq(x, y))
    return body


def c08(P):
    out = []
    for t, (mod, lay) in LAYOUT.items():
        out.append(Contract('C08', enc_of(t, mod), enc_body(lay), reach=()))
        out.append(Contract('C08', dec_of(t), dec_body(lay), reach=()))
        out.append(Contract('C08', dec_of(t), rt_body(t, lay), reach=(), setup=rt_setup(t, lay), tag='(round trip)'))
    return out



MIM = 'types::MessageIdMultisigIsmMetadata'


def mim_enc(o):
    v = o.arg('v')
    om = o.get(v, 'origin_merkle_tree')
    n = om.len()
    done = o.k == 'ret'
    o.ensure('a tree address of at most 32 bytes encodes', IMP(iz(n) <= 32, done))
    o.ensure('a longer tree address does not encode', IMP(iz(n) > 32, not done))
    if not done:
        return
    o.ensure('the encoding is the protocol layout of every field',
             beq(o.v, c(b'\0' * 32).slice(0, isub(32, n)) + om + o.get(v, 'merkle_root') + o.get(v, 'merkle_index') + flat(o, o.get(v, 'signatures'))))


def mim_dec(o):
    v = o.arg('v')
    n = v.len()
    done = o.k == 'ret'
    o.ensure('everything long enough decodes', IMP(iz(n) >= 68, done))
    o.ensure('nothing shorter decodes', IMP(iz(n) < 68, not done))
    if not done:
        return
    for f, a, k in (('origin_merkle_tree', 0, 32), ('merkle_root', 32, 32), ('merkle_index', 64, 4)):
        o.ensure('%s is read from its own bytes' % f, beq(o.get(o.v, f), v.slice(a, k)))
    s = o.get(o.v, 'signatures')
    ns = o.E.vlen(s)
    o.ensure('every whole 65 bytes are a signature', AND(iz(ns) * 65 <= iz(n) - 68, iz(n) - 68 < iz(ns) * 65 + 65))
    i = o.E.fresh('anyix', Int)
    o.ensure('signature i is the i-th 65 bytes', IMP(z3.And(i >= 0, i < iz(ns)), lambda: beq(o.E.deref_all(o.st, o.E.vat(o.st, s, i)), v.slice(68 + 65 * i, 65))))


_c08 = c08


def c08(P):
    out = _c08(P)
    out.append(Contract('C08', enc_of(MIM, 'types::metadata::'), mim_enc, reach=()))
    out.append(Contract('C08', dec_of(MIM), mim_dec, reach=()))
    return out


def flat(o, vec):
    return C.flat_bytes(o.E, o.st, vec)


# ---- concatenations of equally long parts
W = 65
ARR = z3.ArraySort(Int, B)


def flat_lemma(E, st):
    """bflat(a, n) of n parts of W bytes has W*n bytes, and its i-th W bytes are part i (induction on n)"""
    from engine.core import set_fixedlen
    a, n, i = z3.Const('lem!a', ARR), z3.Int('lem!n'), z3.Int('lem!i')
    fn = Bytes.of(C.bflat(a, n))
    en = z3.Const('lem!elem', B)
    set_fixedlen(en, W)
    part = Bytes.of(en)
    hyp = [n >= 0, z3.Select(a, n) == en, blen(en) == W]
    ind_len = blen(C.bflat(a, n)) == W * n
    nxt = fn + part                       # definition of bflat at n + 1
    yield 'an empty list has no bytes', [], ieq(Bytes(()).len(), 0)
    st.add(ind_len)
    yield 'one more part is W more bytes', hyp + [ind_len], simp(iz(nxt.len()) == W * (n + 1))
    yield 'the last part', hyp + [ind_len], AND(beq(nxt.slice(fn.len(), W), part), ieq(fn.len(), W * n))
    # a slice that ends within the left part of a concatenation is a slice of the left part
    yield 'earlier parts stay where they were', hyp + [ind_len, i >= 0, i < n], simp(W * i + W <= iz(fn.len()))


def mim_setup(E, st, args, names):
    from engine.core import set_fixedlen
    a, n = z3.Const('orig!sigs', ARR), z3.Int('orig!nsigs')
    st.add(n >= 0)
    b = Bytes(())
    for f, k in (('t', 32), ('r', 32), ('x', 4)):
        tm = z3.Const('orig!' + f, B)
        set_fixedlen(tm, k)
        st.add(blen(tm) == k)
        b = b + Bytes.of(tm)
    fl = C.bflat(a, n)
    st.add(blen(fl) == W * n)              # lemma: flat_lemma
    args[names['v']] = b + Bytes.of(fl)


def mim_rt(o):
    E, st = o.E, o.st
    o.ensure('an encoded value always decodes', o.k == 'ret')
    if o.k != 'ret':
        return
    for f, n in (('origin_merkle_tree', 't'), ('merkle_root', 'r'), ('merkle_index', 'x')):
        o.ensure('decoding gives back ' + f, beq(o.get(o.v, f), Bytes.of(z3.Const('orig!' + n, B))))
    a, n = z3.Const('orig!sigs', ARR), z3.Int('orig!nsigs')
    s = o.get(o.v, 'signatures')
    o.ensure('decoding gives back as many signatures', ieq(E.vlen(s), n))
    i = E.fresh('anyix', Int)
    st.add(IMP(z3.And(i >= 0, i < n), bslice(C.bflat(a, n), W * i, W) == z3.Select(a, i)))     # lemma: flat_lemma
    o.ensure('decoding gives back every signature', IMP(z3.And(i >= 0, i < n), lambda: beq(E.deref_all(st, E.vat(st, s, i)), Bytes.of(z3.Select(a, i)))))


def contracts(P):
    out = c08(P)
    out.append(Lemma('C08', 'concatenation of equal parts', flat_lemma))
    out.append(Contract('C08', dec_of(MIM), mim_rt, reach=(), setup=mim_setup, tag='(round trip)'))
    return out


# ------------------------------------------------ C09
def okval(o):
    return o.value


def digest(name, want, fallible=True, req=None):
    """the function returns exactly the digest"""
    def body(o):
        pre = True if req is None else req(o)
        o.ensure('it answers for every input', IMP(pre, o.ok))
        o.post(name, lambda: o.eq(okval(o), want(o)))
    return body


def eth_prefixed(o, m):
    n = m.len()
    ln = c(str(n)) if isinstance(n, int) else Bytes.of(M.dec(iz(n)))
    return ksum(c('\x19Ethereum Signed Message:\n'.encode('latin1')) + ln + m)


def c09(P):
    X = I + 'types::'
    MSGL = LAYOUT['types::Message'][1]
    out = [
        Contract('C09', X + 'Message::id', digest('the id is the hash of every field of the encoding', lambda o: ksum(encoding(o, o.arg('self'), MSGL))), reach=()),
        Contract('C09', X + 'keccak256_hash', digest('the digest is the hash of exactly the given bytes', lambda o: ksum(o.arg('bz'))), reach=()),
        Contract('C09', X + 'eth_hash', digest('the signed-message prefix carries the length', lambda o: eth_prefixed(o, o.arg('message'))), reach=()),
        Contract('C09', X + 'eth_addr', digest('the last 20 bytes of the hash of the key without its tag byte', lambda o: ksum(o.arg('pubkey').slice(1, isub(o.arg('pubkey').len(), 1))).slice(12, 20),
                                               req=lambda o: iz(o.arg('pubkey').len()) >= 1), reach=()),
        Contract('C09', 'hpl_ism_multisig::domain_hash', digest('domain, tree address and tag, hashed', lambda o: ksum(be(4, o.arg('local_domain')), o.arg('address'), c('HYPERLANE'))), reach=()),
        Contract('C09', 'hpl_ism_multisig::multisig_hash', digest('domain hash, root, index and message id, hashed', lambda o: ksum(o.arg('domain_hash'), o.arg('root'), be(4, o.arg('index')), o.arg('message_id'))), reach=()),
    ]
    V = 'hpl_validator_announce::contract::'
    def mbox(o):
        m = o.arg('mailbox')
        return c(b'\0' * 32).slice(0, isub(32, m.len())) + m
    for fn, b in (('domain_hash', digest('domain, padded mailbox and tag, hashed', lambda o: ksum(be(4, o.arg('local_domain')), mbox(o), c('HYPERLANE_ANNOUNCEMENT')), req=lambda o: iz(o.arg('mailbox').len()) <= 32)),
                  ('announcement_hash', digest('domain hash and location, hashed', lambda o: ksum(o.arg('domain_hash'), o.arg('storage_location')))),
                  ('replay_hash', digest('validator and location, hashed', lambda o: ksum(o.arg('validator'), o.arg('storage_location'))))):
        if P.has_fn(V + fn):
            out.append(Contract('C09', V + fn, b, reach=()))
    return out


# ------------------------------------------------ C28
def c28_encode(o):
    raw, hrp = o.arg('raw_addr'), o.arg('hrp')
    n = raw.len()
    is20, is32 = ieq(n, 20), ieq(n, 32)
    z12 = beq(raw.slice(0, 12), c(b'\0' * 12))
    o.ensure('other lengths are refused', IMP(NOT(OR(is20, is32)), o.failed))
    o.ensure('20 and 32 bytes are encoded', IMP(AND(OR(is20, is32), M.b32_enc_ok(hrp.term())), o.ok))
    o.ensure('an unusable prefix is refused', IMP(NOT(M.b32_enc_ok(hrp.term())), o.failed))
    o.post('20 bytes are encoded as they are', lambda: IMP(is20, o.eq(o.value, bech32(hrp, raw))))
    o.post('32 bytes of a padded address are encoded without the padding', lambda: IMP(AND(is32, z12), lambda: o.eq(o.value, bech32(hrp, raw.slice(12, 20)))))
    o.post('other 32 bytes are encoded as they are', lambda: IMP(AND(is32, NOT(z12)), lambda: o.eq(o.value, bech32(hrp, raw))))


def c28_decode(o):
    t = o.arg('target')
    o.ensure('a valid address decodes', IMP(b32ok(t), o.ok))
    o.ensure('anything else is refused', IMP(NOT(b32ok(t)), o.failed))
    o.post('the bytes are the decoded bytes', lambda: o.eq(o.value, b32data(t)))


def c28_h256(o):
    t = o.arg('target')
    d = b32data(t)
    n = d.len()
    o.ensure('a valid address of at most 32 bytes converts', IMP(AND(b32ok(t), iz(n) <= 32), o.ok))
    o.ensure('a longer address is refused', IMP(iz(n) > 32, o.failed))
    o.ensure('an invalid address is refused', IMP(NOT(b32ok(t)), o.failed))
    o.post('short addresses are padded with zeros on the left', lambda: o.eq(o.value, c(b'\0' * 32).slice(0, isub(32, n)) + d))


def rt_addr(k):
    """the input is the encoding of k arbitrary bytes under an arbitrary prefix"""
    def terms():
        from engine.core import set_fixedlen
        h, d = z3.Const('orig!hrp', B), z3.Const('orig!addr%d' % k, B)
        set_fixedlen(d, k)
        return h, d

    def setup(E, st, args, names):
        h, d = terms()
        st.add(blen(d) == k)
        st.add(M.b32_enc_ok(h))
        args[names['target']] = Bytes.of(M.b32(h, d))

    def body(o):
        h, d = terms()
        o.ensure('an encoded address converts back', o.ok)
        o.post('to the same bytes, padded', lambda: o.eq(o.value, c(b'\0' * (32 - k)) + Bytes.of(d)))
    return setup, body


def c28_inverse(k):
    """encoding the 32-byte form of an address of k bytes gives that address back"""
    from engine.core import set_fixedlen
    def terms():
        h, d = z3.Const('orig!hrp', B), z3.Const('orig!addr%d' % k, B)
        set_fixedlen(d, k)
        return h, d

    def setup(E, st, args, names):
        h, d = terms()
        st.add(blen(d) == k)
        st.add(M.b32_enc_ok(h))
        args[names['hrp']] = Bytes.of(h)
        args[names['raw_addr']] = c(b'\0' * (32 - k)) + Bytes.of(d)

    def body(o):
        h, d = terms()
        o.ensure('the 32-byte form of an address encodes', o.ok)
        z12 = beq(Bytes.of(d).slice(0, 12), c(b'\0' * 12)) if k == 32 else False
        o.post('to that address', lambda: IMP(NOT(z12), lambda: o.eq(o.value, bech32(Bytes.of(h), Bytes.of(d)))))
    return setup, body


def c28(P):
    X = I + 'types::'
    out = [Contract('C28', X + 'bech32_encode', c28_encode), Contract('C28', X + 'bech32_decode', c28_decode), Contract('C28', X + 'bech32_to_h256', c28_h256)]
    for k in (20, 32):
        s, b = rt_addr(k)
        out.append(Contract('C28', X + 'bech32_to_h256', b, setup=s, tag='(of an encoding of %d bytes)' % k))
        s, b = c28_inverse(k)
        out.append(Contract('C28', X + 'bech32_encode', b, setup=s, tag='(of the 32-byte form of %d bytes)' % k))
    for fn, f in (('Message::recipient_addr', 'recipient'), ('Message::sender_addr', 'sender')):
        def body(o, f=f):
            m, hrp = o.arg('self'), o.arg('hrp')
            raw = o.get(m, f)
            n = raw.len()
            o.post('it is the address of those bytes', lambda: AND(OR(ieq(n, 20), ieq(n, 32)), IMP(ieq(n, 32), lambda: addr_is(o, o.value, hrp, raw)), IMP(ieq(n, 20), lambda: o.eq(o.value, bech32(hrp, raw)))))
        out.append(Contract('C28', X + fn, body))
    return out


def accessors(P):
    R, D = I + 'types::MerkleRootMultisigIsmMetadata', I + 'types::MessageIdMultisigIsmMetadata'

    def sig_len(o):
        n = o.get(o.arg('self'), 'signatures').len()
        o.ensure('whole signatures of 65 bytes only', IFF(o.ok, iz(n) % 65 == 0))
        o.post('their number', lambda: ieq(iz(o.value) * 65, n))

    def sig_at(o):
        s, i = o.get(o.arg('self'), 'signatures'), o.arg('index')
        done = o.k == 'ret'
        o.ensure('every signature that is there can be read', IMP(AND(iz(i) * 65 + 65 <= iz(s.len()), iz(s.len()) < 2 ** 63), done))
        o.ensure('nothing else is read as a signature', IMP(iz(i) * 65 + 65 > iz(s.len()), not done))
        o.post('signature i is the 65 bytes at 65 i', lambda: beq(o.v, s.slice(z3.simplify(iz(i) * 65), 65)))

    def index(o):
        x = o.get(o.arg('self'), 'merkle_index')
        done = o.k == 'ret'
        o.ensure('four bytes are needed', IFF(done, ieq(x.len(), 4)))
        o.post('it is read big-endian', lambda: ieq(o.v, x.intval()) if not isinstance(x.len(), int) else ieq(o.v, x.intval()))
    return [Contract('C08', R + '::signatures_len', sig_len), Contract('C08', R + '::signature_at', sig_at, reach=()), Contract('C08', D + '::merkle_index', index, reach=())]


_contracts = contracts


def contracts(P):
    from . import aggenc
    return _contracts(P) + c09(P) + c28(P) + aggenc.contracts(P) + accessors(P)
