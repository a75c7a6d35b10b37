"""C10 the merkle tree, C11 the merkle hook"""
from .common import *
from .table import *
from engine.check import Lemma

X = 'hpl_interface::types::MerkleTree::'
D = 32
# N(i, k): node k of level i of the tree over the inserted leaves (no padding); N(0, k) is leaf k
N = uf('full_node', Int, Int, B)
# PN(i, k): node k of level i of the tree over the first n leaves, padded with zero leaves
PN = uf('padded_node', Int, Int, B)


def node(f, i, k):
    from engine.core import set_fixedlen
    t = f(z3.IntVal(i), z3.simplify(iz(k)))
    set_fixedlen(t, 32)
    return Bytes.of(t)


def bit(n, i):
    return (iz(n) / (2 ** i) if i else iz(n)) % 2 == 1


def level(f, i, k):
    """definition of node k of level i+1"""
    k = iz(k)
    return beq(node(f, i + 1, k), ksum(node(f, i, 2 * k), node(f, i, 2 * k + 1)))


def tree_inv(o, branch, n):
    """the invariant of the stored tree: entry i is the last complete left subtree of level i whenever bit i of the count is set"""
    return [IMP(bit(n, i), o.eq(el(o, branch, i), node(N, i, iz(n) / (2 ** i) - 1))) for i in range(D)]


def el(o, branch, i):
    return o.E.deref_all(o.st, o.E.vat(o.st, branch, i))


def keep_self(E, st, args, names):
    E.self0 = E.deref_all(st, args[names['self']])


def fields(o, v):
    return o.get(v, 'branch'), o.get(v, 'count')


def insert(o):
    b0, n = fields(o, o.E.self0)
    full = iz(n) >= 2 ** 32 - 1
    o.ensure('insertion succeeds exactly while the tree is not full', IFF(o.ok, NOT(full)))
    if is_false(o.ok):
        b1, n1 = fields(o, o.arg('self')) if o.k == 'ret' else (None, None)
        if b1 is not None:
            o.ensure('a refused insertion changes nothing', AND(ieq(n1, n), *[o.eq(el(o, b1, i), el(o, b0, i)) for i in range(D)]))
        return
    b1, n1 = fields(o, o.arg('self'))
    o.post('the count grows by one', lambda: ieq(n1, iz(n) + 1))
    o.post('exactly the level of the lowest set bit of the new count takes the completed subtree', inserted(o, b0, n, b1, o.arg('node')))


def inserted(o, b0, n, b1, node):
    """branch b1 is branch b0 (of n leaves) with one more leaf"""
    F = node
    want = []
    for i in range(D):
        low = z3.And(*[NOT(bit(iz(n) + 1, j)) for j in range(i)], bit(iz(n) + 1, i))        # i is the lowest set bit of the new count
        want += [IMP(low, o.eq(el(o, b1, i), F)), IMP(NOT(low), o.eq(el(o, b1, i), el(o, b0, i)))]
        F = ksum(el(o, b0, i), F)
    return AND(*want)


def lemma_insert(E, st):
    """insertion keeps the invariant: F_i, the subtree carried to level i, is the last complete one"""
    n, f, br, nb = z3.Int('n'), z3.Const('F_i', B), z3.Const('branch_i', B), z3.Const('branch_i_after', B)
    st.add(z3.And(n >= 0, n < 2 ** 32 - 1))
    F, R, R1 = Bytes.of(f), Bytes.of(br), Bytes.of(nb)
    n1 = n + 1
    yield 'the new leaf', [], z3.And(n1 % 1 == 0, n1 / 1 - 1 == n)
    for i in range(D):
        p = 2 ** i
        zero = z3.Bool('all_lower_bits_zero')
        div = zero == (n1 % p == 0)
        carried = IMP(zero, beq(F, node(N, i, n1 / p - 1)))
        inv = IMP(bit(n, i), beq(R, node(N, i, n / p - 1)))
        b0 = NOT(bit(n1, i))
        low = AND(zero, bit(n1, i))
        if i < D - 1:
            yield 'carry to level %d' % (i + 1), [div, carried, inv, level(N, i, n1 / (2 * p) - 1)], AND(AND(zero, b0) == (n1 % (2 * p) == 0), IMP(AND(zero, b0), beq(ksum(R, F), node(N, i + 1, n1 / (2 * p) - 1))))
        yield 'the invariant of level %d' % i, [div, carried, inv, IMP(low, beq(R1, F)), IMP(NOT(low), beq(R1, R))], IMP(bit(n1, i), beq(R1, node(N, i, n1 / p - 1)))


# ------------------------------------------------ zero subtrees
def zeros():
    from engine.keccak import keccak256
    z = [b'\0' * 32]
    for _ in range(D - 1):
        z.append(keccak256(z[-1] + z[-1]))
    return z


Z = zeros()


def raw_cat(a, b):
    from engine.core import bcat
    return bcat(a.term(), b.term())


def zero_fact(i):
    """keccak of two zero subtrees of level i, computed"""
    t = raw_cat(c(Z[i]), c(Z[i]))
    return AND(t == c(Z[i] + Z[i]).term(), beq(ksum(c(Z[i] + Z[i])), c(Z[i + 1])))


def fold_bits(o, start, branch, idx, zero=None):
    """the path from start to the root: at level i the sibling stands left exactly when bit i of the index is set;
    with zero given, the right sibling is the zero subtree of the level"""
    cur = start
    for i in range(D):
        nx = el(o, branch, i)
        rt = nx if zero is None else c(zero[i])
        cur = Bytes.of(z3.If(bit(idx, i), ksum(nx, cur).term(), ksum(cur, rt).term()))
    return cur


def root(o):
    b, n = fields(o, o.arg('self'))
    o.ensure('the root can always be computed', o.ok)
    o.post('the root is computed from the stored branch, the bits of the count and the zero subtrees', lambda: beq(o.value, fold_bits(o, c(Z[0]), b, n, Z)))


def lemma_root(E, st):
    """under the invariant of the tree the computed root is the root of the padded tree: the value computed up to level i is the
    padded node on the path of the first unused leaf"""
    n, cur, br = z3.Int('n'), z3.Const('cur', B), z3.Const('branch_i', B)
    st.add(z3.And(n >= 0, n <= 2 ** 32 - 1))
    yield 'start', [beq(node(PN, 0, n), c(Z[0]))], beq(c(Z[0]), node(PN, 0, n))
    for i in range(D):
        k = n / (2 ** i)
        C, R = Bytes.of(cur), Bytes.of(br)
        hyp = [beq(C, node(PN, i, k)), IMP(bit(n, i), beq(R, node(N, i, k - 1))), level(PN, i, k / 2),
               IMP(bit(n, i), beq(node(PN, i, k - 1), node(N, i, k - 1))),      # complete subtrees
               IMP((k + 1) * 2 ** i >= n, beq(node(PN, i, k + 1), c(Z[i])))]    # empty subtrees
        if i == 0:
            hyp.append(zero_fact(0))
        new = Bytes.of(z3.If(bit(n, i), ksum(R, C).term(), ksum(C, c(Z[i])).term()))
        yield 'level %d' % (i + 1), hyp, beq(new, node(PN, i + 1, n / (2 ** (i + 1))))
    yield 'the path ends at the root', [], n / (2 ** 32) == 0


def branch_root(o):
    item, b, idx = o.arg('item'), o.arg('branch'), o.arg('idx')
    o.ensure('every branch has a root', o.k == 'ret')
    if o.k == 'ret':
        o.ensure('item and branch are combined in the order of the bits of the index', beq(o.v, fold_bits(o, item, b, idx)))


def lemma_complete(E, st):
    """a complete subtree of the padded tree is the subtree over the leaves"""
    n, k = z3.Ints('n k')
    st.add(z3.And(n >= 0, k >= 0))
    L = lambda i, x: beq(node(PN, i, x), node(N, i, x))
    yield 'leaves', [IMP(k < n, L(0, k))], IMP((k + 1) * 1 <= n, L(0, k))
    for i in range(D - 1):
        p = 2 ** i
        hyp = [IMP((x + 1) * p <= n, L(i, x)) for x in (2 * k, 2 * k + 1)] + [level(N, i, k), level(PN, i, k)]
        yield 'level %d' % (i + 1), hyp, IMP((k + 1) * 2 * p <= n, L(i + 1, k))


def lemma_empty(E, st):
    """an empty subtree of the padded tree is the zero subtree of its level"""
    n, k = z3.Ints('n k')
    st.add(z3.And(n >= 0, k >= 0))
    L = lambda i, x: beq(node(PN, i, x), c(Z[i]))
    yield 'leaves', [IMP(k >= n, L(0, k))], IMP(k >= n, L(0, k))
    for i in range(D - 1):
        p = 2 ** i
        hyp = [IMP(x * p >= n, L(i, x)) for x in (2 * k, 2 * k + 1)] + [level(PN, i, k), zero_fact(i)]
        yield 'level %d' % (i + 1), hyp, IMP(k * 2 * p >= n, L(i + 1, k))


def default(o):
    E = o.E
    b, n = fields(o, o.v)
    o.ensure('a new tree has no leaves', ieq(n, 0))
    o.ensure('a new tree has a branch of the right depth', ieq(E.vlen(b), D))


# ------------------------------------------------ C11
H = 'hpl_hook_merkle::'
MT = 'hpl_interface::types::MerkleTree'
R_ = 'hpl_interface::hook::merkle::'


def decoded(m):
    """canonical encoding of the message the bytes decode to (the identity on bytes long enough)"""
    return m


def post_dispatch(o):
    pd = o.var(o.msg, 'PostDispatch')
    m = o.get(pd, 'message')
    mb, t0 = o.item0('mailbox', A), o.item0('message_tree', MT)
    q = o.S.tup('hpl_interface::core::mailbox::QueryMsg', 'Mailbox', o.S.mk('hpl_interface::core::mailbox::MailboxQueryMsg', 'LatestDispatchId'))
    okq, v = o.S.query('hpl_interface::core::mailbox::LatestDispatchedIdResponse', mb.val, q)
    latest = lambda: o.get(v(), 'message_id')
    mid = ksum(m)
    long_ = iz(m.len()) >= 77
    o.post('the message is the one the mailbox dispatched last', lambda: AND(mb.present, okq, long_, o.eq(latest(), mid)))
    t1 = o.item1('message_tree', MT)
    b0, n0 = fields(o, t0.val)
    b1, n1 = fields(o, t1.val)
    o.post('exactly one leaf is added', lambda: AND(t0.present, t1.present, ieq(n1, iz(n0) + 1)))
    o.post('the leaf is the message id', lambda: inserted(o, b0, n0, b1, mid))
    o.post('nothing else changes', lambda: o.frame('message_tree'))
    o.post('no message is sent', lambda: no_messages(o))
    o.ensure('a dispatched message is inserted while the tree is not full',
             IMP(AND(mb.present, t0.present, okq, long_, lambda: AND(o.eq(latest(), mid), iz(n0) < 2 ** 32 - 1)), o.ok))


def tree_query(kind):
    def body(o):
        e = o.item0('message_tree', MT)
        b, n = fields(o, e.val)
        o.post('a query changes nothing', lambda: o.frame())
        small = iz(n) < 2 ** 32
        o.ensure('an instantiated hook always answers', IMP(AND(e.present, small), o.ok))
        rt = lambda: fold_bits(o, c(Z[0]), b, n, Z)
        want = {
            'Count': lambda r: IMP(small, ieq(o.get(r, 'count'), n)),
            'Root': lambda r: beq(o.get(r, 'root'), rt()),
            'Branch': lambda r: AND(*[o.eq(el(o, o.get(r, 'branch'), i), el(o, b, i)) for i in range(D)]),
            'Tree': lambda r: AND(IMP(small, ieq(o.get(r, 'count'), n)), *[o.eq(el(o, o.get(r, 'branch'), i), el(o, b, i)) for i in range(D)]),
            'CheckPoint': lambda r: IMP(small, ieq(o.get(r, 'count'), z3.If(iz(n) == 0, 0, iz(n) - 1))),
        }[kind]
        o.post('the answer describes the stored tree', lambda: AND(e.present, want(o.parsed(o.value, R_ + kind + 'Response'))))
        if kind == 'CheckPoint':
            o.post('the checkpoint carries the root of the stored tree', lambda: beq(o.get(o.parsed(o.value, R_ + kind + 'Response'), 'root'), rt()))
    return body


def hook_mailbox(o):
    e = o.item0('mailbox', A)
    o.post('the answer is the configured mailbox', lambda: AND(e.present, o.eq(o.get(o.parsed(o.value, 'hpl_interface::hook::MailboxResponse'), 'mailbox'), e.val)))
    o.post('a query changes nothing', lambda: o.frame())
    o.ensure('an instantiated hook always answers', IMP(e.present, o.ok))


def no_fee(o):
    o.post('the quote is empty', lambda: ieq(o.E.vlen(o.get(o.parsed(o.value, 'hpl_interface::hook::QuoteDispatchResponse'), 'fees')), 0))
    o.post('a query changes nothing', lambda: o.frame())
    o.ensure('every message can be quoted', o.ok)


def c11(P):
    out = [Contract('C11', H + 'execute', post_dispatch, variant=('PostDispatch',))]
    for v in msg_variants(P, H + 'query'):
        b = None
        if v[0] == 'MerkleHook':
            b = tree_query(v[1])
        elif v == ('Hook', 'Mailbox'):
            b = hook_mailbox
        elif v == ('Hook', 'QuoteDispatch'):
            b = no_fee
        if b:
            out.append(Contract('C11', H + 'query', b, variant=v))
    return out


def contracts(P):
    return c11(P) + [
        Contract('C10', X + 'insert', insert, setup=keep_self),
        Lemma('C10', 'insertion keeps the invariant', lemma_insert),
        Contract('C10', X + 'root', root),
        Contract('C10', X + 'branch_root', branch_root, reach=()),
        Contract('C10', '<hpl_interface::types::MerkleTree as std::default::Default>::default', default, reach=()),
        Lemma('C10', 'complete subtrees', lemma_complete),
        Lemma('C10', 'empty subtrees', lemma_empty),
        Lemma('C10', 'path to the root', lemma_root),
    ]
