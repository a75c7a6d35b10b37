"""Contract contexts: what a contract clause may talk about."""
import z3
from .core import *
from .core import _iz
from .vm import *
from . import models as M
from . import entry


class Out:
    """an end state of a verified function, seen by contract clauses.
    Also used on concrete executions (engine/concrete.py), where every input is a constant."""

    def __init__(self, E, f, args, names, st, k, v):
        self.E, self.f, self.args, self.names, self.st = E, f, args, names, st
        self.k, self.v = k, v
        self.clauses = []
        self.S = Spec(E, st)

    # ---- inputs
    def arg(self, name):
        if name not in self.names:
            raise Unsupported('argument %s' % name)
        return self.E.deref_all(self.st, self.args[self.names[name]])

    def argty(self, name):
        ty = self.f['locals'][self.names[name] + 1]
        while self.E.k(ty).k == 'ref':
            ty = self.E.k(ty).e
        return ty

    def get(self, v, path):
        for p in path.split('.'):
            v = self.E.deref_all(self.st, v)
            v = self.E.fname(self.st, v, p)
        return self.E.deref_all(self.st, v)

    @property
    def sender(self):
        return self.get(self.arg('info'), 'sender')

    @property
    def funds(self):
        return self.get(self.arg('info'), 'funds')

    @property
    def env(self):
        return self.arg('env')

    @property
    def self_addr(self):
        return self.get(self.env, 'contract.address')

    @property
    def msg(self):
        return self.arg('msg')

    # ---- outcome
    def okvar(self):
        return self.E.isvar(self.v, 0)

    @property
    def ok(self):
        if self.k != 'ret':
            return False
        v = self.v
        if isinstance(v, (Agg, Sym)) and v.ty is not None and self.E.P.ts(v.ty).startswith('std::result::Result<'):
            return self.okvar()
        return True

    @property
    def failed(self):
        return NOT(self.ok)

    @property
    def value(self):
        """the Ok value"""
        v = self.v
        if isinstance(v, (Agg, Sym)) and v.ty is not None and self.E.P.ts(v.ty).startswith('std::result::Result<'):
            return self.E.field(self.st, v, 0, 0)
        return v

    @property
    def messages(self):
        return self.get(self.value, 'messages')

    def data(self):
        return self.get(self.value, 'data')

    # ---- storage
    def _entry(self, store, ns, ty, kty=None):
        e = store.get(ns)
        return e

    def item0(self, ns, ty=None):
        """initial content of an item (present, value)"""
        ns = ns.encode() if isinstance(ns, str) else ns
        e = M.st0(self.st, ns)
        if e is None:
            if ty is None:
                raise Unsupported('initial content of %r' % ns)
            s2 = self.st
            cur = s2.store.get(ns)
            e = M.item(self.E, s2, ns, self.ty(ty)) if cur is None else None
            if e is None:
                raise Unsupported('initial content of %r' % ns)
        return e

    def item1(self, ns, ty=None):
        ns = ns.encode() if isinstance(ns, str) else ns
        e = self.st.store.get(ns)
        if e is None:
            return self.item0(ns, ty)
        return e

    def map0(self, ns, kty=None, vty=None):
        ns = ns.encode() if isinstance(ns, str) else ns
        e = M.st0(self.st, ns)
        if e is None:
            e = M.smap(self.E, self.st, ns, self.ty(kty), self.ty(vty))
        return e

    def map1(self, ns, kty=None, vty=None):
        ns = ns.encode() if isinstance(ns, str) else ns
        e = self.st.store.get(ns)
        return e if e is not None else self.map0(ns, kty, vty)

    def ty(self, t):
        return self.E.ty(t) if isinstance(t, str) else t

    def has(self, m, *key):
        k = M.key_term(self.E, self.st, key[0] if len(key) == 1 else Agg(None, 0, key))
        return simp(z3.Select(m.pres, k))

    def at(self, m, *key):
        k = M.key_term(self.E, self.st, key[0] if len(key) == 1 else Agg(None, 0, key))
        return self.E.from_term(self.st, m.vty, z3.simplify(z3.Select(m.vals, k)))

    def touched(self):
        return [ns for ns, e in self.st.store.items() if M.st0(self.st, ns) is not e]

    def unchanged_entry(self, ns):
        a, b = M.st0(self.st, ns), self.st.store[ns]
        if a is b:
            return True
        if isinstance(b, M.ItemSt):
            if a is None:
                return False
            return AND(IFF(a.present, b.present), IMP(b.present, self.E.eq(self.st, a.val, b.val, True)))
        k = self.E.fresh('anykey', a.pres.sort().domain())
        pa, pb = z3.Select(a.pres, k), z3.Select(b.pres, k)
        return AND(pa == pb, IMP(pb, z3.Select(a.vals, k) == z3.Select(b.vals, k)))

    def frame(self, *allowed):
        """every storage namespace except the allowed ones is as it was"""
        al = set(a.encode() if isinstance(a, str) else a for a in allowed)
        return AND(*[self.unchanged_entry(ns) for ns in self.touched() if ns not in al])

    def unchanged(self, *ns):
        return AND(*[self.unchanged_entry(n.encode() if isinstance(n, str) else n) for n in ns if (n.encode() if isinstance(n, str) else n) in self.st.store])

    def map_frame(self, ns, *keys):
        """entries other than the given keys are as they were"""
        ns = ns.encode() if isinstance(ns, str) else ns
        if ns not in self.st.store:
            return True
        a, b = M.st0(self.st, ns), self.st.store[ns]
        if a is b:
            return True
        k = self.E.fresh('anykey', a.pres.sort().domain())
        ks = [M.key_term(self.E, self.st, x if not isinstance(x, tuple) else Agg(None, 0, x)) for x in keys]
        same = AND(z3.Select(a.pres, k) == z3.Select(b.pres, k), IMP(z3.Select(b.pres, k), z3.Select(a.vals, k) == z3.Select(b.vals, k)))
        return IMP(AND(*[k != x for x in ks]), same)

    def parsed(self, b, t):
        """the value of type t whose JSON the bytes are"""
        j = self.E.json_src(b)
        if j is None or j[1] != self.E.P.ts(self.S.ty(t)):
            raise Unsupported('JSON answer of another form')
        return self.E.deref_all(self.st, j[0])

    # ---- clauses
    def ensure(self, name, cond):
        if z3.is_expr(cond) or isinstance(cond, bool):
            self.clauses.append((name, cond))
        else:
            raise VerifierBug('clause %s: %r' % (name, cond))

    def post(self, name, cond):
        """on success: cond"""
        ok = self.ok
        if is_false(ok):
            self.clauses.append((name, True))
            return
        self.ensure(name, IMP(ok, cond() if callable(cond) else cond))

    def eq(self, a, b):
        return self.E.eq(self.st, a, b, True)

    # variant helpers
    def isv(self, v, name):
        v = self.E.deref_all(self.st, v)
        return self.E.isvar(v, M.vidx(self.E, v.ty, name))

    def var(self, v, name, i=0):
        """payload of variant"""
        v = self.E.deref_all(self.st, v)
        vi = M.vidx(self.E, v.ty, name)
        fs = self.E.variants(v.ty)[vi]['f']
        if isinstance(i, str):
            i = [n for n, _ in fs].index(i)
        return self.E.deref_all(self.st, self.E.field(self.st, v, i, vi))


class Spec:
    """terms of the specification language"""

    def __init__(self, E, st):
        self.E, self.st = E, st

    @staticmethod
    def keccak(*bs):
        b = Bytes(())
        for x in bs:
            b = b + (Bytes.const(x) if isinstance(x, (bytes, str)) else x)
        return M.hash_of('keccak', b)

    @staticmethod
    def c(x):
        return Bytes.const(x)

    @staticmethod
    def be(n, v):
        return Bytes.be(n, v)

    @staticmethod
    def cat(*bs):
        b = Bytes(())
        for x in bs:
            b = b + (Bytes.const(x) if isinstance(x, (bytes, str)) else x)
        return b

    def pad32(self, b, n=None):
        """left pad to 32 bytes; length n must be a known constant"""
        n = b.len() if n is None else n
        if not isinstance(n, int):
            raise Unsupported('padding of unknown length')
        return Bytes.const(b'\0' * (32 - n)) + b

    def ty(self, t):
        if not isinstance(t, str):
            return t
        E = self.E
        r = E.tyids.get(t)
        if r is not None:
            return r
        # suffix match on path
        l = [s for s in E.tyids if s.split('<')[0].endswith(t)]
        if len(l) == 1:
            return E.tyids[l[0]]
        raise Unsupported('type %s: %d matches' % (t, len(l)))

    def mk(self, t, var=None, **fs):
        """aggregate by type and field names"""
        return M.mk(self.E, self.ty(t), var, **fs)

    def tup(self, t, var, *xs):
        """tuple variant"""
        ty = self.ty(t)
        return Agg(ty, M.vidx(self.E, ty, var), xs)

    def some(self, t, v):
        return Agg(self.ty(t), 1, (v,))

    def none(self, t):
        return Agg(self.ty(t), 0, ())

    def json(self, v):
        return M.json_bytes(self.E, self.st, v, v.ty)

    def query(self, t, addr, v):
        """(answered, value) of a smart query"""
        t = self.ty(t)
        ts = self.E.P.ts(t)
        a, m = addr.term(), self.json(v).term()
        so = self.E.S.sort(t)
        return M.q_ok(ts)(a, m), (lambda: self.E.from_term(self.st, t, M.q_val(ts, so)(a, m)))

    def amt(self, vec):
        return M.vec_amt(self.E, self.st, vec)

    def exec_msg(self, addr, msgbytes, funds=()):
        return ('exec', addr, msgbytes, funds)

    def vec(self, e, items):
        return VecV(self.ty(e), items)


# ---- reading the messages of a response
def msg_items(o):
    """list of SubMsg values when the number is known"""
    v = o.messages
    if isinstance(v, VecV):
        return list(v.items)
    if isinstance(v, VecCat) and all(isinstance(p, VecV) for p in v.parts):
        return [x for p in v.parts for x in p.items]
    n = o.E.vlen(v)
    if isinstance(n, int):
        return [o.E.vat(o.st, v, i) for i in range(n)]
    return None


def is_exec(o, sm, addr, msg=None, funds=None):
    """condition: the SubMsg is a wasm execute of addr with msg bytes and funds (amount array or list)"""
    E, st = o.E, o.st
    c = o.get(sm, 'msg')
    w = o.var(c, 'Wasm')
    cond = [o.isv(c, 'Wasm'), o.isv(w, 'Execute'), E.eq(st, o.var(w, 'Execute', 'contract_addr'), addr, True)]
    if msg is not None:
        cond.append(E.eq(st, o.var(w, 'Execute', 'msg'), msg, True))
    if funds is not None:
        cond.append(funds_are(o, o.var(w, 'Execute', 'funds'), funds))
    return AND(*cond)


def funds_are(o, vec, want):
    """the coin vector carries exactly the amounts `want` (denom -> amount array, or [] for none)"""
    E, st = o.E, o.st
    if isinstance(want, (list, tuple)) and not want:
        a = M.zero_amt
    elif isinstance(want, (VecV, VecS)):
        if isinstance(vec, type(want)) and same_vec(vec, want):
            return True
        a = M.vec_amt(E, st, want)
    else:
        a = want
    got = M.vec_amt(E, st, vec)
    if got.eq(a):
        return True
    d = E.fresh('anydenom', B)
    return z3.Select(got, d) == z3.Select(a, d)


def same_vec(a, b):
    if isinstance(a, VecS):
        return z3.is_expr(a.key) and z3.is_expr(b.key) and a.key.eq(b.key)
    return False


def no_reply(o, sm):
    return o.isv(o.get(sm, 'reply_on'), 'Never')
