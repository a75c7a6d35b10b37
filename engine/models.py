"""Contracts assumed for dependency functions (std, cosmwasm-std, cw-storage-plus, ...).
Each model is a trusted contract: it states what the dependency function returns."""
import z3
from .core import *
from .core import _iz
from .vm import *

MODELS = {}
USED = set()


def model(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f
    return d


def ok(E, c, v, ty=None):
    return Agg(ty if ty is not None else c.dest, 0, (v,))


def err(E, c, ty=None):
    return Agg(ty if ty is not None else c.dest, 1, (ERR,))


def some(ty, v):
    return Agg(ty, 1, (v,))


def none(ty):
    return Agg(ty, 0, ())


def branch(E, st, cond, tv, fv):
    """fork on cond; tv/fv: functions of state -> value or Ret kind"""
    out = []
    a, b = E.fork(st, cond)
    for s, v in ((a, tv), (b, fv)):
        if s is None:
            continue
        r = v(s) if callable(v) else v
        if isinstance(r, Ret):
            r.st = s
            out.append(r)
        elif isinstance(r, list):
            out.extend(r)
        else:
            out.append(Ret(s, 'ret', r))
    return out


def PANIC(msg):
    return Ret(None, 'panic', msg)


def resty(E, c):
    """(T, E) types of a Result dest"""
    return E.k(c.dest).t['ga']


def dr(E, st, v):
    return E.deref_all(st, v)


# ---------------------------------------------------------------- storage
def key_term(E, st, v):
    """canonical storage key"""
    v = dr(E, st, v)
    if isinstance(v, Bytes):
        return v.term()
    if isinstance(v, int) or (z3.is_expr(v) and z3.is_int(v)):
        return _iz(v)
    if isinstance(v, Agg) or isinstance(v, Sym):
        v = E.expand(st, v)
        ts = [key_term(E, st, x) for x in v.f]
        return keytup(*[t.sort() for t in ts])(*ts)
    raise Unsupported('storage key %r' % (v,))


_kt = {}


def keytup(*sorts):
    n = 'Key<%s>' % ','.join(s.name() for s in sorts)
    if n not in _kt:
        d = z3.Datatype(n)
        d.declare('mk' + n, *[('k%d' % i + n, s) for i, s in enumerate(sorts)])
        _kt[n] = d.create()
    return _kt[n].constructor(0)


class ItemSt:
    __slots__ = ('ty', 'present', 'val')

    def __init__(self, ty, present, val):
        self.ty, self.present, self.val = ty, present, val


class MapSt:
    __slots__ = ('kty', 'vty', 'pres', 'vals')

    def __init__(self, kty, vty, pres, vals):
        self.kty, self.vty, self.pres, self.vals = kty, vty, pres, vals


def keysort(E, ty):
    k = E.k(ty)
    while k.k == 'ref':
        ty = k.e
        k = E.k(ty)
    if k.k == 'int':
        return Int
    if k.k == 'bytes':
        return B
    if k.k == 'tuple':
        return keytup(*[keysort(E, x) for x in k.t['e']]).range()
    raise Unsupported('key type')


def item(E, st, ns, ty):
    """current content of an Item"""
    e = st.store.get(ns)
    if e is None:
        n = ns.decode('latin1')
        so = E.S.sort(ty)
        e = ItemSt(ty, z3.Bool('st0!%s!present' % n), E.from_term(st, ty, z3.Const('st0!%s' % n, so)))
        st.store[ns] = e
        st.ghost.setdefault('st0', {})
        st.ghost['st0'] = dict(st.ghost['st0'])
        st.ghost['st0'][ns] = e
    if not isinstance(e, ItemSt):
        raise Unsupported('namespace %r used as item and map' % ns)
    if e.ty != ty and not E.S.sort(e.ty).eq(E.S.sort(ty)):
        raise Unsupported('namespace %r used at two types' % ns)
    return e


# namespaces whose entries are optional values: JSON of Some(x) is JSON of x, so they may be read as plain x
OPTMAPS = {b'routes'}


def opt_of(E, ty):
    if E.P.ts(ty).startswith('std::option::Option<'):
        return None
    return E.tyids.get('std::option::Option<%s>' % E.P.ts(ty))


def smap(E, st, ns, kty, vty):
    if ns in OPTMAPS:
        ot = opt_of(E, vty)
        vty = ot if ot is not None else vty
    e = st.store.get(ns)
    if e is None:
        n = ns.decode('latin1')
        ks, vs = keysort(E, kty), E.S.sort(vty)
        e = MapSt(kty, vty, z3.Const('st0!%s!keys' % n, z3.ArraySort(ks, BoolS)), z3.Const('st0!%s!vals' % n, z3.ArraySort(ks, vs)))
        st.store[ns] = e
        st.ghost['st0'] = dict(st.ghost.get('st0', {}))
        st.ghost['st0'][ns] = e
    if not isinstance(e, MapSt):
        raise Unsupported('namespace %r used as item and map' % ns)
    if not E.S.sort(e.vty).eq(E.S.sort(vty)) or not keysort(E, kty).eq(keysort(E, e.kty)):
        raise Unsupported('namespace %r used at two types' % ns)
    return e


def st0(st, ns):
    return st.ghost.get('st0', {}).get(ns)


def _item(E, st, c):
    o = dr(E, st, c.args[0])
    if not isinstance(o, MapObj):
        raise Unsupported('item object %r' % (o,))
    return o.ns, c.ga[0]


@model("cw_storage_plus::item::Item::<'a, T>::load")
def _(E, st, c):
    ns, ty = _item(E, st, c)
    e = item(E, st, ns, ty)
    return branch(E, st, e.present, lambda s: ok(E, c, e.val), lambda s: err(E, c))


@model("cw_storage_plus::item::Item::<'a, T>::may_load")
def _(E, st, c):
    ns, ty = _item(E, st, c)
    e = item(E, st, ns, ty)
    ot = resty(E, c)[0]
    return branch(E, st, e.present, lambda s: ok(E, c, some(ot, e.val)), lambda s: ok(E, c, none(ot)))


@model("cw_storage_plus::item::Item::<'a, T>::exists")
def _(E, st, c):
    ns, ty = _item(E, st, c)
    return item(E, st, ns, ty).present


@model("cw_storage_plus::item::Item::<'a, T>::save")
def _(E, st, c):
    ns, ty = _item(E, st, c)
    item(E, st, ns, ty)
    st.store[ns] = ItemSt(ty, True, dr(E, st, c.args[2]))
    return ok(E, c, UNIT)


@model("cw_storage_plus::item::Item::<'a, T>::remove")
def _(E, st, c):
    ns, ty = _item(E, st, c)
    e = item(E, st, ns, ty)
    st.store[ns] = ItemSt(ty, False, e.val)
    return UNIT


@model("cw_storage_plus::item::Item::<'a, T>::update")
def _(E, st, c):
    ns, ty = _item(E, st, c)
    e = item(E, st, ns, ty)
    out = []
    a, b = E.fork(st, e.present)
    if b is not None:
        out.append(Ret(b, 'ret', err(E, c)))
    if a is not None:
        for r in E.call_value(a, c.args[2], [e.val]):
            if r.k == 'panic':
                out.append(r)
                continue
            x, y = E.fork(r.st, E.isvar(r.v, 0))
            if x is not None:
                nv = E.field(x, r.v, 0, 0)
                x.store[ns] = ItemSt(ty, True, nv)
                out.append(Ret(x, 'ret', ok(E, c, nv)))
            if y is not None:
                out.append(Ret(y, 'ret', err(E, c)))
    return out


def _map(E, st, c):
    o = dr(E, st, c.args[0])
    if not isinstance(o, MapObj):
        raise Unsupported('map object %r' % (o,))
    # ga: [K, T]  (lifetimes dropped)
    return o.ns, c.ga[0], c.ga[1]


@model("cw_storage_plus::map::Map::<'a, K, T>::new", "cw_storage_plus::item::Item::<'a, T>::new")
def _(E, st, c):
    b = dr(E, st, c.args[0])
    if not b.is_const():
        raise Unsupported('symbolic namespace')
    return MapObj('map' if 'map' in c.name else 'item', b.const_value())


def map_get(E, st, m, k, vt=None):
    """(present, value, parses): read at type vt"""
    raw = z3.simplify(z3.Select(m.vals, k))
    p = simp(z3.Select(m.pres, k))
    if vt is not None and not E.S.sort(vt).eq(E.S.sort(m.vty)):
        so = E.S.sort(m.vty)
        return p, (lambda s: E.from_term(s, vt, z3.simplify(so.accessor(1, 0)(raw)))), simp(so.recognizer(1)(raw))
    return p, (lambda s: E.from_term(s, m.vty, raw)), True


@model("cw_storage_plus::map::Map::<'a, K, T>::load")
def _(E, st, c):
    ns, kt, vt = _map(E, st, c)
    m = smap(E, st, ns, kt, vt)
    k = key_term(E, st, c.args[2])
    p, v, ps = map_get(E, st, m, k, vt)
    return branch(E, st, AND(p, ps), lambda s: ok(E, c, v(s)), lambda s: err(E, c))


@model("cw_storage_plus::map::Map::<'a, K, T>::may_load")
def _(E, st, c):
    ns, kt, vt = _map(E, st, c)
    m = smap(E, st, ns, kt, vt)
    k = key_term(E, st, c.args[2])
    p, v, ps = map_get(E, st, m, k, vt)
    ot = resty(E, c)[0]
    if not is_true(ps):
        out = []
        a, b = E.fork(st, p)
        if b is not None:
            out.append(Ret(b, 'ret', ok(E, c, none(ot))))
        if a is not None:
            x, y = E.fork(a, ps)
            if x is not None:
                out.append(Ret(x, 'ret', ok(E, c, some(ot, v(x)))))
            if y is not None:
                out.append(Ret(y, 'ret', err(E, c)))
        return out
    return branch(E, st, p, lambda s: ok(E, c, some(ot, v(s))), lambda s: ok(E, c, none(ot)))


@model("cw_storage_plus::map::Map::<'a, K, T>::has")
def _(E, st, c):
    ns, kt, vt = _map(E, st, c)
    m = smap(E, st, ns, kt, vt)
    return map_get(E, st, m, key_term(E, st, c.args[2]))[0]


@model("cw_storage_plus::map::Map::<'a, K, T>::save")
def _(E, st, c):
    ns, kt, vt = _map(E, st, c)
    m = smap(E, st, ns, kt, vt)
    k = key_term(E, st, c.args[2])
    v = E.term(st, dr(E, st, c.args[3]), vt)
    if not v.sort().eq(E.S.sort(m.vty)):
        v = E.S.sort(m.vty).constructor(1)(v)
    st.store[ns] = MapSt(m.kty, m.vty, z3.Store(m.pres, k, True), z3.Store(m.vals, k, v))
    return ok(E, c, UNIT)


@model("cw_storage_plus::map::Map::<'a, K, T>::remove")
def _(E, st, c):
    ns, kt, vt = _map(E, st, c)
    m = smap(E, st, ns, kt, vt)
    k = key_term(E, st, c.args[2])
    st.store[ns] = MapSt(m.kty, m.vty, z3.Store(m.pres, k, False), m.vals)
    return UNIT


@model("cw_storage_plus::map::Map::<'a, K, T>::update")
def _(E, st, c):
    ns, kt, vt = _map(E, st, c)
    m = smap(E, st, ns, kt, vt)
    k = key_term(E, st, c.args[2])
    if not E.S.sort(vt).eq(E.S.sort(m.vty)):
        raise Unsupported('update of an optional entry')
    p, v, _ps = map_get(E, st, m, k)
    clo = E.deref_all(st, c.args[3])
    ct = E.P.types[clo.ty]
    f = E.P.fns[ct['id']]
    ot = f['locals'][2]
    out = []
    a, b = E.fork(st, p)
    for s, arg in ((a, lambda s: some(ot, v(s))), (b, lambda s: none(ot))):
        if s is None:
            continue
        for r in E.call_value(s, c.args[3], [arg(s)]):
            if r.k == 'panic':
                out.append(r)
                continue
            x, y = E.fork(r.st, E.isvar(r.v, 0))
            if x is not None:
                nv = E.field(x, r.v, 0, 0)
                mm = x.store[ns]
                x.store[ns] = MapSt(mm.kty, mm.vty, z3.Store(mm.pres, k, True), z3.Store(mm.vals, k, E.term(x, nv, vt)))
                out.append(Ret(x, 'ret', ok(E, c, nv)))
            if y is not None:
                out.append(Ret(y, 'ret', err(E, c)))
    return out


@model("cw_storage_plus::bound::Bound::<'a, K>::exclusive", "cw_storage_plus::bound::Bound::<'a, K>::inclusive")
def _(E, st, c):
    i = vidx(E, c.dest, 'Exclusive' if c.name.endswith('exclusive') else 'Inclusive')
    tt = E.variants(c.dest)[i]['f'][0][1]
    ph = E.k(tt).t['e'][1]
    return Agg(c.dest, i, (Agg(tt, 0, (dr(E, st, c.args[0]), Agg(ph, 0, ()))),))


@model("cw_storage_plus::map::Map::<'a, K, T>::prefix")
def _(E, st, c):
    ns, kt, vt = _map(E, st, c)
    p = MapObj('prefix', ns)
    return Opq('prefix', (ns, kt, vt, key_term(E, st, c.args[1])))


def bound_args(E, st, b, ksort):
    """(kind 0 none / 1 inclusive / 2 exclusive, key) of an Option<Bound<K>>"""
    dflt = z3.Const('nokey!%s' % ksort.name(), ksort)
    if isinstance(b, Agg) and b.var == 0:
        return z3.IntVal(0), dflt
    if isinstance(b, Agg):
        x = b.f[0]
        if isinstance(x, Agg):
            n = E.variants(x.ty)[x.var]['n']
            if n in ('Inclusive', 'Exclusive'):
                return z3.IntVal(1 if n == 'Inclusive' else 2), key_term(E, st, E.field(st, x.f[0], 0))
    raise Unsupported('range bound %r' % (b,))


def nobound(ksort):
    return z3.IntVal(0), z3.Const('nokey!%s' % ksort.name(), ksort)


def find_ty(E, name, *ga):
    """type id of an adt by name and (canonical strings of) leading generic arguments"""
    for i, t in enumerate(E.P.types):
        if t['k'] == 'adt' and t['name'] == name and len(t['ga']) >= len(ga) and all(g is None or E.P.ts(t['ga'][j]) == g for j, g in enumerate(ga)):
            return i
    return None


def find_tuple(E, *es):
    for i, t in enumerate(E.P.types):
        if t['k'] == 'tuple' and [E.P.ts(x) for x in t['e']] == list(es):
            return i
    return None


def range_val(E, st, pres, vals, kty_sort, vty, kout, pre, mn, mx, asc, keys_only=False):
    """entries of a storage map in key order, as a vector determined by the map content,
    the prefix, the bounds and the direction"""
    args = [pres, vals] + ([pre] if pre is not None else []) + [mn[0], mn[1], mx[0], mx[1], asc]
    so = [a.sort() for a in args]
    n = uf('range_len', *(so + [Int]))(*args)
    st.add(n >= 0)
    kf = uf('range_key', *(so + [Int, kty_sort]))
    kts = E.P.ts(kout.id)
    tt = find_tuple(E, kts, E.P.ts(vty))
    rt = find_ty(E, 'std::result::Result', kts if keys_only else (E.P.ts(tt) if tt is not None else None), 'cosmwasm_std::errors::std_error::StdError')
    def at(s, i):
        k = kf(*(args + [_iz(i)]))
        full = keytup(pre.sort(), kty_sort)(pre, k) if pre is not None else k
        if s is not None:
            s.add(z3.Select(pres, full))
        kv = Bytes.of(k) if kty_sort.eq(B) else k
        if s is not None and not kty_sort.eq(B):
            E.rng(s, k, kout)
        if keys_only:
            return Agg(rt, 0, (kv,))
        return Agg(rt, 0, (Agg(tt, 0, (kv, E.from_term(s, vty, z3.simplify(z3.Select(vals, full))))),))
    return VecS(rt, n, at, ('range',) + tuple(args))


@model("cw_storage_plus::map::Map::<'a, K, T>::range", "cw_storage_plus::map::Map::<'a, K, T>::keys",
       "cw_storage_plus::prefix::Prefix::<K, T, B>::range", "cw_storage_plus::prefix::Prefix::<K, T, B>::keys")
def _(E, st, c):
    o = dr(E, st, c.args[0])
    pre = None
    if isinstance(o, Opq) and o.tag == 'prefix':
        ns, kt, vt, pre = o.d
        sub = E.k(kt).t['e'][1]
    else:
        ns, kt, vt = _map(E, st, c)
        sub = kt
    m = smap(E, st, ns, kt, vt)
    if not E.S.sort(vt).eq(E.S.sort(m.vty)):
        if not c.name.endswith('keys'):
            raise Unsupported('range over optional entries')
        vt = m.vty
    while E.k(sub).k == 'ref':
        sub = E.k(sub).e
    ks = keysort(E, sub)
    od = dr(E, st, c.args[4])
    asc = vidx(E, od.ty, 'Ascending')
    out = []
    work = [(st, c.args[2], c.args[3])]
    v = range_val(E, st, m.pres, m.vals, ks, vt, E.k(sub), pre, bound_args(E, st, c.args[2], ks), bound_args(E, st, c.args[3], ks),
                  E.term(st, E.isvar(od, asc), E.ty('bool')), c.name.endswith('keys'))
    return IterV('vec', (v, 0, False))


@model("cw_storage_plus::map::Map::<'a, K, T>::is_empty")
def _(E, st, c):
    ns, kt, vt = _map(E, st, c)
    m = smap(E, st, ns, kt, vt)
    return m.pres == z3.K(keysort(E, kt), z3.BoolVal(False))


@model('cw2::set_contract_version')
def _(E, st, c):
    ty = E.ty('cw2::ContractVersion')
    item(E, st, b'contract_info', ty)
    a, b = dr(E, st, c.args[1]), dr(E, st, c.args[2])
    st.store[b'contract_info'] = ItemSt(ty, True, Agg(ty, 0, (a, b)))
    return ok(E, c, UNIT)


@model('cw2::get_contract_version')
def _(E, st, c):
    ty = E.ty('cw2::ContractVersion')
    e = item(E, st, b'contract_info', ty)
    return branch(E, st, e.present, lambda s: ok(E, c, e.val), lambda s: err(E, c))


# ---------------------------------------------------------------- JSON
def snake(n):
    o = ''
    for i, ch in enumerate(n):
        if ch.isupper():
            if i:
                o += '_'
            o += ch.lower()
        else:
            o += ch
    return o


def json_shape(E, st, v, ty, leaves):
    k = E.k(ty)
    while k.k in ('ref', 'box'):
        v = E.deref(st, v) if isinstance(v, (Ref, ValRef)) else v
        ty = k.e
        k = E.k(ty)
    v = dr(E, st, v)
    ts = E.P.ts(ty)
    if k.k == 'bytes':
        n = k.t.get('name', '') if k.t['k'] == 'adt' else ''
        tag = 'hex' if n.endswith('HexBinary') else 'b64' if n.endswith('::Binary') else 'str' if (n.endswith(('String', 'Addr')) or k.t['k'] == 'str') else 'bytes'
        leaves.append(v.term())
        return '$' + tag
    if k.k == 'int':
        leaves.append(_iz(v))
        return '"$int"' if k.t['k'] == 'adt' else '$int'
    if k.k == 'bool':
        leaves.append(E.term(st, v, ty))
        return '$bool'
    if k.k == 'tuple':
        v = E.expand(st, v)
        return '[' + ','.join(json_shape(E, st, x, t, leaves) for x, t in zip(v.f, k.t['e'])) + ']'
    if k.k == 'vec':
        if isinstance(v, VecV):
            return '[' + ','.join(json_shape(E, st, x, k.e, leaves) for x in v.items) + ']'
        leaves.append(E.term(st, v, ty))
        return '$vec(%s)' % elem_shape(E, k.e)
    if k.k == 'adt':
        n = k.t['name']
        if n == 'std::option::Option':
            if isinstance(v, Agg):
                return 'null' if v.var == 0 else json_shape(E, st, v.f[0], k.t['ga'][0], leaves)
            leaves.append(E.term(st, v, ty))
            return '$opt(%s)' % ts
        if not k.t['enum']:
            v2 = E.expand(st, v)
            fs = k.t['v'][0]['f']
            if len(fs) == 1 and fs[0][0] == '0':
                return json_shape(E, st, v2.f[0], fs[0][1], leaves)
            return '{' + ','.join('"%s":%s' % (fn, json_shape(E, st, x, ft, leaves)) for (fn, ft), x in zip(fs, v2.f) if 'PhantomData' not in E.P.ts(ft)) + '}'
        if isinstance(v, Agg):
            vr = k.t['v'][v.var]
            fs = vr['f']
            if not fs:
                return '"%s"|{"%s":{}}' % (snake(vr['n']), snake(vr['n'])) if False else '{"%s":{}}' % snake(vr['n'])
            if fs[0][0] == '0':
                inner = json_shape(E, st, v.f[0], fs[0][1], leaves)
            else:
                inner = '{' + ','.join('"%s":%s' % (fn, json_shape(E, st, x, ft, leaves)) for (fn, ft), x in zip(fs, v.f)) + '}'
            return '{"%s":%s}' % (snake(vr['n']), inner)
        leaves.append(v.term)
        return '$sym(%s)' % ts
    raise Unsupported('json of ' + ts)


def elem_shape(E, ty):
    return E.P.ts(ty).split('::')[-1]


def json_bytes(E, st, v, ty):
    leaves = []
    sh = json_shape(E, st, v, ty, leaves)
    t = uf('json:' + sh, *([x.sort() for x in leaves] + [B]))(*leaves)
    while isinstance(v, (Ref, ValRef)):
        v = E.deref(st, v)
    k = E.k(ty)
    while k.k in ('ref', 'box'):
        ty = k.e
        k = E.k(ty)
    E.jsrc.setdefault(t.get_id(), (t, v, E.P.ts(ty)))
    return Bytes.of(t)


@model('cosmwasm_std::serde::to_json_binary', 'cosmwasm_std::serde::to_binary', 'cosmwasm_std::serde::to_json_vec')
def _(E, st, c):
    return ok(E, c, json_bytes(E, st, c.args[0], c.ga[0]))


@model('serde_json_wasm::ser::to_string')
def _(E, st, c):
    try:
        b = json_bytes(E, st, c.args[0], c.ga[0])
    except Unsupported:
        b = Bytes.of(E.fresh('json', B))
    return ok(E, c, b)


@model('cosmwasm_std::results::cosmos_msg::wasm_execute')
def _(E, st, c):
    # wasm_execute<T>(contract_addr: impl Into<String>, msg: &T, funds: Vec<Coin>)
    mty = None
    for g in c.ga:
        mty = g
    at = c.argtys[1]
    mty = E.k(at).e if at is not None and E.k(at).k == 'ref' else c.ga[0]
    wm = resty(E, c)[0]
    j = json_bytes(E, st, c.args[1], mty)
    return ok(E, c, mk(E, wm, 'Execute', contract_addr=dr(E, st, c.args[0]), msg=j, funds=c.args[2]))


def vidx(E, ty, vname):
    for i, v in enumerate(E.variants(ty)):
        if v['n'] == vname:
            return i
    raise Unsupported('no variant %s in %s' % (vname, E.P.ts(ty)))


def mk(E, ty, vname, **fs):
    vi = vidx(E, ty, vname) if vname is not None else 0
    out = []
    for fn, ft in E.variants(ty)[vi]['f']:
        if fn not in fs:
            raise Unsupported('field %s of %s missing' % (fn, E.P.ts(ty)))
        out.append(fs[fn])
    return Agg(ty, vi, out)


# ---------------------------------------------------------------- querier / api
def q_ok(ts):
    return uf('query_ok<%s>' % ts, B, B, BoolS)


def q_val(ts, so):
    return uf('query<%s>' % ts, B, B, so)


@model("cosmwasm_std::traits::QuerierWrapper::<'a, C>::query_wasm_smart")
def _(E, st, c):
    t = resty(E, c)[0]
    ts = E.P.ts(t)
    addr = dr(E, st, c.args[1]).term()
    at = c.argtys[2]
    mty = E.k(at).e if at is not None and E.k(at).k == 'ref' else None
    if mty is None:
        raise Unsupported('query message type')
    m = json_bytes(E, st, c.args[2], mty).term()
    so = E.S.sort(t)
    st.ghost['queries'] = st.ghost.get('queries', ()) + ((ts, addr, m),)
    return branch(E, st, q_ok(ts)(addr, m), lambda s: ok(E, c, E.from_term(s, t, q_val(ts, so)(addr, m))), lambda s: err(E, c))


balance = uf('bank_balance', B, B, Int)
supply = uf('bank_supply', B, Int)


@model("cosmwasm_std::traits::QuerierWrapper::<'a, C>::query_balance")
def _(E, st, c):
    ct = resty(E, c)[0]
    a, d = dr(E, st, c.args[1]).term(), dr(E, st, c.args[2])
    amt = balance(a, d.term())
    st.add(z3.And(amt >= 0, amt < (1 << 128)))
    return branch(E, st, uf('balance_ok', B, B, BoolS)(a, d.term()), lambda s: ok(E, c, mk(E, ct, None, denom=d, amount=amt)), lambda s: err(E, c))


@model("cosmwasm_std::traits::QuerierWrapper::<'a, C>::query_supply")
def _(E, st, c):
    ct = resty(E, c)[0]
    d = dr(E, st, c.args[1])
    amt = supply(d.term())
    st.add(z3.And(amt >= 0, amt < (1 << 128)))
    return branch(E, st, uf('supply_ok', B, BoolS)(d.term()), lambda s: ok(E, c, mk(E, ct, None, denom=d, amount=amt)), lambda s: err(E, c))


@model("cosmwasm_std::traits::QuerierWrapper::<'a, C>::query_all_balances")
def _(E, st, c):
    vt = resty(E, c)[0]
    a = dr(E, st, c.args[1]).term()
    f = uf('bank_all_balances', B, E.S.sort(vt))
    return branch(E, st, uf('all_balances_ok', B, BoolS)(a), lambda s: ok(E, c, E.from_term(s, vt, f(a))), lambda s: err(E, c))


addr_ok = uf('addr_ok', B, BoolS)


@model('cosmwasm_std::traits::Api::addr_validate')
def _(E, st, c):
    a = dr(E, st, c.args[1])
    return branch(E, st, addr_ok(a.term()), lambda s: ok(E, c, a), lambda s: err(E, c))


rec_ok = uf('recover_ok', B, B, Int, BoolS)
rec_val = uf('recover_pubkey', B, B, Int, B)


@model('cosmwasm_std::traits::Api::secp256k1_recover_pubkey')
def _(E, st, c):
    h, s_, r = dr(E, st, c.args[1]).term(), dr(E, st, c.args[2]).term(), _iz(c.args[3])
    t = rec_val(h, s_, r)
    set_fixedlen(t, 65)
    return branch(E, st, rec_ok(h, s_, r), lambda s: ok(E, c, Bytes.of(t)), lambda s: err(E, c))


@model('cosmwasm_std::traits::Api::debug')
def _(E, st, c):
    return UNIT


@model("cosmwasm_std::traits::QuerierWrapper::<'a, C>::new")
def _(E, st, c):
    return QUERIER


@model("cosmwasm_std::deps::DepsMut::<'a, C>::as_ref", "cosmwasm_std::deps::DepsMut::<'_, C>::as_ref")
def _(E, st, c):
    return Agg(c.dest, 0, (STORAGE, API, QUERIER))


@model("cosmwasm_std::deps::DepsMut::<'a, C>::branch", "cosmwasm_std::deps::DepsMut::<'_, C>::branch")
def _(E, st, c):
    return Agg(c.dest, 0, (STORAGE, API, QUERIER))


# ---------------------------------------------------------------- response
def resp_set(E, st, r, **kw):
    r = E.expand(st, r)
    fs = E.variants(r.ty)[0]['f']
    return Agg(r.ty, 0, [kw.get(fn, x) for (fn, _), x in zip(fs, r.f)])


def new_resp(E, ty):
    fs = E.variants(ty)[0]['f']
    vals = dict(data=None)
    out = []
    for fn, ft in fs:
        k = E.k(ft)
        if k.k == 'vec':
            out.append(VecV(k.e, ()))
        else:
            out.append(none(ft))
    return Agg(ty, 0, out)


RP = 'cosmwasm_std::results::response::Response::<T>::'


@model(RP + 'new')
def _(E, st, c):
    return new_resp(E, c.dest)


@model(RP + 'add_attribute', RP + 'add_event', RP + 'add_events', RP + 'add_attributes')
def _(E, st, c):
    return c.args[0]


def submsg_ty(E, rty):
    fs = dict(E.variants(rty)[0]['f'])
    return E.k(fs['messages']).e


def new_submsg(E, ty, msg, idv=0, reply='Never'):
    fs = dict(E.variants(ty)[0]['f'])
    rt = fs['reply_on']
    out = []
    for fn, ft in E.variants(ty)[0]['f']:
        if fn == 'id':
            out.append(idv)
        elif fn == 'msg':
            out.append(to_cosmos(E, msg, ft))
        elif fn == 'gas_limit':
            out.append(none(ft))
        elif fn == 'reply_on':
            out.append(Agg(rt, vidx(E, rt, reply), ()))
        else:
            raise Unsupported('SubMsg field ' + fn)
    return Agg(ty, 0, out)


def to_cosmos(E, v, cty):
    """WasmMsg / BankMsg / CosmosMsg -> CosmosMsg"""
    if v.ty == cty:
        return v
    n = E.k(v.ty).t['name'].split('::')[-1]
    for i, vr in enumerate(E.variants(cty)):
        if len(vr['f']) == 1 and E.P.ts(vr['f'][0][1]).split('::')[-1].split('<')[0] == n:
            return Agg(cty, i, (v,))
    if n == 'CosmosMsg':
        return v
    raise Unsupported('message of type ' + n)


@model(RP + 'add_message')
def _(E, st, c):
    r = E.expand(st, c.args[0])
    sm = submsg_ty(E, r.ty)
    ms = E.fname(st, r, 'messages')
    m = c.args[1]
    return [Ret(s, 'ret', resp_set(E, s, r, messages=E.vcat(sm, ms, VecV(sm, [new_submsg(E, sm, v)])))) for s, v in as_msg(E, st, m)]


def as_msg(E, st, m):
    m = dr(E, st, m)
    if isinstance(m, Agg) and E.k(m.ty).t['name'].split('::')[-1] in ('WasmMsg', 'BankMsg', 'CosmosMsg'):
        return [(st, m)]
    # Into<CosmosMsg> implemented in the workspace
    ts = E.P.ts(m.ty)
    for f in E.P.fns.values():
        if 'From<' in f['def'] and f['argc'] == 1 and E.P.ts(f['locals'][1]) == ts and E.P.ts(f['locals'][0]).startswith('cosmwasm_std::results::cosmos_msg::CosmosMsg'):
            return [(r.st, r.v) for r in E.call_fn(st, f, [m]) if r.k == 'ret']
    raise Unsupported('message of type ' + ts)


@model(RP + 'add_submessage')
def _(E, st, c):
    r = E.expand(st, c.args[0])
    sm = submsg_ty(E, r.ty)
    return resp_set(E, st, r, messages=E.vcat(sm, E.fname(st, r, 'messages'), VecV(sm, [c.args[1]])))


@model(RP + 'add_messages')
def _(E, st, c):
    r = E.expand(st, c.args[0])
    sm = submsg_ty(E, r.ty)
    v = as_vec(E, st, c.args[1])
    if isinstance(v, VecV):
        items = []
        for m in v.items:
            l = as_msg(E, st, m)
            if len(l) != 1:
                raise Unsupported('message conversion forks')
            items.append(new_submsg(E, sm, l[0][1]))
        nv = VecV(sm, items)
    else:
        nv = VecS(sm, E.vlen(v), lambda s, i: new_submsg(E, sm, as_msg(E, s, E.vat(s, v, i))[0][1]), ('submsgs', getattr(v, 'key', None)))
    return resp_set(E, st, r, messages=E.vcat(sm, E.fname(st, r, 'messages'), nv))


@model(RP + 'add_submessages')
def _(E, st, c):
    r = E.expand(st, c.args[0])
    sm = submsg_ty(E, r.ty)
    return resp_set(E, st, r, messages=E.vcat(sm, E.fname(st, r, 'messages'), as_vec(E, st, c.args[1])))


@model(RP + 'set_data')
def _(E, st, c):
    r = E.expand(st, c.args[0])
    fs = dict(E.variants(r.ty)[0]['f'])
    return resp_set(E, st, r, data=some(fs['data'], dr(E, st, c.args[1])))


SM = 'cosmwasm_std::results::submessages::SubMsg::<T>::'


@model(SM + 'new')
def _(E, st, c):
    return [Ret(s, 'ret', new_submsg(E, c.dest, m)) for s, m in as_msg(E, st, c.args[0])]


@model(SM + 'reply_on_success', SM + 'reply_on_error', SM + 'reply_always')
def _(E, st, c):
    k = {'reply_on_success': 'Success', 'reply_on_error': 'Error', 'reply_always': 'Always'}[c.name.split('::')[-1]]
    return [Ret(s, 'ret', new_submsg(E, c.dest, m, c.args[1], k)) for s, m in as_msg(E, st, c.args[0])]


@model('cosmwasm_std::results::submessages::SubMsgResult::into_result')
def _(E, st, c):
    v = c.args[0]
    return branch(E, st, E.isvar(v, 0), lambda s: ok(E, c, E.field(s, v, 0, 0)), lambda s: Agg(c.dest, 1, (E.field(s, v, 0, 1),)))


EV = 'cosmwasm_std::results::events::Event::'


@model(EV + 'new', EV + 'add_attribute', EV + 'add_attributes')
def _(E, st, c):
    return Opq('event')


@model('cosmwasm_std::errors::std_error::StdError::generic_err', 'cosmwasm_std::errors::std_error::StdError::not_found',
       'cosmwasm_std::errors::std_error::StdError::parse_err', 'cosmwasm_std::errors::std_error::StdError::invalid_utf8',
       'cosmwasm_std::errors::std_error::StdError::overflow')
def _(E, st, c):
    return ERR


# ---------------------------------------------------------------- coins
@model('cosmwasm_std::coin::coin')
def _(E, st, c):
    return mk(E, c.dest, None, denom=dr(E, st, c.args[1]), amount=c.args[0])


@model('cosmwasm_std::coin::Coin::new')
def _(E, st, c):
    return mk(E, c.dest, None, denom=dr(E, st, c.args[1]), amount=c.args[0])


@model('cosmwasm_std::coin::coins')
def _(E, st, c):
    e = E.k(c.dest).e
    return VecV(e, [mk(E, e, None, denom=dr(E, st, c.args[1]), amount=c.args[0])])


zero_amt = z3.K(B, z3.IntVal(0))
distinct_denoms = None


def vec_amt(E, st, v):
    """denom -> total amount, of a vector of coins"""
    if isinstance(v, VecV):
        a = zero_amt
        for x in v.items:
            d = E.fname(st, x, 'denom').term()
            a = z3.Store(a, d, z3.Select(a, d) + _iz(E.fname(st, x, 'amount')))
        return a
    if isinstance(v, VecS):
        if isinstance(v.key, tuple) and v.key[0] == 'coins':
            return v.key[1]
        if z3.is_expr(v.key):
            return uf('vec_amt', v.key.sort(), AmtArr)(v.key)
        if isinstance(v.key, tuple) and v.key[0] == 'set':
            # one element of a vector replaced: the total loses the old coin and gains the new one
            base = VecS(v.e, v.n, None, v.key[1])
            if z3.is_expr(v.key[1]) or isinstance(v.key[1], tuple) and v.key[1][0] == 'set':
                a = vec_amt(E, st, base)
                old, new = v.key[5], v.key[4]
                od, oa = E.fname(st, old, 'denom').term(), _iz(E.fname(st, old, 'amount'))
                st.add(z3.Select(a, od) >= oa)
                a = z3.Store(a, od, z3.Select(a, od) - oa)
                d = E.fname(st, new, 'denom').term()
                return z3.Store(a, d, z3.Select(a, d) + _iz(E.fname(st, new, 'amount')))
        key, lo, n = v.key, 0, v.n
        while isinstance(key, tuple) and key[0] == 'slice':
            key, lo = key[1], _iz(lo) + _iz(key[2])
        d = z3.Const('tot!d', B)
        if isinstance(key, tuple) and key[0] == 'coins' and v.key is not key:
            arr = key[1]
            x = z3.Select(arr, d)
            return z3.Lambda([d], z3.If(z3.And(x > 0, coins_ix(arr, d) >= _iz(lo), coins_ix(arr, d) < _iz(lo) + _iz(n)), x, z3.IntVal(0)))
        if z3.is_expr(key) and v.key is not key:
            # the difference of two prefix totals
            pre = lambda k: uf('coins_prefix', key.sort(), Int, AmtArr)(key, z3.simplify(_iz(k)))
            hi = z3.simplify(_iz(lo) + _iz(n))
            st.add(pre(0) == zero_amt)
            so = key.sort()
            if hasattr(so, 'vlen'):
                st.add(pre(so.vlen(key)) == uf('vec_amt', so, AmtArr)(key))
            st.add(z3.ForAll([d], z3.And(z3.Select(pre(lo), d) >= 0, z3.Select(pre(hi), d) >= z3.Select(pre(lo), d))))
            return z3.Lambda([d], z3.Select(pre(hi), d) - z3.Select(pre(lo), d))
    if isinstance(v, VecCat):
        d = z3.Const('tot!d', B)
        return z3.Lambda([d], z3.Sum([z3.Select(vec_amt(E, st, p), d) for p in v.parts]))
    raise Unsupported('total of %r' % (v,))


def member_fact(E, st, v, i):
    """the total holds at least the i-th coin (amounts are not negative)"""
    x = E.deref_all(st, E.vat(st, v, i))
    n = E.vlen(v)
    st.add(z3.Implies(z3.And(_iz(i) >= 0, _iz(i) < _iz(n)), z3.Select(vec_amt(E, st, v), E.fname(st, x, 'denom').term()) >= _iz(E.fname(st, x, 'amount'))))


def amt_at(st, arr, d):
    """amount at denom, with its non-negativity as a fact"""
    t = z3.simplify(z3.Select(arr, d))
    if st is not None:
        st.add(t >= 0)
    return t


def nodup(E, st, v):
    """no two non-zero coins share a denom"""
    if isinstance(v, VecV):
        cs = []
        for i in range(len(v.items)):
            for j in range(i):
                a, b = v.items[i], v.items[j]
                cs.append(NOT(AND(E.eq(st, E.fname(st, a, 'denom'), E.fname(st, b, 'denom')), NOT(ieq(E.fname(st, a, 'amount'), 0)), NOT(ieq(E.fname(st, b, 'amount'), 0)))))
        return AND(*cs)
    if isinstance(v, VecS):
        if isinstance(v.key, tuple) and v.key[0] == 'coins':
            return True
        if z3.is_expr(v.key):
            return uf('coins_nodup', v.key.sort(), BoolS)(v.key)
    raise Unsupported('nodup of %r' % (v,))


@model('<cosmwasm_std::coins::Coins as std::convert::TryFrom<std::vec::Vec<cosmwasm_std::coin::Coin>>>::try_from')
def _(E, st, c):
    v = c.args[0]
    return branch(E, st, nodup(E, st, v), lambda s: ok(E, c, Coins(vec_amt(E, s, v))), lambda s: err(E, c))


@model('<cosmwasm_std::coins::Coins as std::default::Default>::default', 'cosmwasm_std::coins::Coins::new')
def _(E, st, c):
    return Coins(zero_amt)


@model('cosmwasm_std::coins::Coins::add')
def _(E, st, c):
    r = c.args[0]
    cs = E.deref(st, r)
    co = c.args[1]
    d, a = E.fname(st, co, 'denom').term(), E.fname(st, co, 'amount')
    old = amt_at(st, cs.arr, d)
    nw = simp(old + _iz(a))
    def good(s):
        E.write(s, r, (), Coins(z3.Store(cs.arr, d, _iz(nw))))
        return ok(E, c, UNIT)
    return branch(E, st, _iz(nw) < (1 << 128), good, lambda s: err(E, c))


@model('cosmwasm_std::coins::Coins::sub')
def _(E, st, c):
    r = c.args[0]
    cs = E.deref(st, r)
    co = c.args[1]
    d, a = E.fname(st, co, 'denom').term(), E.fname(st, co, 'amount')
    old = amt_at(st, cs.arr, d)
    def good(s):
        E.write(s, r, (), Coins(z3.Store(cs.arr, d, old - _iz(a))))
        return ok(E, c, UNIT)
    return branch(E, st, old >= _iz(a), good, lambda s: err(E, c))


@model('cosmwasm_std::coins::Coins::amount_of')
def _(E, st, c):
    cs = E.deref(st, c.args[0])
    return amt_at(st, cs.arr, dr(E, st, c.args[1]).term())


coins_ix = uf('coins_ix', AmtArr, B, Int)


def coins_seq(E, st, arr, vt):
    """the coins of a Coins value: exactly the non-zero amounts, each denom once"""
    e = E.k(vt).e
    so = E.S.sort(vt)
    t = uf('coins_vec', AmtArr, so)(arr)
    n = so.vlen(t)
    st.add(n >= 0)
    st.add((n == 0) == (arr == zero_amt))
    def at(s, i):
        x = E.from_term(s, e, z3.Select(so.varr(t), _iz(i)))
        if s is not None:
            d, a = E.fname(s, x, 'denom').term(), _iz(E.fname(s, x, 'amount'))
            s.add(z3.Implies(z3.And(_iz(i) >= 0, _iz(i) < n), z3.And(a == z3.Select(arr, d), a > 0, coins_ix(arr, d) == _iz(i))))
        return x
    return VecS(e, n, at, ('coins', arr))


@model('cosmwasm_std::coins::Coins::to_vec', 'cosmwasm_std::coins::Coins::into_vec')
def _(E, st, c):
    return coins_seq(E, st, dr(E, st, c.args[0]).arr, c.dest)


@model('cosmwasm_std::coins::Coins::len')
def _(E, st, c):
    return coins_seq(E, st, dr(E, st, c.args[0]).arr, E.ty('std::vec::Vec<cosmwasm_std::coin::Coin>')).n


@model('cosmwasm_std::coins::Coins::iter', '<cosmwasm_std::coins::Coins as std::iter::IntoIterator>::into_iter', "<&'a cosmwasm_std::coins::Coins as std::iter::IntoIterator>::into_iter")
def _(E, st, c):
    v = coins_seq(E, st, dr(E, st, c.args[0]).arr, E.ty('std::vec::Vec<cosmwasm_std::coin::Coin>'))
    return IterV('vec', (v, 0, not c.name.startswith('<cosmwasm')))


@model('cosmwasm_std::coins::Coins::is_empty')
def _(E, st, c):
    cs = dr(E, st, c.args[0])
    return cs.arr == zero_amt


@model('cw_utils::payment::nonpayable')
def _(E, st, c):
    f = E.fname(st, dr(E, st, c.args[0]), 'funds')
    return branch(E, st, ieq(E.vlen(f), 0), lambda s: ok(E, c, UNIT), lambda s: err(E, c))


@model('cw_utils::payment::one_coin')
def _(E, st, c):
    f = E.fname(st, dr(E, st, c.args[0]), 'funds')
    a, b = E.fork(st, ieq(E.vlen(f), 1))
    out = []
    if b is not None:
        out.append(Ret(b, 'ret', err(E, c)))
    if a is not None:
        co = E.vat(a, f, 0)
        out += branch(E, a, NOT(ieq(E.fname(a, co, 'amount'), 0)), lambda s: ok(E, c, co), lambda s: err(E, c))
    return out


@model('cw_utils::payment::may_pay')
def _(E, st, c):
    f = E.fname(st, dr(E, st, c.args[0]), 'funds')
    d = dr(E, st, c.args[1])
    a, b = E.fork(st, ieq(E.vlen(f), 0))
    out = []
    if a is not None:
        out.append(Ret(a, 'ret', ok(E, c, 0)))
    if b is not None:
        a, b = E.fork(b, ieq(E.vlen(f), 1))
        if b is not None:
            out.append(Ret(b, 'ret', err(E, c)))
        if a is not None:
            co = E.vat(a, f, 0)
            out += branch(E, a, E.eq(a, E.fname(a, co, 'denom'), d), lambda s: ok(E, c, E.fname(s, co, 'amount')), lambda s: err(E, c))
    return out


@model('cw_utils::payment::must_pay')
def _(E, st, c):
    info = dr(E, st, c.args[0])
    d = dr(E, st, c.args[1])
    f = E.fname(st, info, 'funds')
    n = E.vlen(f)
    a, b = E.fork(st, ieq(n, 1))
    out = []
    if b is not None:
        out.append(Ret(b, 'ret', err(E, c)))
    if a is not None:
        co = E.vat(a, f, 0)
        amt = E.fname(a, co, 'amount')
        cond = AND(NOT(ieq(amt, 0)), E.eq(a, E.fname(a, co, 'denom'), d))
        out += branch(E, a, cond, lambda s: ok(E, c, amt), lambda s: err(E, c))
    return out


@model('cw_utils::payment::may_pay')
def _(E, st, c):
    info = dr(E, st, c.args[0])
    d = dr(E, st, c.args[1])
    f = E.fname(st, info, 'funds')
    n = E.vlen(f)
    a, b = E.fork(st, ieq(n, 0))
    out = []
    if a is not None:
        out.append(Ret(a, 'ret', ok(E, c, 0)))
    if b is not None:
        x, y = E.fork(b, ieq(n, 1))
        if y is not None:
            out.append(Ret(y, 'ret', err(E, c)))
        if x is not None:
            co = E.vat(x, f, 0)
            amt = E.fname(x, co, 'amount')
            cond = AND(NOT(ieq(amt, 0)), E.eq(x, E.fname(x, co, 'denom'), d))
            out += branch(E, x, cond, lambda s: ok(E, c, amt), lambda s: err(E, c))
    return out


@model('cw_utils::payment::one_coin')
def _(E, st, c):
    info = dr(E, st, c.args[0])
    f = E.fname(st, info, 'funds')
    a, b = E.fork(st, ieq(E.vlen(f), 1))
    out = []
    if b is not None:
        out.append(Ret(b, 'ret', err(E, c)))
    if a is not None:
        co = E.vat(a, f, 0)
        out += branch(E, a, NOT(ieq(E.fname(a, co, 'amount'), 0)), lambda s: ok(E, c, co), lambda s: err(E, c))
    return out


@model('cw_utils::payment::nonpayable')
def _(E, st, c):
    info = dr(E, st, c.args[0])
    f = E.fname(st, info, 'funds')
    return branch(E, st, ieq(E.vlen(f), 0), lambda s: ok(E, c, UNIT), lambda s: err(E, c))


@model('cw_utils::parse_reply::parse_instantiate_response_data')
def _(E, st, c):
    b = dr(E, st, c.args[0]).term()
    t = resty(E, c)[0]
    f = uf('parse_instantiate', B, E.S.sort(t))
    return branch(E, st, uf('parse_instantiate_ok', B, BoolS)(b), lambda s: ok(E, c, E.from_term(s, t, f(b))), lambda s: err(E, c))


# ---------------------------------------------------------------- control flow
@model('std::ops::Try::branch')
def _(E, st, c):
    v = c.args[0]
    n = E.k(v.ty).t['name'] if v.ty is not None else 'std::result::Result'
    if n == 'std::option::Option':
        return branch(E, st, E.isvar(v, 1), lambda s: Agg(c.dest, 0, (E.field(s, v, 0, 1),)), lambda s: Agg(c.dest, 1, (none(None),)))
    return branch(E, st, E.isvar(v, 0), lambda s: Agg(c.dest, 0, (E.field(s, v, 0, 0),)), lambda s: Agg(c.dest, 1, (Opq('residual'),)))


@model('std::ops::FromResidual::from_residual')
def _(E, st, c):
    n = E.k(c.dest).t['name']
    if n == 'std::option::Option':
        return none(c.dest)
    return err(E, c)


@model('std::ops::Try::from_output')
def _(E, st, c):
    n = E.k(c.dest).t['name']
    return Agg(c.dest, 1 if n == 'std::option::Option' else 0, (c.args[0],))


@model('std::option::expect_failed', 'std::result::unwrap_failed', 'std::option::unwrap_failed', 'std::rt::panic_fmt', 'core::panicking::panic_fmt', 'core::panicking::panic',
       'core::panicking::panic_explicit', 'std::rt::begin_panic', 'core::panicking::assert_failed', 'core::panicking::panic_display', 'core::panicking::unreachable_display')
def _(E, st, c):
    return [Ret(st, 'panic', c.name)]


@model('core::panicking::unimplemented_default_msg', 'core::panicking::unreachable_default_msg')
def _(E, st, c):
    return Opq('fmtargs', Bytes.const(b'unreachable'))


@model('std::ops::FnOnce::call_once', 'std::ops::FnMut::call_mut', 'std::ops::Fn::call')
def _(E, st, c):
    tup = c.args[1]
    args = list(tup.f) if isinstance(tup, Agg) else [E.field(st, tup, i) for i in range(len(E.variants(tup.ty)[0]['f']))]
    return E.call_value(st, c.args[0], args, c.dest)


@model('std::mem::replace')
def _(E, st, c):
    old = E.deref(st, c.args[0])
    E.write(st, c.args[0], (), c.args[1])
    return old


@model('std::mem::take')
def _(E, st, c):
    old = E.deref(st, c.args[0])
    k = E.k(c.dest)
    E.write(st, c.args[0], (), default_of(E, c.dest))
    return old


@model('std::mem::swap')
def _(E, st, c):
    a, b = E.deref(st, c.args[0]), E.deref(st, c.args[1])
    E.write(st, c.args[0], (), b)
    E.write(st, c.args[1], (), a)
    return UNIT


@model('std::mem::drop', 'std::ops::Drop::drop', 'std::mem::forget')
def _(E, st, c):
    return UNIT


# ---------------------------------------------------------------- clone / eq / default / conversions
@model('std::clone::Clone::clone', 'std::borrow::ToOwned::to_owned', 'std::clone::Clone::clone_from')
def _(E, st, c):
    if c.name.endswith('clone_from'):
        E.write(st, c.args[0], (), dr(E, st, c.args[1]))
        return UNIT
    v = E.deref(st, c.args[0])
    return v


@model('std::cmp::PartialEq::eq', 'std::cmp::PartialEq::ne')
def _(E, st, c):
    if c.fn.get('id') is not None and c.fn['id'] in E.P.fns and c.fn.get('rk') != 'x':
        pass
    r = E.eq(st, c.args[0], c.args[1])
    return r if c.name.endswith('eq') else NOT(r)


def default_of(E, ty):
    k = E.k(ty)
    if k.k == 'int':
        return 0
    if k.k == 'bool':
        return False
    if k.k == 'bytes':
        return Bytes.const(bytes(k.n or 0))
    if k.k == 'vec':
        return VecV(k.e, ())
    if k.k == 'coins':
        return Coins(zero_amt)
    if k.k == 'adt' and k.t['name'] == 'std::option::Option':
        return none(ty)
    if k.k == 'tuple':
        return Agg(ty, 0, [default_of(E, x) for x in k.t['e']])
    if k.k == 'adt' and k.t['name'].startswith('cosmwasm_std::results::response::Response'):
        return new_resp(E, ty)
    if k.k in ('bmap', 'set'):
        return VecV(None, ())
    if k.k == 'ref' and E.k(k.e).k in ('bytes', 'vec'):
        return ValRef(default_of(E, k.e))
    raise Unsupported('default of ' + E.P.ts(ty))


@model('std::default::Default::default')
def _(E, st, c):
    if c.fn.get('id') is not None and c.fn['id'] in E.P.fns:
        return NotImplemented
    return default_of(E, c.dest)


def convert(E, st, v, src, dst, c=None):
    """From/Into between library types"""
    kd = E.k(dst)
    x = dr(E, st, v)
    if kd.k == 'opaque':
        return ERR
    if kd.k == 'bytes' and isinstance(x, Bytes):
        return x
    if kd.k == 'int' and (isinstance(x, (int, bool)) or z3.is_expr(x)):
        return ite(x, 1, 0) if isinstance(x, bool) or (z3.is_expr(x) and z3.is_bool(x)) else x
    if kd.k == 'adt' and kd.t['name'].endswith('::CosmosMsg') and isinstance(x, Agg):
        return to_cosmos(E, x, dst)
    if kd.k == 'adt' and kd.t['name'] == 'std::option::Option' and src != dst:
        return some(dst, v)
    if kd.k == 'vec' and isinstance(x, (VecV, VecS)):
        return x
    if kd.k in ('bmap',) and isinstance(x, VecV):
        return x
    if kd.k == 'box':
        return v
    if src == dst:
        return v
    raise Unsupported('conversion to ' + E.P.ts(dst))


@model('std::convert::From::from', 'std::convert::Into::into')
def _(E, st, c):
    if c.fn.get('id') is not None and c.fn['id'] in E.P.fns:
        kd = E.k(c.dest)
        if kd.k == 'opaque':
            return ERR
        return NotImplemented
    return convert(E, st, c.args[0], c.argtys[0], c.dest, c)


@model('std::convert::TryFrom::try_from', 'std::convert::TryInto::try_into')
def _(E, st, c):
    if c.rname in MODELS:
        return MODELS[c.rname](E, st, c)
    if c.fn.get('id') is not None and c.fn['id'] in E.P.fns:
        return NotImplemented
    t = resty(E, c)[0]
    k = E.k(t)
    v = dr(E, st, c.args[0])
    if k.k == 'bytes' and k.n is not None and isinstance(v, Bytes):
        return branch(E, st, ieq(v.len(), k.n), lambda s: ok(E, c, fix_len(E, s, v, k.n)), lambda s: err(E, c))
    if k.k == 'vec' and k.n is not None:
        if isinstance(v, VecV):
            return ok(E, c, v) if len(v.items) == k.n else err(E, c)
        return branch(E, st, ieq(E.vlen(v), k.n), lambda s: ok(E, c, VecV(k.e, [E.vat(s, v, i) for i in range(k.n)])), lambda s: err(E, c))
    if k.k == 'int' and (isinstance(v, int) or z3.is_expr(v)):
        lo, hi = (-(1 << (k.bits - 1)), 1 << (k.bits - 1)) if k.signed else (0, 1 << k.bits)
        cond = simp(z3.And(_iz(v) >= lo, _iz(v) < hi))
        return branch(E, st, cond, lambda s: ok(E, c, v), lambda s: err(E, c))
    raise Unsupported('try_from to ' + E.P.ts(t))


def fix_len(E, st, v, n):
    """bytes known (on this path) to have length n"""
    if isinstance(v.len(), int):
        return v
    if len(v.segs) == 1 and v.segs[0].k == 't':
        # do not register a global length: the fact holds on this path only
        return Bytes((Seg('t', v.segs[0].a, n),))
    if len(v.segs) == 1 and v.segs[0].k == 's':
        return Bytes((Seg('s', v.segs[0].a, n, v.segs[0].off),))
    segs = list(v.segs)
    known = 0
    unk = [i for i, s in enumerate(segs) if not isinstance(s.len, int)]
    if len(unk) == 1:
        tot = sum(s.len for s in segs if isinstance(s.len, int))
        s = segs[unk[0]]
        segs[unk[0]] = Seg(s.k, s.a, n - tot, s.off)
        return Bytes(segs)
    return v


for nm in ('std::ops::Deref::deref', 'std::ops::DerefMut::deref_mut', 'std::convert::AsRef::as_ref', 'std::convert::AsMut::as_mut',
           'std::borrow::Borrow::borrow', 'std::borrow::BorrowMut::borrow_mut', 'std::hint::must_use', 'std::convert::identity',
           'cosmwasm_std::hex_binary::HexBinary::as_slice', 'cosmwasm_std::binary::Binary::as_slice', 'generic_array::GenericArray::<T, N>::as_slice',
           'std::vec::Vec::<T, A>::as_slice', 'std::string::String::as_str', 'std::string::String::as_bytes', 'core::str::<impl str>::as_bytes',
           'cosmwasm_std::addresses::Addr::as_str', 'cosmwasm_std::addresses::Addr::as_bytes', 'core::array::<impl [T; N]>::as_slice', 'std::array::<impl [T; N]>::as_slice', 'std::array::<impl [T; N]>::as_mut_slice',
           'cosmwasm_std::addresses::Addr::as_ref', 'std::vec::Vec::<T, A>::as_mut_slice', 'std::slice::<impl [T]>::as_ref',
           'core::array::<impl std::convert::AsRef<[T]> for [T; N]>::as_ref', 'std::string::String::as_mut_str'):
    @model(nm)
    def _(E, st, c):
        if c.fn.get('id') is not None and c.fn['id'] in E.P.fns and 'hpl_' in E.P.fns[c.fn['id']]['def']:
            return NotImplemented
        return c.args[0]

for nm in ('cosmwasm_std::addresses::Addr::into_string', 'std::string::String::into_bytes', 'cosmwasm_std::addresses::Addr::unchecked',
           'std::string::String::into_boxed_str', 'cosmwasm_std::binary::Binary::from', 'std::slice::<impl [T]>::to_vec',
           'std::str::<impl str>::to_owned', 'std::str::<impl str>::to_string', 'cosmwasm_std::binary::Binary::to_vec', 'cosmwasm_std::hex_binary::HexBinary::to_vec',
           'cosmwasm_std::binary::Binary::new', 'cosmwasm_std::hex_binary::HexBinary::new', 'std::slice::<impl [T]>::into_vec',
           'std::string::String::from_utf8_lossy', 'std::borrow::Cow::<\'_, B>::into_owned'):
    @model(nm)
    def _(E, st, c):
        v = dr(E, st, c.args[0])
        if c.name.endswith('from_utf8_lossy'):
            raise Unsupported(c.name)
        return v


@model('cosmwasm_std::binary::Binary::to_array', 'cosmwasm_std::hex_binary::HexBinary::to_array')
def _(E, st, c):
    v = dr(E, st, c.args[0])
    n = E.k(resty(E, c)[0]).n
    return branch(E, st, ieq(v.len(), n), lambda s: ok(E, c, fix_len(E, s, v, n)), lambda s: err(E, c))


@model('std::boxed::Box::<T>::new')
def _(E, st, c):
    return c.args[0]


@model('std::boxed::Box::<T>::new_uninit')
def _(E, st, c):
    r = E.newcell(st, Opq('uninit'))
    return Opq('uninitbox', r.cell)


@model('std::boxed::box_assume_init_into_vec_unsafe')
def _(E, st, c):
    b = c.args[0]
    return st.cells[b.d]


# ---------------------------------------------------------------- integers
IM = 'core::num::<impl '


def int_model(E, st, c):
    return NotImplemented


for t, bits, signed in (('u8', 8, 0), ('u16', 16, 0), ('u32', 32, 0), ('u64', 64, 0), ('u128', 128, 0), ('usize', 64, 0)):
    def mk_int(t=t, bits=bits):
        n = bits // 8
        p = IM + t + '>::'
        mx = 1 << bits

        @model(p + 'to_be_bytes')
        def _(E, st, c):
            return Bytes.be(n, c.args[0])

        @model(p + 'from_be_bytes')
        def _(E, st, c):
            v = c.args[0].intval()
            if z3.is_expr(v):
                st.add(z3.And(v >= 0, v < mx))
            return v

        @model(p + 'to_le_bytes')
        def _(E, st, c):
            b = Bytes.be(n, c.args[0])
            return Bytes(sum([b.slice(n - 1 - i, 1).segs for i in range(n)], ()))

        @model(p + 'from_le_bytes')
        def _(E, st, c):
            b = c.args[0]
            return Bytes(sum([b.slice(n - 1 - i, 1).segs for i in range(n)], ())).intval()

        @model(p + 'checked_add', p + 'checked_sub', p + 'checked_mul')
        def _(E, st, c):
            op = c.name.split('_')[-1].capitalize()
            v = E.arith(st, op, c.args[0], c.args[1], None)
            cond = simp(z3.And(_iz(v) >= 0, _iz(v) < mx))
            return branch(E, st, cond, lambda s: some(c.dest, v), lambda s: none(c.dest))

        @model(p + 'checked_div', p + 'checked_rem')
        def _(E, st, c):
            op = 'Div' if c.name.endswith('div') else 'Rem'
            return branch(E, st, NOT(ieq(c.args[1], 0)), lambda s: some(c.dest, E.binop(s, op, c.args[0], c.args[1], None)), lambda s: none(c.dest))

        @model(p + 'saturating_sub')
        def _(E, st, c):
            v = E.arith(st, 'Sub', c.args[0], c.args[1], None)
            return ite(simp(_iz(v) >= 0), v, 0)

        @model(p + 'saturating_add', p + 'saturating_mul')
        def _(E, st, c):
            v = E.arith(st, 'Add' if c.name.endswith('add') else 'Mul', c.args[0], c.args[1], None)
            return ite(simp(_iz(v) < mx), v, mx - 1)

        @model(p + 'wrapping_add', p + 'wrapping_sub', p + 'wrapping_mul')
        def _(E, st, c):
            op = c.name.split('_')[-1].capitalize()
            v = E.arith(st, op, c.args[0], c.args[1], None)
            return v % mx if isinstance(v, int) else simp(v % mx)


        @model(p + 'min_value')
        def _(E, st, c):
            return 0

        @model(p + 'max_value')
        def _(E, st, c):
            return mx - 1

        @model(p + 'is_power_of_two', p + 'leading_zeros', p + 'trailing_zeros', p + 'count_ones')
        def _(E, st, c):
            raise Unsupported(c.name)
    mk_int()


def mk_uint(name, bits):
    p = 'cosmwasm_std::math::%s::%s::' % (name.lower(), name)
    mx = 1 << bits
    n = bits // 8

    @model(p + 'is_zero')
    def _(E, st, c):
        return ieq(dr(E, st, c.args[0]), 0)

    @model(p + 'zero')
    def _(E, st, c):
        return 0

    @model(p + 'one')
    def _(E, st, c):
        return 1

    @model(p + 'u128', p + 'u64', p + 'new', p + 'from_uint128', p + 'from_u128', p + 'from_uint64')
    def _(E, st, c):
        v = dr(E, st, c.args[0])
        if isinstance(v, Bytes):
            return v.intval()
        return v

    @model(p + 'from_be_bytes')
    def _(E, st, c):
        v = dr(E, st, c.args[0]).intval()
        if z3.is_expr(v):
            st.add(z3.And(v >= 0, v < mx))
        return v

    @model(p + 'to_be_bytes')
    def _(E, st, c):
        return Bytes.be(n, dr(E, st, c.args[0]))

    for op, mn in (('Add', 'checked_add'), ('Sub', 'checked_sub'), ('Mul', 'checked_mul')):
        def _f(E, st, c, op=op):
            v = E.arith(st, op, dr(E, st, c.args[0]), dr(E, st, c.args[1]), None)
            return branch(E, st, simp(z3.And(_iz(v) >= 0, _iz(v) < mx)), lambda s: ok(E, c, v), lambda s: err(E, c))
        MODELS[p + mn] = _f

    def _cd(E, st, c):
        a, b = dr(E, st, c.args[0]), dr(E, st, c.args[1])
        op = 'Div' if c.name.endswith('div') else 'Rem'
        return branch(E, st, NOT(ieq(b, 0)), lambda s: ok(E, c, E.binop(s, op, a, b, None)), lambda s: err(E, c))
    MODELS[p + 'checked_div'] = _cd
    MODELS[p + 'checked_rem'] = _cd

    def _ss(E, st, c):
        v = E.arith(st, 'Sub', dr(E, st, c.args[0]), dr(E, st, c.args[1]), None)
        return ite(simp(_iz(v) >= 0), v, 0)
    MODELS[p + 'saturating_sub'] = _ss

    def _sa(E, st, c):
        v = E.arith(st, 'Add' if c.name.endswith('add') else 'Mul', dr(E, st, c.args[0]), dr(E, st, c.args[1]), None)
        return ite(simp(_iz(v) < mx), v, mx - 1)
    MODELS[p + 'saturating_add'] = _sa
    MODELS[p + 'saturating_mul'] = _sa

    def _mr(E, st, c):
        a, b, d = [dr(E, st, x) for x in c.args]
        out = []
        x, y = E.fork(st, NOT(ieq(d, 0)))
        if y is not None:
            out.append(Ret(y, 'panic', 'division by zero'))
        if x is not None:
            v = simp((_iz(a) * _iz(b)) / _iz(d))
            out += branch(E, x, simp(_iz(v) < mx), lambda s: v, lambda s: PANIC('overflow'))
        return out
    MODELS[p + 'multiply_ratio'] = _mr


mk_uint('Uint128', 128)
mk_uint('Uint256', 256)
mk_uint('Uint64', 64)


def _bits_of(E, ty):
    k = E.k(ty)
    if k.k != 'int':
        raise Unsupported('arithmetic on ' + E.P.ts(ty))
    return k


for tn, op in (('Add', 'Add'), ('Sub', 'Sub'), ('Mul', 'Mul')):
    def _f(E, st, c, op=op):
        k = _bits_of(E, c.dest)
        v = E.arith(st, op, dr(E, st, c.args[0]), dr(E, st, c.args[1]), k)
        return branch(E, st, simp(z3.And(_iz(v) >= 0, _iz(v) < (1 << k.bits))), lambda s: v, lambda s: PANIC('overflow'))
    MODELS['std::ops::%s::%s' % (tn, tn.lower())] = _f

    def _g(E, st, c, op=op):
        t = c.argtys[0]
        k = _bits_of(E, E.k(t).e)
        r = c.args[0]
        v = E.arith(st, op, dr(E, st, r), dr(E, st, c.args[1]), k)

        def good(s):
            E.write(s, r, (), v)
            return UNIT
        return branch(E, st, simp(z3.And(_iz(v) >= 0, _iz(v) < (1 << k.bits))), good, lambda s: PANIC('overflow'))
    MODELS['std::ops::%sAssign::%s_assign' % (tn, tn.lower())] = _g

for tn in ('Div', 'Rem'):
    def _f(E, st, c, op=tn):
        a, b = dr(E, st, c.args[0]), dr(E, st, c.args[1])
        return branch(E, st, NOT(ieq(b, 0)), lambda s: E.binop(s, op, a, b, None), lambda s: PANIC('division by zero'))
    MODELS['std::ops::%s::%s' % (tn, tn.lower())] = _f


# ---------------------------------------------------------------- strings / formatting
dec = uf('dec', Int, B)
hexf = uf('hex', B, B)
unhex = uf('unhex', B, B)
unhex_ok = uf('unhex_ok', B, BoolS)
b64 = uf('base64', B, B)


def display(E, st, v, ty):
    v = dr(E, st, v)
    if ty is not None:
        k = E.k(ty)
        while k.k in ('ref', 'box'):
            ty = k.e
            k = E.k(ty)
    else:
        k = None
    if isinstance(v, Bytes):
        n = k.t.get('name', '') if k is not None and k.t['k'] == 'adt' else ''
        if n.endswith('HexBinary'):
            return hex_of(v)
        if n.endswith('::Binary'):
            return Bytes.of(b64(v.term()))
        return v
    if isinstance(v, bool):
        return Bytes.const(b'true' if v else b'false')
    if isinstance(v, int):
        return Bytes.const(str(v))
    if z3.is_expr(v) and z3.is_int(v):
        return Bytes.of(dec(v))
    return Bytes.of(E.fresh('display', B))


def hex_of(v):
    if v.is_const():
        return Bytes.const(v.const_value().hex())
    t = v.term()
    if z3.is_app(t) and t.decl().eq(unhex):
        pass
    h = hexf(t)
    n = v.len()
    if isinstance(n, int):
        set_fixedlen(h, 2 * n)
    return Bytes.of(h)


def hex_facts(x):
    return [blen(x) == 2 * blen(x.arg(0)), unhex(x) == x.arg(0), unhex_ok(x)]


def unhex_facts(x):
    return [z3.Implies(unhex_ok(x.arg(0)), 2 * blen(x) == blen(x.arg(0)))]


Engine.term_facts['hex'] = hex_facts
Engine.term_facts['unhex'] = unhex_facts


@model('cosmwasm_std::hex_binary::HexBinary::to_hex', 'hex::encode')
def _(E, st, c):
    return hex_of(dr(E, st, c.args[0]))


@model('cosmwasm_std::hex_binary::HexBinary::from_hex')
def _(E, st, c):
    v = dr(E, st, c.args[0])
    if v.is_const():
        try:
            return ok(E, c, Bytes.const(bytes.fromhex(v.const_value().decode())))
        except ValueError:
            return err(E, c)
    t = v.term()
    if z3.is_app(t) and t.decl().eq(hexf):
        return ok(E, c, Bytes.of(t.arg(0)))
    return branch(E, st, unhex_ok(t), lambda s: ok(E, c, Bytes.of(unhex(t))), lambda s: err(E, c))


@model('std::string::ToString::to_string')
def _(E, st, c):
    at = c.argtys[0]
    return display(E, st, c.args[0], at)


@model("core::fmt::rt::Argument::<'_>::new_display", "core::fmt::rt::Argument::<'_>::new_debug", "core::fmt::rt::Argument::<'_>::new_lower_hex")
def _(E, st, c):
    if not c.name.endswith('display'):
        return Opq('fmtarg', Bytes.of(E.fresh('fmt', B)))
    return Opq('fmtarg', display(E, st, c.args[0], c.argtys[0]))


@model("std::fmt::Arguments::<'a>::new")
def _(E, st, c):
    t = dr(E, st, c.args[0]).const_value()
    args = dr(E, st, c.args[1])
    out = Bytes(())
    i = 0
    ai = 0
    while i < len(t):
        b = t[i]
        i += 1
        if b == 0:
            break
        if b < 0x80:
            out = out + Bytes.const(t[i:i + b])
            i += b
        elif b == 0x80:
            n = int.from_bytes(t[i:i + 2], 'little')
            out = out + Bytes.const(t[i + 2:i + 2 + n])
            i += 2 + n
        else:
            plain = b & 0x37 == 0
            if b & 1:
                i += 4
            if b & 2:
                i += 2
            if b & 4:
                i += 2
            if b & 8:
                ai = int.from_bytes(t[i:i + 2], 'little')
                i += 2
            a = args.items[ai]
            ai += 1
            out = out + (a.d if plain else Bytes.of(E.fresh('fmt', B)))
    return Opq('fmtargs', out)


@model("std::fmt::Arguments::<'a>::from_str", "std::fmt::Arguments::<'a>::new_const")
def _(E, st, c):
    return Opq('fmtargs', dr(E, st, c.args[0]))


@model('std::fmt::format')
def _(E, st, c):
    return c.args[0].d


@model("std::fmt::Arguments::<'a>::as_str")
def _(E, st, c):
    raise Unsupported('as_str')


@model("std::fmt::Formatter::<'a>::write_fmt", "std::fmt::Formatter::<'a>::write_str")
def _(E, st, c):
    return Agg(c.dest, 0, (UNIT,))


@model('std::string::String::new', 'std::string::String::with_capacity')
def _(E, st, c):
    return Bytes(())


@model('std::string::String::push_str')
def _(E, st, c):
    E.write(st, c.args[0], (), E.deref(st, c.args[0]) + dr(E, st, c.args[1]))
    return UNIT


@model('std::string::String::from_utf8', 'core::str::from_utf8')
def _(E, st, c):
    v = dr(E, st, c.args[0])
    return branch(E, st, uf('utf8_ok', B, BoolS)(v.term()), lambda s: ok(E, c, v), lambda s: err(E, c))


@model('core::str::<impl str>::len', 'std::string::String::len')
def _(E, st, c):
    return coll.real_len(E, st, dr(E, st, c.args[0]))


@model('core::str::<impl str>::is_empty', 'std::string::String::is_empty')
def _(E, st, c):
    return ieq(dr(E, st, c.args[0]).len(), 0)


dec_ok = uf('dec_ok', B, BoolS)
dec_val = uf('dec_val', B, Int)


@model('core::str::<impl str>::parse', 'std::str::FromStr::from_str')
def _(E, st, c):
    t = resty(E, c)[0]
    k = E.k(t)
    v = dr(E, st, c.args[0])
    if k.k == 'opaque':
        return branch(E, st, uf('parse_ok<%s>' % E.P.ts(t), B, BoolS)(v.term()), lambda s: ok(E, c, Opq('parsed', v)), lambda s: err(E, c))
    if k.k != 'int':
        raise Unsupported('parse of ' + E.P.ts(t))
    if v.is_const():
        try:
            n = int(v.const_value().decode())
            return ok(E, c, n) if 0 <= n < (1 << k.bits) else err(E, c)
        except ValueError:
            return err(E, c)
    tm = v.term()
    if z3.is_app(tm) and tm.decl().eq(dec):
        n = tm.arg(0)
        return branch(E, st, simp(z3.And(n >= 0, n < (1 << k.bits))), lambda s: ok(E, c, n), lambda s: err(E, c))
    n = dec_val(tm)
    return branch(E, st, z3.And(dec_ok(tm), n >= 0, n < (1 << k.bits)), lambda s: ok(E, c, n), lambda s: err(E, c))


# ---------------------------------------------------------------- hashing, bech32
def hash_of(algo, b):
    if algo == 'keccak':
        return Bytes.of(keccak(b.term()))
    return Bytes.of(uf(algo, B, B)(b.term()))


def _algo(ts):
    if 'Keccak256' in ts:
        return 'keccak'
    if 'Sha256' in ts:
        return 'sha256'
    if 'Ripemd160' in ts:
        return 'ripemd160'
    raise Unsupported('hash ' + ts)


@model('digest::digest::Digest::new')
def _(E, st, c):
    return Opq('hasher', (_algo(E.P.ts(c.dest)), Bytes(())))


@model('digest::digest::Digest::update')
def _(E, st, c):
    h = E.deref(st, c.args[0])
    d = dr(E, st, c.args[1])
    if isinstance(d, VecV):
        raise Unsupported('hash update with vector')
    E.write(st, c.args[0], (), Opq('hasher', (h.d[0], h.d[1] + d)))
    return UNIT


@model('digest::digest::Digest::finalize')
def _(E, st, c):
    h = c.args[0]
    return hash_of(*h.d)


@model('digest::digest::Digest::digest')
def _(E, st, c):
    return hash_of(_algo(' '.join(E.P.ts(g) for g in c.ga if isinstance(g, int))), dr(E, st, c.args[0]))


@model('digest::digest::Digest::chain_update', 'digest::digest::Digest::new_with_prefix')
def _(E, st, c):
    if c.name.endswith('prefix'):
        return Opq('hasher', (_algo(E.P.ts(c.dest)), dr(E, st, c.args[0])))
    h = c.args[0]
    return Opq('hasher', (h.d[0], h.d[1] + dr(E, st, c.args[1])))


b32 = uf('bech32', B, B, B)
b32_enc_ok = uf('bech32_hrp_ok', B, BoolS)
b32_ok = uf('bech32_ok', B, BoolS)
b32_hrp = uf('bech32_hrp', B, B)
b32_data = uf('bech32_data', B, B)
b32_pad = uf('base32_pad_ok', B, BoolS)        # the 5-bit groups of the text regroup to whole bytes


def b32_facts(x):
    return [z3.Implies(b32_enc_ok(x.arg(0)), z3.And(b32_ok(x), b32_pad(x), b32_data(x) == x.arg(1)))]


Engine.term_facts['bech32'] = b32_facts


@model('bech32::ToBase32::to_base32')
def _(E, st, c):
    return Opq('u5', (dr(E, st, c.args[0]), None))


@model('bech32::FromBase32::from_base32')
def _(E, st, c):
    v = dr(E, st, c.args[0])
    if not (isinstance(v, Opq) and v.tag == 'u5'):
        raise Unsupported('from_base32')
    b, t = v.d
    if t is None:
        return ok(E, c, b)
    return branch(E, st, b32_pad(t), lambda s: ok(E, c, b), lambda s: err(E, c))


@model('bech32::encode')
def _(E, st, c):
    h, d = dr(E, st, c.args[0]), dr(E, st, c.args[1])
    var = dr(E, st, c.args[2])
    if not (isinstance(var, Agg) and E.variants(var.ty)[var.var]['n'] == 'Bech32'):
        return branch(E, st, b32_enc_ok(h.term()), lambda s: ok(E, c, Bytes.of(uf('bech32m', B, B, B)(h.term(), d.d[0].term()))), lambda s: err(E, c))
    return branch(E, st, b32_enc_ok(h.term()), lambda s: ok(E, c, Bytes.of(b32(h.term(), d.d[0].term()))), lambda s: err(E, c))


@model('bech32::decode')
def _(E, st, c):
    s_ = dr(E, st, c.args[0])
    t = s_.term()
    tup = resty(E, c)[0]
    if z3.is_app(t) and t.decl().eq(b32):
        data = Bytes.of(t.arg(1))
        hrp = Bytes.of(b32_hrp(t))      # lower case of the given one
    else:
        data, hrp = Bytes.of(b32_data(t)), Bytes.of(b32_hrp(t))
    return branch(E, st, b32_ok(t), lambda s: ok(E, c, Agg(tup, 0, (hrp, Opq('u5', (data, t)), Opq('variant')))), lambda s: err(E, c))


# ---------------------------------------------------------------- prost
@model('prost::message::Message::encode_to_vec')
def _(E, st, c):
    v = dr(E, st, c.args[0])
    ty = v.ty
    t = E.term(st, v, ty)
    return Bytes.of(uf('prost<%s>' % E.P.ts(ty), t.sort(), B)(t))


@model('prost::message::Message::decode')
def _(E, st, c):
    v = dr(E, st, c.args[0])
    t = resty(E, c)[0]
    so = E.S.sort(t)
    ts = E.P.ts(t)
    return branch(E, st, uf('unprost_ok<%s>' % ts, B, BoolS)(v.term()), lambda s: ok(E, c, E.from_term(s, t, uf('unprost<%s>' % ts, B, so)(v.term()))), lambda s: err(E, c))


from .coll import as_vec  # noqa
from . import coll          # collections and iterators (registers its models)
from . import more          # further std functions
