"""Loop contracts.  A loop over a vector of symbolic length is verified against a candidate
invariant (a template): for every k the modified locals / storage have the value the template
gives.  The template is used only when the verifier proves that it holds initially and is
preserved by one arbitrary iteration; otherwise the loop is unrolled to a bound."""
import z3
from .core import *
from .core import _iz
from .vm import *
from .vm import _has_var

# an attempt that uses a value it has given up (an opaque one) does not apply
BAD = (Unsupported, AttributeError, TypeError, z3.Z3Exception)


def pattern_ok(t):
    todo, seen = [t], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if not z3.is_app(x) or x.decl().kind() in (z3.Z3_OP_ITE, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_EQ, z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT, z3.Z3_OP_IMPLIES):
            return False
        todo += x.children()
    return True


def forall_at(d, body, arr):
    """forall d. body, triggered by a read of the array where that is a pattern"""
    t = z3.simplify(z3.Select(arr, d))
    if z3.is_app_of(t, z3.Z3_OP_SELECT) and t.arg(0).decl().kind() == z3.Z3_OP_UNINTERPRETED and pattern_ok(t):
        return z3.ForAll([d], body, patterns=[t])
    return z3.ForAll([d], body)


class Loop:
    """what a template may look at"""

    def __init__(self, E, st, fn, n, elem, changed):
        self.E, self.st, self.fn, self.n, self.elem = E, st, fn, n, elem
        self.changed = changed          # slot -> (type id, initial value)

    def slot_of_type(self, tsub):
        l = [s for s, (ty, v) in self.changed.items() if (ty is not None and self.E.P.ts(ty).endswith(tsub) or ty is None and tsub.endswith('Coins') and isinstance(v, Coins))
             and v is not None and not (isinstance(v, Opq) and v.tag == 'havoc')]
        return l[0] if len(l) == 1 else None


HAVOC = Opq('havoc')


def natural_loop(f, succ, h):
    """blocks of the loop with header h, without the loops around it"""
    seen, w = set(), [0] if h != 0 else []
    while w:
        x = w.pop()
        if x in seen or x == h:
            continue
        seen.add(x)
        w.extend(succ.get(x, []))
    pred = {}
    for a, l in succ.items():
        for b in l:
            pred.setdefault(b, []).append(a)
    body = {h}
    w = [a for a in pred.get(h, []) if a not in seen]      # reached only through h
    reach, r = set(), [h]
    while r:
        x = r.pop()
        if x not in reach:
            reach.add(x)
            r.extend(succ.get(x, []))
    w = [a for a in w if a in reach]
    while w:
        x = w.pop()
        if x not in body:
            body.add(x)
            w.extend(pred.get(x, []))
    return body


def loop_info(E, f, h):
    key = ('loop', h)
    r = f.get(key)
    if r is None:
        E.loop_headers(f)
        body = natural_loop(f, f['_succ'], h)
        ass, mutb = set(), set()
        for b in body:
            blk = f['blocks'][b]
            for s in blk['s']:
                if s[0] == '=':
                    loc, pr = s[1]
                    if not pr or pr[0] != '*':
                        ass.add(loc)
                    rv = s[2]
                    if rv[0] == 'ref' and rv[1] and (not rv[2][1] or rv[2][1][0] != '*'):
                        mutb.add(rv[2][0])
                    if rv[0] == 'addr' and (not rv[1][1] or rv[1][1][0] != '*'):
                        mutb.add(rv[1][0])
            t = blk['t']
            if t[0] == 'call' and t[3] is not None:
                loc, pr = t[3]
                if not pr or pr[0] != '*':
                    ass.add(loc)
        r = f[key] = (body, ass | mutb)
    return r


def as_iter(v):
    """the iterator a loop advances, possibly wrapped in a struct of the code"""
    if isinstance(v, IterV):
        return v if v.k != 'user' else as_iter(v.d)
    if type(v).__name__ == 'BMapS':
        return IterV('bmap', (v,))
    if isinstance(v, Agg) and len(v.f) == 1:
        return as_iter(v.f[0])
    return None


def wrap_iter(v, it):
    if isinstance(v, IterV):
        return it if v.k != 'user' else IterV('user', wrap_iter(v.d, it))
    if isinstance(v, Agg):
        return Agg(v.ty, v.var, (wrap_iter(v.f[0], it),))
    return it.d[0]


def iter_at(E, it, k):
    kk, d = it.k, it.d
    if kk == 'bmap':
        return IterV(kk, (d[0].moved(k),))
    if kk == 'vec':
        return IterV(kk, (d[0], iadd(d[1], k), d[2]))
    if kk == 'range':
        return IterV(kk, (iadd(d[0], k), d[1]))
    if kk == 'enum':
        return IterV(kk, (iter_at(E, d[0], k), iadd(d[1], k)))
    if kk in ('cloned',):
        return IterV(kk, (iter_at(E, d[0], k),))
    if kk == 'map':
        return IterV(kk, (iter_at(E, d[0], k), d[1]))
    if kk == 'take':
        return IterV(kk, (iter_at(E, d[0], k), isub(d[1], k)))
    if kk == 'zip':
        return IterV(kk, (iter_at(E, d[0], k), iter_at(E, d[1], k)))
    raise Unsupported('position in iterator ' + kk)


def iter_same(E, a, b):
    if a is None or b is None or a.k != b.k:
        return False
    if a.k == 'bmap':
        return a.d[0].vec is b.d[0].vec and ieq(a.d[0].pos, b.d[0].pos) is True
    for x, y in zip(a.d, b.d):
        if isinstance(x, IterV):
            if not isinstance(y, IterV) or not iter_same(E, x, y):
                return False
        elif isinstance(x, int) or (z3.is_expr(x) and x.sort().eq(Int)):
            if not (ieq(x, y) is True):
                return False
    return True


def assume_slot(E, st, fr, slot, val):
    if slot[0] == 'store':
        st.store[slot[1]] = val
    else:
        st.cells[slot[1]] = val


def cur_slot(st, slot):
    return st.store.get(slot[1]) if slot[0] == 'store' else st.cells.get(slot[1])


def slot_eq(E, st, a, b):
    from . import models as M
    if isinstance(a, M.MapSt):
        k = E.fresh('lk', a.pres.sort().domain())
        return AND(z3.Select(a.pres, k) == z3.Select(b.pres, k), IMP(z3.Select(b.pres, k), z3.Select(a.vals, k) == z3.Select(b.vals, k)))
    if isinstance(a, M.ItemSt):
        return AND(IFF(a.present, b.present), IMP(b.present, E.eq(st, a.val, b.val, True)))
    if type(a).__name__ == 'SetV':
        from .coll import set_arr
        return set_arr(E, st, a) == set_arr(E, st, b)
    if isinstance(a, Coins):
        d = E.fresh('ld', B)
        return z3.Select(a.arr, d) == z3.Select(b.arr, d)
    return E.eq(st, a, b, True)


def prove(E, st, cond):
    if is_true(cond):
        return True
    return E.check(st.pc + [NOT(cond)], 6000)[0] == 'unsat'


class MirLoop:
    """a loop of the code, entered at its header; it advances one iterator local, or counts one integer local"""

    def __init__(self, E, f, fr, h, visits, body, loc, it):
        self.E, self.f, self.fr, self.h, self.visits, self.body, self.loc, self.it = E, f, fr, h, visits, body, loc, it
        self.pos = fr[loc]

    def seek(self, s, k):
        if self.it is None:
            s.cells[self.pos] = k
        else:
            s.cells[self.pos] = wrap_iter(s.cells[self.pos], iter_at(self.E, self.it, k))

    def run(self, s):
        vis = dict(self.visits)
        vis[('inloop', self.h)] = 1
        outs, exits, backs = [], [], []
        self.E.run(self.f, self.fr, [(s, self.h, vis)], outs, stop=(self.h, self.body, exits, backs))
        return exits, outs, backs

    def moved(self, s, k, n):
        if self.it is None:
            v = s.cells.get(self.pos)
            return ieq(v, iadd(k, 1)) is True and prove(self.E, s, iadd(_iz(k), 1) <= _iz(n))
        return iter_same(self.E, as_iter(s.cells[self.pos]), iter_at(self.E, self.it, iadd(k, 1)))


class FoldLoop:
    """fold, try_fold, for_each, try_for_each: the accumulator lives in a cell of its own"""

    def __init__(self, E, c, it, n, what, clo, acc, okv):
        self.E, self.c, self.it, self.n, self.what, self.clo, self.acc, self.okv = E, c, it, n, what, clo, acc, okv
        self.pos = ('fold', id(self))

    def seek(self, s, k):
        s.cells[self.pos] = k

    def run(self, s):
        from .coll import iat, argtype
        E = self.E
        k = s.cells[self.pos]
        exits, outs, backs = [], [], []
        a, b = E.fork(s, simp(_iz(k) < _iz(self.n)))
        if b is not None:
            exits.append((b, None, None))
        if a is None:
            return exits, outs, backs
        each = self.what.endswith('for_each')
        for s, x in iat(E, a, self.it, k):
            if isinstance(x, Ret):
                outs.append(x)
                continue
            x = argtype(E, s, self.clo, 0 if each else 1, x)
            args = [x] if each else [s.cells[self.acc], x]
            for r in E.call_value(s, self.clo, args, self.c.dest if self.what.startswith('try') else None):
                if r.k == 'panic':
                    outs.append(r)
                    continue
                go, v = r.st, r.v
                if self.what.startswith('try'):
                    go, no = E.fork(r.st, E.isvar(r.v, self.okv))
                    if no is not None:
                        outs.append(Ret(no, 'ret', Agg(self.c.dest, 1 - self.okv, () if self.okv else (ERR,))))
                    if go is None:
                        continue
                    v = E.field(go, r.v, 0, self.okv)
                if not each:
                    go.cells[self.acc] = E.deref_all(go, v)
                go.cells[self.pos] = iadd(k, 1)
                backs.append(go)
        return exits, outs, backs

    def moved(self, s, k, n):
        return ieq(s.cells[self.pos], iadd(k, 1)) is True


def candidates(E, st, cells, n):
    """vectors the loop may be walking by index"""
    out, seen = [], set()
    for v in cells:
        try:
            v = E.deref_all(st, v)
            if isinstance(v, (VecS, Sym)) and not isinstance(E.vlen(v), int):
                m = E.vlen(v)
            else:
                continue
        except Exception:
            continue
        if n is not None and ieq(m, n) is not True:
            continue
        key = str(v.key) if isinstance(v, VecS) else str(v.term)
        if key in seen:
            continue
        seen.add(key)
        out.append((m, v))
    return out


def apply(E, st, f, fr, b, visits, specs, out, work):
    """called at a loop header; True when the loop has been summarised"""
    if ('inloop', b) in visits:
        return False
    from .coll import ilen, iat
    body, ch = loop_info(E, f, b)
    iters, counters = [], []
    for loc in ch:
        raw = st.cells.get(fr[loc])
        v = as_iter(raw)
        if v is not None:
            try:
                n = ilen(E, st, v)
            except BAD:
                n = None
            if n is not None and not isinstance(n, int):
                iters.append((loc, v, n))
        elif raw == 0 and isinstance(raw, int) and not isinstance(raw, bool) and E.P.ts(f['locals'][loc]) in ('usize', 'u32', 'u64'):
            counters.append(loc)
    plans = []
    if len(iters) == 1:
        loc, it, n = iters[0]
        plans.append((loc, it, n, lambda s, i: iat(E, s, it, i)))
        if it.k == 'range':
            for m, v in candidates(E, st, [st.cells.get(x) for x in fr.values()] if isinstance(fr, dict) else [st.cells.get(x) for x in fr], n):
                plans.append((loc, it, n, lambda s, i, v=v: [(s, E.vat(s, v, i))]))
    elif not iters and len(counters) == 1:
        for m, v in candidates(E, st, [st.cells.get(x) for x in fr.values()] if isinstance(fr, dict) else [st.cells.get(x) for x in fr], None):
            plans.append((counters[0], None, m, lambda s, i, v=v: [(s, E.vat(s, v, i))]))
    for loc, it, n, elem in plans:
        changed = {}
        for l in ch:
            if l != loc:
                changed[('cell', fr[l])] = (f['locals'][l], st.cells.get(fr[l]))
        body_ = MirLoop(E, f, fr, b, visits, body, loc, it)
        r = summarise(E, st, f['def'], body_, n, elem, changed)
        if r is None:
            continue
        exits, outs = r
        out.extend(outs)
        for s, blk, vis in exits:
            work.append((s, blk, {k: x for k, x in vis.items() if k != ('inloop', b)}))
        return True
    return False


def consumer(E, st, c, it, n, what):
    """fold / try_fold / for_each / try_for_each over a symbolic-length iterator"""
    from .coll import iat
    if not E.loops or n is None:
        return None
    each = what.endswith('for_each')
    clo = c.args[1] if each else c.args[2]
    acc = E.newcell(st, UNIT if each else E.deref_all(st, c.args[1])).cell
    okv, accty = 0, None
    if what == 'fold':
        accty = c.dest
    elif what.startswith('try'):
        k = E.k(c.dest).t
        okv = 1 if k['name'].endswith('Option') else 0
        accty = k['ga'][0]
    L = FoldLoop(E, c, it, n, what, clo, acc, okv)
    # the captured cells the closure may change: tried on one arbitrary element
    changed = {}
    if not each:
        changed[('cell', acc)] = (accty, st.cells[acc])
    try:
        p = st.copy()
        k = E.fresh('k', Int)
        p.add(z3.And(k >= 0, k < _iz(n)))
        L.seek(p, k)
        before = dict(p.cells)
        with E.all_paths():
            backs = L.run(p)[2]
        for s in backs:
            for cc, v in before.items():
                if cc not in (acc, L.pos) and cc in s.cells and not trivially_same(s.cells[cc], v):
                    changed[('cell', cc)] = (type_of(E, v), v)
    except BAD:
        pass
    r = summarise(E, st, c.caller['def'] if c.caller else '', L, n, lambda s, i: iat(E, s, it, i), changed)
    if r is None:
        return None
    exits, outs = r
    for s, _, _ in exits:
        v = s.cells.get(acc, UNIT)
        outs.append(Ret(s, 'ret', v if not what.startswith('try') else Agg(c.dest, okv, (v,))))
    return outs


def type_of(E, v):
    return getattr(v, 'ty', None)


def summarise(E, st, fname, body, n, elem, changed):
    """(exits, returns) when some loop contract holds of this loop"""
    with E.all_paths():
        return _summarise(E, st, fname, body, n, elem, changed)


def _summarise(E, st, fname, body, n, elem, changed):
    L = Loop(E, st, fname, n, elem, changed)
    for tf in E.loops:
        s0 = st.copy()
        L.st = s0
        nm = getattr(tf, '__name__', str(tf))
        try:
            T = tf(E, s0, L)
            if T is None:
                continue
            res = try_template(E, s0, fname, body, T, n, changed)
        except BAD as e:
            E.loop_log.append((fname, nm, 'unsupported: ' + str(e)[:120]))
            continue
        if res is None:
            continue
        E.loop_log.append((fname, nm, 'proved'))
        return res
    try:
        res = push_loop(E, st, fname, body, n, changed)
    except BAD as e:
        E.loop_log.append((fname, 'push_loop', 'unsupported: ' + str(e)[:120]))
        return None
    if res is not None:
        E.loop_log.append((fname, 'push_loop', 'proved'))
    return res


def generic(E, st, T, n, slots):
    """state at an arbitrary iteration k"""
    k = E.fresh('k', Int)
    st.add(z3.And(k >= 0, k <= _iz(n)))
    for c in T.facts(E, st, k):
        st.add(c)
    for c in T.inv(E, st, k, False):
        st.add(c)
    return k


def havoc(E, st, ty, v):
    """any value of the type"""
    if isinstance(v, (int, bool, Agg, Sym, VecV, VecS, VecCat, Bytes, Coins)) and ty is not None:
        try:
            return E.from_term(st, ty, E.fresh('havoc', E.S.sort(ty)))
        except BAD:
            pass
    return HAVOC


def try_template(E, st, fname, body, T, n, changed):
    # initial
    for c in T.facts(E, st, 0):
        st.add(c)
    v0 = T.values(E, st, 0)
    for s, val in v0.items():
        c = cur_slot(st, s)
        if c is None:
            raise Unsupported('no initial value of loop slot')
        if not prove(E, st, slot_eq(E, st, c, val)):
            E.loop_log.append((fname, type(T).__name__, 'not initial'))
            return None
    for c in T.inv(E, st, 0, True):
        if not prove(E, st, c):
            E.loop_log.append((fname, type(T).__name__, 'not initial'))
            return None
    k = generic(E, st, T, n, v0)
    vk = T.values(E, st, k)
    for s, (ty, v) in changed.items():
        st.cells[s[1]] = HAVOC if s in vk else havoc(E, st, ty, v)
    for s, val in vk.items():
        assume_slot(E, st, None, s, val)
    body.seek(st, k)
    cells0, store0 = dict(st.cells), dict(st.store)
    havoced = set(s[1] for s in changed) | {body.pos}
    slots_store = set(s[1] for s in vk if s[0] == 'store')
    exits, outs, backs = body.run(st)
    for s in backs:
        for c, v in cells0.items():
            if c not in havoced and c in s.cells and s.cells[c] is not v and ('cell', c) not in vk:
                if not trivially_same(s.cells[c], v):
                    raise Unsupported('loop changes an outer cell')
        for ns, e in s.store.items():
            if ns not in slots_store and ns in store0 and store0[ns] is not e:
                raise Unsupported('loop changes storage %r' % ns)
        if not body.moved(s, k, n):
            raise Unsupported('loop moves the iterator')
        for c in T.facts(E, s, iadd(k, 1)):
            s.add(c)
        vn = T.values(E, s, iadd(k, 1))
        for sl, val in vn.items():
            if not prove(E, s, slot_eq(E, s, cur_slot(s, sl), val)):
                E.loop_log.append((fname, type(T).__name__, 'not preserved'))
                return None
        for c in T.inv(E, s, iadd(k, 1), True):
            if not prove(E, s, c):
                E.loop_log.append((fname, type(T).__name__, 'invariant not preserved'))
                return None
    # storage first seen inside the loop keeps its initial content
    return exits, outs


def tainted(es):
    seen = set()
    return any(z3.is_expr(e) and mentions_havoc(e, seen) for e in es)


def mentions_havoc(e, seen):
    if e.get_id() in seen:
        return False
    seen.add(e.get_id())
    if z3.is_const(e):
        return e.decl().name().startswith('havoc')
    if z3.is_quantifier(e):
        return mentions_havoc(e.body(), seen)
    return any(mentions_havoc(x, seen) for x in e.children())


def push_iteration(E, st, fname, body, n, changed, vecs, unstable):
    """one arbitrary iteration; the slots that turn out to change when there are any"""
    from .coll import deep
    s0 = st.copy()
    k = E.fresh('wit', Int)
    s0.add(z3.And(k >= 0, k < _iz(n)))
    marks, any_ = {}, {}
    for s, (ty, v) in changed.items():
        if s in vecs:
            marks[s] = VecS(v.e, E.fresh('pushed', Int), None, ('push', next(E.fresh_c)))
            s0.cells[s[1]] = marks[s]
        else:
            any_[s] = havoc(E, s0, ty, v) if s in unstable else v
            s0.cells[s[1]] = any_[s]
    body.seek(s0, k)
    have = set(x.get_id() for x in s0.pc)
    cells0, store0 = dict(s0.cells), dict(s0.store)
    fc = E.fresh_n
    exits, outs, backs = body.run(s0)
    if not backs:
        E.loop_log.append((fname, 'push_loop', 'no iteration completes'))
        return None
    good, more = [], set()
    havoced = set(s[1] for s in changed) | {body.pos}
    for s in backs:
        for c, v in cells0.items():
            if c not in havoced and c in s.cells and s.cells[c] is not v and not trivially_same(s.cells[c], v):
                raise Unsupported('loop changes an outer cell')
        for sl, v in any_.items():
            w = s.cells.get(sl[1])
            if sl not in unstable and w is not v and not (isinstance(v, int) and isinstance(w, int) and v == w and type(v) is type(w)):
                more.add(sl)
        for ns, e in s.store.items():
            if ns in store0 and store0[ns] is not e:
                raise Unsupported('loop changes storage')
            if ns not in st.store:
                st.store[ns] = e
                st.ghost['st0'] = dict(st.ghost.get('st0', {}))
                st.ghost['st0'].setdefault(ns, e)
        if not body.moved(s, k, n):
            raise Unsupported('loop moves the iterator')
        if more:
            continue
        got = {}
        for sl, m in marks.items():
            v = s.cells[sl[1]]
            if v is m:
                got[sl] = None
            elif isinstance(v, VecCat) and len(v.parts) == 2 and v.parts[0] is m and isinstance(v.parts[1], VecV) and len(v.parts[1].items) == 1:
                got[sl] = deep(E, s, v.parts[1].items[0])
            else:
                E.loop_log.append((fname, 'push_loop', 'not a single push'))
                return None
        good.append(([p for p in s.pc if p.get_id() not in have], got))
    if more:
        return more
    if E.fresh_n != fc:
        raise Unsupported('loop element makes fresh values')
    if unstable:
        for cs, g in good:
            seen = set()
            if any(mentions_havoc(c, seen) for c in cs):
                raise Unsupported('an iteration depends on the one before')
            for sl, x in g.items():
                if x is not None and mentions_havoc(E.term(State(), x, vecs[sl][1].e), seen):
                    raise Unsupported('an iteration depends on the one before')
    return k, marks, good, exits, outs


def push_loop(E, st, fname, body, n, changed):
    """a loop whose iterations only check their element, or push one element, a function of its position, to
    one or more vectors; it may be left early"""
    from .coll import merged_at, forall_ok
    vecs = {s: (ty, v) for s, (ty, v) in changed.items() if isinstance(v, (VecV, VecS, VecCat)) and not (isinstance(v, VecV) and v.e is None)}
    unstable = set()
    while True:
        r = push_iteration(E, st, fname, body, n, changed, vecs, unstable)
        if r is None:
            return None
        if not isinstance(r, set):
            break
        unstable |= r
    k, marks, good, exits, outs = r
    stable = set(changed) - set(marks) - unstable
    pushed = [sl for sl in marks if good[0][1][sl] is not None]
    for cs, g in good:
        if [sl for sl in marks if g[sl] is not None] != pushed:
            E.loop_log.append((fname, 'push_loop', 'pushes in some iterations only'))
            return None
    tag = next(E.fresh_c)
    at = {sl: merged_at(E, k, [(cs, g[sl]) for cs, g in good], changed[sl][1].e) for sl in pushed}

    def after(m):
        """state after the first m iterations"""
        end = st.copy()
        if exits or outs:
            end.add(forall_ok(E, k, m, [(cs, None) for cs, _ in good]))
        for i, (sl, (ty, v)) in enumerate(changed.items()):
            if sl in pushed:
                end.cells[sl[1]] = E.vcat(v.e, v, VecS(v.e, m, at[sl], ('map', tag, i)))
            elif sl not in marks and sl not in stable:
                end.cells[sl[1]] = havoc(E, end, ty, v)
        return end
    rets, res = [], []
    if exits or outs:
        m = E.fresh('wit', Int)
        mid = after(m)
        mid.add(z3.And(m >= 0, m < _iz(n)))
        body.seek(mid, m)
        ex, outs, _ = body.run(mid)
        rets += [o for o in outs if E.feasible(o.st)]
        res += [x for x in ex if E.feasible(x[0])]
    end = after(n)
    body.seek(end, n)
    ex, outs2, backs2 = body.run(end)
    if backs2 or outs2:
        raise Unsupported('a push loop that does not end')
    return res + ex, rets


def trivially_same(a, b):
    if a is b:
        return True
    if isinstance(a, (Ref, ValRef)) and isinstance(b, (Ref, ValRef)):
        return repr(a) == repr(b)
    return False


# ---------------------------------------------------------------- templates
class Template:
    def facts(self, E, st, k):
        return []

    def inv(self, E, st, k, goal):
        return []

    def values(self, E, st, k):
        raise NotImplementedError


def coin_of(E, st, x):
    x = E.deref_all(st, x)
    return E.fname(st, x, 'denom').term(), _iz(E.fname(st, x, 'amount'))


class CoinSum(Template):
    """coins = initial +/- the coins of the first k elements"""

    def __init__(self, L, slot, init, vec, sign):
        self.L, self.slot, self.init, self.vec, self.sign = L, slot, init, vec, sign
        from . import models as M
        self.M = M
        v = vec
        self.key = v.key
        self.pre = uf('coins_prefix', v.key.sort(), Int, AmtArr)

    def at(self, k):
        return self.pre(self.key, _iz(k))

    def facts(self, E, st, k):
        out = [self.at(0) == self.M.zero_amt, self.at(self.vec.n) == self.M.vec_amt(E, st, self.vec)]
        k = _iz(k)
        s2 = State()
        for kk in (k, k - 1):
            kk = z3.simplify(kk)
            if z3.is_int_value(kk) and kk.as_long() < 0:
                continue
            d, a = coin_of(E, s2, self.vec.at(s2, kk))
            p = self.at(kk)
            out.append(z3.Implies(z3.And(kk >= 0, kk < _iz(self.vec.n)), self.at(z3.simplify(kk + 1)) == z3.Store(p, d, z3.Select(p, d) + a)))
        return out + s2.pc

    def arr(self, k):
        d = z3.Const('lam!d', B)
        x, p = z3.Select(self.init, d), z3.Select(self.at(k), d)
        return z3.Lambda([d], x + p if self.sign > 0 else x - p)

    def inv(self, E, st, k, goal):
        a = self.arr(k)
        if goal:
            d = E.fresh('gd', B)
            # the initial amounts are amounts, hence not negative
            st.add(z3.Select(self.init, d) >= 0)
            st.add(z3.Select(self.at(_km1(k)), d) >= 0)
            self._inst(st, k, d)
            return [z3.Select(self.at(k), d) >= 0, z3.Select(self.init, d) - z3.Select(self.at(k), d) >= 0 if self.sign < 0 else z3.BoolVal(True)]
        d = z3.Const('inv!d', B)
        body = [z3.Select(self.at(k), d) >= 0]
        if self.sign < 0:
            body.append(z3.Select(self.init, d) - z3.Select(self.at(k), d) >= 0)
        return [forall_at(d, z3.And(*body), self.at(k))]

    def _inst(self, st, k, d):
        # instantiate the induction hypothesis at d
        if isinstance(k, int):
            return
        k1 = _km1(k)
        if self.sign < 0:
            st.add(z3.Select(self.init, d) - z3.Select(self.at(k1), d) >= 0)

    def values(self, E, st, k):
        return {self.slot: Coins(self.arr(k))}


def _km1(k):
    return z3.simplify(_iz(k) - 1) if not (isinstance(k, int) and k == 0) else z3.IntVal(0)


def identities(E, terms):
    """byte-string facts that matter only where a length is pinned: joining with an empty string, taking all of a string"""
    out, seen, todo = [], set(), [t for t in terms if z3.is_expr(t)]
    while todo:
        x = todo.pop()
        if x.get_id() in seen or z3.is_quantifier(x):
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            todo.extend(x.children())
            d = x.decl()
            if d.eq(bcat) and not _has_var(x):
                a, b = x.children()
                out += [z3.Implies(blen(a) == 0, x == b), z3.Implies(blen(b) == 0, x == a)]
            elif d.eq(bslice) and not _has_var(x):
                a, i, n = x.children()
                out.append(z3.Implies(z3.And(i == 0, n == blen(a)), x == a))
    return out


def short_vectors(E, terms):
    """for paths of an unrolled loop: the totals of short coin vectors, spelled out coin by coin"""
    keys, flats, seen, todo = {}, [], set(), [t for t in terms if z3.is_expr(t)]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            todo.append(x.body())
            continue
        if z3.is_app(x):
            if x.decl().name() in ('vec_amt', 'coins_nodup', 'coins_prefix') and not _has_var(x.arg(0)):
                keys[x.arg(0).get_id()] = x.arg(0)
            if x.decl().name() == 'bflat' and not _has_var(x):
                flats.append(x)
            todo.extend(x.children())
    from . import models as M
    ty = E.ty('cosmwasm_std::coin::Coin')
    out = []
    for x in flats:
        arr, n = x.arg(0), x.arg(1)
        part = Bytes(())
        for k in range(E.unroll + 2):
            out.append(z3.Implies(n == k, x == part.term()))
            part = part + Bytes.of(z3.simplify(z3.Select(arr, k)))
    for key in keys.values():
        so = key.sort()
        n, arr = _vl(key), so.accessor(0, 1)(key)
        if not so.accessor(0, 1).range().range().eq(E.S.sort(ty)):
            continue
        s2 = State()
        coins = [E.from_term(s2, ty, z3.simplify(z3.Select(arr, i))) for i in range(E.unroll + 1)]
        pre, tot = uf('coins_prefix', so, Int, AmtArr), uf('vec_amt', so, AmtArr)(key)
        d = z3.Const('tot!d', B)
        out.append(forall_at(d, z3.Select(tot, d) >= 0, tot))
        out.append(pre(key, z3.IntVal(0)) == M.zero_amt)
        for k, x in enumerate(coins):
            d, a = coin_of(E, s2, x)
            p = pre(key, z3.IntVal(k))
            out.append(z3.Implies(n > k, pre(key, z3.IntVal(k + 1)) == z3.Store(p, d, z3.Select(p, d) + a)))
        for k in range(len(coins) + 1):
            nd = M.nodup(E, s2, VecV(ty, coins[:k]))
            out.append(z3.Implies(n == k, z3.And(tot == pre(key, z3.IntVal(k)), uf('coins_nodup', so, BoolS)(key) == (z3.BoolVal(nd) if isinstance(nd, bool) else nd))))
        out += s2.pc
    return out + identities(E, terms + out)


def _coin_vec(L):
    """the coin vector being iterated, when the elements are coins of one vector"""
    E = L.E
    s = State()
    i = z3.Int('probe!i')
    l = L.elem(s, i)
    if len(l) != 1 or isinstance(l[0][1], Ret):
        return None
    x = E.deref_all(s, l[0][1])
    if not isinstance(x, Sym) or not E.P.ts(x.ty).endswith('cosmwasm_std::coin::Coin'):
        return None
    t = x.term
    if not (z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SELECT and t.arg(1).eq(i)):
        return None
    arr = t.arg(0)
    if z3.is_app(arr) and arr.num_args() == 1 and arr.decl().name().endswith('varr'):
        key = arr.arg(0)
        return VecS(x.ty, conc(z3.simplify(_vl(key))), lambda s2, j: E.from_term(s2, x.ty, z3.Select(arr, _iz(j))), key)
    return None


def _vl(key):
    so = key.sort()
    return so.accessor(0, 0)(key)


def coins_sub(E, st, L):
    slot = L.slot_of_type('cosmwasm_std::coins::Coins')
    if slot is None:
        return None
    v = _coin_vec(L)
    if v is None or not ieq(v.n, L.n) is True:
        return None
    return CoinSum(L, slot, E.deref_all(st, L.changed[slot][1]).arr, v, -1)


def coins_add(E, st, L):
    slot = L.slot_of_type('cosmwasm_std::coins::Coins')
    if slot is None:
        return None
    v = _coin_vec(L)
    if v is None or not ieq(v.n, L.n) is True:
        return None
    return CoinSum(L, slot, E.deref_all(st, L.changed[slot][1]).arr, v, +1)


# ---------------------------------------------------------------- sequential writes to a map
def seq_at(E, m0, vec, tag, k):
    so = [m0.pres.sort(), m0.vals.sort(), vec.key.sort(), Int]
    a = (m0.pres, m0.vals, vec.key, _iz(k))
    from . import models as M
    return M.MapSt(m0.kty, m0.vty, uf('seq_keys:' + tag, *(so + [m0.pres.sort()]))(*a), uf('seq_vals:' + tag, *(so + [m0.vals.sort()]))(*a))


def seq_step(E, st, m, x, f):
    from . import models as M
    key, val = f(E, st, x)
    kt = M.key_term(E, st, key)
    if val is None:
        return M.MapSt(m.kty, m.vty, z3.Store(m.pres, kt, False), m.vals)
    return M.MapSt(m.kty, m.vty, z3.Store(m.pres, kt, True), z3.Store(m.vals, kt, E.term(st, val, m.vty)))


def seq_facts(E, m0, vec, tag, f, ks):
    a0 = seq_at(E, m0, vec, tag, 0)
    out = [a0.pres == m0.pres, a0.vals == m0.vals]
    for k in ks:
        k = z3.simplify(_iz(k))
        if z3.is_int_value(k) and k.as_long() < 0:
            continue
        s2 = State()
        x = vec.at(s2, k)
        cur = seq_at(E, m0, vec, tag, k)
        nx = seq_step(E, s2, cur, x, f)
        to = seq_at(E, m0, vec, tag, z3.simplify(k + 1))
        out += s2.pc
        out.append(z3.Implies(z3.And(k >= 0, k < _iz(vec.n)), z3.And(to.pres == nx.pres, to.vals == nx.vals)))
    return out


def seq_result(E, st, m0, vec, tag, f):
    """the map after applying f to every element of vec in order"""
    if isinstance(vec, VecV):
        m = m0
        for x in vec.items:
            m = seq_step(E, st, m, E.deref_all(st, x), f)
        return m
    for c in seq_facts(E, m0, vec, tag, f, range(E.unroll + 1)):
        st.add(c)
    return seq_at(E, m0, vec, tag, vec.n)


class SeqT(Template):
    def __init__(self, L, ns, m0, vec, tag, f, guard=None):
        self.L, self.ns, self.m0, self.vec, self.tag, self.f = L, ns, m0, vec, tag, f
        self.guard = guard

    def inv(self, E, st, k, goal):
        return all_below(E, st, self.vec, self.guard, k)

    def facts(self, E, st, k):
        ks = [k] if isinstance(k, int) and k == 0 else [k, z3.simplify(_iz(k) - 1)]
        return seq_facts(E, self.m0, self.vec, self.tag, self.f, ks)

    def values(self, E, st, k):
        return {('store', self.ns): seq_at(E, self.m0, self.vec, self.tag, k)}


class SeqStore:
    """loop contract: the loop applies f to the elements of vec(E, st) in order"""

    def __init__(self, ns, kty, vty, tag, f, guard=None):
        self.guard = guard
        self.ns = ns.encode() if isinstance(ns, str) else ns
        self.kty, self.vty, self.tag, self.f = kty, vty, tag, f
        self.__name__ = 'sequential writes to ' + self.ns.decode()

    def __call__(self, E, st, L):
        from . import models as M
        m0 = M.smap(E, st, self.ns, self.kty(E), self.vty(E))
        vec = vec_of_loop(L)
        if vec is None:
            return None
        return SeqT(L, self.ns, m0, vec, self.tag, self.f, self.guard)


def all_below(E, st, vec, guard, k):
    """every element before position k satisfies the guard"""
    if guard is None:
        return []
    i = z3.Int('inv!i')
    s2 = State()
    x = E.deref_all(s2, vec.at(s2, i))
    g = guard(E, s2, x)
    if s2.pc:
        g = z3.Implies(z3.And(s2.pc), g)
    return [z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < _iz(k)), g))]


class CheckT(Template):
    """a loop that only checks: every element before k passed"""

    def __init__(self, vec, guard):
        self.vec, self.guard = vec, guard

    def facts(self, E, st, k):
        return []

    def inv(self, E, st, k, goal):
        return all_below(E, st, self.vec, self.guard, k)

    def values(self, E, st, k):
        return {}


class CheckAll:
    def __init__(self, guard):
        self.guard = guard
        self.__name__ = 'every element is checked'

    def __call__(self, E, st, L):
        vec = vec_of_loop(L)
        return None if vec is None else CheckT(vec, self.guard)


def vec_of_loop(L):
    """the symbolic vector whose elements the loop visits"""
    E = L.E
    s = State()
    i = z3.Int('probe!i')
    l = L.elem(s, i)
    if len(l) != 1 or not hasattr(l[0][1], 'ty') and not isinstance(l[0][1], (Bytes, Ref, ValRef)) and not z3.is_expr(l[0][1]):
        return None
    x = E.deref_all(s, l[0][1])
    arr = _arr_of(x, i)
    if arr is None:
        return None
    key = arr.arg(0)
    ety = getattr(x, 'ty', None)
    n = conc(z3.simplify(_vl(key)))
    if ety is None:
        so = arr.sort().range()
        mk_ = (lambda s2, t: Bytes.of(t)) if so.eq(B) else (lambda s2, t: t)
        return VecS(None, n, lambda s2, j: mk_(s2, z3.Select(arr, _iz(j))), key)
    return VecS(ety, n, lambda s2, j: E.from_term(s2, ety, z3.Select(arr, _iz(j))), key)


def _arr_of(x, i):
    """the array term a when x is built from a[i] only"""
    todo = []
    def leaves(v):
        if isinstance(v, Sym):
            todo.append(v.term)
        elif isinstance(v, Agg):
            for y in v.f:
                leaves(y)
        elif isinstance(v, Bytes):
            todo.append(v.term())
        elif z3.is_expr(v):
            todo.append(v)
    leaves(x)
    seen = None
    while todo:
        t = todo.pop()
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SELECT and t.arg(1).eq(i):
            a = t.arg(0)
            if not (z3.is_app(a) and a.num_args() == 1 and a.decl().name().endswith('varr')):
                return None
            if seen is not None and not seen.eq(a):
                return None
            seen = a
        elif z3.is_app(t):
            todo.extend(t.children())
    return seen


BASIC = [coins_sub, coins_add]
