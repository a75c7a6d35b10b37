"""Running contracts: execute a function symbolically, evaluate clauses on every end state."""
import time, sys, traceback
import z3
from .core import *
from .vm import *
from . import models as M, entry, spec


class ClauseResult:
    def __init__(self, prop, fn, name):
        self.prop, self.fn, self.name = prop, fn, name
        self.discharged = 0
        self.trivial = 0
        self.refuted = []      # (path index, model, out)
        self.unknown = []
        self.t = 0.0

    @property
    def status(self):
        if self.refuted:
            return 'refuted'
        if self.unknown:
            return 'unknown'
        return 'discharged'


class FnResult:
    def __init__(self, prop, fn):
        self.prop, self.fn = prop, fn
        self.clauses = {}
        self.paths = 0
        self.ok_paths = 0
        self.reached = set()
        self.unsupported = None
        self.bounded = False
        self.called = {}
        self.models = set()
        self.t = 0.0
        self.queries = 0
        self.solver_s = 0.0
        self.loop_obls = []


class Contract:
    """contract of one entry point: requires (assumed) and ensures (proved on every path)"""

    def __init__(self, prop, fn, body, requires=None, setup=None, reach=('ok',), loops=None, variant=None, args=None, arglens=None, name=None, gen=None, tag=None):
        self.prop, self.fn, self.body = prop, fn, body
        self.requires, self.setup, self.reach = requires, setup, reach
        self.loops = loops or []
        self.variant = variant          # (argument, variant path) to fix the message kind
        self.args = args
        self.name = name or fn + ('' if variant is None else '[%s]' % '/'.join(variant if isinstance(variant, (list, tuple)) else [variant]))
        self.gen = gen
        if tag:
            self.name += ' ' + tag


class Lemma:
    """a ghost lemma: body(E, st) yields (clause, hypotheses, goal); proved on its own, used by contracts as a fact"""

    def __init__(self, prop, name, body):
        self.prop, self.name, self.body = prop, 'lemma: ' + name, body
        self.fn, self.reach = None, ()


def run_lemma(P, con, timeout):
    R = FnResult(con.prop, con.name)
    t0 = time.time()
    E = Engine(P)
    st = State()
    try:
        for name, hyp, goal in con.body(E, st):
            cr = R.clauses.setdefault(name, ClauseResult(con.prop, con.name, name))
            if is_true(goal):
                cr.discharged += 1
                cr.trivial += 1
                continue
            res, m = E.check(st.pc + list(hyp) + [NOT(goal)], timeout)
            if res == 'unsat':
                cr.discharged += 1
            else:
                cr.unknown.append((0, None, None))
    except Unsupported as e:
        R.unsupported = str(e)
    R.paths = 1
    R.queries, R.solver_s = E.nquery, E.solver_s
    R.t = time.time() - t0
    return R


def fix_variant(E, st, ty, path, name):
    """symbolic value of an enum with the variants along path fixed"""
    if not path:
        return entry.symarg(E, st, ty, name)
    k = E.k(ty)
    vi = M.vidx(E, ty, path[0])
    so = E.S.sort(ty)
    t = z3.Const('arg!' + name, so)
    st.add(so.recognizer(vi)(t))
    fs = E.variants(ty)[vi]['f']
    out = []
    for i, (fn, ft) in enumerate(fs):
        sub = so.accessor(vi, i)(t)
        if len(path) > 1 and i == 0:
            out.append(fix_sub(E, st, ft, path[1:], sub))
        else:
            out.append(E.from_term(st, ft, sub))
    return Agg(ty, vi, out)


def fix_sub(E, st, ty, path, t):
    k = E.k(ty)
    while k.k in ('box', 'ref'):
        ty = k.e
        k = E.k(ty)
    if path[0] == 'Some' or k.k == 'adt':
        vi = M.vidx(E, ty, path[0])
        so = E.S.sort(ty)
        st.add(so.recognizer(vi)(t))
        out = []
        for i, (fn, ft) in enumerate(E.variants(ty)[vi]['f']):
            sub = so.accessor(vi, i)(t)
            out.append(fix_sub(E, st, ft, path[1:], sub) if len(path) > 1 and i == 0 else E.from_term(st, ft, sub))
        return Agg(ty, vi, out)
    raise Unsupported('variant path')


def run_contract(P, con, timeout=20000, deadline=None, use_loops=True, unroll=None, live=None, lenient=False, short=False):
    """symbolic verification of one contract; live receives the result while it is being made"""
    if isinstance(con, Lemma):
        return run_lemma(P, con, timeout)
    R = FnResult(con.prop, con.name)
    if live is not None:
        live.append(R)
    t0 = time.time()
    from . import loops
    E = Engine(P)
    if unroll is not None:
        E.unroll = unroll
    E.deadline = deadline
    E.lenient, E.short = lenient, short
    M.USED.clear()
    try:
        f = P.fn(con.fn)
        st = State()
        over = {}
        names = {}
        for i in range(f['argc']):
            nm = (f['names'].get(str(i + 1)) or 'a%d' % i).lstrip('_')
            names[nm] = i
        con_names = names
        if con.variant is not None:
            path = con.variant if isinstance(con.variant, (list, tuple)) else [con.variant]
            ty = f['locals'][names['msg'] + 1]
            over['msg'] = fix_variant(E, st, ty, list(path), 'msg')
        if con.args:
            con.args(E, st, over)
        args = entry.symargs(E, st, f, **over)
        if con.setup:
            con.setup(E, st, args, names)
        if con.requires:
            o = spec.Out(E, f, args, names, st, None, None)
            for c in con.requires(o) or []:
                st.add(c)
        if use_loops:
            E.loops = list(con.loops) + loops.BASIC
        E.R = R
        rs = E.exec_fn(st, f, args) if con.fn not in E.contracts else E.exec_fn(st, f, args)
        R.paths = len(rs)
        R.complete = False
        R.bounded = E.cuts > 0
        R.called = dict(E.called)
        R.called[con.fn] = R.called.get(con.fn, 0) + 1
        for pi, r in enumerate(rs):
            o = spec.Out(E, f, args, names, r.st, r.k, r.v)
            okc = o.ok
            if not is_false(okc):
                R.ok_paths += 1
            try:
                con.body(o)
            except Exception as e:
                if not lenient:
                    raise
                E.dropped.append('%s: %s' % (type(e).__name__, e))
            for name, cond in o.clauses:
                if name.startswith('reach:'):
                    if name not in R.reached and E.check(o.st.pc + [cond], 3000)[0] != 'unsat':
                        R.reached.add(name)
                    R.clauses.setdefault(name, None)
                    continue
                cr = R.clauses.get(name)
                if cr is None:
                    cr = R.clauses[name] = ClauseResult(con.prop, con.name, name)
                if is_true(cond):
                    cr.discharged += 1
                    cr.trivial += 1
                    continue
                t1 = time.time()
                res, m = E.prove(o.st.pc, cond, timeout)
                if res == 'sat':
                    more = (loops.short_vectors if E.cuts else loops.identities)(E, o.st.pc + [cond])
                    if more:
                        res, m = E.prove(o.st.pc + more, cond, timeout)
                cr.t += time.time() - t1
                if res == 'sat' and loops.tainted(o.st.pc + [cond]):
                    # a value some loop left open: not a behaviour of the code
                    cr.unknown.append((pi, None, o))
                elif res == 'unsat':
                    cr.discharged += 1
                elif res == 'sat':
                    cr.refuted.append((pi, m, o))
                else:
                    from . import refute
                    q = refute.search(E, o.st.pc, cond)
                    if q:
                        cr.refuted.append((pi, q[1], o))
                    else:
                        cr.unknown.append((pi, None, o))
        R.complete = True
        if E.dropped:
            raise Unsupported('%d paths outside the verifier: %s' % (len(E.dropped), E.dropped[0][:200]))
        if 'ok' in con.reach:
            for r in rs:
                o = spec.Out(E, f, args, names, r.st, r.k, r.v)
                if is_false(o.ok):
                    continue
                if E.check(r.st.pc + [o.ok], 5000)[0] != 'unsat':
                    R.reached.add('ok')
                    break
    except Unsupported as e:
        R.unsupported = str(e)
    R.loop_obls = list(E.loop_log)
    R.queries, R.solver_s = E.nquery, E.solver_s
    R.models = set(E.models_used)
    R.t = time.time() - t0
    for k in [k for k, v in R.clauses.items() if v is None]:
        del R.clauses[k]
        if k not in R.reached:
            R.vacuous = k
    return R


def summary(R):
    s = '%-60s paths=%d ok=%d %s %.1fs q=%d' % (R.fn[:60], R.paths, R.ok_paths, 'BOUNDED' if R.bounded else '', R.t, R.queries)
    out = [s]
    if R.unsupported:
        out.append('   UNSUPPORTED ' + R.unsupported[:300])
    for n, c in R.clauses.items():
        out.append('   %-10s %s (%d paths, %d trivial) %.1fs' % (c.status, n, c.discharged + len(c.refuted) + len(c.unknown), c.trivial, c.t))
    for l in R.loop_obls:
        out.append('   LOOP %s %s %s' % l)
    return '\n'.join(out)
