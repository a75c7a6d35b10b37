"""When the solver answers neither way: look for a counterexample in which every vector has a fixed small length.

Lengths are replaced by numbers, quantifiers over indices that a fixed length bounds are expanded (only when the solver shows that nothing is
lost), and totals of coin vectors of known length get their definition.  A model found is a model of the original query with lengths fixed: the
search can only refute, it never discharges."""
import itertools
import z3
from .core import *
from .core import _iz

K = 4


def subterms(es):
    seen, todo = set(), [e for e in es if z3.is_expr(e)]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        yield x
        if z3.is_quantifier(x):
            todo.append(x.body())
        else:
            todo.extend(x.children())


def has_var(x):
    todo, seen = [x], set()
    while todo:
        y = todo.pop()
        if y.get_id() in seen:
            continue
        seen.add(y.get_id())
        if z3.is_var(y):
            return True
        if z3.is_quantifier(y):
            return True
        todo.extend(y.children())
    return False


def lengths(es):
    out = {}
    for x in subterms(es):
        if z3.is_app(x) and x.num_args() == 1 and x.decl().name() == 'vlen' and not has_var(x):
            out[x.get_id()] = x
    return list(out.values())


def expand(E, e, K=K):
    """expand quantifiers over one integer that only matter on 0..K-1"""
    if z3.is_quantifier(e) and not e.is_lambda():
        if e.num_vars() == 1 and e.var_sort(0) == Int:
            i = z3.Const('refute!i', Int)
            b = z3.substitute_vars(e.body(), i)
            out = z3.Or(i < 0, i >= K)
            s = z3.Solver()
            s.set('timeout', 1000)
            s.add(out, b if e.is_exists() else z3.Not(b))
            if s.check() == z3.unsat:
                l = [expand(E, z3.simplify(z3.substitute_vars(e.body(), z3.IntVal(j))), K) for j in range(K)]
                return z3.Or(*l) if e.is_exists() else z3.And(*l)
        return e
    if z3.is_app(e) and z3.is_bool(e) and e.num_args() and e.decl().kind() in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_IMPLIES, z3.Z3_OP_ITE, z3.Z3_OP_EQ, z3.Z3_OP_IFF) and all(z3.is_bool(c) for c in e.children()):
        l = [expand(E, c, K) for c in e.children()]
        k = e.decl().kind()
        if k == z3.Z3_OP_AND:
            return z3.And(*l)
        if k == z3.Z3_OP_OR:
            return z3.Or(*l)
        return e.decl()(*l)
    return e


def search(E, pc, goal, timeout=8000):
    """('sat', model) or None"""
    from . import loops
    base = [c for c in pc + [NOT(goal)] if z3.is_expr(c)]
    if any(is_false(c) for c in pc + [NOT(goal)]):
        return None
    ls = lengths(base)
    defs = loops.short_vectors(E, pc + [goal])
    plans = [(n,) * len(ls) for n in (1, 2, 0)] if ls else [()]
    if 1 < len(ls) <= 3:
        plans += [p for p in itertools.product((1, 2), repeat=len(ls)) if p not in plans][:4]
    # lengths on both sides of the constants of the query
    cs = sorted(set(x.as_long() for x in subterms(base) if z3.is_int_value(x) and K < x.as_long() <= 300), reverse=True) if ls else []
    far = []
    for c in cs:
        for n in (c, c + 1):
            if n not in far:
                far.append(n)
    plans += [(n,) * len(ls) for n in far[:6]]
    for plan in plans:
        k = max(K, max(plan, default=0) + 1)
        pins = [(x, z3.IntVal(n)) for x, n in zip(ls, plan)]
        es = []
        dead = False
        for c in base + list(defs):
            y = z3.simplify(z3.substitute(c, *pins)) if pins else c
            if z3.is_false(y):
                dead = True
                break
            if z3.is_true(y):
                continue
            y = z3.simplify(expand(E, y, k))
            es.append(y)
        if dead:
            continue
        es += [x == n for x, n in pins]
        r, m = E.check(es, timeout)
        if r == 'sat':
            return 'sat', m
    return None
