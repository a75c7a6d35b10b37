"""Decides one property: extracts the MIR of /repo's current tree, generates and discharges the
obligations of every contract of the property, reports."""
import os, sys, json, time, signal, traceback, re
from multiprocessing import Pool
from . import build
from .core import Prog
from . import check

ROOT = build.ROOT
TRUSTED = [
    'z3 4.x (python z3-solver) as the only back end; the MIR-to-formula translation of engine/ (not itself verified)',
    'rustc (nightly, mir-opt-level=0) MIR is taken to mean what the shipped wasm does',
    'contracts assumed for dependencies (cosmwasm-std, cw-storage-plus, cw-utils, cw2, cw20, serde/serde_json, std, bech32, sha2/sha3/ripemd, k256 via the Api): see coverage.dependency_contracts',
    'hash functions are uninterpreted functions of their exact input bytes; equal digests are only concluded from equal inputs',
]


class Timeout(Exception):
    pass


def _alarm(*a):
    raise Timeout()


_W = {}


def _init(mirpath, prop, tmo):
    from contracts import registry
    _W['P'] = Prog(mirpath)
    _W['cons'] = registry.contracts(_W['P'], prop)
    _W['tmo'] = tmo


def describe_model(m, limit=60):
    out = []
    try:
        for d in m.decls():
            n = d.name()
            if n.startswith('b!') or '!' not in n:
                continue
            s = str(m[d]).replace('\n', ' ')
            out.append('%s = %s' % (n, s[:200]))
    except Exception:
        pass
    return sorted(out)[:limit]


def _result(i, con, R, unsupported):
    d = dict(i=i, name=con.name, fn=con.fn, paths=R.paths, ok_paths=R.ok_paths, unsupported=unsupported, bounded=R.bounded, t=R.t, queries=R.queries,
             solver_s=R.solver_s, models=sorted(R.models), called=R.called, loops=[list(map(str, l)) for l in R.loop_obls],
             unreached=[x for x in con.reach if x not in R.reached], vacuous=getattr(R, 'vacuous', None), clauses=[])
    for n, c in R.clauses.items():
        if c is not None:
            d['clauses'].append(dict(name=n, status=c.status, discharged=c.discharged, trivial=c.trivial, refuted=len(c.refuted), unknown=len(c.unknown), t=c.t,
                                     model=describe_model(c.refuted[0][1]) if c.refuted else None))
    return d


def _attempt(i, con, limit, **kw):
    t0 = time.time()
    live = []
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        R = check.run_contract(_W['P'], con, timeout=_W['tmo'], live=live, **kw)
        signal.alarm(0)
        return _result(i, con, R, R.unsupported)
    except BaseException as e:
        signal.alarm(0)
        late = isinstance(e, Timeout) or time.time() - t0 > limit - 1
        kind = 'time limit' if late else 'verifier error: ' + traceback.format_exc()[-600:]
        if late and live:
            R = live[0]
            # what was refuted before the time ran out stays refuted
            R.clauses = {n: c for n, c in R.clauses.items() if c is not None and c.refuted}
            R.t = time.time() - t0
            try:
                return _result(i, con, R, kind)
            except Exception:
                pass
        return dict(i=i, name=con.name, fn=con.fn, paths=0, ok_paths=0, unsupported=kind, bounded=False, t=time.time() - t0, queries=0, solver_s=0, models=[], called={}, loops=[],
                    unreached=[], vacuous=None, clauses=[])


SHORT = dict(lenient=True, unroll=2, use_loops=False, short=True)


def _work(a):
    i, limit, end = a
    con = _W['cons'][i]
    left = lambda: int(end - time.time())
    if left() < 5:
        return dict(i=i, name=con.name, fn=con.fn, paths=0, ok_paths=0, unsupported='time limit of the check', bounded=False, t=0, queries=0, solver_s=0, models=[], called={}, loops=[],
                    unreached=[], vacuous=None, clauses=[])
    d = _attempt(i, con, min(limit, left()))
    if con.fn is None:
        return d
    why = d['unsupported'] or ('a clause without answer' if any(c['unknown'] for c in d['clauses']) else None)
    tries = [] if why is None else [dict(unroll=1), SHORT] if why == 'time limit' else [dict(lenient=True), dict(lenient=True, unroll=1, use_loops=False), SHORT]
    for kw in tries:
        # undecided: look for a refutation at least, on the paths within the verifier's reach that pass a loop at most once
        if any(c['refuted'] for c in d['clauses']) or left() < 20:
            break
        e = _attempt(i, con, min(limit, left()), **kw)
        if any(c['refuted'] for c in e['clauses']):
            e['unsupported'] = e['unsupported'] or why
            e['tried'] = kw
            return e
    return d


def known():
    p = os.path.join(ROOT, 'known-findings.json')
    return json.load(open(p)) if os.path.exists(p) else []


def main(argv):
    prop = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    thorough = tier == 'thorough'
    mirpath = build.mir()
    t_mir = time.time() - t0
    from contracts import registry
    P = Prog(mirpath)
    cons = registry.contracts(P, prop)
    if not cons:
        raise SystemExit('no contracts for ' + prop)
    limit = 600 if thorough else 200
    end = t0 + (840 if thorough else 660)
    res = []
    with Pool(min(8, max(1, len(cons))), _init, (mirpath, prop, 60000 if thorough else 20000)) as p:
        for d in p.imap_unordered(_work, [(i, limit, end) for i in range(len(cons))]):
            res.append(d)
    res.sort(key=lambda d: d['i'])
    return report(prop, tier, seed, P, cons, res, t0, t_mir)


def slug(s):
    return re.sub(r'[^A-Za-z0-9]+', '-', s)[:80].strip('-')


def report(prop, tier, seed, P, cons, res, t0, t_mir):
    kn = [k for k in known() if k['property'] == prop and k.get('status') == 'known']
    obl = dis = 0
    undecided, violations, knowns = [], [], []
    for d in res:
        for c in d['clauses']:
            n = c['discharged'] + c['refuted'] + c['unknown']
            obl += n
            dis += c['discharged']
            if c['status'] == 'refuted':
                k = next((k for k in kn if k['contract'] == d['name'] and k['clause'] == c['name']), None)
                if k:
                    knowns.append((k, d, c))
                else:
                    violations.append((d, c))
            elif c['status'] == 'unknown':
                undecided.append(dict(contract=d['name'], clause=c['name'], why='solver gave no answer'))
        for l in d['loops']:
            if l[2] == 'proved':
                obl += 1
                dis += 1
        if d['unsupported']:
            undecided.append(dict(contract=d['name'], clause=None, why=d['unsupported']))
        elif d['bounded']:
            undecided.append(dict(contract=d['name'], clause=None, why='a loop without contract was unrolled to a bound'))
        elif d['unreached'] or d['vacuous']:
            undecided.append(dict(contract=d['name'], clause=None, why='vacuity guard: %s not reachable' % (d['unreached'] or d['vacuous'])))
    for k, d, c in knowns:
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    if violations:
        os.makedirs(os.path.join(ROOT, 'replays'), exist_ok=True)
    seen = 0
    for d, c in violations:
        rp = os.path.join(ROOT, 'replays', '%s-%s.json' % (prop, slug(d['name'] + '-' + c['name'])))
        fn = P.fn(d['fn']) if d['fn'] else {}
        json.dump(dict(property=prop, failed_obligation=c['name'], contract=d['name'], function=d['fn'], file=fn.get('file'), line=fn.get('line'),
                       paths_refuted=c['refuted'], verifier='z3: the negation of the clause is satisfiable on a feasible path' + (' (a loop that no loop contract fits was unrolled; the refuted path is within the unrolling)' if d['bounded'] else ''), counterexample=c['model']), open(rp, 'w'), indent=1)
        if seen < 20:
            print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, rp))
        seen += 1
    for u in undecided[:20]:
        print('undecided: %s: %s %s' % (u['contract'], u['clause'] or '', str(u['why'])[:200]))
    fns = sorted(set(d['fn'] for d in res if d['fn']))
    under = {}
    models = set()
    for d in res:
        models.update(d['models'])
        for f in d['called']:
            under[f] = under.get(f, 0) + d['called'][f]
    ev = dict(property=prop, tier=tier, seed=seed, level='proof',
              coverage=dict(obligations=obl, discharged=dis, checker_cmd='./check %s %s' % (prop, tier), trusted_base=TRUSTED,
                            functions_under_contract=fns, contracts=[dict(name=d['name'], paths=d['paths'], clauses=len(d['clauses'])) for d in res],
                            functions_executed=len(under), clauses=sum(len(d['clauses']) for d in res), trivially_discharged=sum(c['trivial'] for d in res for c in d['clauses']),
                            loop_contracts=sorted(set('%s: %s' % (l[0], l[1]) for d in res for l in d['loops'] if l[2] == 'proved')),
                            back_end='z3', solver_queries=sum(d['queries'] for d in res), solver_s=round(sum(d['solver_s'] for d in res), 2), extraction_s=round(t_mir, 1),
                            dependency_contracts=sorted(models), undecided=undecided, known_findings=[k['what'] for k, _, _ in knowns]),
              assumptions=['contracts assumed on dependencies: see coverage.dependency_contracts', 'machine arithmetic: mathematical integers with the compiler\'s overflow checks as branch conditions (no wrap-around assumed)'],
              wall_s=round(time.time() - t0, 1), violations=seen)
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w'), indent=1)
    print('%s: %d contracts, %d obligations, %d discharged, %d undecided, %d violations, %.0fs' % (prop, len(res), obl, dis, len(undecided), seen, time.time() - t0))
    return 1 if seen else 0


if __name__ == '__main__':
    try:
        rc = main(sys.argv[1:])
    except build.BuildError as e:
        print('error:', e)
        rc = 2
    sys.exit(rc)
