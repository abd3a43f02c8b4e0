"""C17: what the LP solver interface returns is the solution of the program it was given."""
import warnings
from itertools import combinations, product

import numpy as np
from scipy.optimize import linprog
from scipy.sparse import coo_array

import fakelp

LEVEL = "exploration"
RULE = ("linear programs over {1, x, y}: (a) objectives with coefficients in {-1,0,1} and constants in {0,-2} x all sets of at most 1 of 6 "
        "inequality rows (empty row included; sets of 2 with two of the objectives in the quick mode, and all sets of at most 3 in the thorough one) x 3 equality blocks x 3 sets of known values x implicit positivity on/off; (b) all "
        "combinations of 3 lower bounds and 3 upper bounds per variable (negative and contradictory ones included) x rows x known values x positivity; "
        "(c) feasibility as optimization relaxing known values, inequalities or both; (d) semiknown variables, and dictionary, sparse and mixed "
        "forms of the input with arguments left out; each in the primal and the dual form: the returned value, status, "
        "solution and certificate are those of the program, solved independently. Non-trivial: feasible, bounded and with at least one constraint")
ASSUMPTIONS = ["MOSEK has no licence here: Task.optimize and the solution getters are replaced by HiGHS acting on the task built by the library, with MOSEK's sign conventions"]
V = ["1", "x", "y"]
N = len(V)
INEQ = [{"x": 1, "1": -1}, {"x": -1, "1": 2}, {"x": -1, "y": -1, "1": 3}, {"x": 1, "y": -1}, {"y": 1}, {}]
EQ = [[], [{"x": 1, "y": 2, "1": -2}], [{}, {"x": 1, "y": -1}, {"x": 2, "y": -2}]]
KNOWN = [{"1": 1}, {"1": 1, "y": .5}, {"1": 1, "x": 1, "y": 0}]
OBJ = [{k: v for k, v in zip(V, t) if v} for t in product((0, -2), (-1, 0, 1), (-1, 0, 1))]
TOL = 1e-6


def rows(dicts):
    return np.array([[d.get(v, 0) for v in V] for d in dicts], dtype=float).reshape(-1, N)


_cache = {}


def reference(p):
    key = repr([p[k] for k in ("objective", "inequalities", "equalities", "known", "semiknown", "lo", "up", "dnn", "rk", "ri")])
    if key not in _cache:
        _cache[key] = solve(p)
    return _cache[key]


def solve(p):
    """Value of max c.v in words: positivity (if on and not replaced by an
    explicit lower bound), bounds, rows >= 0, rows = 0, known values."""
    relax = p["rk"] or p["ri"]
    c = rows([p["objective"]])[0]
    A, E = rows(p["inequalities"]), rows(p["equalities"])
    S = rows([{x: 1, y: -k} for x, (k, y) in p["semiknown"].items()])
    lo = np.full(N, 0. if p["dnn"] and not relax else -np.inf)
    up = np.full(N, np.inf)
    for k, v in p["lo"].items():
        lo[V.index(k)] = v
    for k, v in p["up"].items():
        up[V.index(k)] = v
    K = np.array([[v == k for v in V] for k in p["known"]], dtype=float).reshape(-1, N)
    kv = np.array(list(p["known"].values()), dtype=float)
    if np.any(lo > up):
        return "infeasible", None
    Aub, bub, Aeq, beq = -A, np.zeros(len(A)), np.vstack([E, S]), np.zeros(len(E) + len(S))
    obj = -c
    bnds = list(zip(lo, up))
    if relax:
        lam = np.ones((len(A), 1)) if p["ri"] else np.zeros((len(A), 1))
        Aub = np.hstack([-A, -lam])
        Aeq = np.hstack([Aeq, np.zeros((len(Aeq), 1))])
        if p["rk"]:
            one = np.ones((len(K), 1))
            Aub = np.vstack([Aub, np.hstack([-K, -one]), np.hstack([K, -one])])
            bub = np.hstack([bub, -kv, kv])
        obj = np.zeros(N + 1)
        obj[-1] = 1
        bnds = bnds + [(None, None)]
    if not p["rk"]:
        Aeq = np.vstack([Aeq, np.hstack([K, np.zeros((len(K), 1))]) if relax else K])
        beq = np.hstack([beq, kv])
    z = lambda M, b: (M, b) if len(M) else (None, None)
    for opt in ({}, dict(presolve=False)):
        r = linprog(obj, *z(Aub, bub), *z(Aeq, beq), bounds=bnds, method="highs", options=opt)
        if r.status != 4:
            break
    return {0: "optimal", 2: "infeasible", 3: "unbounded"}[r.status], (-r.fun if r.status == 0 else None)


def lowest(p, cert):
    """Minimum of cert.v over the program with the known values (except that of
    1) released; None if there is no such point."""
    A, E = rows(p["inequalities"]), rows(p["equalities"])
    S = rows([{x: 1, y: -k} for x, (k, y) in p["semiknown"].items()])
    lo = np.full(N, 0. if p["dnn"] else -np.inf)
    up = np.full(N, np.inf)
    for k, v in p["lo"].items():
        lo[V.index(k)] = v
    for k, v in p["up"].items():
        up[V.index(k)] = v
    if np.any(lo > up):
        return None
    one = rows([{"1": 1}]) if "1" in p["known"] else np.zeros((0, N))
    Aeq, beq = np.vstack([E, S, one]), np.hstack([np.zeros(len(E) + len(S)), np.ones(len(one))])
    z = lambda M, b: (M, b) if len(M) else (None, None)
    c = rows([cert])[0]
    for opt in ({}, dict(presolve=False)):
        r = linprog(c, *z(-A, np.zeros(len(A))), *z(Aeq, beq), bounds=list(zip(lo, up)), method="highs", options=opt)
        if r.status != 4:
            break
    return r.fun if r.status == 0 else None if r.status == 2 else -np.inf


def sparse(v):
    one = isinstance(v, dict)
    M = rows([v] if one else v)
    if one:     # only the entries that are given, zeros included
        col = [V.index(k) for k in v]
        return coo_array((list(v.values()), ([0] * len(col), col)), shape=(1, N))
    return coo_array(M)


def call(p):
    from inflation.lp.lp_utils import solveLP, solveLP_sparse
    a = dict(objective=p["objective"], known_vars=p["known"], inequalities=p["inequalities"], equalities=p["equalities"])
    if p["lo"] or p["form"] == "full":
        a["lower_bounds"] = p["lo"]
    if p["up"] or p["form"] == "full":
        a["upper_bounds"] = p["up"]
    form = p["form"]
    f = solveLP
    if form in ("short", "shortsparse"):
        a = {k: v for k, v in a.items() if v}
    if p["semiknown"]:
        a["semiknown_vars"] = p["semiknown"]
    a["variables"] = V
    if form == "infer":
        del a["variables"]
    if form in ("sparse", "mixed", "shortsparse"):
        take = list(a)[::2] if form == "mixed" else list(a)
        for k in take:
            if k not in ("variables", "semiknown_vars"):
                a[k] = sparse(a[k])
        f = solveLP if form == "mixed" or p["semiknown"] or p["dnn"] else solveLP_sparse
    with warnings.catch_warnings(), fakelp.Patch():
        warnings.simplefilter("ignore")
        before = {k: v.toarray().tolist() for k, v in a.items() if form != "dict" and hasattr(v, "toarray")}
        r = f(**a, default_non_negative=p["dnn"], relax_known_vars=p["rk"], relax_inequalities=p["ri"], solve_dual=p["dual"])
        after = {k: a[k].toarray().tolist() for k in before}
    return r, before, after


def check(p, rep, certificate=True):
    rep.add("evaluations")
    status, value = reference(p)
    r, before, after = call(p)
    ok = rep.ok
    key = p["form"]
    say = lambda what: lambda: f"{what}\nprogram {p}\nexpected {status} {value}\nreturned " + str({k: r[k] for k in ("status", "success", "primal_value", "dual_value", "x", "dual_certificate")})
    ok(before == after, f"input:{key}", say("the arguments given were modified"))
    ok(r["success"] == (status == "optimal"), f"status:{key}", say("wrong status"))
    unb = "dual_infeas_cer" if not p["dual"] else "prim_infeas_cer"
    inf = "prim_infeas_cer" if not p["dual"] else "dual_infeas_cer"
    st = r["status"].replace("solsta.", "")
    good = {"optimal": {"optimal"}, "infeasible": {inf, unb}, "unbounded": {unb, inf}}[status]
    ok(st in good, f"status:{key}", say("wrong status"))
    cert = {str(k): float(v) for k, v in r["dual_certificate"].items()}
    relax = p["rk"] or p["ri"]
    if status == "optimal" and r["success"]:
        ok(abs(r["primal_value"] - value) < TOL and abs(r["dual_value"] - value) < TOL, f"value:{key}", say("wrong value"))
        x = {k: float(v) for k, v in r["x"].items()}
        ok(set(x) >= ({k for q in p["inequalities"] + p["equalities"] + [p["objective"], p["known"]] for k in q}), f"x:{key}", say("solution incomplete"))
        v = np.array([x.get(k, 0.) for k in V])
        lam = -value if relax else 0.
        bad = []
        if not relax and abs(sum(p["objective"].get(k, 0) * v[i] for i, k in enumerate(V)) - value) > TOL:
            bad.append("objective")
        if np.any(rows(p["inequalities"]) @ v < -TOL - (lam if p["ri"] else 0)):
            bad.append("inequalities")
        if np.any(np.abs(rows(p["equalities"]) @ v) > TOL) or any(abs(x[a] - c * x[b]) > TOL for a, (c, b) in p["semiknown"].items()):
            bad.append("equalities")
        if any(abs(x[k] - w) > TOL + (lam if p["rk"] else 0) for k, w in p["known"].items()):
            bad.append("known values")
        if any(x.get(k, 0) < w - TOL for k, w in p["lo"].items()) or any(x.get(k, 0) > w + TOL for k, w in p["up"].items()):
            bad.append("bounds")
        if p["dnn"] and not relax and any(x[k] < -TOL for k in x if k not in p["lo"]):
            bad.append("positivity")
        ok(not bad, f"x:{key}", say(f"the returned solution violates {bad}"))
        if p["inequalities"] or p["equalities"]:
            rep.state((p, status))
    if not certificate or status == "unbounded":
        return
    low = lowest(p, cert)
    ok(low is None or low > -TOL, p.get("certkey", f"certificate:{key}"), say(f"the certificate is negative ({low}) at a point that satisfies the constraints"))
    if status == "infeasible" and st != inf:
        pass        # neither the program nor its dual have solutions
    elif status == "infeasible" and not set(p["lo"]) | set(p["up"]):
        at = sum(c * p["known"].get(k, 0) for k, c in cert.items())
        ok(at < -1e-9 and set(cert) <= set(p["known"]), f"certificate:{key}", say(f"the certificate does not detect the infeasible values ({at})"))
    elif status == "optimal" and not set(p["lo"]) | set(p["up"]) and not relax:
        at = sum(c * x[k] for k, c in cert.items())
        ok(abs(at) < TOL, f"certificate:{key}", say(f"the certificate is not tight at the optimum ({at})"))
    elif status == "optimal" and p["rk"] and not set(p["lo"]) | set(p["up"]):
        at = sum(c * p["known"].get(k, 0) for k, c in cert.items())
        ok((at < -1e-9) == (value < -1e-9), f"certificate:{key}", say(f"the certificate takes the value {at} on the given values"))


def prog(**k):
    return {**dict(objective={}, inequalities=[], equalities=[], known={"1": 1}, semiknown={}, lo={}, up={}, dnn=True, dual=False,
                   rk=False, ri=False, form="dict"), **k}


def sets(menu, n):
    return [list(c) for r in range(n + 1) for c in combinations(menu, r)]


def core(task, rep):
    for i, (A, E, K, d, m) in enumerate(product(sets(INEQ, task["n"]), EQ, KNOWN, (True, False), (True, False))):
        for o in (OBJ[task["part"]::9] if len(A) <= task["full"] else [OBJ[task["part"]]] if task["part"] in (2, 6) else []):
            check(prog(objective=o, inequalities=A, equalities=E, known=K, dnn=d, dual=m), rep)
    rep.sample(dict(kind="core", objectives=OBJ[task["part"]::9]))


LO = [None, -1, .5]
UP = [None, 1.5, -.5]


def bounded(task, rep):
    b = lambda x, y: {k: v for k, v in (("x", x), ("y", y)) if v is not None}
    objs = OBJ[:9] if task["all"] else [OBJ[2], OBJ[5], OBJ[6]]
    for lx, ly, ux, uy in product([LO[task["lx"]]], LO, UP, UP):
        for o, A, E, K in product(objs, ([], [INEQ[3], INEQ[1]]), EQ[:2], KNOWN[:2]):
            check(prog(objective=o, inequalities=A, equalities=E, known=K, lo=b(lx, ly), up=b(ux, uy), dnn=task["dnn"], dual=task["dual"]), rep, certificate=False)


def relaxed(task, rep):
    for A, E, K, lo, d, m in product(sets(INEQ[:5], task["n"]), EQ, KNOWN + [{"1": 1, "x": -1}, {"1": 1, "x": 1, "y": 2}], ({}, {"x": 0}, {"x": 0, "y": -1}), (True, False) if task["n"] > 1 else (True,), (True, False)):
        check(prog(inequalities=A, equalities=E, known=K, lo=lo, dnn=d, dual=m, rk=task["rk"], ri=task["ri"]), rep, certificate=not lo)


SEMI = [{}, {"x": (.5, "y")}, {"y": (2, "x")}, {"x": (1, "y"), "y": (1, "x")}]


def forms(task, rep):
    f = task["form"]
    for s, A, E, K, o, m, d in product([SEMI[task["semi"]]], sets(INEQ if task["all"] else INEQ[1::2], 1), EQ, KNOWN + [{"1": 1, "y": 0}] + ([{}] if f != "infer" else []),
                                       [OBJ[4], OBJ[2], OBJ[17]][:3 if task["all"] else 2], (True, False), (True, False)):
        check(prog(objective=o, inequalities=A, equalities=E, known=K, semiknown=s, dual=m, dnn=d, form=f), rep)
        if d and f in ("full", "sparse", "mixed"):
            check(prog(objective=o, inequalities=A, equalities=E, known=K, semiknown=s, dual=m, dnn=d, form=f, lo={"x": .25}, up={"y": 1}), rep, certificate=False)


def bounds_in_certificate(task, rep):
    """Certificates of programs with user bounds (known finding, see DESIGN.md)."""
    for i, (lo, up) in enumerate([({}, {"x": 1}), ({"x": -1}, {})]):
        for m in (True, False):
            check(prog(objective={"x": 1} if up else {"x": -1}, inequalities=[INEQ[4]], lo=lo, up=up, dnn=bool(up), dual=m, certkey=f"certificate-omits-bound:{i}:{m}"), rep)


def warmup():
    call(prog(objective={"x": 1}, inequalities=[INEQ[1]]))


def plan(thorough):
    yield core, [dict(part=i, n=3 if thorough else 2, full=3 if thorough else 1) for i in range(9)]
    yield bounded, [dict(lx=x, dnn=d, dual=m, all=thorough) for x in range(3) for d in (True, False) for m in (True, False)]
    yield relaxed, [dict(rk=a, ri=b, n=2 if thorough else 1) for a, b in ((True, False), (False, True), (True, True))]
    yield forms, [dict(form=f, semi=s, all=thorough) for f in ("dict", "sparse", "mixed", "infer", "short", "full", "shortsparse") for s in range(4)
                 if s == 0 or f in ("dict", "mixed", "infer", "short")]
    yield bounds_in_certificate, [{}]
