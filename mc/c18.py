"""C18: what the SDP solver interface returns is the solution of the program it was given."""
from itertools import combinations, product

import numpy as np
from scipy.sparse import lil_matrix

import conic
import fakesdp

LEVEL = "exploration"
RULE = ("semidefinite programs with 6 matrix layouts (none, 2x2, 3x3, weighted entries) over {1,a,b,c} and a variable d outside the matrix x objectives "
        "(with constants and known variables) x sets of at most 1 of 6 inequality rows x 3 equality blocks x 4 sets of known values x 7 sets of "
        "proportionality constraints (towards known variables, chains and variables that appear nowhere else included) x elimination on/off x "
        "feasibility as optimization on/off x non-negative variables on/off (sub-products listed in plan()), in the primal and the dual form: value, status, variable "
        "values, matrix, multipliers and certificate are those of the program, solved independently; the certificate bounds the program "
        "for every other assignment of the known values in the menu. Non-trivial: a matrix and at least one constraint or objective")
ASSUMPTIONS = ["MOSEK has no licence here: Task.optimize and the solution getters are replaced by a cone solver acting on the task built by "
               "Fusion, with MOSEK's sign conventions; its answers carry their own optimality certificate"]
TOL = 2e-5
LAYOUT = {
    "none": [],
    "two": ["1 a", "a 1"],
    "free": ["1 a", "a b"],
    "three": ["1 a b", "a 1 c", "b c 1"],
    "proj": ["1 a b", "a a c", "b c b"],
    "known": ["a b", "b a"],
}
WEIGHT = {("known", "b"): .5}
INEQ = [{"a": 1, "1": -.25}, {"b": -1, "1": .5}, {"a": 1, "b": -1, "d": 1}, {"c": 2, "a": -1, "1": .75}, {"d": 1, "1": 1}, {"1": 1, "a": 1}]
EQ = [[], [{"a": 1, "c": -1}], [{"a": 1, "b": 2, "1": -1}, {"d": 1, "a": -1}]]
KNOWN = [{"1": 1}, {"1": 1, "a": .5}, {"1": 1, "a": -.25, "c": .1}, {"1": 1, "b": 0.4}]
SEMI = [{}, {"c": (.5, "a")}, {"b": (.5, "a"), "c": (.25, "a")}, {"c": (.5, "b"), "b": (.8, "a")}, {"b": (.8, "a"), "c": (.5, "b")}, {"e": (.5, "a")}, {"a": (.5, "d")}]
OBJ = [{}, {"a": 1}, {"b": 1, "c": -1, "1": -2}, {"a": -1, "b": -.5, "1": .5}, {"c": 1, "a": 2}, {"d": -1, "a": 1}]


def masks(name, weights=True):
    out = {}
    rows = [r.split() for r in LAYOUT[name]]
    for i, r in enumerate(rows):
        for j, v in enumerate(r):
            out.setdefault(v, np.zeros((len(rows),) * 2))[i, j] += WEIGHT.get((name, v), 1.)
    return out


def program(p):
    """Free variables, objective (vector, constant), pencil and rows of the
    program, with known variables substituted."""
    F = masks(p["layout"])
    known = p["known"]
    names = set(F) | set(p["objective"]) | {k for q in p["inequalities"] + p["equalities"] for k in q}
    for x, (c, y) in p["semiknown"].items():
        names |= {x, y}
    free = sorted(names - set(known))
    n = len(free)
    ix = {k: i for i, k in enumerate(free)}

    def row(d):
        v, c = np.zeros(n), 0.
        for k, w in d.items():
            if k in ix:
                v[ix[k]] += w
            else:
                c += w * known[k]
        return v, c
    size = len(LAYOUT[p["layout"]])
    F0 = sum((known[k] * M for k, M in F.items() if k in known), np.zeros((size, size)))
    Fx = [F.get(k, np.zeros((size, size))) for k in free]
    eq = [row(e) for e in p["equalities"]] + [row({x: 1, y: -c}) if x != y else row({x: 1 - c}) for x, (c, y) in p["semiknown"].items()]
    ineq = [row(e) for e in p["inequalities"]]
    if p["nonneg"]:
        ineq += [(v, 0.) for v in np.eye(n)]
    return free, row(p["objective"]), F0, Fx, ineq, eq


_cache = {}


def reference(p):
    key = repr([p[k] for k in ("layout", "objective", "inequalities", "equalities", "known", "semiknown", "feas", "nonneg")])
    if key in _cache:
        return _cache[key]
    free, (c, c0), F0, Fx, ineq, eq = program(p)
    n, size = len(free), len(F0)
    feas = p["feas"] and size > 0
    if feas:
        c, c0 = np.zeros(n + 1), 0.
        c[-1] = 1
        Fx = Fx + [-np.eye(size)]
        ineq = [(np.append(v, 0), w) for v, w in ineq]
        eq = [(np.append(v, 0), w) for v, w in eq]
        n += 1
    G = [-v for v, w in ineq]
    h = [w for v, w in ineq]
    l = len(h)
    if size and n:
        G += list(-np.array([conic.svec(M) for M in Fx]).reshape(n, -1).T)
        h += list(conic.svec(F0))
    if n == 0:
        ok = all(w >= -1e-9 for w in h[:l]) and all(abs(w) < 1e-9 for v, w in eq) and (not size or np.linalg.eigvalsh(F0)[0] > -1e-9)
        out = ("optimal", c0) if ok else ("infeasible", None)
    else:
        r = conic.conelp(-c, np.array(G).reshape(-1, n), np.array(h), np.array([v for v, w in eq]).reshape(-1, n), -np.array([w for v, w in eq], dtype=float), l, [size] if size else [])
        out = {"optimal": "optimal", "primal infeasible": "infeasible", "dual infeasible": "unbounded", "unknown": "unknown"}[r["status"]], (c0 - r["pobj"] if r["status"] == "optimal" else None)
    _cache[key] = out
    return out


def call(p):
    from inflation.sdp.sdp_utils import solveSDP_MosekFUSION
    a = dict(mask_matrices={k: lil_matrix(M) for k, M in masks(p["layout"]).items()}, objective=p["objective"], known_vars=p["known"],
             semiknown_vars=p["semiknown"], inequalities=p["inequalities"], equalities=p["equalities"])
    if p["short"]:
        a = {k: v for k, v in a.items() if v}
    before = repr({k: {x: M.toarray() for x, M in v.items()} if k == "mask_matrices" else v for k, v in a.items()})
    with fakesdp.Patch() as patch:
        r = solveSDP_MosekFUSION(**a, solve_dual=p["dual"], feas_as_optim=p["feas"], process_constraints=p["process"], default_non_negative=p["nonneg"])
        sure = patch.tasks[0].solsta
    after = repr({k: {x: M.toarray() for x, M in v.items()} if k == "mask_matrices" else v for k, v in a.items()})
    return r, before == after, str(sure)


def dense(M):
    return np.asarray(M.todense() if hasattr(M, "todense") else M, dtype=float)


def check(p, rep):
    rep.add("evaluations")
    status, value = reference(p)
    if status == "unknown":
        rep.add("undecided")
        return
    r, same, sure = call(p)
    if "unknown" in sure:
        rep.add("undecided")
        return
    ok = rep.ok
    say = lambda what: lambda: f"{what}\nprogram {p}\nexpected {status} {value}\nreturned " + str({k: v for k, v in r.items()})
    tag = "dual" if p["dual"] else "primal"
    ok(same, f"input:{tag}", say("the arguments given were modified"))
    if status != "optimal":
        ok(r["status"] != "feasible", f"status:{tag}", say("a program without solution is reported as solved"))
        if status == "infeasible":
            if not ok(r["status"] == "infeasible", f"status:{tag}", say("an infeasible program is not reported as such")):
                return
    elif not ok(r["status"] == "feasible", f"status:{tag}", say("a feasible program is not solved")):
        return
    feas = p["feas"] and LAYOUT[p["layout"]]
    if status == "optimal":
        ok(abs(r["primal_value"] - value) < TOL and abs(r["dual_value"] - value) < TOL, f"value:{tag}", say("wrong value"))
        free, (c, c0), F0, Fx, ineq, eq = program(p)
        x = {k: float(v) for k, v in r["x"].items()}
        # eliminated variables follow from the ones they are proportional to
        for _ in range(3):
            for k, (w, y) in p["semiknown"].items():
                if p["process"] and k not in x and k not in p["known"] and (y in x or y in p["known"]):
                    x[k] = w * x.get(y, p["known"].get(y, 0))
        if ok(set(free) <= set(x), f"x:{tag}", say("values missing")):
            v = np.array([x[k] for k in free])
            lam = value if feas else 0.
            bad = []
            if any(u @ v + w < -TOL for u, w in ineq):
                bad.append("inequalities")
            if any(abs(u @ v + w) > TOL for u, w in eq):
                bad.append("equalities")
            if len(F0):
                M = F0 + sum((w * X for w, X in zip(v, Fx)), 0 * F0)
                if np.linalg.eigvalsh(M)[0] < lam - TOL:
                    bad.append("positivity")
                F = dense(r["F"])
                if F.shape != M.shape or np.abs(F - (M - lam * np.eye(len(M)) if feas else M)).max() > TOL * (1 + np.abs(M).max()):
                    bad.append("F is not the matrix of the solution")
                Z = dense(r["Z"])
                if Z.shape != M.shape or np.linalg.eigvalsh((Z + Z.T) / 2)[0] < -TOL:
                    bad.append("Z not positive semidefinite")
                elif abs(np.sum(Z * (M - lam * np.eye(len(M))))) > 10 * TOL:
                    bad.append("Z not complementary to the matrix")
            if not feas and abs(c @ v + c0 - value) > TOL:
                bad.append("objective")
            ok(not bad, f"x:{tag}", say(f"the returned solution is wrong: {bad}"))
        if len(F0) and (p["objective"] or ineq or eq):
            rep.state(sorted(p.items(), key=str))
    if status == "unbounded":
        return
    cert = {str(k): float(v) for k, v in r["dual_certificate"].items()}
    at = lambda known: sum(w * known[k] for k, w in cert.items())
    if not ok(set(cert) <= set(p["known"]), f"certificate:{tag}", say("certificate on variables that are not known")):
        return
    if status == "optimal":
        ok(abs(at(p["known"]) - value) < TOL, f"certificate:{tag}", say(f"the certificate takes the value {at(p['known'])} on the given values"))
    elif p["objective"] and not feas and "prim_infeas" in sure and p["dual"]:
        rep.add("no_certificate")       # the dual is infeasible as well, and that is what was certified
        return
    else:
        ok(at(p["known"]) < 0, f"certificate:{tag}", say(f"the certificate of infeasibility takes the value {at(p['known'])} on the given values"))
    norm = max(1., sum(map(abs, cert.values())))
    for d in p["others"]:
        q = {**p, "known": {**p["known"], **{k: w for k, w in zip([k for k in p["known"] if k != "1"], d)}}}
        if q["known"] == p["known"]:
            continue
        s2, v2 = reference(q)
        rep.add("certificates_applied")
        if s2 == "optimal":
            low = v2 if status == "optimal" else 0.
            ok(at(q["known"]) > low - TOL * norm * 5, f"certificate:{tag}", say(f"at the values {q['known']}, where the program is feasible with value {v2}, the certificate is {at(q['known'])}"))


def prog(**k):
    return {**dict(layout="three", objective={}, inequalities=[], equalities=[], known={"1": 1}, semiknown={}, dual=True, feas=False, process=True,
                   short=False, nonneg=False, others=OTHERS), **k}


OTHERS = [(.9, .3), (-.9, -.9), (0, 0), (.2, -.1)]
MODES = list(product((True, False), (True, False)))


def sets(menu, n):
    return [list(c) for r in range(n + 1) for c in combinations(menu, r)]


def core(task, rep):
    """Objective, rows and known values, without proportionality constraints."""
    for o, A, E, K, d in product(OBJ, sets(INEQ, task["n"]), EQ, KNOWN, (True, False)):
        p = prog(layout=task["layout"], objective=o, inequalities=A, equalities=E, known=K, dual=d)
        if len(A) > 1 and (o not in (OBJ[0], OBJ[2]) or E) or A and task["n"] < 2 and OBJ.index(o) in (1, 3):
            continue
        if task["part"] == KNOWN.index(K):
            check(p, rep)
    rep.sample(dict(kind="core", **task))


def feasibility(task, rep):
    for A, E, K, o, d in product(sets(INEQ if task["all"] else INEQ[:3], 1), EQ, KNOWN + [{"1": 1, "a": 1.5}, {"1": 1, "a": .9, "b": -.9}], (OBJ[0], {"1": 2}), (True, False)):
        if (KNOWN.index(K) if K in KNOWN else 4) != task["part"] or o and A:
            continue
        check(prog(layout=task["layout"], inequalities=A, equalities=E, known=K, objective=o, feas=True, dual=d), rep)
        if not o:
            check(prog(layout=task["layout"], inequalities=A, equalities=E, known=K, dual=d), rep)


def proportional(task, rep):
    S = SEMI[task["semi"]]
    for o, A, E, K, pr, d, f in product((OBJ[0], OBJ[2], OBJ[4]), sets(INEQ[1:4] if task["all"] else INEQ[1:5:2], 1), EQ[:2], KNOWN, (True, False), (True, False), (False, True)):
        if set(S) & set(K) or f and o or A and bool(E) != (A[0] == INEQ[3]) and not task["all"]:
            continue
        check(prog(layout=task["layout"], objective=o, inequalities=A, equalities=E, known=K, semiknown=S, process=pr, dual=d, feas=f), rep)


def short(task, rep):
    for o, A, K, d in product(OBJ[:3], sets(INEQ[:3], 1), KNOWN[:2], (True, False)):
        check(prog(layout=task["layout"], objective=o, inequalities=A, known=K, dual=d, short=True), rep)


def nonneg(task, rep):
    for o, A, K, E, d in product(OBJ, sets(INEQ[1:3], 1), KNOWN, EQ[:2], (True, False)):
        if bool(A) == bool(E):
            check(prog(layout=task["layout"], objective=o, inequalities=A, known=K, equalities=E, dual=d, nonneg=True), rep)


def warmup():
    with fakesdp.Patch():
        call(prog(objective={"a": 1}))


def plan(thorough):
    lay = list(LAYOUT)
    yield core, [dict(layout=l, part=k, n=2 if thorough else 1) for l in lay for k in range(len(KNOWN))]
    yield feasibility, [dict(layout=l, part=k, all=thorough) for l in lay for k in range(5)]
    yield proportional, [dict(layout=l, semi=s, all=thorough) for l in (lay if thorough else ["three", "proj", "none"]) for s in range(len(SEMI))]
    yield short, [dict(layout=l) for l in lay]
    yield nonneg, [dict(layout=l) for l in lay]
