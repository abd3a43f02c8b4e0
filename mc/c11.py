"""C11: the linear program has exactly the right variables and constraints."""
from itertools import combinations, product

import numpy as np

import alg
import ref
import scen
from c05 import S, TWO, BIL, TRI, problem

LEVEL = "exploration"
RULE = ("for each scenario of a family (<=3 parties, all hypergraphs and small visible graphs, settings and outcomes 1-3, copies 1-3, latents, "
        "classical LP and non-fanout LP of quantum problems) and with or without all outcomes / supports mode: the variables are exactly the orbits "
        "of compatible events (last outcomes left out where allowed), the inequalities exactly the probabilities of the maximal compatible "
        "events, each written out by inclusion-exclusion, the equalities span exactly normalisation of every event over every measurement, "
        "and the factorisation conditions relate each product to its factors. Non-trivial: programs with >= 4 variables")


def family(thorough):
    fam = []
    for m in (1, 2):
        for hs in scen.hypergraphs(2, m):
            for edges in scen.acyclic_edge_sets(2):
                for outs, sets in (([2, 2], [1, 2]), ([3, 2], [1, 1]), ([2, 2], [2, 2])):
                    for lev in ([1] * m, [2] + [1] * (m - 1), [2] * m):
                        for cl in ("all", []):
                            if cl == [] and (m == 2 and outs[0] == 3):
                                continue
                            fam.append(scen.make(hs, edges, outs, sets, lev, cl))
    for m in (1, 2):
        for hs in scen.hypergraphs(3, m):
            for edges in list(scen.acyclic_edge_sets(3, 2 if thorough else 1))[::1 if thorough or m == 1 else 2]:
                fam.append(scen.make(hs, edges, [2, 2, 2], [1, 1, 1], [1] * m, "all"))
                fam.append(scen.make(hs, edges, [2, 3, 2], [1, 1, 1], [1] * (m - 1) + [2], "all"))
                fam.append(scen.make(hs, edges, [2, 2, 2], [1, 2, 1], [1] * m, []))
    fam += [
        S(TRI, [2, 2, 2], [1, 1, 1], [1, 2, 2], "all"),
        S(TRI, [2, 2, 2], [1, 1, 1], [2, 2, 2], []),
        S(TRI, [2, 2, 2], [1, 1, 1], [1, 2, 2], ["s1"]),
        S(TRI, [2, 2, 2], [1, 1, 2], [1, 1, 2], ["s0"], order=["C", "A", "B"]),
        S(TWO, [2, 2], [1, 1], [3], "all"),
        S(TWO, [3, 3], [1, 1], [2], "all"),
        S(BIL, [2, 2, 2], [2, 1, 2], [1, 1], []),
        S(BIL, [2, 2, 2], [1, 1, 1], [2, 2], ["s0"]),
        S([["s0", ["L", "C"]], ["L", ["A", "B"]]], [2, 2, 2], [1, 1, 1], [2], nlat=["L"]),
        S([["s0", ["L", "C"]], ["s1", ["A", "B"]], ["L", ["A", "B"]]], [2, 2, 2], [1, 1, 1], [2, 1], clat=["L"]),
        S([["s0", ["L", "C"]], ["s1", ["A", "B"]], ["L", ["A", "B"]]], [2, 2, 2], [1, 1, 1], [1, 1], "all", clat=["L"]),
        S([["s0", ["A"]]], [3], [2], [2], "all"),
        S([["s0", ["A"]]], [2], [3], [1], []),
    ]
    return fam


FAM = {}


def fam(thorough):
    if thorough not in FAM:
        FAM[thorough] = family(thorough)
    return FAM[thorough]


def warmup():
    from inflation import InflationLP
    for sc in (S(TWO, [2, 2], [1, 1], [2], "all"), S(BIL + [["A", ["B"]]], [2, 2, 2], [1, 1, 1], [1, 1], "all")):
        lp = InflationLP(problem(sc))
        lp.moment_equalities, lp.moment_inequalities


def events_bound(r):
    n = 1.
    for p in range(r.n):
        copies = int(np.prod([r.levels[s] for s in r.feeds[p]]))
        n *= (r.outcomes[p] + 1.) ** (copies * len(r.eff[p]))
    return n


def model(A, every):
    """Variables, equalities and inequalities by definition."""
    r = A.r
    kids = [any(p in q for q in r.parents) for p in range(r.n)]
    full = [every or kids[p] for p in range(r.n)]
    meas = {}
    for i, o in enumerate(r.ops):
        meas.setdefault(o[:-1], []).append(i)
    ms = list(meas)
    ok = {(a, b): r.commute(r.ops[meas[a][0]], r.ops[meas[b][0]]) for a in ms for b in ms}
    cliques = [()]
    allc = [()]
    for t, a in enumerate(ms):
        new = [c + (a,) for c in allc if all(ok[a, b] for b in c)]
        allc += new
    aset = {frozenset(c) for c in allc}
    maximal = [c for c in allc if not any(m not in c and all(ok[m, x] for x in c) for m in ms)]

    def outs(m):
        return meas[m] if full[m[0] - 1] else meas[m][:-1]
    variables = set()
    for c in allc:
        for w in product(*[outs(m) for m in c]):
            variables.add(A.key(w))

    def expand(w):
        """Expression of the event in terms of the variables: the last outcome
        of a limited measurement is 1 - the others."""
        terms = {(): 1}
        for i in w:
            o = r.ops[i]
            m = meas[o[:-1]]
            new = {}
            for t, c in terms.items():
                if full[o[0] - 1] or i != m[-1]:
                    new[t + (i,)] = new.get(t + (i,), 0) + c
                else:
                    new[t] = new.get(t, 0) + c
                    for j in m[:-1]:
                        new[t + (j,)] = new.get(t + (j,), 0) - c
            terms = new
        out = {}
        for t, c in terms.items():
            k = A.key(t)
            out[k] = out.get(k, 0) + c
        return {k: c for k, c in out.items() if c}
    ineqs = {frozenset(expand(w).items()) for c in maximal for w in product(*[meas[m] for m in c])}
    eqs = set()
    for c in allc:
        for j, m in enumerate(c):
            if not full[m[0] - 1]:
                continue
            rest = c[:j] + c[j + 1:]
            for w in product(*[outs(x) for x in rest]):
                d = {A.key(w): 1}
                for i in meas[m]:
                    k = A.key(w + (i,))
                    d[k] = d.get(k, 0) - 1
                eqs.add(frozenset((k, v) for k, v in d.items() if v))
    return variables, ineqs, eqs


def t_case(task, rep):
    from inflation import InflationLP
    sc = fam(task["thorough"])[task["case"]]
    A = alg.Algebra(sc)
    if events_bound(A.r) > task["cap"]:
        return
    p = problem(sc)
    quantum = bool(p._default_notcomm.any()) or sc["classical"] != "all"
    modes = [(False, False), (True, False), (False, True)]
    for every, supports in modes:
        if supports and events_bound(A.r) > 300:
            continue
        what = f"scenario {task['case']} {sc} all_outcomes={every} supports={supports}"
        lp = InflationLP(p, nonfanout=quantum, include_all_outcomes=every, supports_problem=supports)
        variables, ineqs, eqs = model(A, every or supports)
        ident = {}
        for m in lp.monomials:
            fs = [tuple(int(x) for x in f.as_lexmon) for f in m.factors if len(f.as_lexmon)]
            ident[m] = tuple(sorted(A.atom(f) for f in fs))
        rep.add("evaluations")
        if not rep.ok(len(set(ident.values())) == len(lp.monomials) and set(ident.values()) == variables, "variables",
                      lambda: f"{what}: {len(lp.monomials)} variables {len(set(ident.values()))} different, should be {len(variables)}; "
                              f"missing {list(variables - set(ident.values()))[:2]}, extra {list(set(ident.values()) - variables)[:2]}"):
            continue

        def rows(dicts):
            out = []
            for d in dicts:
                e = {}
                for m, c in d.items():
                    if c:
                        e[ident[m]] = e.get(ident[m], 0) + int(c)
                out.append(frozenset((k, v) for k, v in e.items() if v))
            return out
        gi = {x for x in rows(lp.moment_inequalities) if x}
        mi = {x for x in ineqs if x}
        rep.add("evaluations", len(mi))
        rep.ok(gi == mi, "inequalities", lambda: f"{what}: {len(gi)} different inequalities, should be {len(mi)}; "
               f"missing {[dict(x) for x in list(mi - gi)[:2]]}, extra {[dict(x) for x in list(gi - mi)[:2]]}")
        ge = {x for x in rows(lp.moment_equalities) if x}
        me = {x for x in eqs if x}
        pos = {k: i for i, k in enumerate(sorted(variables, key=repr))}

        def mat(rs):
            M = np.zeros((len(rs), len(pos)))
            for i, d in enumerate(rs):
                for k, v in d:
                    M[i, pos[k]] = v
            return M
        rk = lambda M: int(np.linalg.matrix_rank(M)) if M.size else 0
        if len(pos) <= 700:
            G, M = mat(sorted(ge, key=repr)), mat(sorted(me, key=repr))
            a, b, c = rk(G), rk(M), rk(np.vstack([G, M]))
            rep.add("evaluations")
            rep.ok(c == b, "unsound equality", lambda: f"{what}: equalities that do not follow from normalisation (rank {b} -> {c})")
            rep.ok(c == a, "missing equality", lambda: f"{what}: normalisation implies {c} independent equalities, only {a} are imposed")
        # factorisation conditions
        for m, fs in lp.factorization_conditions.items():
            rep.ok(sum([list(ident[f]) for f in fs], []) and tuple(sorted(sum([list(ident[f]) for f in fs], []))) == ident[m]
                   and all(len(ident[f]) == 1 for f in fs), "factorisation", lambda: f"{what}: {m} is said to factorise as {fs}")
        rep.ok({m for m in lp.factorization_conditions} == {m for m in lp.monomials if len(ident[m]) > 1}, "factorisation",
               lambda: f"{what}: the moments with factorisation conditions are not the products")
        rep.ok(set(lp.quadratic_factorization_conditions) == set(lp.factorization_conditions), "factorisation",
               lambda: f"{what}: quadratic factorisation conditions are not given for all the products")
        for m, (f, g) in lp.quadratic_factorization_conditions.items():
            rep.ok(tuple(sorted(ident.get(f, ()) + ident.get(g, ()))) == ident[m] and ident.get(f) and ident.get(g), "factorisation",
                   lambda: f"{what}: {m} is said to be {f} times {g}")
        if len(variables) >= 4:
            rep.state((sc, every, supports))
    rep.sample({"scenario": sc, "variables": len(variables), "inequalities": len(mi), "equalities": len(me)} if "mi" in dir() else {"scenario": sc})


def plan(thorough):
    yield t_case, [dict(case=i, thorough=thorough, cap=4000 if thorough else 300) for i in range(len(fam(thorough)))]
