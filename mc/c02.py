"""C02: which operators of the inflated scenario commute."""
from itertools import combinations, product

import numpy as np

import ref
import scen

LEVEL = "exploration"
RULE = ("every scenario with <=3 parties, <=2 sources (thorough: 3), all source hypergraphs, all "
        "classical/quantum patterns, all copy numbers in {1,2} (and {3} for one source), settings "
        "{1,2}, party edge sets with <=1 edge, and every layout of <=2 intermediate latents (all "
        "non-empty parent and child sets, quantum or classical); every ordered pair of operators is compared with the rule "
        "'operators commute unless they touch a common copy of a quantum source', for a menu also the list of commutators given to the user. Non-trivial: "
        "the commutation matrix is neither all-commuting nor distinct operators all non-commuting")


def warmup():
    from inflation import InflationProblem
    p = InflationProblem({"s": ["A", "B"]}, (2, 2), (1, 1), (2,))
    p.all_and_maximal_compatible_templates()
    InflationProblem({"s": ["A", "B"]}, (2, 2), (1, 1), (2,), classical_sources="all")


def check_comm(sc, rep):
    from inflation import InflationProblem
    r = ref.Scenario(sc)
    p = InflationProblem(**ref.kwargs(sc))
    nc = np.asarray(p._default_notcomm).astype(bool)
    N = len(r.ops)
    if not rep.ok(nc.shape == (N, N), "shape", lambda: f"matrix shape {nc.shape} for {sc}"):
        return
    want = np.zeros((N, N), dtype=bool)
    for i in range(N):
        for j in range(i):
            want[i, j] = want[j, i] = not r.commute(r.ops[i], r.ops[j])
    rep.add("evaluations")
    rep.add("operator_pairs", N * N)
    bad = np.argwhere(nc != want)
    if len(bad):
        i, j = bad[0]
        rep.violation("commute", f"operators {r.ops[i]} and {r.ops[j]}: library says "
                      f"{'do not ' if nc[i, j] else ''}commute, reference the opposite, in {sc}")
    if want.any() and not (want | np.eye(N, dtype=bool)).all():
        rep.state((sorted(map(str, sc["dag"])), sc["classical"], sc["levels"], sc["settings"],
                   sc.get("nlat"), sc.get("clat")))
    # compatible templates: one representative per (party, copies, setting)
    if N <= task_max_templates * 2:
        temps = [i for i, o in enumerate(r.ops) if o[-1] == 0]
        comp = np.asarray(p._compatible_template_measurements).astype(bool)
        w2 = ~want[np.ix_(temps, temps)]
        off = ~np.eye(len(temps), dtype=bool)
        rep.ok(comp.shape == w2.shape and not ((comp != w2) & off).any(), "templates",
               lambda: f"compatible templates wrong for {sc}")
    rep.sample({"scenario": sc, "noncommuting_pairs": int(want.sum() // 2)})


task_max_templates = 40


def t_enum(task, rep):
    n, m, hs = task["n"], task["m"], task["hs"]
    for edges in scen.acyclic_edge_sets(n, max_edges=1):
        for cl in scen.subsets(range(m)):
            for levels in product((1, 2) if m > 1 else (1, 2, 3), repeat=m):
                for settings in ([2, 1, 1], [2, 2, 2]):
                    check_comm(scen.make(hs, edges, [2] * n, settings[:n], list(levels), cl), rep)


def latent_layouts():
    """sources s0,s1 over parties A,B,C and one or two latents L,M: every
    choice of which sources feed each latent and which parties it feeds."""
    fam = []
    for par in scen.nonempty_subsets([0, 1]):
        for ch in scen.nonempty_subsets([0, 1, 2]):
            fam.append((par, ch))
    direct_opts = [([0], [1, 2]), ([0, 1], [2]), ([1], [0, 2]), ([2], [0, 1]), ([0, 1], [1, 2])]
    for d0, d1 in direct_opts:
        for r in (1, 2):
            for lats in combinations(fam, r):
                yield d0, d1, lats


def layouts_with_kinds():
    for d0, d1, lats in latent_layouts():
        names = ["L", "M"][:len(lats)]
        dag = []
        for s, d in ((0, d0), (1, d1)):
            dag.append([f"s{s}", [scen.PTY[q] for q in d]
                        + [nm for nm, (par, _) in zip(names, lats) if s in par]])
        for nm, (_, ch) in zip(names, lats):
            dag.append([nm, [scen.PTY[q] for q in ch]])
        yield dag, names, lats


def t_latent(task, rep):
    for dag, names, lats in list(layouts_with_kinds())[task["lo"]:task["hi"]]:
        for kinds in product("qc", repeat=len(names)):
            for cl in scen.subsets([0, 1]):
                if any(k == "q" and set(par) <= set(cl) for k, (par, _) in zip(kinds, lats)):
                    continue      # rejected by documentation
                for levels in ((2, 1), (1, 2), (2, 2)) if task["all"] else ((2, 2),):
                    sc = dict(dag=dag, outcomes=[2, 2, 2], settings=[2, 1, 1],
                              levels=list(levels), classical=[f"s{i}" for i in cl],
                              nlat=[l for l, k in zip(names, kinds) if k == "q"],
                              clat=[l for l, k in zip(names, kinds) if k == "c"])
                    check_comm(sc, rep)


def t_three(task, rep):
    """The documented three-source layout family with both kinds of latents."""
    for cl in scen.subsets([0, 1, 2]):
        for kinds in product("qc", repeat=2):
            if kinds[0] == "q" and {0, 2} <= set(cl) or kinds[1] == "q" and {0, 2} <= set(cl):
                continue
            for settings in ([2, 1, 1, 1, 2], [1, 2, 2, 1, 1]):
                sc = dict(dag=[["s0", ["A", "B", "l1", "l2"]], ["s1", ["C", "D"]],
                               ["s2", ["l1", "l2"]], ["l1", ["C", "D"]], ["l2", ["B", "E"]]],
                          outcomes=[2] * 5, settings=settings, levels=[2, 2, 2],
                          classical=[f"s{i}" for i in cl],
                          nlat=[l for l, k in zip(("l1", "l2"), kinds) if k == "q"],
                          clat=[l for l, k in zip(("l1", "l2"), kinds) if k == "c"])
                check_comm(sc, rep)


def t_listing(task, rep):
    """The lists of operators and of non-vanishing commutators given to the user."""
    import sympy
    import alg
    from c06 import MENU
    from inflation import InflationProblem, InflationSDP
    from inflation.sdp.quantum_tools import commutation_relations, lexicographic_order
    sc = MENU[task["case"]]
    r = alg.Algebra(sc).r
    sdp = InflationSDP(InflationProblem(**ref.kwargs(sc)))
    sym = [sympy.Symbol("_".join([r.parties[o[0] - 1]] + [str(x) for x in o[1:]]), commutative=False) for o in r.ops]
    got = lexicographic_order(sdp)
    rep.add("evaluations", len(sym))
    rep.ok(sorted(got, key=got.get) == sym and len(set(got.values())) == len(sym), "operators",
           lambda: f"{sc}: operators listed as {got}, should be {sym}")
    rels = list(commutation_relations(sdp).exprs)
    want = [(a, b) for a, b in combinations(range(len(sym)), 2) if not r.commute(r.ops[a], r.ops[b])]
    rep.add("operator_pairs", len(sym) ** 2)
    rep.ok(len(rels) == len(set(rels)) == len(want) and
           all((sym[a] * sym[b] - sym[b] * sym[a]) in rels or (sym[b] * sym[a] - sym[a] * sym[b]) in rels for a, b in want),
           "commutators", lambda: f"{sc}: commutators listed as {rels}, should be those of {[(sym[a], sym[b]) for a, b in want]}")
    if want:
        rep.state(("listing", task["case"]))
    rep.sample({"scenario": sc, "commutators": len(want)})


def plan(thorough):
    tasks = []
    for n in (1, 2, 3):
        for m in (1, 2, 3) if thorough else (1, 2):
            for hs in scen.hypergraphs(n, m):
                tasks.append(dict(kind="enum", n=n, m=m, hs=hs))
    yield t_enum, tasks
    L = len(list(layouts_with_kinds()))
    step = 20
    yield t_latent, [dict(kind="latent", lo=i, hi=i + step, all=thorough)
                     for i in range(0, L, step)]
    yield t_three, [dict(kind="three")]
    from c06 import MENU
    yield t_listing, [dict(kind="listing", case=i) for i in range(len(MENU))]
