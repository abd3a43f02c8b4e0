"""C25: the sets of measurements that can be performed jointly are all found,
each once, and the maximal ones are exactly those that cannot be extended."""
from itertools import combinations, product

import numpy as np

import ref
import scen

LEVEL = "exploration"
RULE = ("(a) every graph with up to 5 vertices (thorough 6), as matrix of booleans, "
        "with loops, and of integers, with every cutoff from none to one above the number of vertices, with and without isolation of the maximal cliques: "
        "the cliques reported are exactly the subsets of pairwise adjacent vertices that fit the cutoff, each once; the maximal ones are exactly those among "
        "them that no further vertex extends; the input is not modified; (b) every scenario of the enumeration of <=3 parties, <=2 sources, all hypergraphs, "
        "copies in {1,2}, every subset of classical sources, with and without a visible edge: the templates of the problem, and those used by the linear program, "
        "are the sets of pairwise commuting measurements of the reference model. Non-trivial: graphs in which a maximal clique is smaller than another one")


def warmup():
    from inflation.utils import all_and_maximal_cliques
    all_and_maximal_cliques(np.ones((2, 2), dtype=bool))


def brute(n, adj):
    out = []
    for k in range(n + 1):
        for c in combinations(range(n), k):
            if all(adj[a][b] for a, b in combinations(c, 2)):
                out.append(c)
    return out


def judge(rep, n, adj, cl, cap, allc, maxc, iso, where):
    """cl: all cliques; cap: cutoff, 0 for none."""
    rep.add("evaluations")
    want = [c for c in cl if not cap or len(c) <= cap]
    got = [tuple(sorted(map(int, c))) for c in allc]
    rep.ok(len(got) == len(set(got)), "repeated", lambda: f"a set of compatible vertices is listed twice with cutoff {cap} for {where()}: {got}")
    rep.ok(set(got) == set(want), "all", lambda: f"cliques with cutoff {cap} for {where()}: missing {sorted(set(want) - set(got))[:3]}, "
           f"extra {sorted(set(got) - set(want))[:3]}")
    got = [tuple(sorted(map(int, c))) for c in maxc]
    if not iso:
        rep.ok(got == [], "not asked", lambda: f"maximal cliques reported without being asked for, cutoff {cap}, {where()}: {got}")
        return
    want = [c for c in want if c and not any(all(adj[u][v] for v in c) for u in range(n) if u not in c)]
    rep.ok(len(got) == len(set(got)), "repeated maximal", lambda: f"a maximal clique is listed twice with cutoff {cap} for {where()}: {got}")
    rep.ok(set(got) - {()} == set(want), "maximal", lambda: f"maximal cliques with cutoff {cap} for {where()}: missing "
           f"{sorted(set(want) - set(got))[:3]}, extra {sorted(set(got) - set(want))[:3]}")


def t_graphs(task, rep):
    from inflation.utils import all_and_maximal_cliques
    n = task["n"]
    pairs = list(combinations(range(n), 2))
    for bits in range(task["lo"], task["hi"]):
        adj = np.zeros((n, n), dtype=bool)
        for k, (i, j) in enumerate(pairs):
            adj[i, j] = adj[j, i] = bits >> k & 1
        cl = brute(n, adj.tolist())
        mx = {len(c) for c in cl if c and not any(all(adj[u, v] for v in c) for u in range(n) if u not in c)}
        if len(mx) > 1:
            rep.state((n, bits))
        for form in ("bool", "loops", "int"):
            m = adj.copy()
            if form == "loops":
                m |= np.eye(n, dtype=bool)
            elif form == "int":
                m = m.astype(np.int64)
            keep = m.copy()
            for cap in range(n + 2):
                for iso in (True, False):
                    a, b = all_and_maximal_cliques(m, max_n=cap, isolate_maximal=iso) if cap or not iso else all_and_maximal_cliques(m)
                    judge(rep, n, adj, cl, cap, a, b, iso, lambda: f"the graph {[p for k, p in enumerate(pairs) if bits >> k & 1]} on {n} vertices ({form})")
            rep.ok((m == keep).all(), "input modified", lambda: f"the matrix given is modified: {keep.tolist()} -> {m.tolist()}")
    rep.sample({"vertices": n, "graphs": task["hi"] - task["lo"]})


def t_scen(task, rep):
    from inflation import InflationProblem, InflationLP
    n, m, hs = task["n"], task["m"], task["hs"]
    for levels in product((1, 2), repeat=m):
        for cl in scen.subsets(list(range(m))):
            for edges in ([], [(0, n - 1)]) if n > 1 else ([],):
                for sets in ([1, 1, 1], [2, 1, 2]):
                    sc = scen.make(hs, edges, [2, 3, 2][:n], sets[:n], list(levels), cl)
                    r = ref.Scenario(sc)
                    tmp = []
                    for o in r.ops:
                        if o[-1] == 0:
                            tmp.append(o)
                    k = len(tmp)
                    if k > (20 if task["deep"] else 14):
                        rep.add("skipped_too_large")
                        continue
                    adj = [[a != b and r.commute(a, b) for b in tmp] for a in tmp]
                    cq = []
                    stack = [((), list(range(k)))]
                    while stack:
                        cur, cand = stack.pop()
                        cq.append(cur)
                        if len(cq) > 3000:
                            break
                        for i, u in enumerate(cand):
                            stack.append((cur + (u,), [v for v in cand[i + 1:] if adj[u][v]]))
                    if len(cq) > 3000:
                        rep.add("skipped_too_large")
                        continue
                    cq.sort(key=lambda c: (len(c), c))
                    p = InflationProblem(**ref.kwargs(sc))
                    where = lambda: f"the measurements of {sc}"
                    for cap in (0, 1, 2, 3):
                        for iso in (True, False):
                            a, b = p.all_and_maximal_compatible_templates(max_n=cap, isolate_maximal=iso)
                            judge(rep, k, adj, cq, cap, a, b, iso, where)
                    if any(map(any, adj)) and not all(adj[a][b] for a, b in combinations(range(k), 2)):
                        rep.state((hs, edges, levels, cl, sets))
                    if len(cq) <= 300 and sets == [1, 1, 1]:
                        lp = InflationLP(p, nonfanout=len(cl) < m)
                        judge(rep, k, adj, cq, 0, lp.all_compatible_templates, lp.maximal_compatible_templates, True, where)
    rep.sample({"parties": n, "hypergraph": hs})


def plan(thorough):
    t = []
    for n in range(1, 7 if thorough else 6):
        N = 1 << (n * (n - 1) // 2)
        step = 512 if n > 5 else 128
        t += [dict(n=n, lo=lo, hi=min(N, lo + step)) for lo in range(0, N, step)]
    yield t_graphs, t
    t = []
    for n in (1, 2, 3):
        for m in (1, 2):
            for hs in scen.hypergraphs(n, m):
                t.append(dict(n=n, m=m, hs=hs, deep=thorough))
    t.sort(key=lambda t: -sum(map(len, t["hs"])))
    yield t_scen, t
