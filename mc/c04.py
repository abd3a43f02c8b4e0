"""C04: moments are identified exactly up to relabelling of source copies."""
from itertools import product

import numpy as np

import ref
import scen

LEVEL = "exploration"
RULE = ("every scenario with <=3 parties, <=2 sources (thorough 3), all hypergraphs, copies in {1,2} ({1,2,3} for one source), "
        "all classical and all quantum: (a) the set of operator permutations used as symmetries must equal the group of all "
        "independent relabellings of every source's copies; (b) for every set of pairwise commuting operators with at most one "
        "outcome per measurement (events of the inflation; all of them while <=6000), two events are the "
        "same moment of the LP iff their multisets of factor orbits coincide, and the LP variables are exactly the classes of "
        "events that omit the last outcome of childless parties. Non-trivial: group larger than one and an orbit of size > 1")


def warmup():
    from inflation import InflationProblem, InflationLP
    p = InflationProblem({"s": ["A", "B"]}, (2, 2), (1, 1), (2,), classical_sources="all")
    InflationLP(p)
    p = InflationProblem({"s": ["A", "B"]}, (2, 2), (1, 1), (2,))
    InflationLP(p)


def cliques(r, cap=None, cg=False, with_children=()):
    """All sets of pairwise commuting operators, at most one outcome per
    measurement, as sorted tuples of operator positions."""
    N = len(r.ops)
    ok = [[False] * N for _ in range(N)]
    for i in range(N):
        for j in range(i):
            a, b = r.ops[i], r.ops[j]
            if a[:-1] != b[:-1] and r.commute(a, b):
                ok[i][j] = ok[j][i] = True
    keep = [i for i in range(N) if not cg or (r.ops[i][0] - 1) in with_children
            or r.ops[i][-1] != r.outcomes[r.ops[i][0] - 1] - 1]
    out = []
    stack = [((), keep)]
    while stack:
        cur, cand = stack.pop()
        out.append(cur)
        if cap and len(out) > cap:
            return None
        for k, i in enumerate(cand):
            stack.append((cur + (i,), [j for j in cand[k + 1:] if ok[i][j]]))
    return out


class Classes:
    def __init__(self, r):
        self.r = r
        self.perms = [[r.index[r.act(g, o)] for o in r.ops] for g in r.group()]
        self.memo = {}

    def atom(self, w):
        w = tuple(sorted(w))
        if w not in self.memo:
            self.memo[w] = min(tuple(sorted(p[i] for i in w)) for p in self.perms)
        return self.memo[w]

    def key(self, w):
        r = self.r
        return tuple(sorted(self.atom([w[k] for k in c]) for c in r.components([r.ops[i] for i in w])))


def check(sc, rep, lp_too=True):
    from inflation import InflationProblem, InflationLP
    r = ref.Scenario(sc)
    p = InflationProblem(**ref.kwargs(sc))
    cls = Classes(r)
    want = set(map(tuple, cls.perms))
    got = [tuple(map(int, row)) for row in np.asarray(p.lexorder_symmetries)]
    rep.add("evaluations")
    rep.add("group_elements", len(got))
    rep.ok(set(got) == want, "group",
           lambda: f"symmetries wrong for {sc}: {len(set(got))} permutations, expected {len(want)}; "
                   f"missing {list(want - set(got))[:2]} extra {list(set(got) - want)[:2]}")
    rep.ok(len(got) and got[0] == tuple(range(len(r.ops))), "identity first",
           lambda: f"the identity is not the first symmetry for {sc}")
    if not lp_too:
        return
    ev = cliques(r, cap=6000)
    if ev is None:
        rep.add("lp_skipped_too_large")
        return
    lp = InflationLP(p)
    by_key, by_mon = {}, {}
    for w in ev:
        k = cls.key(w)
        mon = lp.Monomial(np.array(w, dtype=np.intc))
        rep.add("evaluations")
        m0 = by_key.setdefault(k, mon)
        if not rep.ok(m0 == mon and hash(m0) == hash(mon), "orbit split",
                      lambda: f"event {[r.ops[i] for i in w]} gives moment {mon}, a relabelled copy gave {m0} in {sc}"):
            return
        k0 = by_mon.setdefault(mon, (k, w))
        if not rep.ok(k0[0] == k, "orbit merge",
                      lambda: f"events {[r.ops[i] for i in w]} and {[r.ops[i] for i in k0[1]]} are not related by "
                              f"copy relabelling but share the moment {mon} in {sc}"):
            return
    ch = {i for i in range(r.n) if any(i in ps for ps in r.parents)}
    cg = {cls.key(w) for w in cliques(r, cg=True, with_children=ch)}
    lpm = {by_mon[m][0] for m in lp.monomials if m in by_mon}
    rep.ok(len(lp.monomials) == len(cg) and lpm == cg, "variables",
           lambda: f"the LP has {len(lp.monomials)} variables, expected one per class of events ({len(cg)}) in {sc}")
    if len(want) > 1:
        rep.state((sc["dag"], sc["levels"], sc["classical"], sc["settings"]))
    rep.sample({"scenario": sc, "group": len(want), "events": len(ev), "classes": len(by_key)})


def t_enum(task, rep):
    n, m, hs = task["n"], task["m"], task["hs"]
    for levels in product((1, 2) if m > 1 else (1, 2, 3), repeat=m):
        for cl in ([], "all"):
            for edges in ([], [(0, n - 1)]) if n > 1 else ([],):
                for outs, sets in (([2, 2, 2], [1, 1, 1]), ([2, 3, 2], [2, 1, 1])):
                    if task["light"] and (edges or outs[1] == 3) and levels == (2,) * m and m > 1 and cl == []:
                        continue
                    check(scen.make(hs, edges, outs[:n], sets[:n], list(levels), cl), rep)


def t_group(task, rep):
    """group only, larger copy numbers"""
    for hs in scen.hypergraphs(task["n"], task["m"]):
        for levels in product((1, 2, 3, 4) if task["m"] < 3 else (1, 2, 3), repeat=task["m"]):
            if np.prod([np.prod(range(1, k + 1)) for k in levels]) > 150:
                continue
            check(scen.make(hs, [], [2] * task["n"], [1] * task["n"], list(levels), []), rep, lp_too=False)


def plan(thorough):
    tasks = []
    for n in (1, 2, 3):
        for m in (1, 2, 3) if thorough else (1, 2):
            for hs in scen.hypergraphs(n, m):
                tasks.append(dict(kind="enum", n=n, m=m, hs=hs, light=not thorough))
    tasks.sort(key=lambda t: -sum(map(len, t["hs"])))
    yield t_enum, tasks
    yield t_group, [dict(kind="group", n=n, m=m) for n in (1, 2, 3) for m in (1, 2, 3) if n < 3 or m < 3 or thorough]
