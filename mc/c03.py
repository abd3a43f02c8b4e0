"""C03: a moment splits into exactly its independent factors."""
from itertools import product

import numpy as np

import ref
import scen

LEVEL = "exploration"
RULE = ("for every scenario with <=3 parties and <=2 sources (thorough: 3) with copies {1,2} (3 for one source): every "
        "word of length <=2 (thorough 3) over all operators, and every set of operators over a one-setting one-outcome "
        "alphabet of <=9 (thorough 13) operators; plus all operator sets of four larger scenarios (rings, "
        "chains, 3-copy bilocal, up to 4096; thorough 2^15). The factors must partition the word, keep the operator order, share "
        "no source copy with one another, and be unsplittable; the factors reported by "
        "the moments of the LP and SDP objects must agree. Non-trivial: words with >=2 factors "
        "or a factor of >=2 operators")


def warmup():
    from inflation import InflationProblem, InflationSDP, InflationLP
    p = InflationProblem({"s": ["A", "B"]}, (2, 2), (1, 1), (2,))
    p.factorize_monomial_1d(np.array([0, 1, 4], dtype=np.intc))
    InflationSDP(p).Moment_1d(np.array([1, 2], dtype=np.intc))
    pc = InflationProblem({"s": ["A", "B"]}, (2, 2), (1, 1), (2,), classical_sources="all")
    InflationLP(pc)


def check_word(r, p, w, rep, sc, two_d=False):
    word = [r.ops[i] for i in w]
    want = [[w[k] for k in comp] for comp in r.components(word)]
    got = [list(map(int, f)) for f in p.factorize_monomial_1d(np.array(w, dtype=np.intc))]
    rep.add("evaluations")
    # an empty word has either no factors or one empty factor
    got = [g for g in got if g] if not w else got
    if not rep.ok(sorted(got) == sorted(want), "factors",
                  lambda: f"word {word}: factors {got}, expected {want} in {sc}"):
        return
    if len(want) > 1 or (want and len(want[0]) > 1):
        rep.add("distinct_nontrivial")
    if two_d:
        g2 = [[r.index[tuple(map(int, o))] for o in f]
              for f in p.factorize_monomial_2d(np.array(word), canonical_order=True)]
        g2 = [g for g in g2 if g]
        rep.ok(sorted(g2) == sorted(want), "factors2d",
               lambda: f"2d: word {word}: factors {g2}, expected {want} in {sc}")
        # the canonical order of the factors does not depend on the word's order
        perm = [w[k] for comp in reversed(r.components(word)) for k in comp]
        a = [list(map(int, f)) for f in p.factorize_monomial_1d(np.array(perm, dtype=np.intc), canonical_order=True)]
        b = [list(map(int, f)) for f in p.factorize_monomial_1d(np.array(w, dtype=np.intc), canonical_order=True)]
        rep.ok(a == b, "factor order", lambda: f"word {word}: canonical factor order {b} vs {a} in {sc}")


def check_moments(r, p, rep, sc, maxlen):
    """Number and content of the factors of the moments of the SDP object,
    up to relabelling of the copies."""
    from inflation import InflationSDP
    sdp = InflationSDP(p)
    grp = list(r.group())

    def can(ws):
        return min(tuple(sorted(r.index[r.act(g, r.ops[i])] for i in ws)) for g in grp)
    alpha = [i for i, o in enumerate(r.ops) if o[-1] == 0 and o[-2] == 0]
    for n in range(1, maxlen + 1):
        for w in product(alpha, repeat=n):
            if len(set(w)) < n:
                continue
            m = sdp.Moment_1d(np.array(w, dtype=np.intc) + 1)
            got = sorted(can([int(i) - 1 for i in f.as_lexmon]) for f in m.factors)
            want = sorted(can([w[k] for k in c]) for c in r.components([r.ops[i] for i in w]))
            rep.add("moments_compared")
            rep.ok(got == want, "moment factors",
                   lambda: f"moment of {[r.ops[i] for i in w]} has factors {got}, expected {want} in {sc}")


def check(sc, rep, maxlen, nset, moments=True):
    from inflation import InflationProblem
    r = ref.Scenario(sc)
    p = InflationProblem(**ref.kwargs(sc))
    N = len(r.ops)
    for n in range(0, maxlen + 1):
        if N ** n > 20000:
            break
        for w in product(range(N), repeat=n):
            check_word(r, p, list(w), rep, sc, two_d=(n <= 2 and N <= 16))
    alpha = [i for i, o in enumerate(r.ops) if o[-1] == 0 and o[-2] == 0]
    if len(alpha) <= nset:
        for bits in range(2 ** len(alpha)):
            check_word(r, p, [a for k, a in enumerate(alpha) if bits >> k & 1], rep, sc)
    if moments:
        check_moments(r, p, rep, sc, 3 if len(alpha) <= 9 else 2)
    rep.sample({"scenario": sc, "operators": N})


def t_enum(task, rep):
    n, m, hs = task["n"], task["m"], task["hs"]
    for levels in product((1, 2) if m > 1 else (1, 2, 3), repeat=m):
        for cl in ([], "all"):
            for edges in ([], [(0, n - 1)] if n > 1 else []):
                if n == 1 and edges:
                    continue
                sc = scen.make(hs, edges, [2] * n, [1] * n, list(levels), cl)
                check(sc, rep, task["maxlen"], task["nset"], moments=not edges)


BIG = [
    # triangle with two copies of each source: 12 operators per outcome
    dict(dag=[["s0", ["A", "B"]], ["s1", ["B", "C"]], ["s2", ["A", "C"]]], outcomes=[2, 2, 2],
         settings=[1, 1, 1], levels=[2, 2, 2], classical=[]),
    # bilocal, three copies
    dict(dag=[["s0", ["A", "B"]], ["s1", ["B", "C"]]], outcomes=[2, 2, 2],
         settings=[1, 1, 1], levels=[3, 3], classical=[]),
    # chain of four parties
    dict(dag=[["s0", ["A", "B"]], ["s1", ["B", "C"]], ["s2", ["C", "D"]]], outcomes=[2, 2, 2, 2],
         settings=[1, 1, 1, 1], levels=[2, 2, 2], classical="all"),
    # five copies of one source, four parties each on their own mixture
    dict(dag=[["s0", ["A", "B", "C"]], ["s1", ["C"]]], outcomes=[2, 2, 2],
         settings=[1, 1, 1], levels=[4, 1], classical=[]),
]


def t_big(task, rep):
    from inflation import InflationProblem
    sc = BIG[task["case"]]
    r = ref.Scenario(sc)
    p = InflationProblem(**ref.kwargs(sc))
    alpha = [i for i, o in enumerate(r.ops) if o[-1] == 0]
    for bits in range(task["lo"], min(task["hi"], 2 ** len(alpha))):
        w = [a for k, a in enumerate(alpha) if bits >> k & 1]
        check_word(r, p, w, rep, sc)
        if bits % 2:
            check_word(r, p, w[::-1], rep, sc)


def plan(thorough):
    tasks = []
    for n in (1, 2, 3):
        for m in (1, 2, 3) if thorough else (1, 2):
            for hs in scen.hypergraphs(n, m):
                tasks.append(dict(kind="enum", n=n, m=m, hs=hs, maxlen=3 if thorough else 2,
                                  nset=13 if thorough else 9))
    yield t_enum, tasks
    tasks = []
    for c in range(len(BIG)):
        top = 2 ** 15 if thorough else 2 ** 12
        for lo in range(0, top, 2 ** 10):
            tasks.append(dict(kind="big", case=c, lo=lo, hi=lo + 2 ** 10))
    yield t_big, tasks
