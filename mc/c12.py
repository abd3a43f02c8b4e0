"""C12: normalisation equalities of the SDP are sound and complete."""
from itertools import combinations, product

import numpy as np

import alg
import ref
from c05 import S, TWO, BIL, TRI, problem

LEVEL = "exploration"
RULE = ("for each scenario of a menu with visible edges (and others in supports mode), every generating set of a family (npaN, localN, physicalN, "
        "and {1} + every selection of up to 3-4 words of length <=2-3 closed under outcomes of a chosen operator): the linear span of "
        "the imposed equalities equals the span of: (row)(column with an operator removed) = sum over outcomes of (row)(column), whenever all "
        "the columns involved are in the generating set; words identified by the exhaustive-rewriting model. Non-trivial: sets with >= 1 relation")

MENU = [
    (S(TWO + [["A", ["B"]]], [2, 2], [1, 1], [1]), False),
    (S(TWO + [["A", ["B"]]], [2, 2], [2, 1], [1]), False),
    (S(TWO + [["A", ["B"]]], [3, 2], [1, 1], [1]), False),
    (S(TWO + [["A", ["B"]]], [2, 2], [1, 1], [2]), False),
    (S(TWO + [["A", ["B"]]], [2, 2], [2, 1], [2], "all"), False),
    (S(TWO + [["B", ["A"]]], [2, 3], [1, 1], [1]), False),
    (S(BIL + [["A", ["B"]]], [2, 2, 2], [1, 1, 1], [2, 1]), False),
    (S(BIL + [["A", ["B"]], ["B", ["C"]]], [2, 2, 2], [1, 1, 1], [1, 1]), False),
    (S([["s0", ["A", "B", "C"]], ["A", ["B"]], ["B", ["C"]]], [2, 2, 2], [1, 1, 1], [1]), False),
    (S([["s0", ["A", "B", "C"]], ["A", ["B", "C"]]], [2, 2, 2], [2, 1, 1], [1], order=["C", "A", "B"]), False),
    (S(TWO, [2, 2], [2, 1], [1]), True),
    (S(TWO, [2, 3], [1, 1], [1]), True),
    (S(TWO, [2, 2], [1, 1], [2]), True),
    (S(BIL, [2, 2, 2], [1, 1, 1], [1, 2]), True),
    (S(TRI, [2, 2, 2], [1, 1, 1], [1, 1, 1], ["s1"]), True),
    (S(TWO + [["A", ["B"]]], [2, 2], [1, 1], [1]), True),
    (S([["s0", ["A"]]], [2], [2], [1]), True),
    (S([["s0", ["A"]]], [3], [1], [2]), True),
    (S(TWO, [2, 2], [2, 1], [1]), False),       # network: none
]


def warmup():
    from inflation import InflationSDP
    for sc, sup in (MENU[1], MENU[3], MENU[12]):
        s = InflationSDP(problem(sc), supports_problem=sup)
        s.generate_relaxation("npa2")
        s.generate_relaxation("physical2")


def check(sdp, A, kids, rep, what):
    r = A.r
    cols = [tuple(int(x) - 1 for x in c) for c in sdp.generating_monomials_1d]
    nf = {A.nf(c): i for i, c in enumerate(cols)}
    keys = {}
    rows, may = [], []
    for c in cols:
        for i, o in enumerate(c):
            op = r.ops[o]
            if not kids[op[0] - 1] or op[-1] != r.outcomes[op[0] - 1] - 1:
                continue
            words = [c[:i] + c[i + 1:]] + [c[:i] + (r.index[op[:-1] + (a,)],) + c[i + 1:]
                                           for a in range(r.outcomes[op[0] - 1])]
            if not all(A.nf(w) in nf or A.nf(w) == alg.ZERO for w in words):
                continue
            # relations with a removed word that vanishes may be imposed, need not
            must = A.nf(words[0]) != alg.ZERO
            for rw in cols:
                eq = {}
                for sgn, w in zip([1] + [-1] * (len(words) - 1), words):
                    k = A.key(rw[::-1] + w)
                    if k != alg.ZERO:
                        eq[k] = eq.get(k, 0) + sgn
                eq = {k: v for k, v in eq.items() if v}
                if eq:
                    may.append(eq)
                    if must:
                        rows.append(eq)

    def ident(m):
        if m.is_zero:
            return alg.ZERO
        fs = [tuple(int(x) - 1 for x in f.as_lexmon) for f in m.factors if len(f.as_lexmon)]
        return min(tuple(sorted(A.atom(f) for f in fs)), tuple(sorted(A.atom(f[::-1]) for f in fs)))

    impl = []
    for eq in sdp.minimal_equalities:
        d = {}
        for m, c in eq.items():
            k = ident(m)
            if k != alg.ZERO:
                d[k] = d.get(k, 0) + c
        impl.append({k: v for k, v in d.items() if v})
    for d in may + impl:
        for k in d:
            keys.setdefault(k, len(keys))

    def mat(rs):
        m = np.zeros((len(rs), len(keys)))
        for i, d in enumerate(rs):
            for k, v in d.items():
                m[i, keys[k]] = v
        return m
    rep.add("evaluations")

    def rank(m):
        return int(np.linalg.matrix_rank(m)) if m.size else 0
    uniq = lambda rs: [dict(t) for t in {tuple(sorted(d.items(), key=repr)) for d in rs if d}]
    M, I, Y = mat(uniq(rows)), mat(uniq(impl)), mat(uniq(may))
    rm, ri = rank(M), rank(I)
    ry = rank(Y) if len(may) > len(rows) else rm
    a, b = rank(np.vstack([Y, I])), rank(np.vstack([M, I]))
    rep.ok(a == ry, "unsound", lambda: f"{what}: the imposed equalities contain a relation that does not follow from normalisation "
           f"(rank {a} with, {ry} without)")
    rep.ok(b == ri, "incomplete", lambda: f"{what}: normalisation between columns implies {b} independent relations, {ri} are imposed")
    if rm:
        rep.state((what, rm))


def setup(i):
    sc, sup = MENU[i]
    A = alg.Algebra(sc)
    kids = [True] * A.r.n if sup else [any(p in q for q in A.r.parents) for p in range(A.r.n)]
    return sc, sup, A, kids


def t_specs(task, rep):
    from inflation import InflationSDP
    sc, sup, A, kids = setup(task["case"])
    sdp = InflationSDP(problem(sc), supports_problem=sup)
    for spec in task["specs"]:
        sdp.generate_relaxation(spec)
        if len(sdp.generating_monomials_1d) > task["cols"]:
            continue
        check(sdp, A, kids, rep, f"case {task['case']} supports={sup} {spec}")
    rep.sample({"scenario": sc, "specs": task["specs"]})


def t_sets(task, rep):
    """{1} + explicit columns: for each choice of up to two base words and one
    operator in each, all outcomes of this operator, with and without the
    normalised column."""
    from inflation import InflationSDP
    sc, sup, A, kids = setup(task["case"])
    r = A.r
    p = problem(sc)
    ops = [o for o in range(A.N) if r.ops[o][-1] < r.outcomes[r.ops[o][0] - 1] - 1 or kids[r.ops[o][0] - 1]]
    words = []
    for L in (1, 2, 3):
        for w in product(ops, repeat=L):
            if A.nf(w) != w:
                continue
            for i, o in enumerate(w):
                op = r.ops[o]
                if kids[op[0] - 1] and op[-1] == r.outcomes[op[0] - 1] - 1:
                    vs = [w[:i] + (r.index[op[:-1] + (a,)],) + w[i + 1:] for a in range(r.outcomes[op[0] - 1])]
                    words.append((vs, w[:i] + w[i + 1:]))
    if len(words) > task["max"]:
        words = words[::-(-len(words) // -task["max"])]
    sets = []
    for (vs, d) in words:
        sets += [vs, vs + [d], vs[1:] + [d]]
    pairs = list(combinations(words, 2))
    step = max(1, len(pairs) // task["max"])
    for (v1, d1), (v2, d2) in pairs[::step]:
        sets.append(v1 + v2 + [d2])
        sets.append(v1 + v2 + [d1, d2])
    for k, cols in enumerate(sets):
        if k % task["parts"] != task["part"]:
            continue
        seen, out = set(), []
        for w in [()] + [tuple(c) for c in cols]:
            n = A.nf(w)
            if n not in seen and n != alg.ZERO:
                seen.add(n)
                out.append(n)
        sdp = InflationSDP(p, supports_problem=sup)
        sdp.generate_relaxation([sdp._lexorder[np.array(w, dtype=int) + 1] if len(w) else sdp.identity_operator for w in out])
        check(sdp, A, kids, rep, f"case {task['case']} supports={sup} columns {out}")
    rep.sample({"scenario": sc, "sets": len(sets)})


def plan(thorough):
    a, b = [], []
    for i in range(len(MENU)):
        a.append(dict(case=i, specs=["npa1", "npa2", "local1", "physical1", "physical2"], cols=400 if thorough else 90))
        a.append(dict(case=i, specs=["npa3", "local2"], cols=250 if thorough else 60))
        parts = 8 if thorough else 2
        if i < len(MENU) - 1:
            b += [dict(case=i, part=k, parts=parts, max=400 if thorough else 40) for k in range(parts)]
    yield t_specs, a
    yield t_sets, b
