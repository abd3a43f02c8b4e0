"""C06: every cell of the moment matrix is the moment of (row)^dagger (column)."""
from itertools import combinations, product

import numpy as np

import alg
import ref
from c05 import S, TWO, BIL, TRI, problem

LEVEL = "exploration"
RULE = ("for each scenario of a menu (network and non-network, all classical/quantum mixtures, 1-3 copies, latents) and each "
        "column specification (npaN, localN, per-party local, physicalN, maximal lengths, party-block lists), and for every generating set "
        "{1} + up to 3 words of length <=2 given explicitly (as arrays, as 2D arrays and as symbols; non-canonical words "
        "and sets not closed under copy swaps included): every cell is compared with the model's moment of reverse(row word)+column word; "
        "cells are equal iff the moments are; only non-negative operators get a default lower bound. "
        "Non-trivial: matrices with at least two distinct non-constant moments")

MENU = [
    S([["s0", ["A"]]], [3], [2], [1]),
    S([["s0", ["A"]]], [2], [2], [2]),
    S([["s0", ["A"]]], [2], [1], [3]),
    S(TWO, [2, 2], [2, 2], [1]),
    S(TWO, [3, 2], [1, 2], [1]),
    S(TWO, [2, 2], [2, 1], [2]),
    S(TWO, [2, 2], [1, 1], [3]),
    S(TWO, [2, 2], [2, 1], [2], "all"),
    S(BIL, [2, 2, 2], [1, 1, 1], [2, 2]),
    S(BIL, [2, 2, 2], [1, 1, 1], [2, 2], ["s0"]),
    S(BIL, [2, 2, 2], [1, 1, 1], [1, 3], ["s1"]),
    S(TRI, [2, 2, 2], [1, 1, 1], [2, 2, 2]),
    S(TRI, [2, 2, 2], [1, 1, 1], [2, 2, 2], ["s1"]),
    S(TRI, [2, 2, 2], [1, 1, 1], [2, 1, 2], "all"),
    S(TRI, [2, 2, 2], [1, 1, 2], [2, 1, 1], order=["C", "A", "B"]),
    S(TWO + [["A", ["B"]]], [2, 2], [2, 1], [1]),
    S(TWO + [["A", ["B"]]], [2, 2], [1, 1], [2]),
    S(BIL + [["A", ["B"]], ["B", ["C"]]], [2, 2, 2], [1, 1, 1], [1, 1]),
    S([["s0", ["A", "B"]], ["s1", ["A"]]], [2, 2], [1, 1], [2, 2]),
    S([["s0", ["L", "C"]], ["L", ["A", "B"]]], [2, 2, 2], [2, 1, 1], [2], nlat=["L"]),
    S([["s0", ["L", "C"]], ["s1", ["A", "B"]], ["L", ["A", "B"]]], [2, 2, 2], [1, 1, 1], [2, 1], clat=["L"]),
]
SPECS = ["npa1", "npa2", "npa3", "local1", "local2", "physical1", "physical2", "physical3", "localP", "physicalP"]
# small scenarios for explicit generating sets
SMALL = [0, 1, 2, 3, 5, 6, 7, 8, 9, 15, 19]


def warmup():
    from inflation import InflationSDP
    for sc in (MENU[3], MENU[5], MENU[7]):
        s = InflationSDP(problem(sc))
        s.generate_relaxation("npa2")
        s.generate_relaxation("physical2")


def check_matrix(sdp, A, rep, what, maxcols=400):
    cols = [tuple(int(x) - 1 for x in c) for c in sdp.generating_monomials_1d]
    n = len(cols)
    mm = np.asarray(sdp.momentmatrix)
    if not rep.ok(mm.shape == (n, n), "shape", f"{what}: matrix {mm.shape} for {n} columns"):
        return
    if not rep.ok(np.array_equal(mm, mm.T), "symmetric", f"{what}: matrix not symmetric"):
        return
    idx_of, key_of = {}, {}
    for i in range(n):
        for j in range(i, n):
            w = cols[i][::-1] + cols[j]
            k = A.key(w)
            v = int(mm[i, j])
            rep.add("evaluations")
            if not rep.ok((k == alg.ZERO) == (v == 0), "zero cell",
                          lambda: f"{what}: cell for {cols[i]} / {cols[j]} has index {v}, by the algebra it is {k}"):
                return
            if not rep.ok((k == ()) == (v == 1), "one cell",
                          lambda: f"{what}: cell for {cols[i]} / {cols[j]} has index {v}, by the algebra it is {k}"):
                return
            if not rep.ok(idx_of.setdefault(k, v) == v and key_of.setdefault(v, k) == k, "cells",
                          lambda: f"{what}: cell ({i},{j}) = {cols[i]}^dagger {cols[j]} has index {v}, moment class {k}; "
                                  f"elsewhere this class has index {idx_of[k]} and this index class {key_of.get(v)}"):
                return
    # the moment behind each index
    if not rep.ok(set(sdp.compmoment_from_idx) == set(key_of), "moments",
                  lambda: f"{what}: moments for indices {sorted(sdp.compmoment_from_idx)}, matrix has {sorted(key_of)}"):
        return
    for v, k in key_of.items():
        m = sdp.compmoment_from_idx[v]
        if k == alg.ZERO or k == ():
            rep.ok(m.is_zero == (k == alg.ZERO) and m.is_one == (k == ()), "constant", f"{what}: index {v} is {m}")
            continue
        fs = [tuple(int(x) - 1 for x in f.as_lexmon) for f in m.factors]
        mk = min(tuple(sorted(A.atom(f) for f in fs)), tuple(sorted(A.atom(f[::-1]) for f in fs)))
        rep.ok(mk == k, "moment", lambda: f"{what}: index {v} stands for {m} = {mk}, its cells are {k}")
        # default bounds
        pos = all(A.selfadjoint(c) for c in k)
        rep.ok((m in sdp.moment_lowerbounds) == pos, "default bound",
               lambda: f"{what}: {m} [{[A.r.ops[x] for c in k for x in c]}] is {'a' if pos else 'not a'} non-negative operator but its "
                       f"default lower bound is {sdp.moment_lowerbounds.get(m)}")
        if m in sdp.moment_lowerbounds:
            rep.ok(sdp.moment_lowerbounds[m] == 0, "default bound", f"{what}: {m} default {sdp.moment_lowerbounds[m]}")
    rep.ok(set(sdp.moments) == set(sdp.compmoment_from_idx.values()), "moment list", f"{what}: list of moments differs")
    rep.ok(not sdp.moment_upperbounds, "default upper", f"{what}: {sdp.moment_upperbounds}")
    # trivially known moments
    if len(key_of) > 3:
        rep.state((what, n, len(key_of)))


def t_specs(task, rep):
    from inflation import InflationSDP
    sc, spec = MENU[task["case"]], task["spec"]
    A = alg.Algebra(sc)
    p = problem(sc)
    # two objects: a fresh one, and one on which another relaxation was generated before
    for prior in (None, task["prior"]):
        sdp = InflationSDP(p)
        if prior:
            sdp.generate_relaxation(prior)
        if spec in ("localP", "physicalP"):
            n = A.r.n
            specs = [spec[:-1] + "".join(map(str, t)) for t in product((0, 1, 2), repeat=n) if any(t)]
        else:
            specs = [spec]
        for sp_ in specs:
            sdp.build_columns(sp_)
            if sdp.n_columns > task["maxcols"]:
                rep.add("too_large_skipped")
                continue
            sdp.generate_relaxation(sp_)
            check_matrix(sdp, A, rep, (sc, sp_, prior))
            if rep.violations:
                return
    rep.sample({"scenario": sc, "spec": spec})


def t_explicit(task, rep):
    from inflation import InflationSDP
    sc = MENU[task["case"]]
    A = alg.Algebra(sc)
    p = problem(sc)
    sdp = InflationSDP(p)
    used = [i for i, o in enumerate(A.r.ops) if o[-1] < A.r.outcomes[o[0] - 1] - 1 or A.r.outcomes[o[0] - 1] == 1]
    words = [w for L in (1, 2) for w in product(used, repeat=L) if A.nf(w) != alg.ZERO]
    words = words[:task["words"]]
    for size in range(1, task["size"] + 1):
        for t, comb in enumerate(combinations(words, size)):
            if t % task["parts"] != task["part"]:
                continue
            form = task["form"]
            if form == "1d":
                spec = [np.array([], dtype=np.intc)] + [np.array(w, dtype=np.intc) + 1 for w in comb]
            elif form == "2d":
                spec = [np.empty((0, sdp._lexorder.shape[1]), dtype=int)] + [np.array([A.r.ops[i] for i in w]) for w in comb]
            else:
                import sympy
                have = {str(x): x for P in sdp.measurements for c in P for m in c for x in m}
                syms = {i: have[A.r.op_name(A.r.ops[i])] for i in used}
                spec = [sympy.S.One]
                for w in comb:
                    e = sympy.S.One
                    for i in w:
                        e = e * syms[i]
                    spec.append(e)
            sdp.generate_relaxation(spec)
            check_matrix(sdp, A, rep, (sc, form, comb))
            if rep.violations:
                return
    rep.sample({"scenario": sc, "form": task["form"], "words": len(words)})


def plan(thorough):
    t = []
    for i in range(len(MENU)):
        for s in SPECS:
            t.append(dict(kind="spec", case=i, spec=s, prior="local1" if s != "local1" else "npa1",
                          maxcols=(220 if thorough else 75)))
    t.sort(key=lambda d: (d["spec"] not in ("localP", "npa3", "physicalP")))
    yield t_specs, t
    e = []
    for i in SMALL:
        for f in ("1d", "2d", "sym"):
            parts = 4
            for q in range(parts):
                e.append(dict(kind="explicit", case=i, form=f, part=q, parts=parts,
                              words=(30 if thorough else 16), size=(3 if f == "1d" or thorough else 2)))
    yield t_explicit, e
