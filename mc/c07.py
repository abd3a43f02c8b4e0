"""C07: known moments are exactly those readable off the distribution, with the
value of the event they stand for."""
from fractions import Fraction
from itertools import product

import numpy as np

import alg
import ref
import scen
from c05 import S, TWO, BIL, TRI, problem

LEVEL = "exploration"
RULE = ("every scenario of a family (<=3 parties, <=3 sources, all hypergraphs for <=2 sources, all acyclic visible graphs with <=2 edges on 2 parties "
        "and <=2 edges for a single source on 3, settings and outcome cardinalities 1-3, copies 1-2, party orders, latents, classical and quantum): "
        "(a) every operator word up to length 3 (4 when few operators) is knowable in the SDP iff each of its independent factors is "
        "readable off the original distribution; (b) the value of each knowable factor, as an exact linear functional of the "
        "probability array (evaluated once with the entries 4^k, so that each coefficient is read off), is the probability of that event; (c) the same for every "
        "monomial of the LP; (d) after set_distribution, with and without shared randomness, in SDP and LP, every moment of the relaxation "
        "is known iff it should be, with the product of the factors' values. Non-trivial: knowable words with at least two operators")
ASSUMPTIONS = ["the marginal of absent parties may be computed at any of their settings (distributions are no-signalling)"]


def family(thorough):
    fam = []
    # two parties, all visible graphs
    for m in (1, 2):
        for hs in scen.hypergraphs(2, m):
            for edges in scen.acyclic_edge_sets(2):
                for outs, sets in (([2, 2], [1, 2]), ([3, 2], [2, 1])):
                    for lev in ([1] * m, [2] + [1] * (m - 1)):
                        for cl in ([], "all"):
                            if m == 2 and (cl == "all") != (lev[0] == 2):
                                continue
                            fam.append(scen.make(hs, edges, outs, sets, lev, cl))
    # three parties, one source, graphs with <= 2 edges (thorough: all)
    for edges in scen.acyclic_edge_sets(3, None if thorough else 2):
        for order in (None, ["C", "A", "B"]):
            fam.append(scen.make([[0, 1, 2]], edges, [2, 2, 2], [1, 1, 1], [1], "all", order=order))
    # three parties, two sources, all hypergraphs
    for hs in scen.hypergraphs(3, 2):
        for edges in ([], [(0, 2)], [(0, 1), (1, 2)]) if thorough else ([], [(0, 2)]):
            fam.append(scen.make(hs, edges, [2, 2, 2], [1, 2, 1], [1, 1], []))
        if thorough:
            fam.append(scen.make(hs, [], [2, 2, 2], [1, 1, 1], [2, 2], "all"))
    fam += [
        S(TRI, [2, 2, 2], [1, 1, 1], [1, 1, 1]),
        S(TRI, [2, 2, 2], [1, 1, 1], [2, 2, 2], "all"),
        S(TRI, [3, 2, 2], [1, 1, 2], [1, 2, 1], ["s1"], order=["B", "C", "A"]),
        S(BIL, [2, 2, 2], [2, 1, 2], [2, 2]),
        S(BIL, [2, 2, 2], [1, 1, 1], [3, 1], order=["C", "B", "A"]),
        S(BIL, [2, 2, 2], [1, 2, 1], [1, 2], "all", order=["C", "B", "A"]),
        S(BIL + [["A", ["B"]], ["B", ["C"]]], [2, 3, 2], [1, 1, 1], [1, 1]),
        S(BIL + [["A", ["C"]]], [3, 2, 2], [1, 1, 2], [2, 1], "all"),
        S([["s0", ["A", "B", "C", "D"]]], [2, 2, 2, 2], [1, 1, 1, 1], [1], order=["D", "B", "A", "C"]),
        S([["s0", ["A", "B"]], ["s1", ["C", "D"]]], [2, 2, 2, 2], [1, 2, 1, 1], [1, 2]),
        S([["s0", ["L", "C"]], ["L", ["A", "B"]]], [2, 2, 2], [2, 1, 1], [2], nlat=["L"]),
        S([["s0", ["L", "C"]], ["s1", ["A", "B"]], ["L", ["A", "B"]]], [2, 2, 2], [1, 1, 1], [2, 1], clat=["L"]),
        S([["s0", ["A"]]], [3], [2], [2]),
    ]
    return fam


FAM = {}


def fam(thorough):
    if thorough not in FAM:
        FAM[thorough] = family(thorough)
    return FAM[thorough]


def warmup():
    from inflation import InflationSDP, InflationLP
    f = [S(TWO, [2, 2], [1, 1], [2]), S(BIL + [["A", ["B"]]], [2, 2, 2], [1, 1, 1], [1, 1], "all")]
    for sc in f:
        p = problem(sc)
        s = InflationSDP(p)
        s.generate_relaxation("npa2")
        s.set_distribution(distribution(ref.Scenario(sc)).astype(float))
        InflationLP(p, nonfanout=sc["classical"] != "all")


def distribution(r, seed=7):
    """A generic compatible no-signalling distribution with exact entries:
    a mixture of two products of responses (response to parents included)."""
    P = np.zeros(tuple(r.outcomes) + tuple(r.private), dtype=object)
    c = [seed]

    def num():
        c[0] = (c[0] * 1103515245 + 12345) % (1 << 31)
        return 1 + (c[0] >> 16) % 97

    for lam, w in ((0, Fraction(3, 8)), (1, Fraction(5, 8))):
        resp = []
        for p in range(r.n):
            tab = {}
            for x in r.eff[p]:
                v = [num() for _ in range(r.outcomes[p])]
                tab[x] = [Fraction(a, sum(v)) for a in v]
            resp.append(tab)
        for out in product(*map(range, r.outcomes)):
            for inp in product(*map(range, r.private)):
                v = w
                for p in range(r.n):
                    x = (inp[p],) + tuple(out[q] for q in r.parents[p])
                    v *= resp[p][x][out[p]]
                P[out + inp] += v
    return P


def value(r, P, ev):
    """Probability of the event {party: (outcome, setting)}."""
    tot = Fraction(0)
    inp = tuple(ev[p][1] if p in ev else 0 for p in range(r.n))
    for out in product(*map(range, r.outcomes)):
        if all(out[p] == ev[p][0] for p in ev):
            tot += P[out + inp]
    return tot


def check_functional(r, atom, ev, rep, what):
    """The atom's value, as a linear functional on the probability array."""
    shape = tuple(r.outcomes) + tuple(r.private)
    n = int(np.prod(shape))
    arr = np.array([4 ** k for k in range(n)], dtype=object).reshape(shape)
    v = int(atom.compute_marginal(arr))
    coef = np.array([(v >> (2 * k)) & 3 for k in range(n)]).reshape(shape)
    seen = {}
    absent = [p for p in range(r.n) if p not in ev]
    ok = (v >> (2 * n)) == 0
    for idx in product(*map(range, shape)):
        out, inp = idx[:r.n], idx[r.n:]
        inside = all(out[p] == ev[p][0] and inp[p] == ev[p][1] for p in ev)
        if not inside:
            ok = ok and coef[idx] == 0
        else:
            seen.setdefault(tuple(inp[p] for p in absent), set()).add(int(coef[idx]))
    ok = ok and all(len(s) == 1 for s in seen.values()) and sum(min(s) for s in seen.values()) == 1
    rep.add("evaluations")
    rep.ok(ok, "functional", lambda: f"{what}: for the event {ev} the implementation adds up the entries "
           f"{[(tuple(int(x) for x in i), int(coef[tuple(i)])) for i in np.argwhere(coef)][:12]}")


def classify(A, w):
    """None for zero, else list of (factor, knowable) of a word."""
    k = A.key(w)
    if k == alg.ZERO:
        return None
    return [(c, A.all_commuting(c) and A.r.atomic_knowable([A.r.ops[i] for i in c])) for c in k]


def status(cl):
    kn = [k for _, k in cl]
    return "Knowable" if all(kn) else "Unknowable" if not any(kn) else "Semi"


def t_words(task, rep):
    from inflation import InflationSDP
    sc = fam(task["thorough"])[task["case"]]
    A = alg.Algebra(sc)
    r = A.r
    sdp = InflationSDP(problem(sc))
    done = set()
    for L in range(1, task["len"] + 1):
        if A.N ** L > task["cap"]:
            break
        for w in product(range(A.N), repeat=L):
            cl = classify(A, w)
            if cl is None:
                continue
            key = A.key(w)
            if L >= 2 and key in done:     # identity of equal moments is C05's business
                continue
            done.add(key)
            m = sdp.Moment_1d(np.array(w, dtype=np.intc) + 1)
            rep.add("evaluations")
            what = f"scenario {task['case']} word {[r.op_name(r.ops[i]) for i in w]}"
            if not rep.ok(len(m.factors) == len(cl), "factors", f"{what}: factors {m.factors}, model {cl}"):
                continue
            st = status(cl)
            rep.ok(m.knowability_status == st and m.is_knowable == (st == "Knowable"), "knowable",
                   lambda: f"{what}: {m} is {m.knowability_status} (is_knowable {m.is_knowable}), should be {st}: factors {cl}")
            if st == "Knowable" and L >= 2:
                rep.state((sc, key))
            for f in m.factors:
                fw = tuple(int(x) - 1 for x in f.as_lexmon)
                kn = A.all_commuting(fw) and r.atomic_knowable([r.ops[i] for i in fw])
                rep.ok(f.is_knowable == kn, "atom knowable", lambda: f"{what}: factor {f} knowable={f.is_knowable}, should be {kn}")
                if f.is_knowable and kn:
                    check_functional(r, f, r.atomic_event([r.ops[i] for i in fw]), rep, what)
            if not rep.samples:
                rep.sample({"scenario": sc, "word": w, "status": st})


def known_after(obj, moments, key, A, r, P, shared, rep, what):
    """Compare the known values of a relaxation with the model."""
    obj.set_distribution(np.array(P, dtype=float), shared_randomness=shared)
    def ident(m):
        # one word per factor (each factor is written on its own copies)
        return None if m.is_zero else tuple(sorted(key(f) for f in m.factors if len(f.as_lexmon)))

    got = {ident(m): v for m, v in obj.known_moments.items()}
    for m in moments:
        w = ident(m)
        rep.add("evaluations")
        if w is None:            # the zero moment
            rep.ok(abs(float(obj.known_moments.get(m, 1))) == 0, "zero value", f"{what}: the zero moment has value {obj.known_moments.get(m)}")
            continue
        if w == ():
            rep.ok(float(got.get((), 0)) == 1, "one value", f"{what}: the unit moment has value {got.get(())}")
            continue
        cl = [(c, A.all_commuting(c) and r.atomic_knowable([r.ops[i] for i in c])) for c in w]
        should = status(cl) == "Knowable" and (len(cl) == 1 or not shared)
        if not rep.ok((w in got) == should, "known set",
                      lambda: f"{what}: {m} {'is' if w in got else 'is not'} known after set_distribution(shared_randomness={shared})"):
            continue
        if should:
            v = Fraction(1)
            for c, _ in cl:
                v *= value(r, P, r.atomic_event([r.ops[i] for i in c]))
            rep.ok(abs(float(got[w]) - float(v)) < 1e-9, "value",
                   lambda: f"{what}: {m} is set to {got[w]}, the distribution gives {float(v)}")


def t_set(task, rep):
    from inflation import InflationSDP, InflationLP
    sc = fam(task["thorough"])[task["case"]]
    A = alg.Algebra(sc)
    r = A.r
    P = distribution(r)
    prob = problem(sc)
    if A.N <= 30:
        sdp = InflationSDP(prob)
        sdp.generate_relaxation("npa2" if A.N <= 12 else "npa1")
        for shared in (False, True, False):
            known_after(sdp, sdp.moments,
                        lambda f: tuple(int(x) - 1 for x in f.as_lexmon), A, r, P, shared, rep,
                        f"SDP scenario {task['case']}")
    events = 1          # bound on the number of events of the LP
    for p in range(r.n):
        copies = int(np.prod([r.levels[s] for s in r.feeds[p]]))
        events *= (r.outcomes[p] + 1) ** (copies * len(r.eff[p]))
    if events > task["events"]:
        return
    for every in (False, True):
        lp = InflationLP(prob, nonfanout=sc["classical"] != "all", include_all_outcomes=every)
        key = lambda f: tuple(int(x) for x in f.as_lexmon)
        for m in lp.monomials:
            for f in m.factors:
                fw = key(f)
                kn = r.atomic_knowable([r.ops[i] for i in fw])
                rep.add("evaluations")
                rep.ok(f.is_knowable == kn, "LP atom knowable",
                       lambda: f"LP scenario {task['case']}: factor {f} knowable={f.is_knowable}, should be {kn}")
                if kn and f.is_knowable and len(fw):
                    check_functional(r, f, r.atomic_event([r.ops[i] for i in fw]), rep, f"LP scenario {task['case']}")
        # any knowable event, whether a variable of the LP or not, in any order
        ops = [i for i in range(A.N)]
        for L in (1, 2):
            for w in product(ops[::-1] if not every else ops, repeat=L):
                o = [r.ops[i] for i in w]
                if len(set(x[0] for x in o)) < L or not A.all_commuting(w):
                    continue
                cl = [(c, r.atomic_knowable([r.ops[i] for i in c])) for c in A.key(w)]
                if not all(k for _, k in cl):
                    continue
                v = Fraction(1)
                for c, _ in cl:
                    v *= value(r, P, r.atomic_event([r.ops[i] for i in c]))
                got = lp.evaluate_polynomial({lp._sanitise_monomial(lp._lexorder[list(w)]): 1}, np.array(P, dtype=float))
                rep.add("evaluations")
                rep.ok(abs(float(got) - float(v)) < 1e-9, "LP event value",
                       lambda: f"LP scenario {task['case']}: the event {[r.op_name(x) for x in o]} evaluates to {got}, should be {float(v)}")
        for shared in (False, True, False):
            known_after(lp, lp.monomials, key, A, r, P, shared, rep, f"LP scenario {task['case']} all outcomes {every}")


def plan(thorough):
    n = len(fam(thorough))
    yield t_words, [dict(case=i, thorough=thorough, len=4, cap=30000 if thorough else 6000) for i in range(n)]
    yield t_set, [dict(case=i, thorough=thorough, events=60000 if thorough else 3000) for i in range(n)]
