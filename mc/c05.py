"""C05: two operator words are the same moment iff the algebra says so, in
every order of queries."""
from itertools import product

import numpy as np

import alg
import ref

LEVEL = "model_checking"
RULE = ("for each scenario of a fixed menu (networks and non-networks, classical/quantum mixtures, 1-3 copies): all words "
        "up to length 3-4 over all operators, two words name the same moment iff their exhaustive-rewriting classes coincide; "
        "and all ordered pairs of words of length <=2 (thorough: <=3 over a sub-alphabet) asked from a fresh object, checking that the answer to the "
        "second does not depend on the first. States: moment classes; transitions: queries")
ASSUMPTIONS = ["SDP moments are identified with their complex conjugates (documented: real moment matrices)"]

TWO = [["s0", ["A", "B"]]]
BIL = [["s0", ["A", "B"]], ["s1", ["B", "C"]]]
TRI = [["s0", ["A", "B"]], ["s1", ["B", "C"]], ["s2", ["A", "C"]]]


def S(dag, outs, sets, lev, cl=(), **kw):
    return dict(dag=dag, outcomes=outs, settings=sets, levels=lev,
                classical=cl if cl == "all" else list(cl), **kw)


MENU = [
    # (scenario, word length, sub-alphabet bound for pair histories)
    (S([["s0", ["A"]]], [2], [2], [2]), 5),
    (S([["s0", ["A"]]], [3], [2], [1]), 5),
    (S([["s0", ["A"]]], [2], [1], [3]), 5),
    (S(TWO, [2, 2], [2, 1], [1]), 5),
    (S(TWO, [2, 2], [2, 2], [1]), 4),
    (S(TWO, [3, 2], [2, 1], [1]), 4),
    (S(TWO, [2, 2], [2, 1], [2]), 3),
    (S(TWO, [2, 2], [1, 1], [3]), 3),
    (S(TWO, [2, 2], [2, 1], [2], "all"), 3),
    (S(BIL, [2, 2, 2], [1, 1, 1], [2, 1]), 3),
    (S(BIL, [2, 2, 2], [1, 1, 1], [2, 2]), 3),
    (S(BIL, [2, 2, 2], [1, 1, 1], [2, 2], ["s0"]), 3),
    (S(BIL, [2, 2, 2], [1, 1, 1], [2, 2], ["s1"]), 3),
    (S(BIL, [2, 2, 2], [1, 2, 1], [1, 2]), 3),
    (S(TRI, [2, 2, 2], [1, 1, 1], [2, 1, 1]), 3),
    (S(TRI, [2, 2, 2], [1, 1, 1], [1, 2, 2], ["s1"]), 3),
    (S(TWO + [["A", ["B"]]], [2, 2], [1, 1], [2]), 3),
    (S(TWO + [["A", ["B"]]], [2, 2], [2, 1], [1]), 4),
    (S([["s0", ["A", "B"]], ["s1", ["A"]]], [2, 2], [1, 1], [2, 2]), 3),
    (S([["s0", ["L", "C"]], ["L", ["A", "B"]]], [2, 2, 2], [2, 1, 1], [2], nlat=["L"]), 3),
    (S([["s0", ["L", "C"]], ["L", ["A", "B"]]], [2, 2, 2], [2, 1, 1], [1], nlat=["L"]), 4),
    (S([["s0", ["L", "C"]], ["s1", ["A", "B"]], ["L", ["A", "B"]]], [2, 2, 2], [1, 1, 1], [2, 1], clat=["L"]), 3),
]


def problem(sc):
    from inflation import InflationProblem
    return InflationProblem(**ref.kwargs(sc))


def warmup():
    for sc, _ in (MENU[1], MENU[8]):
        from inflation import InflationSDP
        s = InflationSDP(problem(sc))
        s.Moment_1d(np.array([1, 2, 1], dtype=np.intc))
        s._sanitise_moment(s._lexorder[[1, 2]])


def ask(sdp, w, form=0):
    if form == 0:
        return sdp.Moment_1d(np.array(w, dtype=np.intc) + 1)
    arr = sdp._lexorder[np.array(w, dtype=int) + 1]
    return sdp.Moment_2d(arr) if form == 1 else sdp._sanitise_moment(arr)


def t_words(task, rep):
    from inflation import InflationSDP
    sc, L = MENU[task["case"]]
    if task["long"]:
        L += 1
    A = alg.Algebra(sc)
    p = problem(sc)
    while A.N ** L > (150000 if task["long"] else 25000):
        L -= 1
    words = [w for n in range(0, L + 1) for w in product(range(A.N), repeat=n)]
    if task["reverse"]:
        words = words[::-1]
    sdp = InflationSDP(p)
    by_key, by_mon = {}, {}
    for t, w in enumerate(words):
        k = A.key(w)
        m = ask(sdp, w, (t % 3) if w else 0)
        rep.add("transitions")
        if k == alg.ZERO:
            rep.ok(m.is_zero, "zero missed", lambda: f"word {[A.r.ops[i] for i in w]} vanishes but gives {m} in {sc}")
        elif m.is_zero:
            rep.violation("zero wrong", f"word {[A.r.ops[i] for i in w]} does not vanish but gives {m} in {sc}")
        if m.is_one != (len(w) == 0):
            rep.violation("one wrong", f"word {[A.r.ops[i] for i in w]} gives {m} in {sc}")
        m0, w0 = by_key.setdefault(k, (m, w))
        if not rep.ok(m0 == m and hash(m0) == hash(m), "split",
                      lambda: f"words {[A.r.ops[i] for i in w0]} and {[A.r.ops[i] for i in w]} are equal by the algebra, "
                              f"but give different moments {m0}, {m} in {sc}"):
            return
        k0, w1 = by_mon.setdefault(m, (k, w))
        if not rep.ok(k0 == k, "merge",
                      lambda: f"words {[A.r.ops[i] for i in w1]} and {[A.r.ops[i] for i in w]} are different by the "
                              f"algebra, but give the same moment {m} in {sc}"):
            return
    for k in by_key:
        rep.state((task["case"], k))
    rep.sample({"scenario": sc, "words": len(words), "length": L, "classes": len(by_key)})


def t_pairs(task, rep):
    """All ordered pairs of queries from a fresh object: the two answers are the
    same moment iff the two words are equal by the algebra."""
    from inflation import InflationSDP
    sc, _ = MENU[task["case"]]
    A = alg.Algebra(sc)
    p = problem(sc)
    L = 3 if (task["long"] and A.N <= 8) or A.N <= 4 else 2
    words = [w for n in range(1, L + 1) for w in product(range(A.N), repeat=n)]
    keys = [A.key(w) for w in words]
    n = len(words)
    mine = range(task["part"], n, task["parts"])
    for i in mine:
        for j in range(n):
            sdp = InflationSDP(p)
            m1 = ask(sdp, words[i], 0)
            m2 = ask(sdp, words[j], 0)
            rep.add("transitions", 2)
            same = (m1 == m2)
            if not rep.ok(same == (keys[i] == keys[j]), "pair",
                          lambda: f"asked in this order from a fresh object, words {[A.r.ops[x] for x in words[i]]} and "
                                  f"{[A.r.ops[x] for x in words[j]]} give {m1} and {m2}; by the algebra they are "
                                  f"{'equal' if keys[i] == keys[j] else 'different'}; {sc}"):
                return
    rep.add("pair_histories", len(mine) * n)


def plan(thorough):
    yield t_words, [dict(kind="words", case=i, reverse=rv, long=thorough)
                    for i in range(len(MENU)) for rv in (False, True)]
    tasks = []
    for i, (sc, _) in enumerate(MENU):
        N = len(ref.Scenario(sc).ops)
        if N > (24 if thorough else 12):
            continue
        tasks += [dict(kind="pairs", case=i, part=q, parts=4, long=thorough) for q in range(4)]
    yield t_pairs, tasks


def finalize(chk):
    chk.total.counts["traces_validated_against_impl"] = chk.total.counts.get("transitions", 0)
