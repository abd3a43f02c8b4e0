"""C09: what a classical model produces is never excluded."""
from itertools import product

import numpy as np

import models
import ref
from c05 import S, TWO, BIL, TRI, problem
from feasible import SDPPoint, LPPoint, check_sdp, check_lp

LEVEL = "exploration"
RULE = ("for each scenario of a menu: every deterministic strategy of a finite family (every response function of every party when "
        "there are at most 16, else constants, dictators, pairwise and/xor, parity), sources emitting values with weights 1/2,1/2 or 1/4,3/4 "
        "(or 1/6,1/3,1/2), gives an exact behaviour of the whole inflation; this point must satisfy everything the library passes to the "
        "solver (cells of the moment matrix, fixed values, linearised polynomial constraints, equalities, inequalities, bounds, supports) "
        "after set_distribution of the distribution it produces (for supports, also of another distribution with the same support), in the SDP and the LP. Non-trivial: models where some party is not constant")

MENU = [
    (S(TWO, [2, 2], [2, 1], [1], "all"), 2, "npa2"),
    (S(TWO, [2, 2], [2, 2], [1], "all"), 2, "local1"),
    (S(TWO, [3, 2], [1, 2], [1], "all"), 2, "npa2"),
    (S(TWO, [2, 2], [1, 1], [3], "all"), 2, "physical2"),
    (S(TWO, [2, 2], [1, 1], [2], "all"), 3, "npa2"),
    (S(BIL, [2, 2, 2], [1, 1, 1], [2, 2], "all"), 2, "npa2"),
    (S(BIL, [2, 2, 2], [2, 1, 1], [2, 1], "all"), 2, "npa2"),
    (S(BIL, [2, 2, 2], [1, 1, 1], [1, 2], "all", order=["C", "A", "B"]), 2, "physical2"),
    (S(TRI, [2, 2, 2], [1, 1, 1], [2, 2, 2], "all"), 2, "physical2"),
    (S(TRI, [2, 2, 2], [1, 1, 1], [2, 1, 2], "all"), 2, "npa2"),
    (S(TWO + [["A", ["B"]]], [2, 2], [1, 1], [2], "all"), 2, "npa2"),
    (S(TWO + [["A", ["B"]]], [2, 2], [2, 1], [1], "all"), 2, "npa2"),
    (S(TWO + [["A", ["B"]]], [3, 2], [1, 1], [1], "all"), 2, "npa2"),
    (S([["s0", ["A", "B", "C"]], ["A", ["B"]], ["B", ["C"]]], [2, 2, 2], [1, 1, 1], [1], "all"), 2, "npa2"),
    (S([["s0", ["B", "C"]], ["s1", ["A"]], ["A", ["B"]], ["B", ["C"]]], [2, 2, 2], [1, 1, 1], [1, 1], "all"), 2, "npa2"),
    (S(BIL + [["A", ["B"]]], [2, 2, 2], [1, 1, 1], [2, 1], "all"), 2, "npa2"),
    (S([["s0", ["A", "B"]], ["s1", ["A"]]], [2, 2], [1, 1], [2, 2], "all"), 2, "npa2"),
    (S([["s0", ["L", "C"]], ["s1", ["A", "B"]], ["L", ["A", "B"]]], [2, 2, 2], [1, 1, 1], [2, 1], "all", clat=["L"]), 2, "npa2"),
    # quantum sources: a classical model is also a model of these
    (S(TWO, [2, 2], [2, 2], [1]), 2, "npa2"),
    (S(BIL, [2, 2, 2], [1, 1, 1], [2, 2]), 2, "npa2"),
    (S(TRI, [2, 2, 2], [1, 1, 1], [1, 2, 2], ["s1"]), 2, "npa2"),
    (S(TWO + [["A", ["B"]]], [2, 2], [1, 1], [2]), 2, "npa2"),
]


def warmup():
    from inflation import InflationSDP, InflationLP
    for sc in (MENU[0][0], MENU[5][0], MENU[10][0]):
        p = problem(sc)
        s = InflationSDP(p)
        s.generate_relaxation("npa2")
        s.set_distribution(np.full(p.expected_distro_shape, 0.25), use_lpi_constraints=True)
        s._prepare_solver_arguments()
        l = InflationLP(p)
        l._prepare_solver_matrices()


WEIGHTS = {2: [(0.5, 0.5), (0.25, 0.75)], 3: [(1 / 6, 1 / 3, 0.5)]}


def all_models(r, d, rich, part, parts):
    per = models.strategies(r, d, rich)
    n = int(np.prod([len(f) for f in per]))
    for t, resp in enumerate(product(*per)):
        if t % parts != part:
            continue
        for k in range(1):
            w = WEIGHTS[d][(t // parts + k) % len(WEIGHTS[d])]
            yield n, resp, models.ClassicalModel(r, [w] * r.m, resp)


def entries(supports, r, d, resp, P):
    """Distributions to enter, and how.  Supports do not depend on how likely
    the values of the sources are, as long as all are possible."""
    for lpi, shared in ((False, False), (True, False), (False, True)):
        yield P, lpi, shared
    if supports:
        w = {2: (0.125, 0.875), 3: (0.5, 0.3, 0.2)}[d]
        Q = models.ClassicalModel(r, [w] * r.m, resp).distribution()
        assert np.array_equal(P > 0, Q > 0)
        yield Q, True, False
        yield Q, False, False


def t_sdp(task, rep):
    from inflation import InflationSDP
    sc, d, relax = MENU[task["case"]]
    r = ref.Scenario(sc)
    p = problem(sc)
    sdp = InflationSDP(p, supports_problem=task["supports"])
    sdp.generate_relaxation("npa1" if task["supports"] and r.m > 2 else relax)
    point = SDPPoint(sdp)
    for n, resp, model in all_models(r, d, task["rich"], task["part"], task["parts"]):
        what = f"SDP scenario {task['case']} ({relax}), responses {[x.tolist() for x in resp]}"
        ok, val = point.values(model, rep, what)
        if not ok:
            return
        P = model.distribution()
        for Q, lpi, shared in entries(task["supports"], r, d, resp, P):
            sdp.set_distribution(Q, use_lpi_constraints=lpi, shared_randomness=shared)
            check_sdp(sdp, val, model, rep, what + f" lpi={lpi} shared={shared}", task["supports"])
            if rep.violations:
                return
        if any(len(np.unique(x)) > 1 for x in resp):
            rep.state((task["case"], "sdp", task["supports"], [x.tolist() for x in resp]))
    rep.sample({"scenario": sc, "models": n, "relaxation": relax})


def t_lp(task, rep):
    from inflation import InflationLP
    sc, d, relax = MENU[task["case"]]
    r = ref.Scenario(sc)
    p = problem(sc)
    lp = InflationLP(p, nonfanout=sc["classical"] != "all", supports_problem=task["supports"],
                     include_all_outcomes=task["every"], default_non_negative=True)
    point = LPPoint(lp)
    for n, resp, model in all_models(r, d, task["rich"], task["part"], task["parts"]):
        what = f"LP scenario {task['case']}, responses {[x.tolist() for x in resp]}"
        x = point.values(model.ev)
        P = model.distribution()
        for Q, lpi, shared in entries(task["supports"], r, d, resp, P):
            lp.set_distribution(Q, use_lpi_constraints=lpi, shared_randomness=shared)
            check_lp(lp, x, rep, what + f" lpi={lpi} shared={shared}", task["supports"])
            if rep.violations:
                return
        if any(len(np.unique(t)) > 1 for t in resp):
            rep.state((task["case"], "lp", task["supports"], task["every"], [t.tolist() for t in resp]))
    rep.sample({"scenario": sc, "models": n, "variables": len(x)})


def plan(thorough):
    rich = 16
    s, l = [], []
    for i, (sc, d, _) in enumerate(MENU):
        r = ref.Scenario(sc)
        n = int(np.prod([len(f) for f in models.strategies(r, d, rich)]))
        cap = 10 ** 9 if thorough else 200 if i == 8 else 400
        parts = max(1, n // 60)
        keep = parts if thorough else min(parts, max(1, cap // 60))
        for k in range(keep):
            s.append(dict(case=i, part=k, parts=parts, rich=rich, supports=False))
            l.append(dict(case=i, part=k, parts=parts, rich=rich, supports=False, every=i != 8 and (k % 2 == 1 or parts == 1)))
        s.append(dict(case=i, part=0, parts=parts, rich=rich, supports=True))
        if i != 8 or thorough:
            l.append(dict(case=i, part=parts - 1, parts=parts, rich=rich, supports=True, every=False))
        l.append(dict(case=i, part=parts - 1, parts=parts, rich=rich, supports=False, every=False))
    yield t_sdp, s
    yield t_lp, l
