"""C10: what a quantum model produces is never excluded."""
from itertools import product

import numpy as np

import models
import ref
from c05 import S, TWO, BIL, TRI, problem
from feasible import SDPPoint, LPPoint, check_sdp, check_lp

LEVEL = "exploration"
RULE = ("for each scenario of a menu (quantum, mixed classical/quantum, settings, visible edges, latents): every combination of source states "
        "from {product, maximally entangled, partially entangled, complex/rotated} (one choice for all sources and each single deviation) and of "
        "projective measurements per party and setting from a finite list (Pauli, intermediate, Bell and structureless bases; outcomes by "
        "parity, index or first-versus-rest; controlled by classical sources) is built as an explicit tensor-network model of the whole inflation; "
        "the resulting point must satisfy everything passed to the solver (Gram matrix cells, fixed values, linearised polynomial constraints, equalities, "
        "inequalities, bounds) after set_distribution of its own distribution; the same for the non-fanout LP. Non-trivial: models with non-commuting measurements")

MENU = [
    (S([["s0", ["A"]]], [2], [3], [2]), "npa2"),
    (S([["s0", ["A"]]], [3], [2], [1]), "npa3"),
    (S(TWO, [2, 2], [2, 2], [1]), "npa3"),
    (S(TWO, [3, 2], [2, 1], [1]), "npa2"),
    (S(TWO, [2, 2], [2, 1], [2]), "npa2"),
    (S(TWO, [2, 2], [1, 1], [3]), "npa2"),
    (S(BIL, [2, 2, 2], [2, 1, 2], [1, 1]), "npa2"),
    (S(BIL, [2, 2, 2], [1, 1, 1], [2, 2]), "npa2"),
    (S(BIL, [2, 3, 2], [1, 1, 1], [2, 1], order=["C", "B", "A"]), "npa2"),
    (S(BIL, [2, 2, 2], [1, 2, 1], [1, 2], ["s0"]), "npa2"),
    (S(BIL, [2, 2, 2], [2, 1, 1], [2, 2], ["s1"]), "npa1"),
    (S(TRI, [2, 2, 2], [1, 1, 1], [2, 2, 1]), "npa2"),
    (S(TRI, [2, 2, 2], [1, 1, 1], [2, 2, 2], ["s1"]), "npa1"),
    (S(TRI, [2, 2, 2], [1, 1, 1], [2, 2, 2]), "physical1"),
    (S(TWO + [["A", ["B"]]], [2, 2], [2, 1], [1]), "npa3"),
    (S(TWO + [["A", ["B"]]], [2, 2], [1, 1], [2]), "npa2"),
    (S(BIL + [["A", ["B"]], ["B", ["C"]]], [2, 2, 2], [1, 1, 1], [1, 1]), "npa2"),
    (S([["s0", ["A", "B"]], ["s1", ["A"]]], [2, 2], [2, 1], [2, 1]), "npa2"),
    (S([["s0", ["L", "C"]], ["L", ["A", "B"]]], [2, 2, 2], [2, 1, 1], [2], nlat=["L"]), "npa2"),
    (S([["s0", ["L"]], ["s1", ["L", "C"]], ["L", ["A", "B"]]], [2, 2, 2], [1, 1, 1], [2, 1], nlat=["L"]), "npa2"),
    (S([["s0", ["L", "C"]], ["s1", ["A", "B"]], ["L", ["A", "B"]]], [2, 2, 2], [1, 1, 1], [2, 1], clat=["L"]), "npa2"),
]
BASES = ["Z", "X", "W", "bell", "generic", "ZX"]
GROUPS = ["parity", "cindex", "first"]


def warmup():
    from inflation import InflationSDP, InflationLP
    for sc, _ in (MENU[2], MENU[7], MENU[15]):
        p = problem(sc)
        s = InflationSDP(p)
        s.generate_relaxation("npa2")
        s.set_distribution(np.full(p.expected_distro_shape, 0.25), use_lpi_constraints=True)
        s._prepare_solver_arguments()
        InflationLP(p, nonfanout=True)._prepare_solver_matrices()


def all_models(r, thorough):
    """Every measurement choice per party: each setting of a party uses the
    basis list shifted by the setting (so settings do not commute)."""
    st = [[k] * r.m for k in models.STATES]
    for s in range(r.m if r.m > 1 else 0):
        st.append([models.STATES[1] if t != s else models.STATES[0] for t in range(r.m)])
    nb = len(BASES)
    per = []
    for p in range(r.n):
        opts = []
        for b in range(nb):
            for g in (GROUPS if thorough else [GROUPS[(b + p) % 3]]):
                opts.append([((BASES[(b + x) % nb], BASES[(b + x + 2) % nb]), g) for x in range(len(r.eff[p]))])
        per.append(opts)
    for states in st:
        for meas in product(*per):
            yield states, meas


def t_models(task, rep):
    from inflation import InflationSDP, InflationLP
    sc, relax = MENU[task["case"]]
    r = ref.Scenario(sc)
    p = problem(sc)
    sdp = InflationSDP(p)
    sdp.generate_relaxation(relax)
    point = SDPPoint(sdp)
    events = int(np.prod([(r.outcomes[q] + 1.) ** (np.prod([r.levels[s] for s in r.feeds[q]]) * len(r.eff[q])) for q in range(r.n)]))
    lp = InflationLP(p, nonfanout=True, include_all_outcomes=task["part"] % 2 == 1, default_non_negative=True) if events < 3000 else None
    lpoint = LPPoint(lp) if lp else None
    n = 0
    for t, (states, meas) in enumerate(all_models(r, task["thorough"])):
        if t % task["parts"] != task["part"]:
            continue
        n += 1
        model = models.QuantumModel(r, states, meas)
        what = f"scenario {task['case']} ({relax}), states {states}, measurements {meas}"
        ok, val = point.values(model, rep, what)
        if not ok:
            return
        P = model.distribution()
        for lpi, shared in ((False, False), (True, False), (False, True)):
            if (shared or (lpi and t % 2)) and not task["thorough"] and t // task["parts"] % 3:
                continue
            sdp.set_distribution(P, use_lpi_constraints=lpi, shared_randomness=shared)
            check_sdp(sdp, val, model, rep, what + f" lpi={lpi} shared={shared}")
            if lp:
                lp.set_distribution(P, use_lpi_constraints=lpi, shared_randomness=shared)
                check_lp(lp, lpoint.values(model.ev), rep, "LP " + what + f" lpi={lpi} shared={shared}")
            if rep.violations:
                return
        rep.state((task["case"], states, meas))
    rep.sample({"scenario": sc, "models": n, "relaxation": relax})


def plan(thorough):
    t = []
    for i, (sc, relax) in enumerate(MENU):
        r = ref.Scenario(sc)
        n = sum(1 for _ in all_models(r, thorough))
        parts = max(1, n // (60 if thorough else 30))
        # quick: every k-th model when a scenario has many
        keep = parts if thorough else min(parts, 4)
        for k in range(keep):
            t.append(dict(case=i, part=k * parts // keep, parts=parts, thorough=thorough))
    yield t_models, t
