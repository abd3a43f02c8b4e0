"""C13: what an SDP object hands to the solver depends only on the problem the
user has described, not on the path taken to describe it."""
import gc

import hist
from c05 import S, TWO, BIL, TRI, problem

LEVEL = "model_checking"
RULE = ("exhaustive exploration of operation sequences on real InflationSDP objects (set_distribution with and without LPI/shared randomness, "
        "set/update_values for knowable, unknowable, zero and product moments, set_objective, set_bounds, set_extra_*, reset of "
        "every part, solve, generate_relaxation): all sequences up to length 2 over the full menu for five scenarios, and length 3 over the core menu for one "
        "(thorough: 3 and 4, the latter for two); after every operation the "
        "arguments of solve() (values, proportionalities, objective, equalities, inequalities, bounds) are compared, in normal form, with "
        "a reference model of what was asked for. States: distinct programs; transitions: operations executed on the implementation")
ASSUMPTIONS = ["setting values discards extra constraints (the test suite relies on it)",
               "the solver's answer is replaced by a stub: only what is asked of it matters here"]

MENU = [
    (S(BIL, [2, 2, 2], [1, 1, 1], [1, 1]), "npa2", "npa1"),
    (S(TWO, [2, 2], [1, 1], [2]), "npa2", "physical1"),
    (S(BIL, [2, 2, 2], [2, 1, 1], [1, 1], "all"), "npa1", "local1"),
    (S(TRI, [2, 2, 2], [1, 1, 1], [2, 1, 1]), "npa1", "physical2"),
    (S(TWO + [["A", ["B"]]], [2, 2], [1, 1], [2]), "npa1", "npa2"),
]


def warmup():
    for sc, a, b in MENU[:2] + MENU[4:]:
        m = hist.Machine("sdp", sc, a)
        m.o.set_distribution(__import__("numpy").ones(m.o.expected_distro_shape
                             if hasattr(m.o, "expected_distro_shape") else tuple(sc["outcomes"]) + tuple(sc["settings"])) / 4)


def t_histories(task, rep):
    sc, a, b = MENU[task["case"]]
    m = hist.Machine("sdp", sc, a)
    ops = hist.operations(m, b)
    if task["core"]:
        ops = hist.core(ops)
    gc.collect()
    gc.freeze()
    # the first operation is fixed by the task, all continuations are explored
    if task["first"] < len(ops):
        first = ops[task["first"]]

        def body(sub):
            m.path = [first[0]]
            first[1](m)
            if hist.branch(m, sub, m.check) == 0 and task["depth"] > 1:
                hist.explore(m, ops, task["depth"] - 1, sub)
        hist.branch(m, rep, body)
        if task["first"] == 0:
            m.path = []
            hist.branch(m, rep, m.check)
            rep.sample({"scenario": sc, "relaxation": a, "operations": [o[0] for o in ops]})


def plan(thorough):
    full, short = [], []
    for c in range(len(MENU)):
        full += [dict(case=c, core=False, depth=3 if thorough else 2, first=i) for i in range(30)]
        if c < (2 if thorough else 1):
            short += [dict(case=c, core=True, depth=4 if thorough else 3, first=i) for i in range(17)]
    yield t_histories, full
    yield t_histories, short
