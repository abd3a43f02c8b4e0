"""C15: values given to moments are propagated exactly: products of fully known
factors are fixed, LPI proportionalities hold for partially known ones, and
nothing else is."""
from itertools import combinations, product

import numpy as np

import alg
import hist
from c05 import S, TWO, BIL, TRI, problem

LEVEL = "model_checking"
RULE = ("for every scenario of a menu (SDP and LP): every set of up to 3 elementary moments (2 when there are more than 15; thorough 4 and 3; any number when there are at most 6), "
        "knowable or not, Hermitian or not, and every set missing up to 1 of the knowable ones, with generic and zero values, with and without "
        "LPI constraints, with and without only_specified_values, given by set_values and, split in every way into two parts, by "
        "set_values followed by update_values: the values and proportionalities handed to the solver, and the objective, constraints and bounds "
        "after substitution, are those of the reference model. States: distinct programs; transitions: solve calls compared")
ASSUMPTIONS = ["a value is also the value of the complex conjugate moment (the library works with real moment matrices)"]

MENU = [
    ("sdp", S(BIL, [2, 2, 2], [1, 1, 1], [1, 1]), "npa2"),
    ("sdp", S(TWO, [2, 2], [1, 1], [2]), "npa2"),
    ("sdp", S(TWO, [2, 2], [2, 1], [2]), "npa2"),
    ("sdp", S(BIL, [2, 2, 2], [1, 1, 1], [2, 1]), "npa2"),
    ("sdp", S(TRI, [2, 2, 2], [1, 1, 1], [2, 1, 1]), "npa1"),
    ("sdp", S(TRI, [2, 2, 2], [1, 1, 1], [2, 2, 2], "all"), "npa1"),
    ("sdp", S(TWO + [["A", ["B"]]], [2, 2], [1, 1], [2]), "npa1"),
    ("sdp", S([["s0", ["A"]]], [2], [2], [2]), "npa3"),
    ("sdp", S([["s0", ["A"]], ["s1", ["B"]], ["s2", ["C"]]], [2, 2, 2], [1, 1, 1], [1, 1, 1]), "npa2"),
    ("sdp", S(BIL, [2, 2, 2], [1, 1, 1], [2, 2]), "physical2"),
    ("sdp", S(BIL, [2, 2, 2], [1, 2, 1], [1, 1], ["s0"]), "local1"),
    ("sdp", S([["s0", ["A"]], ["s1", ["B"]], ["s2", ["C"]]], [2, 2, 2], [1, 1, 1], [1, 1, 1]), "local1"),
    ("lp", S(BIL, [2, 2, 2], [1, 1, 1], [1, 1]), dict(nonfanout=True)),
    ("lp", S(TWO, [2, 2], [1, 1], [2]), dict(nonfanout=True, include_all_outcomes=True)),
    ("lp", S(TWO, [2, 2], [1, 1], [2], "all"), dict(nonfanout=False)),
    ("lp", S(TRI, [2, 2, 2], [1, 1, 1], [2, 1, 1]), dict(nonfanout=True)),
    ("lp", S(TWO + [["A", ["B"]]], [2, 2], [1, 1], [2]), dict(nonfanout=True)),
    ("lp", S([["s0", ["A"]], ["s1", ["B"]], ["s2", ["C"]]], [2, 2, 2], [1, 1, 1], [1, 1, 1], "all"), dict(nonfanout=False)),
]
VAL = [.3125, .4375, .59375, .265625, .71875, .84375]


def machine(case):
    kind, sc, opt = MENU[case]
    return hist.Machine("sdp", sc, opt) if kind == "sdp" else hist.Machine("lp", sc, **opt)


def warmup():
    for c in (0, 1, 6, 9, 10):
        m = machine(c)
        m.o.solve()


def subsets(mac, deep):
    import ref
    r = ref.Scenario(mac.sc)
    A = mac.A
    # factors of moments count even when they are not moments of the relaxation
    absent = {mac.pb.canon([f]) for k in mac.pb.keys if k != alg.ZERO for f in k} - mac.pb.keys
    atoms = sorted(absent) + sorted([k for k in mac.pb.keys if len(k) == 1 and k not in (alg.ZERO, hist.ONE)], key=lambda k: (len(k[0]), k))
    kn = [k for k in atoms if A.all_commuting(k[0]) and r.atomic_knowable([r.ops[i] for i in k[0]])]
    out = set()
    for n in range(len(atoms) + 1) if len(atoms) <= 6 else range(1, (5 if len(atoms) < 16 else 4) if deep else (4 if len(atoms) < 16 else 3)):
        for s in combinations(atoms, n):
            out.add(s)
    for n in (0, 1):
        for drop in combinations(kn, n):
            out.add(tuple(k for k in kn if k not in drop))
    out.discard(())
    return sorted(out)


def t_subsets(task, rep):
    mac = machine(task["case"])
    todo = subsets(mac, task["deep"])
    pb = mac.pb
    # a fixed objective and fixed bounds, to see them substituted
    ms = sorted((k for k in pb.keys if k not in (alg.ZERO, hist.ONE)), key=lambda k: (len(k), k))
    obj = {k: 1 + i / 8 for i, k in enumerate(ms)}
    mac.o.set_objective({mac.pb.mom[k]: c for k, c in obj.items()})
    mac.m.objective = dict(obj)
    for n, s in enumerate(todo):
        if n % task["parts"] != task["part"]:
            continue
        vals = [tuple(VAL[(i + n) % 6] for i in range(len(s)))]
        if len(s) <= 2 or n % 3 == 0:
            vals += [tuple(0 if i == j else v for i, v in enumerate(vals[0])) for j in range(min(len(s), 2))]
        for v in vals:
            d = dict(zip(s, v))
            for lpi, only in ((False, False), (True, False), (False, True)):
                splits = [(s, ())]
                if len(s) == 2 or (task["deep"] and len(s) == 3):
                    splits += [((k,), tuple(x for x in s if x != k)) for k in s]
                for first, second in splits:
                    mac.path = [("set_values", {pb.name(k): d[k] for k in first}), ("update_values", {pb.name(k): d[k] for k in second}),
                                dict(lpi=lpi, only=only)]
                    kw = dict(use_lpi_constraints=lpi, only_specified_values=only)
                    mac.o.set_values({pb.moment(k): d[k] for k in first}, **kw)
                    mac.m.clear_values()
                    mac.m.update({k: d[k] for k in first}, lpi, only)
                    if second:
                        mac.o.update_values({pb.moment(k): d[k] for k in second}, **kw)
                        mac.m.update({k: d[k] for k in second}, lpi, only)
                    mac.m.solved = False
                    mac.check(rep)
                    if rep.violations:
                        return
    if task["part"] == 0:
        rep.sample({"object": MENU[task["case"]], "sets of moments": len(todo)})


def plan(thorough):
    parts = 16 if thorough else 8
    yield t_subsets, [dict(case=i, deep=thorough, part=p, parts=parts) for i in range(len(MENU)) for p in range(parts)]
