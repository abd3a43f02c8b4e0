"""C16: objectives, extra constraints and bounds reach the solver as written."""
from itertools import combinations, product

import numpy as np

import alg
import hist
from c05 import S, TWO, BIL, TRI, problem
from c15 import MENU, machine

LEVEL = "exploration"
RULE = ("for SDP and LP objects of the C15 menu, with three states of known values (none, some, all with LPI; in the quick mode one state per object, all for two objects): polynomials with up to 3 terms over "
        "a menu of moments (elementary, products, squares, non-Hermitian, unit), each term in every documented form (moment object, "
        "factor object, name, short name, symbol, operator array, product of names, product of symbols, numbers and strings for the unit), "
        "as dictionaries (the same moment possibly in two spellings) and as symbolic expressions (expanded, factored, constants "
        "included): given as objective (max and min), extra equalities, extra inequalities and bounds, "
        "the program handed to the solver contains exactly that polynomial. Non-trivial: at least one compound moment")
COEF = [1, -2, .5, 3.25]


def warmup():
    for c in (0, 1, 6, 12, 13):
        machine(c).o.solve()


def forms(mac, k):
    """Dictionary keys that denote the moment k."""
    import sympy
    pb, o = mac.pb, mac.o
    if k == hist.ONE:
        out = [1, "1", 1.0, sympy.Integer(1), o.One]
        return out
    m = pb.mom[k]
    out = [m, m.name, m.legacy_name, m.symbol]
    if len(k) == 1:
        out.append(m.factors[0])
        ops = [mac.A.r.ops[i] for i in k[0]]
        out.append(tuple(tuple(x) for x in ops))
    else:
        fs = [f for f in m.factors]
        out.append("*".join(f.name for f in fs))
        out.append("*".join(f.name for f in fs[::-1]))
        s = 1
        for f in fs:
            s = s * f.symbol
        out.append(s)
    return out


def terms(mac):
    pb, A = mac.pb, mac.A
    ms = sorted((k for k in pb.keys if k not in (alg.ZERO, hist.ONE)), key=lambda k: (len(k), sum(map(len, k)), k))
    pick = []

    def first(cond):
        for k in ms:
            if k not in pick and cond(k):
                pick.append(k)
                return
    first(lambda k: len(k) == 1 and len(k[0]) == 1)
    first(lambda k: len(k) == 1 and len(k[0]) == 1)
    first(lambda k: len(k) == 1 and len(k[0]) >= 2)
    first(lambda k: len(k) == 1 and not A.all_commuting(k[0]))
    first(lambda k: len(k) == 2 and k[0] == k[1])
    first(lambda k: len(k) == 2 and k[0] != k[1])
    first(lambda k: len(k) >= 3)
    return pick


def expressions(mac, d):
    """Symbolic ways to write the polynomial."""
    import sympy
    pb = mac.pb
    s = {k: (pb.mom[k].symbol if k != hist.ONE else 1) for k in d}
    yield sympy.sympify(sum(c * s[k] for k, c in d.items()))
    r = [sympy.Rational(c) for c in d.values()]
    yield sympy.sympify(sum(c * s[k] for (k, _), c in zip(d.items(), r)))
    yield sympy.Mul(2, sum(c * s[k] / 2 for (k, _), c in zip(d.items(), r)), evaluate=False)
    ks = [k for k in d if k != hist.ONE]
    if ks:
        a = s[ks[0]]
        yield sum(c * s[k] for (k, _), c in zip(d.items(), r)) + sympy.Mul(a, 3, evaluate=False) - sympy.Mul(3, a)
    f = [k for k in ks if len(k) == 2]
    if f:
        # factored: (f1 + x) * f2 with x chosen so that the expansion is d
        k = f[0]
        f1, f2 = [x.symbol for x in pb.mom[k].factors]
        rest = sum(c * s[q] for (q, _), c in zip(d.items(), r) if q != k)
        if pb.canon([k[1]]) in pb.keys:
            yield (f1 + 2) * f2 * d[k] + rest - 2 * f2 * d[k]


def check(mac, rep, d, what, arg):
    """The same polynomial in one form, in every role."""
    o, m = mac.o, mac.m
    for role in ("max", "min", "equality", "inequality"):
        mac.path = [mac.state, role, arg]
        if role in ("max", "min"):
            o.set_objective(arg, role)
            m.objective, m.maximize = d, role == "max"
        elif role == "equality":
            o.set_extra_equalities([arg])
            m.xeq = [d]
        else:
            o.set_extra_inequalities([arg])
            m.xin = [d]
        mac.check(rep)
        if role in ("max", "min"):
            o.set_objective(None)
            m.objective, m.maximize = {}, True
        elif role == "equality":
            o.set_extra_equalities(None)
            m.xeq = []
        else:
            o.set_extra_inequalities(None)
            m.xin = []
        rep.add("evaluations")
        if rep.violations:
            return False
    return True


def prepare(mac, state):
    import ref
    r = ref.Scenario(mac.sc)
    A, pb = mac.A, mac.pb
    mac.state = state
    if state == "none":
        mac.o.set_values(None)
        mac.m.clear_values()
        return
    kn = [k for k in pb.keys if len(k) == 1 and k not in (alg.ZERO, hist.ONE) and A.all_commuting(k[0])
          and r.atomic_knowable([r.ops[i] for i in k[0]])]
    kn.sort()
    vals = {k: [.3125, .4375, .59375, .265625][i % 4] for i, k in enumerate(kn)}
    if state == "some":
        vals = {k: v for k, v in list(vals.items())[::2]}
    mac.o.set_values({pb.mom[k]: v for k, v in vals.items()}, use_lpi_constraints=state == "lpi")
    mac.m.clear_values()
    mac.m.update(vals, state == "lpi")


def t_polys(task, rep):
    mac = machine(task["case"])
    ts = terms(mac)
    n = 0
    prepare(mac, task["state"])
    sets = [(k,) for k in ts + [hist.ONE]]
    sets += list(combinations(ts + [hist.ONE], 2))
    sets += [s for s in combinations(ts + [hist.ONE], 3) if task["deep"] or hist.ONE in s]
    for s in sets:
      for shift in range(4) if len(s) == 1 else (0,):
        d = {k: COEF[(i + len(s) + shift) % 4] for i, k in enumerate(s)}
        fs = [forms(mac, k) for k in s]
        combos = list(product(*fs)) if len(s) < 3 and task["deep"] else \
            [tuple(f[i % len(f)] for f in fs) for i in range(max(map(len, fs)))] + \
            ([tuple(f[(i * (j + 1) + j) % len(f)] for j, f in enumerate(fs)) for i in range(max(map(len, fs)))] if len(s) > 1 else [])
        for c in combos:
            if not check(mac, rep, d, s, dict(zip(c, d.values()))):
                return
        for e in expressions(mac, d):
            if not check(mac, rep, d, s, e):
                return
        if len(s) == 1:
            # the same moment in two different spellings adds up
            for a, b in combinations(fs[0], 2):
                if len({a: 2, b: -.75}) < 2:
                    continue
                if not check(mac, rep, {s[0]: 1.25}, s, {a: 2, b: -.75}):
                    return
        if any(len(k) > 1 for k in s):
            rep.state((task["case"], task["state"], s))
    rep.sample({"object": MENU[task["case"]], "state": task["state"], "terms": [mac.pb.name(k) for k in ts]})


def t_bounds(task, rep):
    """Bounds of both types on up to two moments, in every form; a second call
    replaces the first."""
    mac = machine(task["case"])
    o, m = mac.o, mac.m
    ts = terms(mac)
    prepare(mac, task["state"])
    fixed = {**m.user, **m.inferred}
    ts = [k for k in ts if k not in fixed]
    for s in [(k,) for k in ts] + list(combinations(ts, 2)):
        fs = [forms(mac, k) for k in s]
        for i in range(max(map(len, fs))):
            key = [f[(i + j) % len(f)] for j, f in enumerate(fs)]
            for lo in (None, [.0625, -.25], [.125, .25]):
                for up in (None, [.75, .5], [1, 0.875]):
                    dl = dict(zip(s, lo)) if lo else {}
                    du = dict(zip(s, up)) if up else {}
                    o.reset("bounds")
                    if i % 2:
                        o.set_bounds({ts[0] and mac.pb.mom[ts[0]]: .5}, "up")
                        o.set_bounds({mac.pb.mom[ts[-1]].name: .03125}, "lo")
                        o.set_bounds(dict(zip(key, up)) if up else {}, "up")
                        o.set_bounds(dict(zip(key, lo)) if lo else {}, "lo")
                    else:
                        if lo:
                            o.set_bounds(dict(zip(key, lo)), "lo")
                        if up:
                            o.set_bounds(dict(zip(key, up)))
                    m.lo, m.up = dl, du
                    mac.path = [task["state"], "bounds", key, lo, up]
                    mac.check(rep)
                    rep.add("evaluations")
                    if rep.violations:
                        return
        rep.state((task["case"], task["state"], "bounds", s))


def plan(thorough):
    t = [dict(case=i, state=s, deep=thorough) for i in range(len(MENU)) if thorough or i not in (9, 2, 3) for s in ("none", "some", "lpi")]
    yield t_polys, [x for x in t if thorough or x["state"] == ("none", "some", "lpi")[x["case"] % 3] or x["case"] in (0, 12)]
    yield t_bounds, t
