"""C23: the critical parameter found by max_within_feasible is the critical one."""
from itertools import product

import numpy as np
import sympy as sp

import c22
import fakesdp

LEVEL = "exploration"
RULE = ("for each SDP/LP of a menu, straight and quadratic paths from feasible distributions to every infeasible one of a finite list, given as the values of "
        "all known moments, of all but the unit, or as a mixture of numbers and expressions; both methods, dual and primal, several intervals (for LPs also beyond the distributions) and precisions, with and "
        "without asking for the last certificate; with linearised polynomial constraints or only the specified values, on the paths from the product of the marginals; and the value of any single moment as parameter, against the optimum of that moment: the value returned must be the parameter where the program stops being feasible (found by bisection on "
        "the verdict of solve(), and known exactly for CHSH, Tsirelson and Pearl) within the precision, and the surface returned must "
        "vanish there, be positive before and negative after. Non-trivial: critical values strictly inside the interval")
ASSUMPTIONS = c22.ASSUMPTIONS
CASES = ["chsh-lp", "chsh-npa1", "chsh-npa2", "chsh-nonfanout", "bilocal-nonfanout", "bilocal-lp", "triangle-lp", "instrumental-lp", "instrumental-npa", "triangle-npa"]


def ends(case, thorough):
    """(label, feasible end, infeasible end)"""
    r, dist = c22.distributions(case, False)
    shape = dist[0][1].shape
    noise = np.full(shape, 1 / np.prod(r.outcomes))
    d = dict(dist)
    kind = c22.MENU[case][2]
    if kind == "pr":
        start = [("noise", noise), ("det", d["det(0, 1, 1, 1)"])]
        stop = [k for k in d if k.startswith("PR") and k.endswith("*1")]
    elif kind == "subsets":
        start = [("noise", noise), ("det", d["((0, 0, 0),)*1"])]
        stop = [k for k in d if k.endswith("*1") and k.count("),") > 0][8::1 if thorough else 7]
    else:
        start = [("noise", noise), ("det", next(iter(d.values())) * 0 + c22.noisy(0, 0, r))]
        start = start[:1] + [("first", d["((0, 0), (0, 0))*1"])]
        stop = [k for k in d if k.endswith("*1")]
    return r, [(f"{s}->{k}", P, d[k]) for s, P in start for k in stop]


def feasible(b, P):
    b.obj.set_distribution(P)
    s = b.solve()
    if "unknown" in str(s.solsta):
        return None
    return bool(b.obj.success)


def reference(b, path, lo, hi):
    """Critical value in [lo, hi] by bisection on the verdict (None: the ends
    do not enclose one)."""
    if feasible(b, path(lo)) is not True or feasible(b, path(hi)) is not False:
        return None
    while hi - lo > 1e-6:
        m = (lo + hi) / 2
        f = feasible(b, path(m))
        if f is None:
            return None
        lo, hi = (m, hi) if f else (lo, m)
    return (lo + hi) / 2


def values(b, P0, P1, v, power, form):
    """The assignment of moments along the path, as expressions of v."""
    w = v ** power
    A = np.empty(P0.shape, dtype=object)
    for i in np.ndindex(*P0.shape):
        A[i] = P0[i] + w * (P1[i] - P0[i]) if P1[i] != P0[i] or form != "mixed" else float(P0[i])
    b.obj.set_distribution(A)
    vals = dict(b.obj.known_moments)
    if form == "bare":
        vals = {m: x for m, x in vals.items() if not m.is_one}
    elif form == "mixed":
        vals = {m: (float(x) if not getattr(x, "free_symbols", ()) else x) for m, x in vals.items()}
    elif form == "atoms":
        vals = {m: x for m, x in vals.items() if m.n_factors == 1 and not m.is_one}
    return vals


def t_paths(task, rep):
    from inflation import max_within_feasible
    b = c22.Bench(task["case"], 4)
    r, paths = ends(task["case"], task["thorough"])
    v = sp.Symbol("v")
    for k, (label, P0, P1) in enumerate(paths):
        if k % task["parts"] != task["part"]:
            continue
        for power in (1, 2):
            path = lambda x: P0 + x ** power * (P1 - P0)
            true = reference(b, path, 0., 1.)
            # Near a vertex the violation grows too slowly (v^4) to be told from
            # the tolerance of the solver
            if true is None or true < (.02 if power == 1 else .1) or true > 1 - 1e-3:
                rep.add("no_critical_value")
                continue
            exact = c22.truth(b.crit, r, path(true + .01), label if label.startswith("noise") else "")
            rep.ok(exact is not True, "reference", lambda: f"{task['case']} {label}: infeasible at {true + .01}, where the exact criterion says feasible")
            combos = list(product(("bisection", "dual"), (True, False), ("known", "bare", "mixed", "atoms"), ((0., 1.), (true / 2, .5 + true / 2)) + (((0., 1.7),) if b.lp else ()), (1e-4, 1e-3), (True, False)))
            for j, (method, dual, form, bounds, prec, last) in enumerate(combos):
                if (j + k) % task["thin"] and not (dual and form == "known" and bounds == (0., 1.) and prec == 1e-4):
                    continue
                rep.add("evaluations")
                say = lambda what: f"{task['case']} {label}^{power}, {method}, solve_dual={dual}, values {form}, bounds {bounds}, precision {prec}: {what}, the critical value is {true}"
                vals = values(b, P0, P1, v, power, form)
                with fakesdp.Patch():
                    out = max_within_feasible(b.obj, vals, method, return_last_certificate=last, solve_dual=dual, precision=prec, bounds=np.array(bounds))
                crit, cert = out if last else (out, None)
                rep.ok(abs(float(crit) - true) < 2.5 * prec, f"critical:{method}", lambda: say(f"returned {crit}"))
                if last:
                    at = lambda x: sum(float(c) * b.moment(m, path(x)) for m, c in cert.items())
                    size = max([abs(float(c)) for c in cert.values()], default=0.)
                    ok = size > 0 and abs(at(true)) < .05 * size and at(bounds[1]) < 0 and at(bounds[0]) > -.01 * size
                    rep.ok(ok, f"certificate:{method}", lambda: say(f"the surface {cert} takes the values {at(bounds[0])}, {at(true)}, {at(bounds[1])} at the lower end, the critical value and the upper end"))
                rep.state((task["case"], label, power, method, dual, form, bounds, prec))
                if rep.violations:
                    return
    rep.sample(dict(case=task["case"], paths=len(paths)))


def t_options(task, rep):
    """The constraints on proportionalities, and propagating values or not,
    reach the programs that are solved.  The dual method needs that the
    proportionality factors do not change along the path."""
    from inflation import max_within_feasible
    b = c22.Bench(task["case"], 4)
    r, dist = c22.distributions(task["case"], False)
    v = sp.Symbol("v")
    stops = [(k, P) for k, P in dist if k.endswith("*1") and k.count("),") > 0]
    for k, (label, P1) in enumerate(stops):
        if k % task["parts"] != task["part"]:
            continue
        marg = [P1.sum(axis=tuple(q for q in range(r.n) if q != p)).ravel() for p in range(r.n)]
        P0 = np.einsum("a,b,c->abc", *marg).reshape(P1.shape)
        path = lambda x: P0 + x * (P1 - P0)
        seen = {}
        for lpi, only, form in ((False, False, "atoms"), (True, False, "atoms"), (False, True, "known"), (False, True, "atoms")):
            def feas(x):
                b.obj.set_distribution(path(x))
                vals = {m: c for m, c in b.obj.known_moments.items() if form == "known" or (m.n_factors == 1 and not m.is_one)}
                b.obj.set_values(vals, use_lpi_constraints=lpi, only_specified_values=only)
                s = b.solve()
                f = [round(float(c), 9) for c, _ in b.obj.semiknown_moments.values()] if lpi else []
                return None if "unknown" in str(s.solsta) else bool(b.obj.success), f
            (f0, c0), (f1, c1) = feas(0.), feas(1.)
            if f0 is not True or f1 is not False:
                rep.add("no_critical_value")
                continue
            lo, hi = 0., 1.
            while hi - lo > 1e-6 and lo is not None:
                m = (lo + hi) / 2
                f = feas(m)[0]
                lo, hi = (None, hi) if f is None else (m, hi) if f else (lo, m)
            if lo is None or not .02 < lo < 1 - 1e-3:
                rep.add("no_critical_value")
                continue
            seen[lpi, only, form] = round(lo, 3)
            for method in ("bisection", "dual") if c0 == c1 == feas(lo / 2)[1] else ("bisection",):
                rep.add("evaluations")
                vals = values(b, P0, P1, v, 1, form)
                with fakesdp.Patch():
                    out = max_within_feasible(b.obj, vals, method, use_lpi_constraints=lpi, only_specified_values=only)
                if not rep.ok(abs(float(out) - lo) < 2.5e-4, f"critical:{method}", lambda: f"{task['case']} {label} from the product of its marginals, {method}, use_lpi_constraints={lpi}, "
                              f"only_specified_values={only}, values {form}: returned {out}, the critical value is {lo}"):
                    return
                rep.state((task["case"], label, method, lpi, only, form))
        if len(set(seen.values())) > 1:
            rep.add("paths_where_options_matter")
    rep.sample(dict(case=task["case"], paths=len(stops)))


def t_single(task, rep):
    """The largest value that a single moment takes, given as a multiple of
    the parameter: its maximum as an objective."""
    from inflation import max_within_feasible
    b = c22.Bench(task["case"], 4)
    o = b.obj
    v = sp.Symbol("v")
    r, dist = c22.distributions(task["case"], False)
    o.set_distribution(dist[0][1])
    known = [m for m in o.known_moments if m.n_factors == 1 and m.is_atomic and not m.is_one and not m.is_zero]
    for k, m in enumerate(known):
        if k % task["parts"] != task["part"]:
            continue
        o.set_values(None)
        o.set_objective({m: 1.}, "max")
        with fakesdp.Patch():
            o.solve()
        top = o.objective_value
        o.set_objective({m: 1.}, "min")
        with fakesdp.Patch():
            o.solve()
        low = o.objective_value
        o.set_objective(None)
        if not rep.ok(isinstance(top, float) and isinstance(low, float) and low < .01, "optimum", lambda: f"{task['case']}: extrema of {m} are {low}, {top}"):
            return
        for scale, shift, method, dual in ((1, 0, "bisection", True), (1, 0, "dual", True), (.8, .05, "bisection", False), (.8, .05, "dual", False)):
            start = (.01 if low > -.01 else 0) / scale
            want = (top - shift) / scale
            rep.add("evaluations")
            with fakesdp.Patch():
                out = max_within_feasible(o, {m: scale * v + shift}, method, solve_dual=dual, bounds=np.array([start, want + .45]))
            if not rep.ok(abs(float(out) - want) < 1e-3, f"single:{method}", lambda: f"{task['case']}, {method}, solve_dual={dual}: {m} as {scale}*v + {shift}: returned {out}, should be {want}"):
                return
            rep.state((task["case"], m.name, method, dual))
    rep.sample(dict(case=task["case"], moments=[m.name for m in known][:8]))


def warmup():
    c22.warmup()


def plan(thorough):
    n = {k: len(ends(k, thorough)[1]) for k in CASES}
    yield t_paths, [dict(case=k, part=i, parts=min(n[k], 8), thin=4 if thorough else 16, thorough=thorough) for k in CASES for i in range(min(n[k], 8))]
    yield t_single, [dict(case=k, part=i, parts=4) for k in CASES for i in range(4)]
    yield t_options, [dict(case=k, part=i, parts=16 if thorough else 8) for k in ("triangle-nonfanout", "triangle-lp", "bilocal-lp", "bilocal-nonfanout") for i in range(16 if thorough else 8)]
