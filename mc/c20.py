"""C20: an exported LP is the LP that solve() would solve."""
import os
import tempfile
from itertools import product

import mosek
import numpy as np

import alg
import common
import fakelp
import hist
from c05 import S, TWO, BIL, TRI
from c19 import compare, rows

LEVEL = "exploration"
RULE = ("for each LP of a menu (with all outcomes or not, classical and non-fanout, LPI constraints, supports, variables non-negative by default or free) and every combination of: "
        "known values (none, one, several, zero, negative, tiny and repeating decimals, inconsistent, a whole distribution, with LPI), objective (none, constants, known moments, "
        "minimisation, fractions), bounds (none, both, negative, zero, on known moments), extra equalities and inequalities (none, one, several, only known moments): the file written "
        "as .lp, .mps or through lp_to_mps is read by MOSEK's own reader; the polyhedron and objective read, column xi being the i-th variable, are those that solve() hands to the "
        "solver with the known values substituted. Non-trivial: programs with known values or extra constraints")
ASSUMPTIONS = ["in the files, xi is the i-th variable of InflationLP.monomials", "MOSEK's reader drops the sign of the constant in the objective of an LP file: it is read from the text, and not compared after lp_to_mps", "the objective written is the expression that is maximised (minus the objective when minimising)"]
WING = [["s0", ["A"]], ["s1", ["B"]], ["s2", ["C"]]]
MENU = {
    "bell": (S(TWO, [2, 2], [2, 1], [1]), dict(nonfanout=True)),
    "all": (S(TWO, [2, 2], [1, 1], [2]), dict(nonfanout=True, include_all_outcomes=True)),
    "classical": (S(TWO, [2, 2], [1, 1], [2], "all"), dict(nonfanout=False)),
    "free": (S(TWO, [2, 2], [1, 1], [2]), dict(nonfanout=True, default_non_negative=False)),
    "bilocal": (S(BIL, [2, 2, 2], [1, 1, 1], [1, 1]), dict(nonfanout=True)),
    "instrumental": (S(TWO + [["A", ["B"]]], [2, 2], [1, 1], [2]), dict(nonfanout=True)),
    "independent": (S(WING, [2, 2, 2], [1, 1, 1], [1, 1, 1], "all"), dict(nonfanout=False)),
    "supports": (S(TWO, [2, 2], [1, 1], [2]), dict(nonfanout=True, supports_problem=True)),
}


def sub(e, known):
    out = {}
    for k, c in e.items():
        if k in known:
            c, k = c * known[k], hist.ONE
        out[k] = out.get(k, 0) + c
    return {k: c for k, c in out.items() if abs(c) > 1e-12}


def program(mac):
    mac.rec.args = None
    mac.o.solve()
    a = mac.rec.args
    keys = [mac.pb.byname[str(n)] for n in a["variables"]]
    if mac.o.supports_problem:
        keys = [("free one",) if k == hist.ONE else k for k in keys]

    def vec(m):
        m = m.tocoo()
        return {keys[j]: float(v) for j, v in zip(m.col, m.data)}

    def mat(m):
        m = m.tocoo()
        out = [{} for _ in range(m.shape[0])]
        for i, j, v in zip(m.row, m.col, m.data):
            out[i][keys[j]] = out[i].get(keys[j], 0) + float(v)
        return out
    known, lo, up = vec(a["known_vars"]), vec(a["lower_bounds"]), vec(a["upper_bounds"])
    if a["default_non_negative"]:
        lo = {**{k: 0. for k in keys}, **lo}
    f = lambda e: sub(e, known)
    ineqs = [f(e) for e in mat(a["inequalities"])] + [f({k: 1, hist.ONE: -v} if k != hist.ONE else {k: 1 - v}) for k, v in lo.items()] \
        + [f({k: -1, hist.ONE: v} if k != hist.ONE else {k: v - 1}) for k, v in up.items()]
    return dict(M=[], obj=f(vec(a["objective"])), eqs=rows([f(e) for e in mat(a["equalities"])], True), ineqs=rows(ineqs, False), known=known), keys


def lp_constant(fn):
    """The constant in the objective of an LP file: MOSEK drops its sign."""
    text = open(fn).read().split("obj:")[1].split("subject to")[0]
    total, sign, num = 0., 1., None
    for t in text.split() + ["+"]:
        if t in "+-":
            total += num * sign if num is not None else 0
            sign, num = (1. if t == "+" else -1.), None
        else:
            try:
                num = float(t)
            except ValueError:
                num = None
    return total


def read(fn, keys):
    with mosek.Task() as t:
        t.readdata(fn)
        maximize, c, c0, A, (L, U), (lo, up) = fakelp.read(t)
        names = [t.getvarname(j) for j in range(t.getnumvar())]
    if not maximize:
        c, c0 = -c, -c0
    if fn.endswith(".lp"):
        c0 = lp_constant(fn) * (1 if maximize else -1)
    var = [keys[int(n[1:])] if n[1:].isdigit() else (n,) for n in names]     # any other variable must be idle
    eqs, ineqs = [], []
    for k in range(len(A) + len(var)):
        e, l, u = ({v: x for v, x in zip(var, A[k]) if x}, L[k], U[k]) if k < len(A) else ({var[k - len(A)]: 1.}, lo[k - len(A)], up[k - len(A)])
        if l == u and k < len(A):
            eqs.append({**e, hist.ONE: -l})
        else:
            if k >= len(A) and type(var[k - len(A)][0]) is str and (l, u) == (0, np.inf):
                continue
            ineqs += [{**e, hist.ONE: -l}] if np.isfinite(l) else []
            ineqs += [{**{v: -x for v, x in e.items()}, hist.ONE: u}] if np.isfinite(u) else []
    # a variable that appears in no row or bound is in the file only by its default bound
    return dict(M=[], obj={k: x for k, x in {**dict(zip(var, c)), hist.ONE: c0}.items() if x}, eqs=rows(eqs, True), ineqs=rows(ineqs, False)), set(var)


def options(mac, name):
    from c07 import distribution
    import ref
    pb = mac.pb
    r = ref.Scenario(mac.sc)
    ms = sorted((k for k in pb.keys if k not in (alg.ZERO, hist.ONE)), key=lambda k: (len(k), sum(map(len, k)), k))
    atoms = [k for k in ms if len(k) == 1]
    prods = [k for k in ms if len(k) > 1]
    mom = pb.mom
    a, b = atoms[0], atoms[-1]
    p = prods[0] if prods else atoms[len(atoms) // 2]
    inner = next((k for k in prods if a[0] in k), p)
    one = mac.o.One
    none = ("none", lambda o: None)
    if name == "supports":
        vals = [none, ("zero", lambda o: o.set_values({mom[a]: 0})), ("positive", lambda o: o.set_values({mom[a]: 1})), ("both", lambda o: o.set_values({mom[a]: 1, mom[b]: 0}))]
        return vals, [none], [none], [none], [none]
    P = distribution(r, 3)
    vals = [none,
            ("one", lambda o: o.set_values({mom[a]: .375})),
            ("third", lambda o: o.set_values({mom[a]: 1 / 3, mom[b]: np.float64(2e-5) / 3})),
            ("zero", lambda o: o.set_values({mom[b]: 0})),
            ("negative", lambda o: o.set_values({mom[b]: -.25})),
            ("several", lambda o: o.set_values({mom[a]: .375, mom[p]: .125})),
            ("lpi", lambda o: o.set_values({mom[a]: .375}, use_lpi_constraints=True)),
            ("distribution", lambda o: o.set_distribution(P)),
            ("distribution-lpi", lambda o: o.set_distribution(P, use_lpi_constraints=True)),
            ("inconsistent", lambda o: o.set_values({k: .75 for k in [mom[x] for x in atoms]}))]
    e1 = {mom[a]: .5, mom[b]: -2}
    e2 = {mom[p]: 1, one: .25}
    e3 = {mom[a]: -.75, mom[p]: 1 / 3, mom[b]: 1.25e-6, one: -1e-5 / 3}
    e4 = {mom[ms[-1]]: 1, mom[ms[len(ms) // 2]]: -1}
    objs = [none, ("single", lambda o: o.set_objective({mom[b]: 1})), ("e1", lambda o: o.set_objective(e1)), ("e2min", lambda o: o.set_objective(e2, "min")),
            ("e3", lambda o: o.set_objective(e3)), ("known", lambda o: o.set_objective({mom[a]: 1.5, one: -1}))]
    bnds = [none,
            ("both", lambda o: (o.set_bounds({mom[b]: .75}, "up"), o.set_bounds({mom[b]: .125}, "lo"))),
            ("negative", lambda o: (o.set_bounds({mom[b]: -.0625, mom[p]: .5}, "up"), o.set_bounds({mom[p]: -.5, mom[a]: -1 / 3}, "lo"))),
            ("zero", lambda o: o.set_bounds({mom[b]: 0, mom[p]: 0, mom[inner]: 0}, "up")),
            ("every", lambda o: (o.set_bounds({mom[k]: .5 + i / 64 for i, k in enumerate(ms)}, "up"), o.set_bounds({mom[k]: -i / 64 for i, k in enumerate(ms)}, "lo")))]
    eqs = [none, ("e1", lambda o: o.set_extra_equalities([e1])), ("e2,e3", lambda o: o.set_extra_equalities([e2, e3])), ("known", lambda o: o.set_extra_equalities([{mom[a]: 1, one: -.5}, e4]))]
    ineqs = [none, ("e2", lambda o: o.set_extra_inequalities([e2])), ("e1,e3,e4", lambda o: o.set_extra_inequalities([e1, e3, e4])), ("known", lambda o: o.set_extra_inequalities([{mom[a]: -1, one: .25}, {mom[inner]: 1, one: -.5}]))]
    return vals, objs, bnds, eqs, ineqs


def t_export(task, rep):
    from inflation.lp.writer_utils import lp_to_mps
    sc, kw = MENU[task["case"]]
    mac = hist.Machine("lp", sc, **kw)
    menus = options(mac, task["case"])
    o = mac.o
    with tempfile.TemporaryDirectory(prefix="v1.2.") as tmp:
        for n, pick in enumerate(product(*[range(len(m)) for m in menus])):
            if n % task["parts"] != task["part"]:
                continue
            # quick: every state of values with every single other option, and one in four of the rest
            if not task["deep"] and sum(1 for x in pick[1:] if x) > 1 and (sum(pick) + n // 7) % 4:
                continue
            o.reset("all")
            chosen = [m[i] for m, i in zip(menus, pick)]
            for label, fn in chosen:
                fn(o)
            where = f"{task['case']}, " + ", ".join(f"{w}={c[0]}" for w, c in zip(("values", "objective", "bounds", "equalities", "inequalities"), chosen))
            fn = os.path.join(tmp, "f" + task["format"])
            o.write_to_file(fn)
            if task["format"] == ".lp" and n % 5 == 0:      # the same through the other converter
                lp_to_mps(dict(o._prepare_solver_arguments(separate_bounds=True), default_non_negative=o.default_non_negative), os.path.join(tmp, "g.mps"))
            want, keys = program(mac)
            say = lambda what: f"{where}, {task['format']}: {what}"
            for f in [fn] + ([os.path.join(tmp, "g.mps")] if task["format"] == ".lp" and n % 5 == 0 else []):
                rep.add("evaluations")
                try:
                    got, var = read(f, keys)
                except mosek.Error as e:
                    rep.violation("unreadable", say(f"MOSEK cannot read the file: {e}"))
                    continue
                # variables left out of the file appear in no constraint: their own bounds are all there is
                w = dict(want, ineqs={x for x in want["ineqs"] if x == "impossible" or not own_bound(x, var, want)})
                compare(rep, w, got, say, constant=not f.endswith('g.mps'))
                rep.ok(not var & set(want["known"]), "known columns", lambda: say(f"known moments are variables: {var & set(want['known'])}"))
            for f in os.listdir(tmp):
                os.unlink(os.path.join(tmp, f))
            if len(want["known"]) > 2 or any(pick[1:]):
                rep.state((task["case"], pick))
            if rep.violations:
                return
    rep.sample(dict(case=task["case"], format=task["format"]))


def own_bound(row, var, want):
    """A default bound x >= 0 of a variable that is used nowhere else."""
    ks = [k for k, c in row if k != hist.ONE]
    if len(ks) != 1 or ks[0] in var or row != ((ks[0], 1.),):
        return False
    return not any(ks[0] in dict(x) for what in ("eqs", "ineqs") for x in want[what] if x not in ("impossible", row)) and ks[0] not in want["obj"]


def t_names(task, rep):
    """The default format and the rejected ones, for both kinds of problem."""
    for mac in (hist.Machine("lp", MENU["bell"][0], **MENU["bell"][1]), hist.Machine("sdp", S(TWO, [2, 2], [1, 1], [1]), "npa1")):
        default, known = (".lp", [".lp", ".mps"]) if mac.kind == "lp" else (".dat-s", [".dat-s", ".csv", ".mat"])
        with tempfile.TemporaryDirectory() as tmp:
            os.mkdir(os.path.join(tmp, "dir.v2"))
            os.mkdir(os.path.join(tmp, "here"))
            cwd = os.getcwd()
            os.chdir(os.path.join(tmp, "here"))
            try:
                for stem, ext in product(("plain", "./plain", "../plain", os.path.join(tmp, "plain"), os.path.join(tmp, "dir.v2", "plain"), "two.parts"), [""] + known):
                    if stem == "two.parts" and not ext:
                        continue
                    mac.o.write_to_file(stem + ext)
                    fn = os.path.abspath(stem + (ext or default))
                    rep.add("evaluations")
                    rep.ok(os.path.exists(fn), "file name", lambda: f"write_to_file({stem + ext!r}) did not write {fn}")
                    if os.path.exists(fn):
                        os.unlink(fn)
                    rep.state((mac.kind, stem, ext))
                left = [os.path.join(d, f) for d, _, fs in os.walk(tmp) for f in fs]
                rep.ok(not left, "file name", lambda: f"unexpected files {left}")
                for bad in ("f.txt", "f.json"):
                    rep.add("evaluations")
                    try:
                        mac.o.write_to_file(bad)
                        rep.violation("format", f"{bad}: an unsupported format was accepted")
                    except Exception:
                        pass
            finally:
                os.chdir(cwd)


def warmup():
    mac = hist.Machine("lp", MENU["all"][0], **MENU["all"][1])
    mac.o.solve()


def plan(thorough):
    yield t_export, [dict(case=k, format=e, part=i, parts=3, deep=thorough) for k in MENU for e in (".lp", ".mps") for i in range(3)]
    yield t_names, [{}]
