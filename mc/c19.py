"""C19: an exported SDP is the SDP that solve() would solve."""
import os
import re
import tempfile
from itertools import product

import numpy as np

import alg
import hist
from c05 import S, TWO, BIL, TRI

LEVEL = "exploration"
RULE = ("for each SDP of a menu (with and without zero entries, normalisation equalities, LPI constraints, supports) and every combination of: known values (none, one, one "
        "negative, one zero, several, a whole distribution, with LPI), objective (none, single, with constants, with known and semiknown moments, minimisation), bounds "
        "(none, both on a free moment, negative, zero, on semiknown and known moments), extra equalities and inequalities (none, one, several, with constants, with known and "
        "semiknown moments): the file written in each of the formats .dat-s, .csv and .mat is read back by an independent parser; its matrix, objective, equalities and "
        "inequalities (bounds included), as affine expressions of the unknown moments, are those that solve() hands to the solver, and the file is well formed "
        "(counts of variables and blocks, ranges of indices, no duplicated entries). Non-trivial: programs with known values or constraints")
ASSUMPTIONS = ["the objective line of .dat-s holds the coefficients of the expression that is maximised (fixed by the test suite), without the constant"]
WING = [["s0", ["A"]], ["s1", ["B"]]]
MENU = {
    "single": (S([["s0", ["A"]]], [3], [2], [2]), "npa1", {}),
    "two-copies": (S(TWO, [2, 2], [1, 1], [2]), "npa2", {}),
    "bell": (S(TWO, [2, 2], [2, 2], [1]), "npa1", {}),
    "no-zero": (S([["s0", ["A"]]], [2], [1], [2]), "local1", {}),
    "bilocal": (S(BIL, [2, 2, 2], [1, 1, 1], [2, 1]), "npa1", {}),
    "instrumental": (S(TWO + [["A", ["B"]]], [2, 2], [1, 1], [1]), "npa2", {}),
    "triangle": (S(TRI, [2, 2, 2], [1, 1, 1], [2, 1, 1]), "npa1", {}),
    "supports": (S(TWO, [2, 2], [1, 1], [2]), "npa2", dict(supports_problem=True)),
}


# ------------------------------------------------------------ canonical forms
def affine(pb, expr, known, semi):
    """{moment: coeff} in terms of the unknown ones."""
    out = {}
    for k, c in expr.items():
        for _ in range(9):
            if k not in semi:
                break
            f, k = semi[k]
            c = c * f
        if k == alg.ZERO:
            continue
        if k in known:
            c, k = c * known[k], hist.ONE
        out[k] = out.get(k, 0) + float(c)
    return {k: c for k, c in out.items() if abs(c) > 1e-10}


def rows(exprs, eq):
    out = set()
    for e in exprs:
        vs = sorted((k for k in e if k != hist.ONE), key=repr)
        if not vs:
            v = e.get(hist.ONE, 0)
            if (abs(v) > 1e-9 if eq else v < -1e-9):
                out.add("impossible")
            continue
        s = max(abs(c) for k, c in e.items() if k != hist.ONE)
        if eq and e[vs[0]] < 0:
            s = -s
        out.add(tuple(sorted(((k, round(float(c / s), 9)) for k, c in e.items() if abs(c / s) > 1e-9), key=lambda x: repr(x[0]))))
    return out


def program(mac, extra=()):
    """What solve() hands to the solver, in canonical form; moments by key."""
    mac.rec.args = None
    mac.o.solve()
    a = mac.rec.args
    key = lambda n: mac.pb.byname[n] if n in mac.pb.byname else mac.pb.ident(mac.o.monomial_from_name[n])
    unit = mac.o.constant_term_name
    free_one = "1" not in a["known_vars"]
    if free_one:      # the unit is a variable of unnormalised problems
        k0 = key
        key = lambda n: ("free one",) if n == "1" else k0(n)
    known = {key(n): float(v) for n, v in a["known_vars"].items()}
    semi = {key(n): (float(c), key(x)) for n, (c, x) in a["semiknown_vars"].items()}
    form = lambda e: affine(mac.pb, {key(n): c for n, c in addup(e, key).items()}, known, semi)
    n = mac.o.momentmatrix.shape[0]
    M = [[{} for _ in range(n)] for _ in range(n)]
    for name, m in a["mask_matrices"].items():
        m = m.toarray() if hasattr(m, "toarray") else np.asarray(m)
        for i, j in zip(*np.nonzero(m)):
            M[i][j][name] = M[i][j].get(name, 0) + m[i, j]
    return dict(M=[[form(M[i][j]) for j in range(n)] for i in range(n)], obj=form(a["objective"]), eqs=rows(map(form, a["equalities"]), True),
                ineqs=rows(map(form, a["inequalities"]), False), known=known, semi=semi, free_one=free_one)


def addup(e, key):
    out = {}
    seen = {}
    for n, c in e.items():
        k = key(n)
        if k in seen:
            out[seen[k]] += c
        else:
            seen[k] = n
            out[n] = c
    return out


def weaker(e, f):
    de, df = dict(e) if e != "impossible" else {}, dict(f) if f != "impossible" else {}
    ce, cf = de.pop(hist.ONE, 0), df.pop(hist.ONE, 0)
    return len(de) == 1 and de == df and ce > cf


def compare(rep, want, got, say, constant=True):
    n = len(want["M"])
    if n and not rep.ok(len(got["M"]) == n and all(len(r) == n for r in got["M"]), "shape", lambda: say(f"the matrix is {n}x{n}, the one written is {len(got['M'])}x{len(got['M'][0])}")):
        return
    close = lambda a, b: all(abs(a.get(k, 0) - b.get(k, 0)) < 1e-7 for k in {**a, **b})
    for i in range(n):
        for j in range(i, n):
            if not rep.ok(close(want["M"][i][j], got["M"][i][j]), "matrix", lambda: say(f"entry {i, j} should be {want['M'][i][j]}, the one written is {got['M'][i][j]}")):
                return
    cut = lambda e: {k: c for k, c in e.items() if constant or k != hist.ONE}
    rep.ok(close(cut(want["obj"]), cut(got["obj"])), "objective", lambda: say(f"the objective should be {cut(want['obj'])}, the one written is {cut(got['obj'])}"))
    for what in ("eqs", "ineqs"):
        a, b = want[what], got[what]
        full = a
        # rounding
        for x in list(a - b):
            for y in list(b - a):
                if x != "impossible" != y and [k for k, _ in x] == [k for k, _ in y] and all(abs(c - d) < 1e-8 for (_, c), (_, d) in zip(x, y)):
                    b = (b - {y}) | {x}
                    break
        if what == "ineqs":      # weaker bounds on the same moment need not be written
            a = {e for e in a if e in b or not any(weaker(e, f) for f in b)}
        rep.ok(b <= full or "impossible" in a & b, f"{what} added", lambda: say(f"{what} written that are not in the program: {sorted(b - a, key=repr)[:3]}, of {sorted(a, key=repr)[:6]}"))
        rep.ok(a <= b or "impossible" in a & b, f"{what} lost", lambda: say(f"{what} not written: {sorted(a - b, key=repr)[:3]}, of {sorted(b, key=repr)[:6]}"))


# -------------------------------------------------------------------- readers
def read_sdpa(fn, want, rep, say):
    lines = [l for l in open(fn).read().splitlines() if l.strip() and l[0] not in '"*']
    nvars = int(lines[0].split("=")[0])
    nblocks = int(lines[1].split("=")[0])
    struct = [int(x) for x in re.findall(r"-?\d+", lines[2].split("=")[0])]
    obj = [float(x) for x in lines[3].strip("{}() ").replace(",", " ").split()]
    rep.ok(len(struct) == nblocks and all(struct), "header", lambda: say(f"{nblocks} blocks announced, of sizes {struct}"))
    rep.ok(len(obj) == nvars, "header", lambda: say(f"{nvars} variables announced, {len(obj)} coefficients in the objective"))
    cells = {}
    used = set()
    for l in lines[4:]:
        v, b, i, j, x = l.split()
        v, b, i, j, x = int(v), int(b), int(i), int(j), float(x)
        rep.ok(0 <= v <= nvars and 1 <= b <= nblocks and 1 <= i <= j <= abs(struct[b - 1]) and (struct[b - 1] > 0 or i == j), "range", lambda: say(f"the entry {l!r} is out of range: {nvars} variables, blocks {struct}"))
        d = cells.setdefault((b, i, j), {})
        rep.ok(v not in d, "duplicate", lambda: say(f"two entries for variable {v} in position {i, j} of block {b}"))
        d[v] = d.get(v, 0) + (x if v else -x)
        used.add(v)
    if rep.violations:
        return None
    # variables are identified by where they appear in the matrix
    name = {0: hist.ONE}
    n = struct[0]
    for i in range(n):
        for j in range(i, n):
            w = [k for k in want["M"][i][j] if k != hist.ONE]
            g = [v for v in cells.get((1, i + 1, j + 1), {}) if v]
            if len(w) == len(g) == 1:
                if not rep.ok(name.setdefault(g[0], w[0]) == w[0], "variables", lambda: say(f"variable {g[0]} stands for both {name[g[0]]} and {w[0]}")):
                    return None
    rep.ok(len(set(name.values())) == len(name), "variables", lambda: say("two variables stand for the same moment"))
    named = lambda d: {name.get(v, f"x{v}"): c for v, c in d.items() if abs(c) > 1e-10}
    rep.ok(nvars == len(used | {v for v, c in enumerate(obj, 1) if c} | {0}) - 1, "header", lambda: say(f"{nvars} variables announced, but {sorted(used)[-1]} used"))
    diag = [named(cells.get((b + 1, i, i), {})) for b, s in enumerate(struct) if s < 0 for i in range(1, -s + 1)]
    return dict(M=[[named(cells.get((1, min(i, j) + 1, max(i, j) + 1), {})) for j in range(n)] for i in range(n)],
                obj=named(dict(enumerate(obj, 1))), rows=rows(diag, False))


def polynomial(text, names):
    """'0.5*P[A=0]-P[B=0]+1' in terms of names."""
    text = text.replace(" ", "")
    out = {}
    pos = 0
    order = sorted(names, key=len, reverse=True)
    while pos < len(text):
        m = re.compile(r"[+-]?").match(text, pos)
        sign = -1. if m.group() == "-" else 1.
        pos = m.end()
        m = re.compile(r"(\d+\.?\d*(e[+-]?\d+)?|\.\d+|(?=[P<]))", re.I).match(text, pos)
        if m is None:
            raise ValueError(f"cannot read {text[pos:]!r}")
        num = float(m.group()) if m.group() else 1.
        pos = m.end()
        nm = "1"
        if m.group() == "" or text[pos:pos + 1] == "*":
            pos += 1 if m.group() else 0
            nm = next((x for x in order if text.startswith(x, pos) and text[pos + len(x):pos + len(x) + 1] in ("", "+", "-")), None)
            if nm is None:
                raise ValueError(f"unknown moment in {text[pos:]!r}")
            pos += len(nm)
        elif text[pos:pos + 1] not in ("", "+", "-"):
            raise ValueError(f"cannot read {text[pos:]!r}")
        out[names[nm]] = out.get(names[nm], 0) + sign * num
    return out


def read_csv(fn, mac, want, form):
    names = {}
    for n, k in mac.pb.byname.items():
        n = n.replace(" ", "")
        names[n] = ("free one",) if want["free_one"] and n == "1" else k
        names[n.replace(",", ";")] = names[n]
    for k, (c, x) in want["semi"].items():
        if x not in mac.pb.mom:
            m = next(m for m, (c, y) in mac.o.semiknown_moments.items() if mac.pb.ident(m) == k)
            nm = mac.o.semiknown_moments[m][1].name.replace(" ", "")
            names[nm] = names[nm.replace(",", ";")] = x
    lines = open(fn).read().splitlines()
    n = mac.o.momentmatrix.shape[0]
    assert lines[0].startswith("Objective:")
    poly = lambda t: form(polynomial(t, names))
    M = [[poly(c) for c in l.split(",")] for l in lines[1:n + 1]]
    at = n + 1
    assert lines[at:at + 2] == ["Bounds:", "Variable,lower,upper"]
    at += 2
    ineqs = []
    while lines[at]:
        v, lo, up = lines[at].rsplit(",", 2)
        k = names[v.replace(" ", "")]
        ineqs += [form({k: 1, hist.ONE: -float(lo)})] if lo != "None" else []
        ineqs += [form({k: -1, hist.ONE: float(up)})] if up != "None" else []
        at += 1
    at += 1
    assert lines[at].startswith("Equalities")
    cut = next(i for i in range(at, len(lines)) if lines[i].startswith("Inequalities"))
    eqs = [poly(l) for l in lines[at + 1:cut] if l]
    ineqs += [poly(l) for l in lines[cut + 1:] if l]
    return dict(M=M, obj=poly(lines[0][len("Objective:"):]), eqs=rows(eqs, True), ineqs=rows(ineqs, False))


def read_mat(fn, mac, want, form):
    from scipy.io import loadmat
    d = loadmat(fn)
    key = {}
    for i, nm in d["moments_idx2name"]:
        nm = str(np.asarray(nm).ravel()[0])
        i = int(np.asarray(i).ravel()[0])
        assert i not in key, f"index {i} twice"
        key[i] = ("free one",) if want["free_one"] and nm == "1" else mac.pb.byname[nm]
    lo = min(key)
    known, semi = {}, {}
    for i, v in d["known_moments"].reshape(-1, 2):
        known[key[int(i)]] = float(v)
    for i, c, x in d["semiknown_moments"].reshape(-1, 3):
        k, (c0, x0) = key[int(i)], want["semi"].get(key[int(i)], (None, None))
        semi[k] = (float(c), key.setdefault(int(x), x0))
    f = lambda e: affine(mac.pb, e, known, semi)
    pairs = lambda a: [(key[int(i)], float(c)) for i, c in a.reshape(-1, 2)]

    def structs(a):
        out = []
        for s in a.ravel():
            e = {}
            for i, c in zip(s["moments"].ravel()[0].ravel(), s["coeffs"].ravel()[0].ravel()):
                e[key[int(i)]] = e.get(key[int(i)], 0) + float(c)
            out.append(f(e))
        return out
    ineqs = structs(d["moment_inequalities"]) + [f({k: 1, hist.ONE: -v} if k != hist.ONE else {k: 1 - v}) for k, v in pairs(d["moment_lowerbounds"])]
    ineqs += [f({k: -1, hist.ONE: v} if k != hist.ONE else {k: v - 1}) for k, v in pairs(d["moment_upperbounds"])]
    assert d["momentmatrix"].min() >= 1, "MATLAB indices start at 1"
    assert lo >= 1
    obj = {}
    for k, c in pairs(d["objective"]):
        obj[k] = obj.get(k, 0) + c
    return dict(M=[[f({key[int(x)]: 1}) for x in row] for row in d["momentmatrix"]], obj=f(obj), eqs=rows(structs(d["moment_equalities"]), True), ineqs=rows(ineqs, False))


# ----------------------------------------------------------------- enumeration
def options(mac, name):
    """Menus of values, objectives, bounds, equalities, inequalities."""
    from c07 import distribution, value
    import ref
    pb = mac.pb
    r = ref.Scenario(mac.sc)
    ms = sorted((k for k in pb.keys if k not in (alg.ZERO, hist.ONE)), key=lambda k: (len(k), sum(map(len, k)), k))
    atoms = [k for k in ms if len(k) == 1]
    prods = [k for k in ms if len(k) > 1]
    mom = pb.mom
    a, b = atoms[0], atoms[-1]
    p = prods[0] if prods else atoms[len(atoms) // 2]
    inner = next((k for k in prods if a[0] in k), None)
    neg = sorted((k for k in atoms if k not in pb.nonneg), key=lambda k: any(k[0] in q for q in prods))
    P = distribution(r, 3)
    vals = [("none", lambda o: None)]
    if name == "supports":
        vals += [("zero", lambda o: o.set_values({mom[a]: 0})), ("positive", lambda o: o.set_values({mom[a]: 1})),
                 ("both", lambda o: o.set_values({mom[a]: 1, mom[b]: 0}))]
        return vals, [("none", lambda o: None)], [("none", lambda o: None)], [("none", lambda o: None)], [("none", lambda o: None)]
    vals += [("one", lambda o: o.set_values({mom[a]: .375})),
             *([("negative", lambda o: o.set_values({mom[neg[0]]: -.25}))] if neg else []),
             *([("lpi-negative", lambda o: o.set_values({mom[neg[-1]]: -.375}, use_lpi_constraints=True))] if neg else []),
             ("zero", lambda o: o.set_values({mom[b]: 0})),
             ("small", lambda o: o.set_values({mom[b]: 1.25e-6, mom[a]: .5})),
             ("several", lambda o: o.set_values({mom[a]: .375, mom[p]: .125})),
             ("lpi", lambda o: o.set_values({mom[a]: .375}, use_lpi_constraints=True)),
             ("distribution", lambda o: o.set_distribution(P)),
             ("distribution-lpi", lambda o: o.set_distribution(P, use_lpi_constraints=True))]
    one = mac.o.One
    e1 = {mom[a]: .5, mom[b]: -2}
    e2 = {mom[p]: 1, one: .25}
    e3 = {mom[a]: -.75, mom[p]: 3, mom[b]: .125, one: -.5}
    e4 = {mom[ms[-1]]: 1, mom[ms[len(ms) // 2]]: -1}
    objs = [("none", lambda o: None), ("single", lambda o: o.set_objective({mom[b]: 1})), ("e1", lambda o: o.set_objective(e1)), ("e2", lambda o: o.set_objective(e2)),
            ("e3min", lambda o: o.set_objective(e3, "min")), ("e4", lambda o: o.set_objective(e4)), ("product", lambda o: o.set_objective({mom[inner or p]: -1.5, mom[a]: 1}))]

    def bound(o, d, typ):
        # bounds that contradict a known value are rejected
        known = {k: float(v) for k, v in o.known_moments.items()}
        o.set_bounds({m: np.float64(v) for m, v in d.items() if (v - known.get(m, v)) * (1 if typ == "up" else -1) >= 0}, typ)

    bnds = [("none", lambda o: None),
            ("both", lambda o: (bound(o, {mom[b]: .75}, "up"), bound(o, {mom[b]: .125}, "lo"))),
            ("negative", lambda o: (bound(o, {mom[b]: -.0625, mom[p]: .5}, "up"), bound(o, {mom[p]: -.5}, "lo"))),
            ("zero", lambda o: bound(o, {mom[b]: 0, mom[a]: 0}, "up")),
            ("known", lambda o: (bound(o, {mom[a]: .5}, "up"), bound(o, {mom[a]: .25}, "lo"))),
            ("product", lambda o: bound(o, {mom[inner or p]: .25}, "up"))]
    eqs = [("none", lambda o: None), ("e1", lambda o: o.set_extra_equalities([e1])), ("e2,e3", lambda o: o.set_extra_equalities([e2, e3])), ("e4", lambda o: o.set_extra_equalities([e4, {mom[inner or p]: 1, mom[a]: -1}]))]
    ineqs = [("none", lambda o: None), ("e2", lambda o: o.set_extra_inequalities([e2])), ("e1,e3,e4", lambda o: o.set_extra_inequalities([e1, e3, e4])), ("product", lambda o: o.set_extra_inequalities([{mom[inner or p]: 1, one: -.5}, {one: 1, mom[p]: -1}]))]
    return vals, objs, bnds, eqs, ineqs


def t_export(task, rep):
    sc, spec, kw = MENU[task["case"]]
    mac = hist.Machine("sdp", sc, spec, **kw)
    menus = options(mac, task["case"])
    lens = [len(m) for m in menus]
    o = mac.o
    with tempfile.TemporaryDirectory() as tmp:
        for n, pick in enumerate(product(*[range(x) for x in lens])):
            if n % task["parts"] != task["part"]:
                continue
            # quick: every state of values with every single other option, and one in four of the rest
            if not task["deep"] and sum(1 for x in pick[1:] if x) > 1 and (sum(pick) + n // 7) % 4:
                continue
            o.reset("all")
            chosen = [m[i] for m, i in zip(menus, pick)]
            for label, fn in chosen:
                fn(o)
            where = f"{task['case']}, " + ", ".join(f"{w}={c[0]}" for w, c in zip(("values", "objective", "bounds", "equalities", "inequalities"), chosen))
            files = {}
            for ext in task["formats"]:
                files[ext] = os.path.join(tmp, f"f{ext}")
                o.write_to_file(files[ext])
            want = program(mac)
            form = lambda e: affine(mac.pb, e, want["known"], want["semi"])
            for ext, fn in files.items():
                say = lambda what: f"{where}, {ext}: {what}"
                rep.add("evaluations")
                if ext == ".dat-s":
                    got = read_sdpa(fn, want, rep, say)
                    if got is not None:
                        both = dict(got, eqs=set(), ineqs=got["rows"])
                        neg = lambda e: {k: -c for k, c in e}
                        exp = dict(want, eqs=set(), ineqs=want["ineqs"] | ({"impossible"} if "impossible" in want["eqs"] else set())
                                   | rows([dict(e) for e in want["eqs"] if e != "impossible"] + [neg(e) for e in want["eqs"] if e != "impossible"], False))
                        compare(rep, exp, both, say, constant=False)
                else:
                    got = read_csv(fn, mac, want, form) if ext == ".csv" else read_mat(fn, mac, want, form)
                    compare(rep, want, got, say)
                os.unlink(fn)
            if len(want["known"]) > 2 or want["eqs"] or want["semi"]:
                rep.state((task["case"], pick))
            if rep.violations:
                return
    rep.sample(dict(case=task["case"], combinations=int(np.prod(lens))))


def warmup():
    sc, spec, kw = MENU["two-copies"]
    mac = hist.Machine("sdp", sc, spec, **kw)
    mac.o.set_values({next(iter(mac.o.moments)): 1}, use_lpi_constraints=True)
    mac.o.solve()


def plan(thorough):
    yield t_export, [dict(case=k, formats=[e], part=i, parts=2, deep=thorough) for k in MENU for e in (".dat-s", ".csv", ".mat") for i in range(2)]
