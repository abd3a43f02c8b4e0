"""C22: verdicts, optimal values and certificates of solved problems."""
import re
from itertools import combinations, product

import numpy as np
import sympy as sp

import c09
import c10
import fakesdp
import models
import ref
from c05 import S, TWO, BIL, TRI, problem

LEVEL = "exploration"
RULE = ("for each SDP/LP of a menu (Bell, bilocal, triangle, instrumental, with latents; classical, quantum and non-fanout): every distribution of a finite "
        "family (all PR boxes / all uniform distributions on 1-3 outcomes / all deterministic tables, each with several amounts of noise, and everything "
        "produced by a finite family of classical and quantum models) is tested in every solving mode (dual/primal, feasibility or feasibility as "
        "optimization of each kind): the verdict must agree with the exact one where a criterion is known (CHSH, Tsirelson, Pearl, independence) and must be "
        "'feasible' for whatever a model produces; a certificate must be negative where it was found and nowhere on the distributions of any model, and all "
        "ways of reading it (dictionary, symbols, string, evaluation) agree; optimal values of objectives in both directions bound what all models achieve, "
        "and equal the known optima. Non-trivial: infeasible problems with a certificate")
ASSUMPTIONS = ["MOSEK has no licence here: see C17 and C18 for the stand-in of its optimiser"]
TOL = 1e-5
# quick: only one in so many of the distributions produced by models is tested
CUT = {"bilocal-npa": 8, "triangle-npa": 6, "triangle-nonfanout": 4, "chsh-cl-npa": 8, "chsh-npa1": 4, "chsh-npa2": 4, "instrumental-npa": 3, "triangle-lp": 3, "latent-npa": 3}
INSTR = TWO + [["A", ["B"]]]
#  name: scenario, kind, relaxation (None: LP), distributions, exact criterion
MENU = {
    "chsh-lp": (S(TWO, [2, 2], [2, 2], [1], "all"), None, "pr", "chsh"),
    "chsh-npa1": (S(TWO, [2, 2], [2, 2], [1]), "npa1", "pr", "tlm"),
    "chsh-npa2": (S(TWO, [2, 2], [2, 2], [1], order=["B", "A"]), "local1", "pr", "tlm"),
    "chsh-cl-npa": (S(TWO, [2, 2], [2, 2], [1], "all"), "local2", "pr", "chsh"),
    "chsh-nonfanout": (S(TWO, [2, 2], [2, 2], [1]), None, "pr", None),
    "bilocal-lp": (S(BIL, [2, 2, 2], [1, 1, 1], [2, 2], "all"), None, "subsets", "bilocal"),
    "bilocal-nonfanout": (S(BIL, [2, 2, 2], [1, 1, 1], [2, 2], order=["C", "A", "B"]), None, "subsets", None),
    "bilocal-npa": (S(BIL, [2, 2, 2], [1, 1, 1], [2, 1]), "npa2", "subsets", None),
    "triangle-lp": (S(TRI, [2, 2, 2], [1, 1, 1], [2, 1, 2], "all"), None, "subsets", None),
    "triangle-nonfanout": (S(TRI, [2, 2, 2], [1, 1, 1], [2, 2, 2]), None, "subsets", "ghz"),
    "triangle-npa": (S(TRI, [2, 2, 2], [1, 1, 1], [2, 2, 1]), "npa1", "subsets", None),
    "instrumental-lp": (S(INSTR, [2, 2], [2, 1], [1], "all"), None, "tables", "pearl"),
    "instrumental-npa": (S(INSTR, [2, 2], [2, 1], [1]), "npa1", "tables", None),
    "ternary-lp": (S(TWO, [3, 2], [1, 1], [2], "all"), None, "subsets", "all"),
    "latent-npa": (S([["s0", ["L", "C"]], ["L", ["A", "B"]]], [2, 2, 2], [1, 1, 1], [2], nlat=["L"]), "npa1", "subsets", None),
}
BLOCKS = [[], [0], [1], [2], [0, 1], [0, 2], [1, 2]]


def noisy(P, v, r):
    return v * P + (1 - v) / np.prod(r.outcomes)


def distributions(case, thorough):
    """Labelled distributions, systematically."""
    sc, _, kind, _ = MENU[case]
    r = ref.Scenario(sc)
    shape = tuple(r.outcomes) + tuple(r.private)
    out = []
    if kind == "pr":
        for al, be, ga in product((0, 1), repeat=3):
            P = np.zeros(shape)
            for a, b, x, y in np.ndindex(*shape):
                P[a, b, x, y] = .5 * ((a + b + x * y + al * x + be * y + ga) % 2 == 0)
            for v in (1, .75, .69, .55, .45) if thorough or (al, be, ga) in ((0, 0, 0), (1, 0, 1), (0, 1, 1)) else (.75, .45):
                out.append((f"PR{al}{be}{ga}*{v}", noisy(P, v, r)))
        for t in product((0, 1), repeat=4):
            P = np.zeros(shape)
            for x, y in product((0, 1), repeat=2):
                P[t[x], t[2 + y], x, y] = 1
            out.append((f"det{t}", P))
            if t in ((0, 1, 1, 1), (0, 0, 0, 1)):     # towards a PR box, lopsided
                Q = np.zeros(shape)
                for a, b, x, y in np.ndindex(*shape):
                    Q[a, b, x, y] = .5 * ((a + b + x * y) % 2 == 0)
                for w in (.2, .5, .8):
                    out.append((f"det{t}+{w}PR", w * Q + (1 - w) * P))
    elif kind == "subsets":
        events = list(product(*map(range, r.outcomes)))
        for k in (1, 2, 3):
            for sub in combinations(events, k):
                if k == 3 and not thorough and sub[0] != events[0] and sub != tuple(e for e in events if sum(e) == 1):
                    continue
                P = np.zeros(shape)
                for e in sub:
                    P[e] = 1 / k
                for v in (1, .5, .2) if thorough else (1, .5) if k == 2 and sub[0] == events[0] else (1,):
                    out.append((f"{sub}*{v}", noisy(P, v, r)))
    else:
        for t in product(list(product(*map(range, r.outcomes))), repeat=int(np.prod(r.private))):
            P = np.zeros(shape)
            for x, o in zip(np.ndindex(*r.private), t):
                P[o + x] = 1
            for v in (1, .6, .3):
                out.append((f"{t}*{v}", noisy(P, v, r)))
    return r, out


def truth(crit, r, P, label):
    """True/False where an exact criterion exists, else None; None when close
    to the border."""
    def sure(x, tol=1e-3):
        return None if abs(x) < tol else x > 0
    if crit == "all":
        return True
    if crit in ("chsh", "tlm"):
        E = np.array([[sum((-1) ** (a + b) * P[a, b, x, y] for a in (0, 1) for b in (0, 1)) for y in (0, 1)] for x in (0, 1)])
        if crit == "tlm":
            if not label.startswith("PR"):
                return True if label.startswith("det") and "+" not in label else None
            E = np.arcsin(np.clip(E, -1, 1))
            worst = max(abs(E.sum() - 2 * e) for e in E.ravel())
            return sure(np.pi - worst)
        worst = max(abs(E.sum() - 2 * e) for e in E.ravel())
        return True if worst <= 2 + 1e-9 else sure(2 - worst)
    if crit == "bilocal":
        i = [list(r.parties).index(p) for p in ("A", "B", "C")]
        Q = P.reshape(r.outcomes).transpose(i).sum(axis=1)
        gap = np.abs(Q - np.outer(Q.sum(1), Q.sum(0))).max()
        return True if gap < 1e-9 else None
    if crit == "pearl":
        Q = P.reshape(2, 2, 2)              # a, b, x
        worst = max(Q[a].max(axis=1).sum() for a in (0, 1))
        return True if worst <= 1 + 1e-9 else sure(1 - worst)
    if crit == "ghz":
        m = re.fullmatch(r"\(\((\d), (\d), (\d)\), \((\d), (\d), (\d)\)\)\*1", label)
        if m and all(m.group(i) != m.group(i + 3) for i in (1, 2, 3)):
            return False
    return None


class Bench:
    """The relaxation, and everything models of the scenario produce."""

    def __init__(self, case, rich=16):
        from inflation import InflationLP, InflationSDP
        self.case = case
        sc, relax, _, self.crit = MENU[case]
        self.r = r = ref.Scenario(sc)
        p = problem(sc)
        self.lp = relax is None
        if self.lp:
            self.obj = InflationLP(p, nonfanout=sc["classical"] != "all")
        else:
            self.obj = InflationSDP(p)
            self.obj.generate_relaxation(BLOCKS if relax == "blocks" else relax)
        self.off = 0 if self.lp else 1
        dist = {}
        per = models.strategies(r, 2, rich)
        if np.prod([len(f) for f in per]) > 3000:
            per = models.strategies(r, 2, 4)
        for t, resp in enumerate(product(*per)):
            m = models.ClassicalModel(r, [(.5, .5) if t % 2 else (.25, .75)] * r.m, resp)
            P = m.distribution()
            dist.setdefault(tuple(np.round(P, 9).ravel()), P)
        if sc["classical"] != "all":
            n = sum(1 for _ in c10.all_models(r, False))
            for t, (states, meas) in enumerate(c10.all_models(r, False)):
                if n > 400 and t % (n // 200):
                    continue
                P = models.QuantumModel(r, states, meas).distribution()
                dist.setdefault(tuple(np.round(P, 9).ravel()), P)
        self.models = [P for _, P in sorted(dist.items())]
        self.events, self.table = {}, {}

    def factor(self, f):
        w = tuple(int(x) - self.off for x in f.as_lexmon)
        if w not in self.events:
            self.events[w] = self.r.atomic_event([self.r.ops[i] for i in w])
        return self.events[w]

    def prob(self, P, ev):
        r = self.r
        ix = tuple(ev[p][0] if p in ev else slice(None) for p in range(r.n)) + tuple(ev[p][1] if p in ev else 0 for p in range(r.n))
        return float(np.sum(P[ix]))

    def moment(self, m, P):
        if m.is_zero:
            return 0.
        v = 1.
        for f in m.factors:
            if len(f.as_lexmon):
                v *= self.prob(P, self.factor(f))
        return v

    def name(self, k, P):
        return 1. if k in ("1", "constant_term") else self.moment(self.obj.monomial_from_name[k], P)

    def on_models(self, k):
        if k not in self.table:
            self.table[k] = np.array([self.name(k, P) for P in self.models])
        return self.table[k]

    def solve(self, **how):
        with fakesdp.Patch() as patch:
            self.obj.solve(**how)
            self.sure = patch.tasks[0]
        return self.sure


NUM = re.compile(r"[0-9.]+(?:e[+-]?[0-9]+)?")


def parse(text, names):
    """The linear form written in a string: {name: coefficient}."""
    out, i = {}, 0
    while i < len(text):
        s = 1
        if text[i] in "+-":
            s, i = (-1 if text[i] == "-" else 1), i + 1
        c = 1.
        m = NUM.match(text, i)
        hit = max((k for k in names if text.startswith(k, i) and k not in ("0", "1")), key=len, default=None)
        if hit is None:
            if not m:
                raise ValueError(f"cannot read {text[i:]!r} in {text!r}")
            c, i = float(m.group()), m.end()
            if i < len(text) and text[i] == "*":
                i += 1
                hit = max((k for k in names if text.startswith(k, i) and k not in ("0", "1")), key=len, default=None)
                if hit is None:
                    raise ValueError(f"cannot read {text[i:]!r} in {text!r}")
        if hit:
            i += len(hit)
        out[hit or "1"] = out.get(hit or "1", 0) + s * c
    return out


def merged(d):
    out = {}
    for k, v in d.items():
        k = "1" if str(k) == "constant_term" else str(k)
        out[k] = out.get(k, 0.) + float(v)
    return out


def readings(b, P, rep, say):
    """All ways of reading the last certificate agree."""
    obj = b.obj
    raw = merged(obj.solution_object["dual_certificate"])
    full = merged(obj.certificate_as_dict(clean=False))
    keys = sorted(set(raw) | set(full))
    isz = lambda k: k != "1" and obj.monomial_from_name[k].is_zero
    ok = rep.ok
    ok(all(abs(raw.get(k, 0) - full.get(k, 0)) < 1e-9 for k in keys if not isz(k)) or max(map(abs, raw.values()), default=0) < 1e-7, "dict",
       lambda: say(f"certificate_as_dict(clean=False) = {full}, the solver gave {raw}"))
    clean = merged(obj.certificate_as_dict())
    if not clean:
        ok(max(map(abs, full.values()), default=0) < 1e-7, "clean", lambda: say(f"the clean certificate is empty, the certificate is {full}"))
        ok(obj.certificate_as_string() == "0 < 0", "string", lambda: say(f"the certificate is empty but is written as {obj.certificate_as_string()!r}"))
        ok(sp.sympify(obj.certificate_as_probs()) == 0, "probs", lambda: say(f"the certificate is empty but is written as {obj.certificate_as_probs()}"))
        ok(float(obj.evaluate_certificate(P)) == 0, "evaluate", lambda: say("the certificate is empty but evaluates to something"))
        return {}
    for tol in (1e3, 1e9):     # nothing is left
        huge = obj.certificate_as_dict(clean=True, chop_tol=tol)
        if max(map(abs, full.values())) < tol:
            ok(not any(huge.values()), "clean", lambda: say(f"certificate_as_dict(chop_tol={tol}) = {huge}, the certificate is {full}"))
    big = max(full, key=lambda k: abs(full[k]))
    scale = clean.get(big, 0) / full[big]
    ok(scale > 0 and all(abs(clean.get(k, 0) - scale * full.get(k, 0)) < 1.1e-3 + 1e-3 * abs(clean.get(k, 0)) for k in set(full) | set(clean)), "clean",
       lambda: say(f"the clean certificate {clean} is not proportional to {full}"))
    text = obj.certificate_as_string()
    if ok(text.endswith(" < 0"), "string", lambda: say(f"string {text!r}")):
        got = merged(parse(text[:-4], set(obj.monomial_from_name)))
        ok(all(abs(got.get(k, 0) - clean.get(k, 0)) < 1e-4 * (1 + abs(clean.get(k, 0))) for k in set(got) | set(clean)), "string",
           lambda: say(f"the string {text!r} does not express {clean}"))
    expr = obj.certificate_as_probs()
    subs = {}
    for k in clean:
        if k != "1":
            for f in obj.monomial_from_name[k].factors:
                if len(f.as_lexmon):
                    subs[f.symbol] = b.prob(P, b.factor(f))
    want = sum(c * b.name(k, P) for k, c in clean.items())
    norm = 1 + sum(map(abs, clean.values()))
    got = sp.sympify(expr).subs(subs)
    ok(not got.free_symbols and abs(float(got) - want) < 1e-7 * norm, "probs", lambda: say(f"certificate_as_probs {expr} evaluates to {got}, the certificate to {want}"))
    got = float(obj.evaluate_certificate(P))
    ok(abs(got - want) < 1e-7 * norm, "evaluate", lambda: say(f"evaluate_certificate gives {got}, the certificate {clean} gives {want}"))
    got = float(obj.evaluate_polynomial(obj.certificate_as_dict(clean=False), P))
    want = sum(c * b.name(k, P) for k, c in full.items())
    ok(abs(got - want) < 1e-7 * (1 + sum(map(abs, full.values()))), "evaluate", lambda: say(f"evaluate_polynomial gives {got}, the certificate {full} gives {want}"))
    return full


LP_MODES = [dict(), dict(solve_dual=False), dict(relax_inequalities=True), dict(relax_known_vars=True), dict(relax_known_vars=True, relax_inequalities=True, solve_dual=False),
            dict(feas_as_optim=True)]
SDP_MODES = [dict(), dict(solve_dual=False), dict(feas_as_optim=True), dict(feas_as_optim=True, solve_dual=False)]


def verdict(b, how, rep, say, hard=False):
    """feasible True/False/None (undecided), and how strongly."""
    s = b.solve(**how)
    obj = b.obj
    st = str(s.solsta)
    if "unknown" in st or getattr(s, "err", 0) > 1e-6:
        rep.add("undecided")
        return None
    relaxed = any(how.get(k) for k in ("relax_inequalities", "relax_known_vars", "feas_as_optim"))
    if not relaxed:
        rep.ok(obj.status in (("feasible", "optimal") if obj.success else ("infeasible", "dual_infeas_cer", "prim_infeas_cer")), "status", lambda: say(f"status {obj.status}, success {obj.success}"))
        return bool(obj.success)
    if hard and obj.status == "infeasible":      # bounds are not relaxed
        return False
    if not rep.ok(bool(obj.success), "status", lambda: say(f"feasibility as optimization ends with status {obj.status}")):
        return None
    v = float(obj.objective_value)
    return None if abs(v) < 1e-6 and not b.lp else v > -1e-6


def check(b, P, label, how, want, rep):
    rep.add("evaluations")
    say = lambda what: f"{b.case}, distribution {label}, solve({how}): {what}"
    v = verdict(b, how, rep, say)
    if v is None:
        return None
    if not rep.ok(want is None or v == want, "verdict", lambda: say(f"declared {'feasible' if v else 'infeasible'}")):
        return v
    if any(not m.is_knowable for m in b.obj.known_moments):     # LPI with a vanishing factor: no certificate to speak of
        rep.add("no_certificate")
        return v
    cert = readings(b, P, rep, say)
    if not v:
        norm = max(map(abs, cert.values()), default=0)
        at = sum(c * b.name(k, P) for k, c in cert.items())
        rep.ok(norm > 0 and at < 0, "certificate", lambda: say(f"the certificate {cert} is not negative at the point where it was found: {at}"))
        on = sum((c * b.on_models(k) for k, c in cert.items()), np.zeros(len(b.models)))
        rep.add("certificates_on_models", len(on))
        bad = np.flatnonzero(on < -TOL * max(norm, 1e-9))
        rep.ok(not len(bad), "certificate", lambda: say(f"the certificate {cert} is negative ({on[bad[0]]}) on a distribution that a model produces: {b.models[bad[0]].tolist()}"))
        rep.state((b.case, label, sorted(how)))
    return v


def t_points(task, rep):
    b = Bench(task["case"])
    _, dist = distributions(task["case"], task["thorough"])
    infeasible = 0
    for i, (label, P) in enumerate(dist):
        if i % task["parts"] != task["part"]:
            continue
        want = truth(b.crit, b.r, P, label)
        b.obj.set_distribution(P)
        votes = {}
        for how in LP_MODES if b.lp else SDP_MODES:
            v = check(b, P, label, how, want, rep)
            if v is not None:
                votes[str(how)] = v
            if rep.violations:
                return
        rep.ok(len(set(votes.values())) < 2, "modes", lambda: f"{task['case']}, distribution {label}: the verdict depends on the mode: {votes}")
        infeasible += False in votes.values()
    rep.add("infeasible_points", infeasible)
    rep.sample(dict(case=task["case"], distributions=len(dist), models=len(b.models)))


def t_models(task, rep):
    b = Bench(task["case"])
    modes = LP_MODES if b.lp else SDP_MODES
    for i, P in enumerate(b.models):
        if i % task["parts"] != task["part"]:
            continue
        if i // task["parts"] % task["cut"]:
            continue
        for lpi in (False, True):
            how = modes[(i // task["parts"] + lpi) % len(modes)]
            b.obj.set_distribution(P, use_lpi_constraints=lpi)
            check(b, P, f"model {i} {P.tolist()} lpi={lpi}", how, True, rep)
            if rep.violations:
                return


def t_objective(task, rep):
    """Maxima and minima without and with some known values."""
    b = Bench(task["case"])
    obj = b.obj
    moms = [m for m in (obj.monomials if b.lp else obj.moments) if m.is_knowable and not m.is_zero and not m.is_one]
    moms = sorted(moms, key=lambda m: (len(m.as_lexmon), m.name))[:task["many"]]
    polys = [{m: 1.} for m in moms] + [{m: 1., k: -2.} for m, k in zip(moms, moms[1:])] + [{m: -1., obj.One: .5} for m in moms[:2]]
    known = [{}] + [{m: .5} for m in moms[:2]]
    for poly, kn, sense in product(polys, known, (task["sense"],)):
        obj.set_values(None if not kn else kn)
        obj.set_objective(poly, sense)
        on = sum(c * (1. if m.is_one else b.on_models(m.name)) for m, c in poly.items()) + np.zeros(len(b.models))
        keep = np.ones(len(on), bool)
        for m, v in kn.items():
            keep &= np.abs(b.on_models(m.name) - v) < 1e-9
        vals = []
        ways = [dict(), dict(solve_dual=False)]     # the objective wins over feasibility as optimization
        if b.lp:
            ways += [dict(relax_inequalities=True), dict(relax_known_vars=True), dict(feas_as_optim=True)]
        elif any(m not in obj.known_moments for m in poly if not m.is_one):
            ways += [dict(feas_as_optim=True)]
        for how in ways:
            rep.add("evaluations")
            s = b.solve(**how)
            if "unknown" in str(s.solsta) or getattr(s, "err", 0) > 1e-6:
                rep.add("undecided")
                continue
            say = lambda what: f"{b.case}, {sense} of {poly} knowing {kn}, {how}: {what}"
            if not rep.ok(obj.status in ("feasible", "optimal") and obj.success, "objective", lambda: say(f"status {obj.status}")):
                return
            v = float(obj.objective_value)
            vals.append(v)
            if keep.any():
                best = on[keep].max() if sense == "max" else on[keep].min()
                rep.ok(v >= best - TOL if sense == "max" else v <= best + TOL, "objective", lambda: say(f"{v}, but a model reaches {best}"))
            if not kn and len(poly) == 1 and len(next(iter(poly)).factors) == 1:
                rep.ok(abs(v - (sense == "max")) < TOL, "objective", lambda: say(f"{v}, should be {int(sense == 'max')}"))
            # SDP: an upper bound on the objective (as a maximum); LP: bound minus objective
            cert = merged(obj.solution_object["dual_certificate"])
            up = v if sense == "max" else -v
            sg = 1 if sense == "max" else -1
            if b.lp:
                x = obj.solution_object["x"]
                at = sum(c * float(x[k]) for k, c in cert.items())
                gap = sum((c * b.on_models(k) for k, c in cert.items()), np.zeros(len(b.models)))
                rep.ok(abs(at) < TOL, "objective certificate", lambda: say(f"the certificate {cert} takes the value {at} at the optimum"))
            else:
                at = sum(c * (1. if k == "1" else float(obj.known_moments[obj.monomial_from_name[k]])) for k, c in cert.items())
                gap = sum((c * b.on_models(k) for k, c in cert.items()), np.zeros(len(b.models))) - sg * on
                rep.ok(abs(at - up) < TOL, "objective certificate", lambda: say(f"the certificate {cert} takes the value {at}, the optimum (as a maximum) is {up}"))
            bad = np.flatnonzero(gap < -TOL * max([1.] + [abs(c) for c in cert.values()]))
            rep.add("certificates_on_models", len(gap))
            if not b.lp and any(m in obj.known_moments and not m.is_one for m in poly):
                continue            # the SDP folds known values into the constant of the objective
            rep.ok(not len(bad), "objective certificate", lambda: say(f"the certificate {cert} is violated by a model ({gap[bad[0]]}): {b.models[bad[0]].tolist()}"))
        rep.ok(not vals or max(vals) - min(vals) < TOL, "objective", lambda: f"{b.case}, {sense} of {poly} knowing {kn}: primal and dual give {vals}")
        rep.state((b.case, sorted((m.name, c) for m, c in poly.items()), sense, len(kn)))
        if rep.violations:
            return


def t_chsh(task, rep):
    """All CHSH expressions in both directions, with free and uniform marginals."""
    b = Bench(task["case"], 4)
    obj = b.obj
    mom = {}
    for m in (obj.monomials if b.lp else obj.moments):
        if m.is_knowable and len(m.factors) == 1 and not m.is_one:
            mom[tuple(sorted(b.factor(m.factors[0]).items()))] = m
    best = {"chsh-lp": 2, "chsh-cl-npa": 2, "chsh-nonfanout": 4}.get(task["case"], 8 ** .5)
    marg = {m: .5 for e, m in mom.items() if len(e) == 1}
    for al, be, ga in product((0, 1), repeat=3):
        poly = {obj.One: 0.}
        for x, y in product((0, 1), repeat=2):
            sg = (-1) ** (x * y + al * x + be * y + ga)
            for e, c in (((), 1), (((0, (0, x)),), -2), (((1, (0, y)),), -2), (((0, (0, x)), (1, (0, y))), 4)):
                m = mom[e] if e else obj.One
                poly[m] = poly.get(m, 0) + sg * c
        for sense, how, kn in product(("max", "min"), (dict(), dict(solve_dual=False)), ({}, marg)):
            obj.set_values(kn or None)
            obj.set_objective(poly, sense)
            b.solve(**how)
            rep.add("evaluations")
            want = best if sense == "max" else -best
            rep.ok(abs(float(obj.objective_value) - want) < TOL, "chsh", lambda: f"{b.case}: {sense} of the CHSH expression {al, be, ga}, {how}, {len(kn)} known marginals, is {obj.objective_value}, should be {want}")
            rep.state((b.case, al, be, ga, sense, len(kn), len(how)))


def t_bounds(task, rep):
    """Certificates of problems with bounds and extra constraints."""
    b = Bench(task["case"], 4)
    obj = b.obj
    _, dist = distributions(task["case"], False)
    free = [m for m in (obj.monomials if b.lp else obj.moments) if not m.is_knowable and not m.is_zero and not m.is_one][:2]
    labels = [0, len(dist) // 2, len(dist) - 1]
    for i, m, (typ, v), extra, how in product(labels, free, (("up", -.2), ("lo", .9), ("up", .3)), (False, True), (dict(), dict(solve_dual=False)) if b.lp else SDP_MODES):
        label, P = dist[i]
        obj.reset("all")
        obj.set_distribution(P)
        if extra:
            obj.set_extra_inequalities([{m: 1, obj.One: -v} if typ == "lo" else {m: -1, obj.One: v}])
        else:
            obj.set_bounds({m: v}, typ)
        say = lambda what: f"{b.case}, distribution {label}, {typ} {v} on {m}, {'as inequality, ' if extra else ''}solve({how}): {what}"
        rep.add("evaluations")
        ok = verdict(b, how, rep, say, True)
        if ok is None:
            continue
        cert = readings(b, P, rep, say)
        if not ok and not (b.lp and not extra):      # certificates of LPs ignore bounds: see C17
            at = sum(c * b.name(k, P) for k, c in cert.items())
            rep.ok(at < 0, "certificate", lambda: say(f"the certificate {cert} is not negative at the point where it was found: {at}"))
            rep.state((b.case, label, typ, v, extra, sorted(how)))
        if rep.violations:
            return
    obj.reset("all")


def warmup():
    for case in ("chsh-lp", "chsh-npa1", "bilocal-nonfanout"):
        b = Bench(case, 4)
        P = np.full(b.models[0].shape, .25)
        b.obj.set_distribution(P)
        b.solve()
        b.obj.set_distribution(P, use_lpi_constraints=True)
        b.solve()
        b.obj.evaluate_certificate(P)


def plan(thorough):
    n = {k: len(distributions(k, thorough)[1]) for k in MENU}
    yield t_points, [dict(case=k, part=i, parts=max(1, n[k] // 12), thorough=thorough) for k in MENU for i in range(max(1, n[k] // 12))]
    yield t_models, [dict(case=k, part=i, parts=4, cut=1 if thorough else CUT.get(k, 2)) for k in MENU for i in range(4)]
    yield t_objective, [dict(case=k, many=100 if thorough else 4, sense=s) for k in MENU for s in ("max", "min")]
    yield t_chsh, [dict(case=k) for k in MENU if k.startswith("chsh")]
    yield t_bounds, [dict(case=k) for k in MENU if k not in ("chsh-lp", "chsh-nonfanout", "bilocal-npa", "ternary-lp")]
