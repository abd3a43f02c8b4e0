"""C24: how much is printed changes nothing else."""
import contextlib
import os
import sys
import tempfile
from itertools import product

import numpy as np

import fakesdp
import ref
from c05 import S, TWO, BIL, TRI, problem
from c07 import distribution

LEVEL = "exploration"
RULE = ("for each scenario of a menu, SDP and LP: every verbosity 0-3 given to the problem, to the relaxation and to each call of solve, together with every "
        "history of a list that exercises each public method (relaxations, distributions with and without linearised constraints, shared randomness and supports, "
        "values, bounds, objectives, extra constraints, solving in each mode, certificates, exports, critical parameters; the last not for the two biggest SDPs in the quick check): after every call the relaxation, what reaches the "
        "solver and what is returned are the same as with verbosity 0; with verbosity 0 nothing is printed. Every solver parameter of a list "
        "reaches the optimiser, and nothing else. Non-trivial: verbosities that print something")
ASSUMPTIONS = ["MOSEK has no licence here: see C17 and C18 for the stand-in of its optimiser"]
INSTR = TWO + [["A", ["B"]]]
MENU = [
    (S(TWO, [2, 2], [2, 2], [1]), "npa1"),
    (S(TWO, [2, 2], [2, 1], [2]), "local1"),
    (S(BIL, [2, 2, 2], [1, 1, 1], [2, 1]), "npa2"),
    (S(INSTR, [2, 2], [2, 1], [1]), "npa1"),
    (S(TRI, [2, 2, 2], [1, 1, 1], [1, 1, 2]), "physical1"),
    (S(TWO, [2, 3], [1, 1], [2], ["s0"]), [[], [0], [1], [0, 1]]),
    (S([["s0", ["L", "C"]], ["L", ["A", "B"]]], [2, 2, 2], [1, 1, 1], [2], nlat=["L"]), "npa1"),
    # the unknown parts of some moments are not in the moment matrix
    (S(BIL, [2, 2, 2], [1, 1, 1], [2, 2]), [[], [0, 1, 2]]),
    (S(TRI, [2, 2, 2], [1, 1, 1], [2, 2, 1]), [[], [0, 1], [0, 1, 2]]),
    (S(TWO, [2, 2], [2, 2], [1], "all"), None),
    (S(TWO, [2, 3], [2, 1], [1]), None),
    (S(BIL, [2, 2, 2], [1, 1, 1], [2, 1], "all"), None),
    (S(INSTR, [2, 2], [2, 1], [1], "all"), None),
    (S(TRI, [2, 2, 2], [1, 1, 1], [1, 1, 2]), None),
]
HIST = [
    ["dist", "solve", "cert"],
    ["lpi", "solve dual", "cert", "reset", "solve"],
    ["shared", "objective", "solve", "solve dual"],
    ["values", "bounds", "objective min", "solve", "no objective", "solve"],
    ["extra", "dist", "solve", "export"],
    ["hard", "solve", "solve dual", "cert", "optim", "cert"],
    ["lpi", "critical"],
    ["some lpi", "extra", "bounds", "export", "optim"],
]


class Session:
    """One run of a history at given verbosities."""

    def __init__(self, case, vp, vo):
        from inflation import InflationLP, InflationProblem, InflationSDP
        sc, relax = MENU[case]
        self.sc, self.r, self.lp = sc, ref.Scenario(sc), relax is None
        p = InflationProblem(**ref.kwargs(sc), verbose=vp)
        self.p = p
        repr(p), str(p)
        if self.lp:
            self.o = InflationLP(p, verbose=vo, **({} if sc["classical"] == "all" else {"nonfanout": True}))
        else:
            self.o = InflationSDP(p, verbose=vo)
            self.o.generate_relaxation(relax)

    def snapshot(self):
        o = self.o
        ms = o.monomials if self.lp else o.moments
        name = lambda d: sorted((k.name, round(float(v), 9)) for k, v in d.items())
        out = {"moments": [m.name for m in ms], "known": name(o.known_moments),
               "semiknown": sorted((k.name, round(float(c), 9), m.name) for k, (c, m) in o.semiknown_moments.items()),
               "objective": name(o.objective), "maximize": o.maximize, "lo": name(o.moment_lowerbounds),
               "up": name(o.moment_upperbounds), "eq": sorted(name(e) for e in o.moment_equalities),
               "ineq": sorted(name(e) for e in o.moment_inequalities)}
        if not self.lp:
            out["matrix"] = np.asarray(o.momentmatrix).tolist()
        out["problem"] = [list(self.p.names), np.asarray(self.p._lexorder).tolist(),
                          np.asarray(self.p.lexorder_symmetries).tolist()]
        return out

    def result(self, got):
        o = self.o
        out = {"status": o.status, "value": o.objective_value, "success": o.success}
        if got:
            d = got[-1].raw if hasattr(got[-1], "raw") else None
            out["x"] = [round(float(v), 6) + 0. for v in got[-1].xx]
            if d is not None:
                out["task"] = [np.round(np.asarray(v, dtype=float), 9).tolist() for v in (d[0], d[1], d[2], d[3], *d[4], *d[5])]
        if isinstance(out["value"], float):
            out["value"] = round(out["value"], 6)
        return out

    def do(self, op, vs):
        """The observable outcome of one call."""
        from inflation import max_within_feasible
        o, r = self.o, self.r
        P = distribution(r, 3)
        names = [m.name for m in (o.monomials if self.lp else o.moments) if not (m.is_one or m.is_zero)]
        kw = {} if vs is None else {"verbose": vs}
        hard = np.zeros_like(P)
        for x in np.ndindex(*P.shape[len(r.outcomes):]):
            for e in ((0,) * len(r.outcomes), (1,) * len(r.outcomes)):
                hard[e + x] = .5
        if op in ("dist", "lpi", "hard"):
            o.set_distribution(hard if op == "hard" else P, use_lpi_constraints=op == "lpi")
        elif op == "shared":
            o.set_distribution(P, shared_randomness=True)
        elif op in ("values", "some lpi"):
            kn = {m: v for m, v in self.known(P).items()}
            few = dict(list(kn.items())[:max(1, len(kn) // 2)])
            o.set_values(few, use_lpi_constraints=op == "some lpi")
        elif op == "bounds":
            o.set_bounds({names[0]: .001}, "lo")
            o.set_bounds({n: .9 for n in names[:2]}, "up")
        elif op.startswith("objective"):
            o.set_objective({"1": .5, names[0]: 1., names[-1]: -.5}, "min" if "min" in op else "max")
        elif op == "no objective":
            o.set_objective(None)
        elif op == "extra":
            o.set_extra_equalities([{names[0]: 1., names[-1]: -.3}])
            o.set_extra_inequalities([{names[0]: -1., "1": .9}, {names[-1]: -1., "1": 1.}])
        elif op == "reset":
            o.reset("all")
        elif op in ("solve", "solve dual", "optim"):
            with fakesdp.Patch() as got:
                if op == "optim":
                    o.solve(feas_as_optim=True, **kw)
                else:
                    o.solve(solve_dual="dual" in op, **kw)
                return self.result(got.tasks)
        elif op == "cert":
            if o.success and self.lp is False and o.objective:
                return None
            try:
                return {str(k): round(float(v), 5) + 0. for k, v in o.certificate_as_dict().items()}, str(o.certificate_as_string())
            except Exception as e:
                return type(e).__name__
        elif op == "export":
            f = "x.lp" if self.lp else "x.dat-s"
            o.write_to_file(f)
            with open(f) as fh:
                return fh.read()
        elif op == "critical":
            import sympy
            v = sympy.Symbol("v")
            kn = self.known(P)
            one = min((m for m in kn if kn[m] > .01), key=str)
            vals = {one: kn[one] * v}
            with fakesdp.Patch():
                return round(float(max_within_feasible(o, vals, "bisection", bounds=[0., 1.5 / kn[one]], precision=1e-2,
                                                       **({} if vs is None else {"verbose": vs}))), 3)
        return None

    def known(self, P):
        """Values of the moments that a distribution fixes (by a fresh object)."""
        if not hasattr(self, "_known"):
            sc = self.sc
            q = Session.__new__(Session)
            case = next(i for i, (s, _) in enumerate(MENU) if s is sc)
            q.__init__(case, 0, 0)
            q.o.set_distribution(P)
            self._known = {m.name: float(v) for m, v in q.o.known_moments.items() if not (m.is_one or m.is_zero) and m.n_factors == 1}
        return self._known


@contextlib.contextmanager
def quiet():
    """Collects whatever is printed, by whatever means, and works in a folder
    of its own."""
    here = os.getcwd()
    text = []
    with tempfile.TemporaryDirectory() as d, tempfile.TemporaryFile("w+") as f:
        sys.stdout.flush()
        sys.stderr.flush()
        keep = os.dup(1), os.dup(2)
        os.dup2(f.fileno(), 1)
        os.dup2(f.fileno(), 2)
        os.chdir(d)
        try:
            yield text
        finally:
            sys.stdout.flush()
            sys.stderr.flush()
            for i, k in enumerate(keep):
                os.dup2(k, i + 1)
                os.close(k)
            os.chdir(here)
            f.seek(0)
            text.append(f.read())


def run(case, hist, vp, vo, vs):
    trace = []
    with quiet() as text:
        s = Session(case, vp, vo)
        trace.append(("start", None, s.snapshot()))
        for op in hist:
            back = s.do(op, vs)
            trace.append((op, back, s.snapshot()))
    return trace, text[0]


def same(x, y):
    if isinstance(x, float) and isinstance(y, float):
        return x == y or abs(x - y) <= 1e-5 * max(1, abs(x))
    if isinstance(x, (list, tuple)) and isinstance(y, (list, tuple)):
        return len(x) == len(y) and all(map(same, x, y))
    if isinstance(x, dict) and isinstance(y, dict):
        return set(x) == set(y) and all(same(x[k], y[k]) for k in x)
    return x == y


def differ(a, b):
    """First difference of two traces."""
    for (op, x, s), (_, y, t) in zip(a, b):
        if not same(x, y):
            return op, x, y
        for k in s:
            if not same(s[k], t[k]):
                return op + ": " + k, s[k], t[k]
    return None


def t_verbose(task, rep):
    case, hist = task["case"], HIST[task["hist"]]
    base, printed = run(case, hist, 0, 0, 0)
    rep.ok(not printed, "prints", lambda: f"{MENU[case]}, {hist}: with verbosity 0 it prints {printed[:300]!r}")
    for vp, vo, vs in task["levels"]:
        rep.add("evaluations", len(hist) + 1)
        got, printed = run(case, hist, vp, vo, vs)
        d = differ(base, got)
        if not rep.ok(d is None, "differs", lambda: f"{MENU[case]}, {hist}: with verbosity {vp} of the problem, {vo} of the relaxation and {vs} of solve, "
                      f"after {d[0]}: {str(d[2])[:400]}, without {str(d[1])[:400]}"):
            return
        if printed:
            rep.state((case, task["hist"], vp, vo, vs))
    rep.sample({"scenario": MENU[case][0], "history": hist, "outcomes": [str(b[1])[:60] for b in base]})


def t_parameters(task, rep):
    """Parameters reach the optimiser; all others keep their value."""
    import mosek
    case = task["case"]
    i, d = mosek.iparam, mosek.dparam
    if MENU[case][1] is None:
        par = [{i.presolve_use: mosek.presolvemode.off}, {i.num_threads: 3}, {d.intpnt_tol_rel_gap: 1e-5}, {d.optimizer_max_time: 60.},
               {i.optimizer: mosek.optimizertype.dual_simplex, d.basis_tol_x: 1e-7, i.num_threads: 2}]
    else:
        par = [{"presolveUse": "off"}, {"numThreads": 3}, {"intpntCoTolRelGap": 1e-5}, {"optimizerMaxTime": 60.}, {"intpntCoTolPfeas": 1e-6, "numThreads": 2}]
    seen = []
    with quiet():
        s = Session(case, 0, 0)
        s.do("dist", None)
        with fakesdp.Patch():
            inner = mosek.Task.optimize

            def look(t):
                seen.append((t.getintparam(i.presolve_use), t.getintparam(i.num_threads), t.getintparam(i.optimizer), t.getdouparam(d.intpnt_tol_rel_gap),
                             t.getdouparam(d.intpnt_co_tol_rel_gap), t.getdouparam(d.intpnt_co_tol_pfeas), t.getdouparam(d.optimizer_max_time), t.getdouparam(d.basis_tol_x)))
                return inner(t)
            mosek.Task.optimize = look
            for dual in (False, True):
                seen.clear()
                s.o.solve(solve_dual=dual)
                base, = seen
                where = {"presolveUse": 0, i.presolve_use: 0, "numThreads": 1, i.num_threads: 1, i.optimizer: 2, d.intpnt_tol_rel_gap: 3, "intpntCoTolRelGap": 4,
                         "intpntCoTolPfeas": 5, d.optimizer_max_time: 6, "optimizerMaxTime": 6, d.basis_tol_x: 7}
                for ps in par:
                    seen.clear()
                    rep.add("evaluations")
                    keep = dict(ps)
                    s.o.solve(solve_dual=dual, solverparameters=ps)
                    want = list(base)
                    for k, v in keep.items():
                        want[where[k]] = int(mosek.presolvemode.off) if v == "off" else v
                    rep.ok(ps == keep and len(seen) == 1 and all(float(a) == float(b) for a, b in zip(seen[0], want)), "parameters",
                           lambda: f"{MENU[case]}: solve(solve_dual={dual}, solverparameters={keep}) runs with {seen}, should be {want}")
                    rep.state((case, dual, str(keep)))


def warmup():
    for c in (0, 11):
        run(c, ["dist", "solve"], 0, 0, 0)


def plan(thorough):
    if thorough:
        levels = list(product((0, 1, 2, 3), (0, 1, 2, 3), (None, 0, 1, 2, 3)))
    else:
        levels = [(v, v, v) for v in (1, 2, 3)] + [(0, 2, None), (2, 0, 0), (0, 0, 2)]
    yield t_verbose, [dict(kind="verbose", case=c, hist=h, levels=levels) for c in range(len(MENU)) for h in range(len(HIST))
                     if thorough or HIST[h][-1] != "critical" or c not in (4, 8)]
    yield t_parameters, [dict(kind="parameters", case=c) for c in range(len(MENU))]
