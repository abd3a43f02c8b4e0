"""Is the point given by an explicit model feasible for the program that the
library hands to its solver?"""
import numpy as np

TOL = 1e-8


def moment_value(m, ev, off):
    if m.is_zero:
        return 0.
    v = 1.
    for f in m.factors:
        w = tuple(int(x) - off for x in f.as_lexmon)
        if w:
            v = v * ev(w)
    return float(np.real(v))


class SDPPoint:
    """Values of the moments of a relaxation in a model; the Gram matrix of the
    vectors (column words applied to the state) must fill the moment matrix."""

    def __init__(self, sdp):
        self.sdp = sdp
        self.cols = [tuple(int(x) - 1 for x in c) for c in sdp.generating_monomials_1d]
        mm = np.asarray(sdp.momentmatrix)
        self.idx, self.first, self.inv = np.unique(mm.ravel(), return_index=True, return_inverse=True)
        self.inv = self.inv.ravel()

    def values(self, model, rep, what):
        G = np.array([model.vec(c).ravel() for c in self.cols])
        G = np.real(G.conj() @ G.T).ravel()
        v = G[self.first]
        bad = np.flatnonzero(np.abs(v[self.inv] - G) > TOL)
        rep.add("evaluations")
        n = len(self.cols)
        ok = rep.ok(len(bad) == 0, "cells", lambda: (
            f"{what}: cells {divmod(int(self.first[self.inv[bad[0]]]), n)} and {divmod(int(bad[0]), n)} carry the same moment "
            f"{self.sdp.compmoment_from_idx[int(self.idx[self.inv[bad[0]]])]} but a model gives {v[self.inv[bad[0]]]} and {G[bad[0]]}"))
        cell = {int(i): float(x) for i, x in zip(self.idx, v)}
        byname = {}
        for i, m in self.sdp.compmoment_from_idx.items():
            x = moment_value(m, model.ev, 1)
            byname[m.name] = x
            if int(i) in cell:
                ok = rep.ok(abs(cell[int(i)] - x) < TOL, "moment",
                            lambda: f"{what}: the cells of moment {m} have value {cell[int(i)]} in a model, its factors give {x}") and ok
        return ok, byname


def lookup(byname, name, obj, ev, off):
    if name not in byname:
        byname[name] = moment_value(obj._sanitise_moment(name) if hasattr(obj, "_sanitise_moment")
                                    else obj._sanitise_monomial(name), ev, off)
    return byname[name]


def check_sdp(sdp, val, model, rep, what, homogeneous=False):
    """val: values by name.  Every constraint of the program must hold."""
    args = sdp._prepare_solver_arguments()
    val = dict(val)
    val["1"] = val[sdp.constant_term_name] = 1.
    val["0"] = 0.
    rep.add("evaluations")
    get = lambda n: lookup(val, n, sdp, model.ev, 1)
    for n, k in args["known_vars"].items():
        if not rep.ok(abs(get(n) - float(k)) < TOL, "known", lambda: f"{what}: {n} is fixed to {k}, the model that produced the distribution gives {get(n)}"):
            return
    for n, (c, n2) in args["semiknown_vars"].items():
        if not rep.ok(abs(get(n) - float(c) * get(n2)) < TOL, "semiknown",
                      lambda: f"{what}: {n} = {c}*{n2} is imposed, the model gives {get(n)} and {get(n2)}"):
            return
    scale = 1.
    if homogeneous:
        pos = [get(n) for m in sdp.moment_lowerbounds if sdp.moment_lowerbounds[m] > 0 for n in [m.name]]
        if not rep.ok(all(x > 0 for x in pos), "support",
                      lambda: f"{what}: a moment required to be in the support vanishes in the model"):
            return
        scale = 1 / min(pos) if pos else 1.
    for kind in ("equalities", "inequalities"):
        for row in args[kind]:
            s = sum(float(c) * get(n) * (1 if n == sdp.constant_term_name else scale) for n, c in row.items())
            if not rep.ok(abs(s) < TOL if kind == "equalities" else s > -TOL, kind,
                          lambda: f"{what}: the constraint {row} ({kind}) has value {s} in a model"):
                return


class LPPoint:
    def __init__(self, lp):
        self.lp = lp
        self.words = [[tuple(int(x) for x in f.as_lexmon) for f in m.factors] for m in lp.monomials]

    def values(self, ev):
        return np.array([float(np.real(np.prod([ev(w) for w in fs if w]))) for fs in self.words])


def check_lp(lp, x, rep, what, homogeneous=False):
    a = lp._prepare_solver_matrices()
    rep.add("evaluations")

    def vec(name):
        m = a[name].tocoo()
        return zip(m.col.tolist(), m.data.tolist())

    for i, k in vec("known_vars"):
        if not rep.ok(abs(x[i] - float(k)) < TOL, "known",
                      lambda: f"{what}: {lp.monomials[i]} is fixed to {k}, the model that produced the distribution gives {x[i]}"):
            return
    if homogeneous:
        lo = [x[i] for i, b in vec("lower_bounds") if b > 0]
        if not rep.ok(all(v > 0 for v in lo), "support",
                      lambda: f"{what}: a moment required to be in the support vanishes in the model"):
            return
        if lo:
            x = x / min(lo)
    for i, b in vec("lower_bounds"):
        rep.ok(x[i] >= b - TOL, "lower bound", lambda: f"{what}: {lp.monomials[i]} has lower bound {b}, a model gives {x[i]}")
    for i, b in vec("upper_bounds"):
        rep.ok(x[i] <= b + TOL, "upper bound", lambda: f"{what}: {lp.monomials[i]} has upper bound {b}, a model gives {x[i]}")
    e = a["equalities"].tocsr() @ x
    rep.ok(not e.size or np.abs(e).max() < TOL, "equalities",
           lambda: f"{what}: equality {int(np.abs(e).argmax())} is violated by a model (value {e[np.abs(e).argmax()]})")
    q = a["inequalities"].tocsr() @ x
    rep.ok(not q.size or q.min() > -TOL, "inequalities",
           lambda: f"{what}: inequality {int(q.argmin())} is violated by a model (value {q.min()})")
    if lp.default_non_negative:
        rep.ok(x.min() > -TOL, "non negative", lambda: f"{what}: variable {lp.monomials[int(x.argmin())]} is negative in a model")
