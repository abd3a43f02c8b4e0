"""Stand-in for the optimiser inside mosek.Task for semidefinite programs: the
problem is read back from the task through its public getters and solved by
conic.conelp; the answers follow MOSEK's conventions (for maximisations every
dual multiplier has the opposite sign). Fusion sits on top of mosek.Task, so
everything above the optimiser is the real code."""
import mosek
import numpy as np

import conic
import fakelp

INF = np.inf


def bound(k, a, b):
    bk = mosek.boundkey
    return (a if k in (bk.lo, bk.fx, bk.ra) else -INF, a if k == bk.fx else b if k in (bk.up, bk.ra) else INF)


class Data:
    """opt c.x + <C,X> + c0, rows, column bounds, PSD blocks of a task."""

    def __init__(self, task):
        n, m, nb = task.getnumvar(), task.getnumcon(), task.getnumbarvar()
        self.maximize = task.getobjsense() == mosek.objsense.maximize
        self.c0 = task.getcfix()
        self.dims = [task.getdimbarvarj(j) for j in range(nb)]
        self.off = np.cumsum([0] + [d * (d + 1) // 2 for d in self.dims])
        N = n + self.off[-1]
        self.n, self.m, self.N = n, m, N
        self.c, self.A = np.zeros(N), np.zeros((m, N))
        if n:
            v = np.zeros(n)
            task.getc(v)
            self.c[:n] = v
        for i in range(m):
            k = task.getarownumnz(i)
            if k:
                sub, val = np.zeros(k, dtype=np.int32), np.zeros(k)
                task.getarow(i, sub, val)
                for j, w in zip(sub, val):
                    self.A[i, j] += w

        def place(row, j, k, l, v):
            k, l = min(k, l), max(k, l)
            d = self.dims[j]
            pos = n + self.off[j] + k * d - k * (k - 1) // 2 + (l - k)
            row[pos] += v * (1 if k == l else conic.R2)
        if nb:
            cnt = task.getnumbarcblocktriplets()
            if cnt:
                J, K, L, V = np.zeros(cnt, np.int32), np.zeros(cnt, np.int32), np.zeros(cnt, np.int32), np.zeros(cnt)
                cnt = task.getbarcblocktriplet(J, K, L, V)
                for j, k, l, v in list(zip(J, K, L, V))[:cnt]:
                    place(self.c, j, k, l, v)
            cnt = task.getnumbarablocktriplets()
            if cnt:
                I, J, K, L, V = [np.zeros(cnt, np.int32) for _ in range(4)] + [np.zeros(cnt)]
                cnt = task.getbarablocktriplet(I, J, K, L, V)
                for i, j, k, l, v in list(zip(I, J, K, L, V))[:cnt]:
                    place(self.A[i], j, k, l, v)
        self.rows = np.array([bound(*task.getconbound(i)) for i in range(m)]).reshape(-1, 2)
        self.cols = np.array([bound(*task.getvarbound(i)) for i in range(n)]).reshape(-1, 2)
        if task.getnumacc() or task.getnumcone() or task.getnumdjc():
            raise RuntimeError("only linear rows and PSD variables are expected")


class Solution:
    pass


def solve(task):
    d = Data(task)
    sg = -1 if d.maximize else 1
    N, n = d.N, d.n
    Aeq, beq, G, h, tag = [], [], [], [], []
    eqtag = []
    eye = np.eye(N)
    for kind, M, B in (("c", d.A, d.rows), ("x", eye[:n], d.cols)):
        for i, (lo, up) in enumerate(B):
            if lo == up:
                Aeq.append(M[i])
                beq.append(lo)
                eqtag.append((kind, i))
                continue
            if lo > -INF:
                G.append(-M[i])
                h.append(-lo)
                tag.append((kind, i, 1))
            if up < INF:
                G.append(M[i])
                h.append(up)
                tag.append((kind, i, -1))
    l = len(G)
    G = np.vstack([np.array(G).reshape(-1, N), -eye[n:]])
    h = np.hstack([h, np.zeros(N - n)])
    r = conic.conelp(sg * d.c, G, h, np.array(Aeq).reshape(-1, N), np.array(beq, dtype=float), l, d.dims)
    s = Solution()
    s.data = d
    s.xx, s.slc, s.suc = np.zeros(n), np.zeros(d.m), np.zeros(d.m)
    s.slx, s.sux = np.zeros(n), np.zeros(n)
    s.barx, s.bars = np.zeros(N - n), np.zeros(N - n)
    s.pobj = s.dobj = 0.
    unscale = np.hstack([np.where(np.equal(*np.triu_indices(k)), 1., 1 / conic.R2) for k in d.dims]) if d.dims else np.zeros(0)
    st = r["status"]
    if r.get("x") is not None:
        s.xx, s.barx = r["x"][:n], r["x"][n:] * unscale
        s.pobj = float(d.c @ r["x"])
    if r.get("z") is not None:
        z, y = r["z"], r["y"]
        for t, v in zip(tag, z):
            tgt = {("c", 1): s.slc, ("c", -1): s.suc, ("x", 1): s.slx, ("x", -1): s.sux}[t[0], t[2]]
            tgt[t[1]] += sg * v
        for (kind, i), v in zip(eqtag, -y):
            lo, up = (s.slc, s.suc) if kind == "c" else (s.slx, s.sux)
            (lo if v >= 0 else up)[i] += sg * abs(v)
        s.bars = sg * z[l:] * unscale
        s.dobj = sg * float(-(h @ z) - (np.array(beq) @ y if len(y) else 0))
    s.xc = d.A @ np.hstack([s.xx, s.barx / unscale if len(unscale) else s.barx])
    ps, ss = mosek.prosta, mosek.solsta
    if st == "optimal":
        s.prosta, s.solsta = ps.prim_and_dual_feas, ss.optimal
        s.pobj += d.c0
        s.dobj += d.c0
    elif st == "primal infeasible":
        s.prosta, s.solsta = ps.prim_infeas, ss.prim_infeas_cer
    elif st == "dual infeasible":
        s.prosta, s.solsta = ps.dual_infeas, ss.dual_infeas_cer
    else:
        s.prosta, s.solsta = ps.unknown, ss.unknown
    s.err = r.get("err", 0.)
    return s


def linear(task):
    """Same as solve, for tasks without PSD variables, by fakelp."""
    s = fakelp.solve(task)
    s.slc, s.suc = np.maximum(s.yy, 0), np.maximum(-s.yy, 0)
    mx, c, c0, A, rows, cols = s.raw
    red = (c if s.solsta == mosek.solsta.optimal else 0) - A.T @ s.yy
    s.slx, s.sux = np.maximum(red, 0), np.maximum(-red, 0)
    s.err = 0.
    return s


class Patch(fakelp.Patch):
    names = fakelp.Patch.names + ("solutionsummary", "solutiondef", "getxxslice", "getslxslice", "getsuxslice", "getxcslice", "getslcslice", "getsucslice", "getbarxslice", "getbarsslice")

    def __enter__(self):
        super().__enter__()
        T = mosek.Task
        sol = self.sol
        me = self

        def optimize(task):
            me.tasks.clear()
            sol.clear()
            s = sol[id(task)] = solve(task) if task.getnumbarvar() else linear(task)
            me.tasks.append(s)
            return mosek.rescode.ok
        T.optimize = optimize
        T.solutionsummary = lambda t, w: None
        T.solutiondef = lambda t, w: int(w == mosek.soltype.itr)

        def slicer(name):
            def get(t, w, first, last, v):
                v[:] = getattr(sol[id(t)], name)[first:last]
            return get
        for name in ("xx", "slx", "sux", "xc", "slc", "suc"):
            setattr(T, f"get{name}slice", slicer(name))

        def bar(name):
            def get(t, w, first, last, size, v):
                v[:] = getattr(sol[id(t)], name)
            return get
        T.getbarxslice, T.getbarsslice = bar("barx"), bar("bars")
        return self

