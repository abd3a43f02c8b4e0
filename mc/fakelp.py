"""Stand-in for the optimiser inside mosek.Task: the problem is read back from
the task through its public getters and solved with scipy's HiGHS, and the
answers follow MOSEK's sign conventions (y is the derivative of the optimal
value with respect to the right-hand side; infeasibility is certified by a ray).
Only optimize() and the solution getters are replaced."""
import mosek
import numpy as np
from scipy.optimize import linprog

INF = np.inf


def bounds(keys, lo, up):
    L, U = np.full(len(keys), -INF), np.full(len(keys), INF)
    for i, k in enumerate(keys):
        if k in (mosek.boundkey.lo, mosek.boundkey.fx, mosek.boundkey.ra):
            L[i] = lo[i]
        if k in (mosek.boundkey.up, mosek.boundkey.ra):
            U[i] = up[i]
        if k == mosek.boundkey.fx:
            U[i] = lo[i]
    return L, U


def read(task):
    """(maximize, c, c0, A, rows (L, U), columns (L, U)) of a linear task."""
    n, m = task.getnumvar(), task.getnumcon()
    if task.getnumbarvar() or task.getnumcone() or getattr(task, "getnumacc", lambda: 0)():
        raise RuntimeError("not a linear problem")
    c = np.zeros(n)
    for j in range(n):
        c[j] = task.getcj(j)
    A = np.zeros((m, n))
    for i in range(m):
        k = task.getarownumnz(i)
        sub, val = np.zeros(k, dtype=np.int32), np.zeros(k)
        if k:
            r = task.getarow(i, sub, val)
            for j, v in zip(sub, val):
                A[i, j] += v

    def bnd(get, count):
        ks, lo, up = [], [], []
        for i in range(count):
            k, a, b = get(i)
            ks.append(k)
            lo.append(a)
            up.append(b)
        return bounds(ks, lo, up)
    return (task.getobjsense() == mosek.objsense.maximize, c, task.getcfix(), A, bnd(task.getconbound, m), bnd(task.getvarbound, n))


def highs(maximize, c, A, rows, cols):
    """Optimum of opt c.x, rows[0] <= A x <= rows[1], cols[0] <= x <= cols[1]."""
    s = -1 if maximize else 1
    L, U = rows
    if not len(c):
        if np.all(L <= 0) and np.all(U >= 0):
            return dict(status=0, fun=0., x=np.zeros(0), y=np.zeros(len(A)))
        return dict(status=2, fun=None, x=None)
    eq = np.isfinite(L) & np.isfinite(U) & (L == U)
    up = np.isfinite(U) & ~eq
    lo = np.isfinite(L) & ~eq
    if np.any(L > U) or np.any(cols[0] > cols[1]):
        return dict(status=2, fun=None, x=None)
    Aub = np.vstack([A[up], -A[lo]])
    bub = np.hstack([U[up], -L[lo]])
    r = linprog(s * c, A_ub=Aub if len(Aub) else None, b_ub=bub if len(bub) else None, A_eq=A[eq] if eq.any() else None,
                b_eq=L[eq] if eq.any() else None, bounds=np.array(cols).T, method="highs")
    if r.status == 4:       # presolve could not tell infeasible from unbounded
        r = linprog(s * c, A_ub=Aub if len(Aub) else None, b_ub=bub if len(bub) else None, A_eq=A[eq] if eq.any() else None,
                    b_eq=L[eq] if eq.any() else None, bounds=np.array(cols).T, method="highs", options=dict(presolve=False))
    out = dict(status=r.status, fun=None, x=None)
    if r.status == 0:
        y = np.zeros(len(A))
        if len(Aub):
            m = r.ineqlin.marginals
            y[up] += m[:up.sum()]
            y[lo] -= m[up.sum():]
        if eq.any():
            y[eq] = r.eqlin.marginals
        out.update(fun=s * r.fun, x=r.x, y=s * y)
    return out


def ray_primal(maximize, A, rows, cols):
    """Certificate that the constraints are infeasible: y with A^T y + (bound
    multipliers) = 0 and y.rhs > 0 in the sense of a minimisation; MOSEK's sign
    for a maximisation is the opposite."""
    L, U = rows
    l, u = cols
    m, n = A.shape
    # variables: sl, su (rows), xl, xu (columns), all >= 0
    cost = np.hstack([np.where(np.isfinite(L), L, 0), -np.where(np.isfinite(U), U, 0),
                      np.where(np.isfinite(l), l, 0), -np.where(np.isfinite(u), u, 0)])
    M = np.hstack([A.T, -A.T, np.eye(n), -np.eye(n)])
    ub = [(0, None if np.isfinite(v) else 0) for v in np.hstack([L, U, l, u])]
    M = np.vstack([M, cost])
    # all the multipliers as small as possible
    r = linprog(np.ones(len(cost)), A_eq=M, b_eq=np.hstack([np.zeros(n), [1.0]]), bounds=ub, method="highs")
    if r.status != 0:
        return None
    y = r.x[:m] - r.x[m:2 * m]
    return -y if maximize else y


def ray_dual(maximize, c, A, rows, cols):
    """Direction along which the objective improves without end."""
    lim = lambda v, w: np.array([(0 if np.isfinite(a) else -INF, 0 if np.isfinite(b) else INF) for a, b in zip(v, w)]).reshape(-1, 2)
    R, C = lim(*rows), lim(*cols)
    C = np.clip(C, -1, 1)
    r = highs(maximize, c, A, (R[:, 0], R[:, 1]), (C[:, 0], C[:, 1]))
    return r["x"]


class Solution:
    pass


def solve(task):
    mx, c, c0, A, rows, cols = read(task)
    r = highs(mx, c, A, rows, cols)
    s = Solution()
    s.raw = (mx, c, c0, A, rows, cols)
    m, n = A.shape
    s.pobj = s.dobj = 0.0
    s.xx, s.yy = np.zeros(n), np.zeros(m)
    if r["status"] == 0:
        s.prosta, s.solsta = mosek.prosta.prim_and_dual_feas, mosek.solsta.optimal
        s.pobj = s.dobj = r["fun"] + c0
        s.xx, s.yy = r["x"], r["y"]
    elif r["status"] == 2:
        s.prosta, s.solsta = mosek.prosta.prim_infeas, mosek.solsta.prim_infeas_cer
        y = ray_primal(mx, A, rows, cols)
        if y is None:
            raise RuntimeError("no certificate of infeasibility found")
        s.yy = y
        s.dobj = -1.0 if mx else 1.0
    elif r["status"] == 3:
        s.prosta, s.solsta = mosek.prosta.dual_infeas, mosek.solsta.dual_infeas_cer
        x = ray_dual(mx, c, A, rows, cols)
        if x is None:
            raise RuntimeError("no direction of unboundedness found")
        s.xx = x
        s.pobj = float(c @ x)
    else:
        raise RuntimeError(f"HiGHS status {r['status']}")
    s.xc = A @ s.xx
    return s


class Patch:
    """Context manager that puts the stand-in in place of the optimiser."""
    names = ("optimize", "getsolution", "getprimalobj", "getdualobj", "getxx", "gety", "getxc", "getsolsta", "getprosta")

    def __init__(self):
        self.tasks = []

    def __enter__(self):
        self.old = {k: getattr(mosek.Task, k) for k in self.names}
        me = self
        sol = self.sol = {}

        def get(task):
            return sol[id(task)]

        def optimize(task):
            me.tasks.clear()
            sol.clear()
            sol[id(task)] = solve(task)
            me.tasks.append(sol[id(task)])
            return mosek.rescode.ok

        def getsolution(task, which, *a):
            s = get(task)
            z = np.zeros
            n, m = len(s.xx), len(s.yy)
            return (s.prosta, s.solsta, [mosek.stakey.bas] * m, [mosek.stakey.bas] * n, [], list(s.xc), list(s.xx), list(s.yy),
                    list(z(m)), list(z(m)), list(z(n)), list(z(n)), list(z(n)))
        mosek.Task.optimize = optimize
        mosek.Task.getsolution = getsolution
        mosek.Task.getprimalobj = lambda t, w: get(t).pobj
        mosek.Task.getdualobj = lambda t, w: get(t).dobj
        mosek.Task.getxx = lambda t, w, *a: list(get(t).xx)
        mosek.Task.gety = lambda t, w, *a: list(get(t).yy)
        mosek.Task.getxc = lambda t, w, *a: list(get(t).xc)
        mosek.Task.getsolsta = lambda t, w: get(t).solsta
        mosek.Task.getprosta = lambda t, w: get(t).prosta
        return self

    def __exit__(self, *a):
        for k, v in self.old.items():
            setattr(mosek.Task, k, v)
