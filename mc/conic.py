"""A small dense primal-dual solver for linear cone programs (homogeneous
self-dual embedding with Nesterov-Todd scaling):

    minimise c.x  subject to  G x + s = h,  A x = b,  s in R_+^l x S_+^n1 x ...
    maximise -h.z - b.y  subject to  G'z + A'y + c = 0,  z in the same cone.

Matrices are stored as scaled upper triangles, so that inner products agree."""
import numpy as np

R2 = np.sqrt(2.)
_basis = {}


def basis(n):
    """Q with svec(M) = Q vec(M), and Q' svec = vec, for symmetric M."""
    if n not in _basis:
        d = n * (n + 1) // 2
        Q = np.zeros((d, n * n))
        k = 0
        for i in range(n):
            for j in range(i, n):
                if i == j:
                    Q[k, i * n + i] = 1.
                else:
                    Q[k, i * n + j] = Q[k, j * n + i] = 1 / R2
                k += 1
        _basis[n] = Q
    return _basis[n]


def svec(M):
    n = len(M)
    i, j = np.triu_indices(n)
    return np.where(i == j, 1., R2) * M[i, j]


def smat(v):
    n = int((np.sqrt(8 * len(v) + 1) - 1) / 2 + .5)
    M = np.zeros((n, n))
    i, j = np.triu_indices(n)
    M[i, j] = v / np.where(i == j, 1., R2)
    return M + M.T - np.diag(np.diag(M))


class Cone:
    def __init__(self, l, ns):
        self.l, self.ns = l, list(ns)
        self.sl, k = [], l
        for n in self.ns:
            self.sl.append(slice(k, k + n * (n + 1) // 2))
            k += n * (n + 1) // 2
        self.dim = k
        self.degree = l + sum(self.ns)
        self.e = np.zeros(k)
        self.e[:l] = 1
        for n, s in zip(self.ns, self.sl):
            self.e[s] = svec(np.eye(n))

    def scaling(self, s, z):
        """W (matrix) with W z = W^-T s = lambda."""
        W, Wi, lam = np.zeros((self.dim, self.dim)), np.zeros((self.dim, self.dim)), np.zeros(self.dim)
        l = self.l
        w = np.sqrt(s[:l] / z[:l])
        i = np.arange(l)
        W[i, i], Wi[i, i] = w, 1 / w
        lam[:l] = np.sqrt(s[:l] * z[:l])
        self.lams = []
        for n, q in zip(self.ns, self.sl):
            L1, L2 = np.linalg.cholesky(smat(s[q])), np.linalg.cholesky(smat(z[q]))
            U, d, Vt = np.linalg.svd(L2.T @ L1)
            R = L1 @ Vt.T / np.sqrt(d)
            Ri = (U / np.sqrt(d)).T @ L2.T
            Q = basis(n)
            W[q, q] = Q @ np.kron(R.T, R.T) @ Q.T
            Wi[q, q] = Q @ np.kron(Ri.T, Ri.T) @ Q.T
            lam[q] = svec(np.diag(d))
            self.lams.append(d)
        return W, Wi, lam

    def prod(self, u, v):
        out = u * v
        for q in self.sl:
            U, V = smat(u[q]), smat(v[q])
            out[q] = svec((U @ V + V @ U) / 2)
        return out

    def div(self, lam, u):
        out = u / np.where(lam == 0, 1, lam)
        for d, q in zip(self.lams, self.sl):
            out[q] = svec(2 * smat(u[q]) / (d[:, None] + d[None, :]))
        return out

    def step(self, lam, d):
        """Largest t with lam + t d in the cone."""
        worst = 0.
        if self.l:
            worst = max(worst, np.max(-d[:self.l] / lam[:self.l]))
        for dd, q in zip(self.lams, self.sl):
            r = 1 / np.sqrt(dd)
            M = smat(d[q]) * r[:, None] * r[None, :]
            if not np.isfinite(M).all():
                return 0.
            worst = max(worst, -np.linalg.eigvalsh(M)[0])
        return 1 / worst if worst > 0 else np.inf


def independent(A, b):
    """Drop redundant rows of A x = b. (kept rows, None) or (None, y) where y
    shows that the equations are inconsistent: A'y = 0, b.y < 0."""
    if not len(A):
        return np.arange(0), None
    from scipy.linalg import qr
    sc = np.maximum(np.linalg.norm(A, axis=1), 1e-300)
    q, r, p = qr((A / np.where(sc < 1e-290, 1, sc)[:, None]).T, mode="economic", pivoting=True)
    diag = np.abs(np.diag(r))
    rank = int(np.sum(diag > 1e-10)) if len(diag) else 0
    keep = np.sort(p[:rank])
    drop = np.setdiff1d(np.arange(len(A)), keep)
    for k in drop:
        if rank:
            t = np.linalg.lstsq(A[keep].T, A[k], rcond=None)[0]
        else:
            t = np.zeros(0)
        gap = b[k] - (t @ b[keep] if rank else 0)
        if abs(gap) > 1e-8 * max(1, abs(b[k])):
            y = np.zeros(len(A))
            y[k] = 1
            y[keep] -= t
            return None, -y / gap
    return keep, None


def conelp(c, G, h, A, b, l, ns, tol=1e-9, maxit=100):
    cone = Cone(l, ns)
    n, m0 = len(c), len(b)
    keep, ray = independent(A, b)
    if keep is None:
        return dict(status="primal infeasible", y=ray, z=np.zeros(len(h)), x=None, s=None)
    Af, bf = A, b
    A, b = A[keep].reshape(-1, n), b[keep]
    p, m = len(b), len(h)
    x, y, s, z, tau, kap = np.zeros(n), np.zeros(p), cone.e.copy(), cone.e.copy(), 1., 1.
    best, ray = None, (np.inf, None)

    def full(v):
        out = np.zeros(m0)
        out[keep] = v
        return out
    nb, nc = max(1, np.linalg.norm(np.hstack([b, h]))), max(1, np.linalg.norm(c))
    for it in range(maxit):
        mu = (s @ z + tau * kap) / (cone.degree + 1)
        r1 = -(A.T @ y + G.T @ z + c * tau)
        r2 = A @ x - b * tau
        r3 = s + G @ x - h * tau
        r4 = kap + c @ x + b @ y + h @ z
        pobj, dobj = c @ x / tau, -(b @ y + h @ z) / tau
        pres = np.linalg.norm(np.hstack([r2, r3])) / tau / nb
        dres = np.linalg.norm(r1) / tau / nc
        gap = s @ z / tau ** 2
        rel = gap / max(1, abs(pobj))
        err = max(pres, dres, rel)
        if best is None or err < best[0]:
            best = (err, x / tau, full(y) / tau, s / tau, z / tau, pobj, dobj)
        if err < tol:
            break
        ct = b @ y + h @ z
        if ct < 0:
            e = np.linalg.norm(A.T @ y + G.T @ z) / nc / -ct
            if e < ray[0]:
                ray = (e, dict(status="primal infeasible", y=full(y) / -ct, z=z / -ct, x=None, s=None, err=e))
        ct = c @ x
        if ct < 0:
            e = np.linalg.norm(np.hstack([A @ x, G @ x + s])) / nb / -ct
            if e < ray[0]:
                ray = (e, dict(status="dual infeasible", x=x / -ct, s=s / -ct, y=None, z=None, err=e))
        if ray[0] < tol:
            return ray[1]
        try:
            W, Wi, lam = cone.scaling(s, z)
        except np.linalg.LinAlgError:
            break
        K = np.zeros((n + p + m,) * 2)
        K[:n, n:n + p], K[:n, n + p:], K[n:n + p, :n], K[n + p:, :n] = A.T, G.T, A, G
        K[n + p:, n + p:] = -W.T @ W
        reg = np.hstack([np.full(n, 1e-13), np.full(p, -1e-13), np.zeros(m)])
        import scipy.linalg as sl
        try:
            lu = sl.lu_factor(K + np.diag(reg), check_finite=False)
        except Exception:
            break

        def solve(rhs):
            v = sl.lu_solve(lu, rhs, check_finite=False)
            for _ in range(3):
                v = v + sl.lu_solve(lu, rhs - K @ v, check_finite=False)
            return v
        u1 = solve(np.hstack([-c, b, h]))
        if not np.isfinite(u1).all():
            break
        q = np.hstack([c, b, h])
        sig, corr, corrk = 0., np.zeros(m), 0.
        for phase in (0, 1):
            ds = -cone.prod(lam, lam) + sig * mu * cone.e - corr
            dk = -kap * tau + sig * mu - corrk
            t = cone.div(lam, ds)
            f = 1 - sig
            u0 = solve(np.hstack([f * r1, -f * r2, -f * r3 - W.T @ t]))
            dtau = (-f * r4 - dk / tau - q @ u0) / (q @ u1 - kap / tau)
            d = u0 + dtau * u1
            dx, dy, dz = d[:n], d[n:n + p], d[n + p:]
            if not np.isfinite(d).all():
                step = a = 0.
                break
            sz = W @ dz
            ss = t - sz
            dkap = (dk - kap * dtau) / tau
            step = min(cone.step(lam, sz), cone.step(lam, ss), -tau / dtau if dtau < 0 else np.inf, -kap / dkap if dkap < 0 else np.inf)
            if phase == 0:
                a = min(1., step)
                sig = (1 - a) ** 3
                corr, corrk = cone.prod(ss, sz), dkap * dtau
            else:
                a = min(1., .98 * step)
        if not np.isfinite(a) or a < 1e-12:
            break
        x, y, z = x + a * dx, y + a * dy, z + a * dz
        s = s + a * (W.T @ ss)
        tau, kap = tau + a * dtau, kap + a * dkap
    err, x, y, s, z, pobj, dobj = best
    if err > 1e-5 and ray[0] < 1e-5 or ray[0] < 1e-3 * err:
        return ray[1]
    return dict(status="optimal" if err < 1e-5 else "unknown", x=x, y=y, s=s, z=z, pobj=pobj, dobj=dobj, err=err)
