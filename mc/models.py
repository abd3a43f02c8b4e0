"""Explicit classical and quantum models of a scenario: states of the sources,
measurements of the parties.  They give the exact value of every product of
operators of any inflation of the scenario, and the distribution observed in
the original scenario.  Used as semantic oracles."""
from itertools import product

import numpy as np

import ref


class ClassicalModel:
    """weights[s]: probabilities of the values of source s.
    resp[p][(setting index), values of the sources feeding p] -> outcome."""

    def __init__(self, r, weights, resp):
        self.r, self.resp = r, resp
        regs = [(s, c) for s in range(r.m) for c in range(1, r.levels[s] + 1)]
        pos = {sc: i for i, sc in enumerate(regs)}
        grids = np.meshgrid(*[np.arange(len(weights[s])) for s, _ in regs], indexing="ij")
        vals = [g.ravel() for g in grids]
        w = np.ones(len(vals[0]) if vals else 1)
        for (s, c), v in zip(regs, vals):
            w = w * np.asarray(weights[s], dtype=float)[v]
        self.w = w
        self.ind = []
        for o in r.ops:
            p = o[0] - 1
            args = [vals[pos[s, o[1 + s]]] for s in sorted(r.feeds[p])]
            tab = resp[p][o[-2]]
            out = tab[tuple(args)] if args else np.full(len(w), tab)
            self.ind.append(out == o[-1])
        self._ev = {}

    def vec(self, word):
        v = np.sqrt(self.w)
        for i in word:
            v = v * self.ind[i]
        return v

    def ev(self, word):
        word = tuple(word)
        if word not in self._ev:
            v = self.w
            for i in word:
                v = v * self.ind[i]
            self._ev[word] = float(v.sum())
        return self._ev[word]

    def distribution(self):
        return distribution(self.r, self.ev)


def distribution(r, ev):
    P = np.zeros(tuple(r.outcomes) + tuple(r.private))
    for out in product(*map(range, r.outcomes)):
        for inp in product(*map(range, r.private)):
            w = []
            for p in range(r.n):
                x = r.eff[p].index((inp[p],) + tuple(out[q] for q in r.parents[p]))
                cop = tuple(1 if s in r.feeds[p] else 0 for s in range(r.m))
                w.append(r.index[(p + 1,) + cop + (x, out[p])])
            P[out + inp] = max(0., np.real(ev(tuple(w))))     # clip rounding noise
    return P


# ----------------------------------------------------------------- classical
def functions(nargs, dims, nout, rich):
    """Tables dims -> outcome: all of them when few, else a fixed family:
    constants, each argument, its shift, pairwise AND-like / XOR-like,
    sum of all."""
    size = int(np.prod(dims)) if dims else 1
    if nout ** size <= rich:
        for t in product(range(nout), repeat=size):
            yield np.array(t).reshape(dims) if dims else np.array(t[0])
        return
    idx = np.indices(dims)
    fam = [np.zeros(dims, int)]
    for i in range(len(dims)):
        fam += [idx[i] % nout, (idx[i] + 1) % nout]
    for i in range(len(dims)):
        for j in range(i):
            fam += [(idx[i] * idx[j]) % nout, (idx[i] + idx[j]) % nout]
    if len(dims) > 2:
        fam.append(idx.sum(axis=0) % nout)
    yield from fam


def strategies(r, d, rich):
    """All deterministic strategies of a finite family, as resp tables
    indexed [party][setting][source values]."""
    per = []
    for p in range(r.n):
        k = len(r.feeds[p])
        dims = (len(r.eff[p]),) + (d,) * k
        per.append(list(functions(k + 1, dims, r.outcomes[p], rich)))
    return per


# ------------------------------------------------------------------- quantum
S2 = 1 / np.sqrt(2)
C8, S8 = np.cos(np.pi / 8), np.sin(np.pi / 8)
BASES1 = {"Z": np.eye(2), "X": np.array([[1, 1], [1, -1]]) * S2,
          "Y": np.array([[1, 1j], [1, -1j]]) * S2,
          "W": np.array([[C8, S8], [S8, -C8]])}
BELL = np.array([[1, 0, 0, 1], [1, 0, 0, -1], [0, 1, 1, 0], [0, 1, -1, 0]]) * S2


def basis(name, nq):
    """Orthonormal basis (rows) of nq qubits."""
    if nq == 0:
        return np.eye(1)
    if name == "generic":            # fixed unitary without structure
        n = 2 ** nq
        k = np.arange(n * n).reshape(n, n)
        return np.linalg.qr(np.cos(1 + 1.7 * k + k * k % 7) + 1j * np.sin(2 + 2.3 * k * k % 11))[0]
    if name == "bell" and nq >= 2:
        b = BELL
        for _ in range(nq - 2):
            b = np.kron(b, BASES1["W"])
        return b
    if name == "bell":
        return BASES1["Y"]
    b = np.eye(1)
    for i in range(nq):
        c = name[i % len(name)]
        b = np.kron(b, BASES1[c])
    return b


STATES = ("product", "max", "tilted", "ghz_y")


def source_state(kind, nq):
    v = np.zeros(2 ** nq, complex)
    if nq == 0:
        return np.ones(1, complex)
    if kind == "product":
        q = np.array([C8, S8])
        v = np.ones(1)
        for _ in range(nq):
            v = np.kron(v, q)
        return v.astype(complex)
    if kind == "max":
        v[0] = v[-1] = S2
    elif kind == "tilted":
        v[0], v[-1] = C8, S8
    else:                        # locally rotated, complex
        v[0], v[-1] = S2, 1j * S2
        if nq > 1:
            v[0], v[1], v[-1] = 0.6, 0.48j, 0.64
    return v


class QuantumModel:
    """states[s]: name of the state emitted by quantum source s (one qubit per
    direct child, as many qubits to a latent as it has children); classical
    sources emit a bit with weights (1/4, 3/4), readable by everyone they reach.
    meas[p][x]: (name of basis for bit value 0.., how outcomes are grouped)."""

    def __init__(self, r, states, meas):
        self.r = r
        chd = {p: list(c) for p, c in r.sc["dag"]}
        lat = r.nlat | r.clat
        regs = []                      # (source, copy, child, k) qubits in order
        self.state = np.ones(1, complex)
        for s, src in enumerate(r.sources):
            for c in range(1, r.levels[s] + 1):
                if r.classical[s]:
                    regs.append((s, c, None, 0))
                    self.state = np.kron(self.state, np.sqrt([0.25, 0.75]))
                    continue
                qs = [(s, c, ch, k) for ch in chd[src] for k in range(len(chd[ch]) if ch in lat else 1)]
                regs += qs
                self.state = np.kron(self.state, source_state(states[s], len(qs)))
        self.pos = {x: i for i, x in enumerate(regs)}
        self.nq = len(regs)
        self.state = self.state.reshape((2,) * self.nq)
        self._vec = {(): self.state}
        self._ev = {}
        self.op = []
        for o in r.ops:
            p = o[0] - 1
            name = r.parties[p]
            cl = [(s, o[1 + s], None, 0) for s in sorted(r.feeds[p]) if r.classical[s]]
            qs = [(s, o[1 + s], name, 0) for s in sorted(r.feeds[p])
                  if not r.classical[s] and name in chd[r.sources[s]]]
            # through latents: the latent rotates all it receives, then sends
            # the k-th of its systems to its k-th child
            lq, U = [], np.eye(1)
            mine = []
            for L in sorted(r.nlat):
                if name in chd[L]:
                    k = chd[L].index(name)
                    ins = [(s, o[1 + s], L, j) for s in sorted(r.feeds[p])
                           if not r.classical[s] and L in chd[r.sources[s]] for j in range(len(chd[L]))]
                    off = len(lq)
                    mine += [off + t for t, x in enumerate(ins) if x[3] == k]
                    lq += ins
                    U = np.kron(U, basis("generic", len(ins)))
            nmeas = len(qs) + len(mine)
            b0, group = meas[p][o[-2]]
            mats = []
            for bits in product(range(2), repeat=len(cl)):
                B = basis(b0[sum(bits) % len(b0)], nmeas)
                keep = np.array([(g + sum(bits) * (group[0] == "c")) % r.outcomes[p] == o[-1]
                                 for g in outcome_map(group, 2 ** nmeas, r.outcomes[p])])
                proj = B[keep].T.conj() @ B[keep] if keep.any() else np.zeros((B.shape[1],) * 2)
                # proj acts on qs + mine; embed into qs + lq
                T = proj.reshape((2,) * (2 * nmeas))
                n = len(qs) + len(lq)
                tgt = list(range(len(qs))) + [len(qs) + t for t in mine]
                rest = [i for i in range(n) if i not in tgt]
                full = np.kron(proj, np.eye(2 ** len(rest))).reshape((2,) * (2 * n))
                perm = tgt + rest
                inv = [perm.index(i) for i in range(n)]
                full = full.transpose(inv + [n + i for i in inv]).reshape(2 ** n, 2 ** n)
                if lq:
                    V = np.kron(np.eye(2 ** len(qs)), U)
                    full = V.conj().T @ full @ V
                mats.append(full)
            self.op.append(([self.pos[x] for x in cl], [self.pos[x] for x in qs + lq], mats))

    def apply(self, i, v):
        cl, q, mats = self.op[i]
        if not cl:
            return self._app(mats[0], q, v)
        out = np.zeros_like(v)
        for bits, m in zip(product(range(2), repeat=len(cl)), mats):
            sel = [slice(None)] * v.ndim
            for c, b in zip(cl, bits):
                sel[c] = slice(b, b + 1)
            sel = tuple(sel)
            out[sel] = self._app(m, q, v[sel])
        return out

    @staticmethod
    def _app(m, q, v):
        k = len(q)
        if k == 0:
            return v * m.reshape(())
        t = np.tensordot(m.reshape((2,) * (2 * k)), v, axes=(list(range(k, 2 * k)), q))
        return np.moveaxis(t, list(range(k)), q)

    def tvec(self, word):
        word = tuple(word)
        if word not in self._vec:
            self._vec[word] = self.apply(word[0], self.tvec(word[1:]))
        return self._vec[word]

    def vec(self, word):
        return self.tvec(word).ravel()

    def ev(self, word):
        word = tuple(word)
        if word not in self._ev:
            self._ev[word] = complex(np.vdot(self.state, self.tvec(word)))
        return self._ev[word]

    def distribution(self):
        return distribution(self.r, self.ev)


def outcome_map(group, n, nout):
    if group in ("parity", "cparity"):
        return [bin(i).count("1") for i in range(n)]
    if group in ("index", "cindex"):
        return list(range(n))
    return [0 if i == 0 else 1 for i in range(n)]      # first / others
