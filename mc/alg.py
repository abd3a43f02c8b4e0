"""Reference operator algebra: words over the operators of a scenario modulo
commutation, projectivity (PP = P) and orthogonality of the outcomes of one
measurement; moments modulo copy relabelling of each independent factor and
complex conjugation.  Computed by exhaustive rewriting (closure of a word under
adjacent swaps and merges), deliberately without any normal-form algorithm."""
import ref

ZERO = "zero"


class Algebra:
    def __init__(self, sc_or_ref):
        self.r = r = sc_or_ref if isinstance(sc_or_ref, ref.Scenario) else ref.Scenario(sc_or_ref)
        N = self.N = len(r.ops)
        self.com = [[r.commute(a, b) for b in r.ops] for a in r.ops]
        self.orth = [[r.orthogonal(a, b) for b in r.ops] for a in r.ops]
        self.perms = [[r.index[r.act(g, o)] for o in r.ops] for g in r.group()]
        self.ov = [[r.overlap(a, b) for b in r.ops] for a in r.ops]
        self._nf, self._atom, self._key = {}, {}, {}

    def closure(self, w):
        """All words reachable by swaps and merges, or None if one of them is
        visibly zero."""
        seen, stack = {w}, [w]
        while stack:
            u = stack.pop()
            for i in range(len(u) - 1):
                a, b = u[i], u[i + 1]
                if self.orth[a][b]:
                    return None
                v = None
                if a == b:
                    v = u[:i] + u[i + 1:]
                elif self.com[a][b]:
                    v = u[:i] + (b, a) + u[i + 2:]
                if v is not None and v not in seen:
                    seen.add(v)
                    stack.append(v)
        return seen

    def nf(self, w):
        """Canonical word (shortest, then lexicographically least) or ZERO."""
        w = tuple(w)
        if w not in self._nf:
            c = self.closure(w)
            self._nf[w] = ZERO if c is None else min(c, key=lambda u: (len(u), u))
        return self._nf[w]

    def components(self, w):
        n = len(w)
        comp = list(range(n))
        for i in range(n):
            for j in range(i):
                if self.ov[w[i]][w[j]] and comp[i] != comp[j]:
                    a, b = comp[i], comp[j]
                    comp = [b if c == a else c for c in comp]
        out = {}
        for i in range(n):
            out.setdefault(comp[i], []).append(w[i])
        return [tuple(v) for v in out.values()]

    def atom(self, w):
        w = tuple(w)
        if w not in self._atom:
            self._atom[w] = min((self.nf([p[i] for i in w]) for p in self.perms),
                                key=lambda u: (len(u), u))
        return self._atom[w]

    def key(self, w, conj=True):
        """Identity of the moment <w>."""
        w = tuple(w)
        if (w, conj) in self._key:
            return self._key[w, conj]
        self._key[w, conj] = k = self._compute_key(w, conj)
        return k

    def _compute_key(self, w, conj):
        # operators of different components share no copy, hence commute and
        # never merge: each component can be rewritten on its own
        comps = [self.nf(c) for c in self.components(w)]
        if ZERO in comps:
            return ZERO
        a = tuple(sorted(self.atom(c) for c in comps))
        if not conj:
            return a
        b = tuple(sorted(self.atom(c[::-1]) for c in comps))
        return min(a, b)

    def all_commuting(self, w):
        return all(self.com[a][b] for a in w for b in w)

    def selfadjoint(self, w):
        """w equals its own reverse by the algebra alone."""
        return self.nf(w) == self.nf(tuple(w)[::-1])
