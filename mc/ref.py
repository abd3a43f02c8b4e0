"""Reference model of an inflation problem, written from the definition of
inflation (Wolfe et al.) and from the library's documentation, without using
any code of the library.

A scenario is a plain dict:
  dag:       [[parent, [children...]], ...]      (insertion order matters)
  outcomes:  [..]   one per party, in party order
  settings:  [..]   private settings
  levels:    [..]   copies per source
  classical: [..] or "all"
  nlat/clat: non-classical / classical intermediate latents
  order:     [..]   party order or [] for alphabetical
"""
from itertools import permutations, product


def kwargs(sc):
    d = dict(dag={p: list(c) for p, c in sc["dag"]},
             outcomes_per_party=tuple(sc["outcomes"]),
             settings_per_party=tuple(sc["settings"]),
             inflation_level_per_source=tuple(sc["levels"]),
             classical_sources=sc.get("classical", []))
    if sc.get("order"):
        d["order"] = tuple(sc["order"])
    if sc.get("nlat"):
        d["nonclassical_intermediate_latents"] = tuple(sc["nlat"])
    if sc.get("clat"):
        d["classical_intermediate_latents"] = tuple(sc["clat"])
    return d


class Scenario:
    def __init__(self, sc):
        self.sc = sc
        dag = [(p, list(c)) for p, c in sc["dag"]]
        self.nlat = set(sc.get("nlat", []))
        self.clat = set(sc.get("clat", []))
        lat = self.nlat | self.clat
        visible = {c for _, ch in dag for c in ch} - lat
        self.parties = list(sc["order"]) if sc.get("order") else sorted(visible)
        self.n = len(self.parties)
        pidx = {p: i for i, p in enumerate(self.parties)}
        self.sources = [p for p, _ in dag if p not in pidx and p not in lat]
        self.m = len(self.sources)
        cl = sc.get("classical", [])
        self.classical = [True if cl == "all" else (s in cl) for s in self.sources]
        self.outcomes = list(sc["outcomes"])
        self.private = list(sc["settings"])
        self.levels = list(sc["levels"])
        chd = {p: ch for p, ch in dag}
        self.parents = [[i for i, q in enumerate(self.parties) if p in chd.get(q, [])]
                        for p in self.parties]
        # feeds[p] : set of sources reaching party p (directly or via a latent)
        self.feeds = [set() for _ in range(self.n)]
        # link[p][q][s] : 0 none, 1 classical, 2 quantum
        self.link = [[[0] * self.m for _ in range(self.n)] for _ in range(self.n)]
        for s, src in enumerate(self.sources):
            q = 1 if self.classical[s] else 2
            for c in chd[src]:
                if c in pidx:
                    p = pidx[c]
                    self.feeds[p].add(s)
                    self.link[p][p][s] = max(self.link[p][p][s], q)
                else:
                    k = 2 if (c in self.nlat and q == 2) else 1
                    for d1 in chd[c]:
                        self.feeds[pidx[d1]].add(s)
                        for d2 in chd[c]:
                            a, b = pidx[d1], pidx[d2]
                            self.link[a][b][s] = max(self.link[a][b][s], k)
        # effective settings: private setting first, then outcomes of parents
        self.eff = []
        for p in range(self.n):
            dims = [self.private[p]] + [self.outcomes[q] for q in self.parents[p]]
            self.eff.append(list(product(*[range(d) for d in dims])))
        # operators in lexicographic order
        self.ops = []
        for p in range(self.n):
            rng = [range(1, self.levels[s] + 1) if s in self.feeds[p] else (0,)
                   for s in range(self.m)]
            for cop in product(*rng):
                for x in range(len(self.eff[p])):
                    for a in range(self.outcomes[p]):
                        self.ops.append((p + 1,) + cop + (x, a))
        self.index = {o: i for i, o in enumerate(self.ops)}

    # -- relations ---------------------------------------------------------
    def commute(self, o1, o2):
        p, q = o1[0] - 1, o2[0] - 1
        link = self.link[p][q]
        quantum = [s for s in range(self.m) if link[s] == 2]
        common = [s for s in range(self.m) if link[s] >= 1]
        if not any(o1[1 + s] == o2[1 + s] for s in quantum):
            return True
        if any(o1[1 + s] != o2[1 + s] for s in common):
            return False
        return p != q or o1[-2] == o2[-2]

    def orthogonal(self, o1, o2):
        return o1[:-1] == o2[:-1] and o1[-1] != o2[-1]

    def overlap(self, o1, o2):
        return any(a and a == b for a, b in zip(o1[1:-2], o2[1:-2]))

    def components(self, word):
        """Partition of positions of a word into connected components."""
        n = len(word)
        comp = list(range(n))

        def find(i):
            while comp[i] != i:
                i = comp[i]
            return i
        for i in range(n):
            for j in range(i):
                if self.overlap(word[i], word[j]):
                    comp[find(i)] = find(j)
        out = {}
        for i in range(n):
            out.setdefault(find(i), []).append(i)
        return sorted(out.values())

    # -- symmetry ----------------------------------------------------------
    def group(self):
        """All relabelings of copies of every source, as tuples of maps."""
        per = [list(permutations(range(1, k + 1))) for k in self.levels]
        for g in product(*per):
            yield [(0,) + p for p in g]

    def act(self, g, op):
        return (op[0],) + tuple(g[s][op[1 + s]] for s in range(self.m)) + op[-2:]

    # -- knowability -------------------------------------------------------
    def atomic_knowable(self, word):
        """Can the (connected, single) expectation value of the word be read
        off a probability of the original scenario?  One operator per party,
        one copy per source, and - out of networks - the set of parties is
        ancestrally closed and each setting agrees with the parents'
        outcomes."""
        parties = [o[0] for o in word]
        if len(set(parties)) != len(parties):
            return False
        for s in range(self.m):
            used = {o[1 + s] for o in word if o[1 + s]}
            if len(used) > 1:
                return False
        out = {o[0] - 1: o[-1] for o in word}
        for o in word:
            p = o[0] - 1
            vals = self.eff[p][o[-2]][1:]
            for q, v in zip(self.parents[p], vals):
                if q not in out or out[q] != v:
                    return False
        return True

    def atomic_event(self, word):
        """(party -> (outcome, private setting)) of a knowable word."""
        return {o[0] - 1: (o[-1], self.eff[o[0] - 1][o[-2]][0]) for o in word}

    def do_conditional(self, word):
        """One copy per source at most (any number of operators)."""
        return all(len({o[1 + s] for o in word if o[1 + s]}) <= 1
                   for s in range(self.m))

    # -- names -------------------------------------------------------------
    def op_name(self, o):
        """Operator in the library's documented legacy form A_1_2_0_0."""
        return "_".join([self.parties[o[0] - 1]] + [str(v) for v in o[1:]])
