"""Exhaustive enumeration of small scenarios."""
from itertools import product, combinations, permutations

SRC = ["s0", "s1", "s2"]
PTY = ["A", "B", "C", "D"]


def nonempty_subsets(xs):
    for r in range(1, len(xs) + 1):
        yield from (list(c) for c in combinations(xs, r))


def acyclic_edge_sets(n, max_edges=None):
    """All acyclic directed graphs on n labelled nodes, as edge lists."""
    pairs = [(i, j) for i in range(n) for j in range(n) if i != j]
    for r in range(0, len(pairs) + 1):
        if max_edges is not None and r > max_edges:
            return
        for es in combinations(pairs, r):
            left, ok = set(range(n)), True
            while left:
                free = [v for v in left if not any(j == v and i in left for i, j in es)]
                if not free:
                    ok = False
                    break
                left -= set(free)
            if ok:
                yield list(es)


def hypergraphs(n, m):
    """All assignments of non-empty child sets to m sources covering n."""
    subs = list(nonempty_subsets(list(range(n))))
    for hs in product(subs, repeat=m):
        if set().union(*map(set, hs)) == set(range(n)):
            yield [list(h) for h in hs]


def make(hs, edges, outcomes, settings, levels, classical, order=None, names=None):
    names = names or PTY
    dag = [[SRC[i], [names[p] for p in h]] for i, h in enumerate(hs)]
    for i in sorted({i for i, _ in edges}):
        dag.append([names[i], [names[j] for a, j in edges if a == i]])
    sc = {"dag": dag, "outcomes": outcomes, "settings": settings,
          "levels": levels,
          "classical": classical if classical == "all" else
          [SRC[i] for i in classical]}
    if order:
        sc["order"] = order
    return sc


def subsets(xs):
    for r in range(len(xs) + 1):
        yield from (list(c) for c in combinations(xs, r))
