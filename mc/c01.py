"""C01: unpacking a causal scenario into the inflated scenario."""
from itertools import permutations, product

import numpy as np

import ref
import scen

LEVEL = "exploration"
RULE = ("every scenario with <=3 parties and <=2 sources (thorough: <=3 sources): all source "
        "hypergraphs covering the parties, all acyclic party-to-party edge sets, all copy "
        "numbers in {1,2} (3 for one source), two cardinality patterns, party orders default/"
        "reversed/rotated, three intermediate-latent layouts; settings, settings given by parents, outcomes and copy numbers around 256; plus every malformed mutation of a "
        "menu. Non-trivial: the scenario has more than one operator and the reference and the "
        "library object were compared operator by operator")


def warmup():
    from inflation import InflationProblem
    InflationProblem({"s": ["A", "B"]}, (2, 2), (1, 1), (2,))
    InflationProblem({"s": ["A", "B"]}, (2, 2), (1, 1), (2,), classical_sources="all")


def check_problem(sc, rep, prob=None):
    from inflation import InflationProblem
    r = ref.Scenario(sc)
    p = prob or InflationProblem(**ref.kwargs(sc))
    key = "unpack"

    def ok(cond, what):
        rep.ok(cond, key + ":" + what, lambda: f"{what} wrong for scenario {sc}")
    ok(list(p.names) == r.parties, "party order")
    ok(p.nr_parties == r.n and p.nr_sources == r.m, "party/source count")
    ok(list(map(str, p._actual_sources)) == r.sources, "source order")
    ok([bool(c) for c in p._classical_sources] == r.classical, "classical flags")
    hy = np.asarray(p.hypergraph)
    ok(hy.shape == (r.m, r.n) and all(bool(hy[s, q]) == (s in r.feeds[q])
       for s in range(r.m) for q in range(r.n)), "hypergraph")
    ok([sorted(map(int, x)) for x in p.parents_per_party] == r.parents, "parents")
    ok([int(x) for x in p.settings_per_party] == [len(e) for e in r.eff], "effective settings")
    ok([{int(k): tuple(map(int, v)) for k, v in d.items()} for d in p.effective_to_parent_settings]
       == [dict(enumerate(e)) for e in r.eff], "meaning of effective settings")
    ok(tuple(p.expected_distro_shape) == tuple(r.outcomes + r.private), "distribution shape")
    ok(bool(p.is_network) == (not any(r.parents)), "network flag")
    ok([int(x) for x in p.inflation_level_per_source] == r.levels, "levels")
    ops = [tuple(map(int, o)) for o in p._lexorder]
    ok(ops == r.ops, "operator list")
    flat = [tuple(map(int, o)) for q in range(r.n)
            for o in np.asarray(p.measurements[q]).reshape(-1, r.m + 3)]
    ok(flat == r.ops, "measurements")
    shapes = [tuple(np.asarray(q).shape[:3]) for q in p.measurements]
    want = []
    for q in range(r.n):
        nc = 1
        for s in r.feeds[q]:
            nc *= r.levels[s]
        want.append((nc, len(r.eff[q]), r.outcomes[q]))
    ok(shapes == want, "measurement layout")
    ev = [tuple(map(int, o)) for o in p.original_dag_events]
    ok(ev == [(q + 1, x, a) for q in range(r.n) for x in range(r.private[q])
              for a in range(r.outcomes[q])], "original events")
    groups = [[r.ops[int(i)] for i in g] for g in p._ortho_idxs]
    want_groups = {}
    for o in r.ops:
        want_groups.setdefault(o[:-1], []).append(o)
    ok(sorted(map(sorted, groups)) == sorted(map(sorted, want_groups.values())),
       "outcome groups")
    for i in {0, len(ops) // 2, len(ops) - 1}:
        ok(int(p.mon_to_lexrepr(np.array([r.ops[i]]))[0]) == i, "operator lookup")
    d = p.names_to_ints
    ok({k: int(v) for k, v in d.items()} == {q: i + 1 for i, q in enumerate(r.parties)},
       "name numbering")
    rep.add("evaluations")
    rep.add("operators_compared", len(r.ops))
    if len(r.ops) > 1:
        rep.state((r.ops, r.parties, r.sources, r.eff, r.levels))
    rep.sample({"scenario": sc, "operators": len(r.ops)})


def orders(n):
    yield None
    if n > 1:
        yield scen.PTY[:n][::-1]
    if n > 2:
        yield [scen.PTY[i] for i in (1, 2, 0)]


def expand(task):
    n, m, hs = task["n"], task["m"], task["hs"]
    for edges in scen.acyclic_edge_sets(n):
        # two source-only layouts keep every party sourced; edges add parents
        for levels in product((1, 2), repeat=m):
            for cards in (((2, 3, 2), (2, 1, 1)), ((3, 2, 2), (1, 2, 3))):
                for order in orders(n):
                    yield scen.make(hs, edges, list(cards[0][:n]), list(cards[1][:n]),
                                    list(levels), [], order)


def t_enum(task, rep):
    for sc in expand(task):
        check_problem(sc, rep)


LATENT_LAYOUTS = [
    # one latent between two sources and two parties
    dict(dag=[["s0", ["A", "L"]], ["s1", ["L", "C"]], ["L", ["A", "B"]]]),
    dict(dag=[["s0", ["L"]], ["L", ["B", "C"]], ["s1", ["A", "B"]]]),
    dict(dag=[["s0", ["L", "M"]], ["s1", ["A", "M"]], ["L", ["A", "B"]], ["M", ["B", "C"]]]),
    dict(dag=[["s1", ["A", "L"]], ["s0", ["L", "B"]], ["L", ["C", "B"]], ["A", ["B"]]]),
]


def t_latent(task, rep):
    lay = LATENT_LAYOUTS[task["layout"]]
    lats = sorted({p for p, _ in lay["dag"] if p in "LM"})
    for kinds in product("qc", repeat=len(lats)):
        for levels in product((1, 2, 3), repeat=2):
            for settings in ((1, 1, 1), (2, 1, 2)):
                for order in [None] + list(map(list, permutations("ABC"))):
                    sc = dict(dag=lay["dag"], outcomes=[2, 2, 3], settings=list(settings),
                              levels=list(levels), classical=[],
                              nlat=[l for l, k in zip(lats, kinds) if k == "q"],
                              clat=[l for l, k in zip(lats, kinds) if k == "c"])
                    if order:
                        sc["order"] = order
                    check_problem(sc, rep)


BASE = dict(dag={"s0": ["A", "B"], "s1": ["B", "C"]}, outcomes_per_party=(2, 2, 2),
            settings_per_party=(1, 1, 2), inflation_level_per_source=(2, 1))
MALFORMED = [
    ("outcomes too short", dict(outcomes_per_party=(2, 2))),
    ("outcomes too long", dict(outcomes_per_party=(2, 2, 2, 2), settings_per_party=(1, 1, 1, 1))),
    ("no outcomes", dict(outcomes_per_party=())),
    ("settings too short", dict(settings_per_party=(1, 1))),
    ("settings too long", dict(settings_per_party=(1, 1, 1, 1))),
    ("levels too short", dict(inflation_level_per_source=(2,))),
    ("levels too long", dict(inflation_level_per_source=(2, 1, 1))),
    ("unknown classical source", dict(classical_sources=["s7"])),
    ("party named as classical source", dict(classical_sources=["A"])),
    ("unparsable classical sources", dict(classical_sources="some")),
    ("party without source", dict(dag={"s0": ["A", "B"], "A": ["C"]},
                                  inflation_level_per_source=(1,))),
    ("latent pointing to latent", dict(
        dag={"s0": ["A", "L"], "s1": ["B", "C"], "L": ["B", "M"], "M": ["C"]},
        nonclassical_intermediate_latents=("L", "M"))),
    ("party pointing to latent", dict(
        dag={"s0": ["A", "L"], "s1": ["B", "C"], "L": ["B"], "A": ["L"]},
        nonclassical_intermediate_latents=("L",))),
    ("latent both classical and not", dict(
        dag={"s0": ["A", "L"], "s1": ["B", "C"], "L": ["B", "C"]},
        nonclassical_intermediate_latents=("L",), classical_intermediate_latents=("L",))),
    ("quantum latent with classical parents", dict(
        dag={"s0": ["A", "L"], "s1": ["B", "C"], "L": ["B", "C"]}, classical_sources=["s0"],
        nonclassical_intermediate_latents=("L",))),
]


def t_malformed(task, rep):
    from inflation import InflationProblem
    what, change = MALFORMED[task["case"]]
    rep.add("evaluations")
    rep.state(("malformed", what))
    try:
        InflationProblem(**{**BASE, **change})
    except Exception:
        return
    rep.violation("accepted:" + what, f"a malformed description was accepted: {what}")


def t_forms(task, rep):
    """Different spellings of one description give the same problem."""
    from inflation import InflationProblem
    for levels in ((1, 1), (2, 2), (3, 3)):
        sc = dict(dag=[["s0", ["A", "B"]], ["s1", ["B", "C"]]], outcomes=[2, 3, 2],
                  settings=[2, 1, 2], levels=list(levels), classical=["s1"])
        base = ref.kwargs(sc)
        # (numpy arrays are documented for the three cardinality arguments)
        for fo, fs, fl in product((tuple, list, np.array), (tuple, list, np.array),
                                  (tuple, list, np.array, "int")):
            kw = dict(base)
            kw["outcomes_per_party"] = fo([2, 3, 2])
            kw["settings_per_party"] = fs([2, 1, 2])
            kw["inflation_level_per_source"] = levels[0] if fl == "int" else fl(list(levels))
            for fd in (list, tuple, set):
                kw["dag"] = {k: fd(v) for k, v in base["dag"].items()}
                check_problem(sc, rep, InflationProblem(**kw))
    # defaults
    sc = dict(dag=[["s0", ["A", "B"]], ["s1", ["B", "C"]]], outcomes=[2, 3, 2],
              settings=[1, 1, 1], levels=[1, 1], classical=[])
    check_problem(sc, rep, InflationProblem({"s0": ["A", "B"], "s1": ["B", "C"]}, (2, 3, 2)))
    # classical_sources: 'all' and the explicit list
    for cl in ("all", ["s0", "s1"], ["s1"], []):
        sc = dict(sc, classical=cl)
        check_problem(sc, rep)
    # no DAG: a single source over all parties
    sc = dict(dag=[["h_global", ["A", "B"]]], outcomes=[2, 3], settings=[2, 1], levels=[2],
              classical=[])
    check_problem(sc, rep, InflationProblem(outcomes_per_party=(2, 3), settings_per_party=(2, 1),
                                            inflation_level_per_source=(2,)))
    sc["dag"] = [["h_global", ["X", "Q"]]]
    sc["order"] = ["X", "Q"]
    check_problem(sc, rep, InflationProblem(outcomes_per_party=(2, 3), settings_per_party=(2, 1),
                                            inflation_level_per_source=(2,), order=("X", "Q")))


def large():
    """Every cardinality around the limit of one byte."""
    two = [["s0", ["A", "B"]]]
    for k in (254, 255, 256, 257, 300):
        for cl in ([], ["s0"]):
            for swap in (0, 1):
                o = [2, 2][::-1] if swap else [2, 2]
                pick = lambda x: [1, x] if swap else [x, 1]
                yield dict(dag=two, outcomes=o, settings=pick(k), levels=[1], classical=cl)
                yield dict(dag=two, outcomes=pick(k), settings=[2, 2], levels=[1], classical=cl)
            yield dict(dag=two, outcomes=[2, 2], settings=[1, 2], levels=[k], classical=cl)
            yield dict(dag=[["s0", ["A", "B"]], ["s1", ["B"]]], outcomes=[2, 2], settings=[1, 2], levels=[k, 1], classical=cl)
            # settings given by the parents: outcomes x private settings
            yield dict(dag=two + [["A", ["B"]]], outcomes=[k, 2], settings=[1, 1], levels=[1], classical=cl)
    for o, x in ((2, 127), (2, 128), (2, 129), (16, 15), (16, 16), (16, 17), (4, 64), (64, 4), (128, 2), (43, 6)):
        yield dict(dag=two + [["A", ["B"]]], outcomes=[o, 2], settings=[1, x], levels=[1], classical=[])
        yield dict(dag=[["s0", ["A", "B", "C"]], ["A", ["C"]], ["B", ["C"]]], outcomes=[2, o, 2], settings=[1, 1, (x + 1) // 2], levels=[1],
                   classical=[])


def t_large(task, rep):
    for i, sc in enumerate(large()):
        if i % task["parts"] == task["part"]:
            check_problem(sc, rep)


def plan(thorough):
    tasks = []
    for n in (1, 2, 3):
        for m in (1, 2, 3) if thorough else (1, 2):
            for hs in scen.hypergraphs(n, m):
                tasks.append(dict(kind="enum", n=n, m=m, hs=hs))
    yield t_enum, tasks
    yield t_latent, [dict(kind="latent", layout=i) for i in range(len(LATENT_LAYOUTS))]
    yield t_large, [dict(kind="large", part=k, parts=16) for k in range(16)]
    yield t_malformed, [dict(kind="malformed", case=i) for i in range(len(MALFORMED))]
    yield t_forms, [dict(kind="forms")]
