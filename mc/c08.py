"""C08: generating sets contain exactly the documented products."""
from collections import Counter
from itertools import combinations, product

import numpy as np

import alg
import ref
from c05 import S, TWO, BIL, TRI, problem
from c06 import MENU as MENU6

LEVEL = "exploration"
RULE = ("for each scenario of a menu and every column specification of a finite family (npa1-3, local1-3 and every per-party "
        "tuple over {0,1,2}, physical with no, global and every per-party cap over {0,1,2}, each with every maximal length 0-4; "
        "party-block lists; explicit lists as arrays and symbols): the columns must be exactly the documented set of products, "
        "each once, identity first; asking for symbols must give symbols that generate the same columns. Non-trivial: sets of "
        ">= 3 columns")

MENU = MENU6 + [
    S(TWO, [2, 2], [1, 1], [2]),
    S([["s0", ["A"]]], [2], [2], [3]),
    S(TWO, [2, 2], [1, 1], [3], "all"),
    S([["s0", ["L"]], ["s1", ["L"]], ["L", ["A", "B"]]], [2, 2], [1, 1], [2, 2], nlat=["L"]),
]


def warmup():
    from inflation import InflationSDP
    for sc in (MENU[3], MENU[5], MENU[7]):
        s = InflationSDP(problem(sc))
        s.generate_relaxation("npa2")
        s.generate_relaxation("physical2")


class Cols:
    def __init__(self, sc):
        self.A = A = alg.Algebra(sc)
        r = self.r = A.r
        # operators used: all outcomes but the last, unless the party has
        # children (then its last outcome is an operator of its own)
        has_child = {q for p in range(r.n) for q in r.parents[p]}
        self.used = [[i for i, o in enumerate(r.ops) if o[0] - 1 == p
                      and (p in has_child or o[-1] < r.outcomes[p] - 1)] for p in range(r.n)]

    def block(self, ps):
        out = set()
        for w in product(*[self.used[p] for p in ps]):
            u = self.A.nf(w)
            if u != alg.ZERO and len(u) == len(ps):
                out.add(u)
        return out

    def size(self, ps):
        n = 1
        for p in ps:
            n *= len(self.used[p])
        return n

    def freqs(self, caps, mx):
        """One block per vector of party multiplicities within the caps."""
        for f in product(*[range(c + 1) for c in caps]):
            if sum(f) <= mx:
                yield [p for p, k in enumerate(f) for _ in range(k)]

    def npa(self, n, mx):
        n = min(n, mx) if mx else n
        return list(self.freqs([n] * self.r.n, n))

    def local(self, caps, mx):
        return list(self.freqs(caps, min(sum(caps), mx) if mx else sum(caps)))

    def union(self, blocks):
        out = set()
        for b in blocks:
            out |= self.block(b)
        return out

    def physical(self, caps, mx):
        ops = [i for u in self.used for i in u]
        A = self.A
        out, layer = {()}, [()]
        while layer:
            nxt = []
            for w in layer:
                for i in ops:
                    if (not w or i > w[-1]) and all(A.com[i][j] and not A.orth[i][j] for j in w):
                        v = w + (i,)
                        p = A.r.ops[i][0] - 1
                        if caps is not None and sum(A.r.ops[j][0] - 1 == p for j in v) > caps[p]:
                            continue
                        if mx and len(v) > mx:
                            continue
                        nxt.append(v)
            out.update(nxt)
            layer = nxt
        return {A.nf(w) for w in out}


def got(sdp, A):
    cols = [tuple(int(x) - 1 for x in c) for c in sdp.generating_monomials_1d]
    return cols


def compare(sdp, c, want, rep, what):
    cols = got(sdp, c.A)
    rep.add("evaluations")
    if cols and not rep.ok(cols[0] == (), "identity", f"{what}: first column {cols[0]}"):
        return
    cnt = Counter(c.A.nf(w) for w in cols)
    ops = c.r.ops
    rep.ok(all(v == 1 for v in cnt.values()), "duplicate", lambda: f"{what}: repeated {[k for k in cnt if cnt[k] > 1][:3]}")
    missing, extra = want - set(cnt), set(cnt) - want
    rep.ok(not missing, "missing", lambda: f"{what}: {len(missing)} products missing, e.g. {[ops[i] for i in min(missing)]}")
    rep.ok(not extra, "extra", lambda: f"{what}: {len(extra)} undocumented products, e.g. {[ops[i] for i in min(extra)] if min(extra) != 'zero' else 0}")
    rep.ok(sdp.n_columns == len(cols), "count", f"{what}: n_columns {sdp.n_columns}, {len(cols)} columns")
    if len(cols) >= 3:
        rep.state(what)


def t_menu(task, rep):
    from inflation import InflationSDP
    sc = MENU[task["case"]]
    c = Cols(sc)
    sdp = InflationSDP(problem(sc))
    n, lim = c.r.n, task["lim"]
    fam = []
    for mx in range(0, 5):
        for k in (1, 2, 3):
            fam.append((f"npa{k}", mx, lambda k=k, mx=mx: ("b", c.npa(k, mx))))
            fam.append((f"local{k}", mx, lambda k=k, mx=mx: ("b", c.local([k] * n, mx))))
            fam.append((f"physical{k}", mx, lambda k=k, mx=mx: ("p", [k] * n)))
        fam.append(("physical", mx, lambda: ("p", None)))
        for t in product((0, 1, 2), repeat=n):
            if n > 1:
                s = "".join(map(str, t))
                fam.append(("local" + s, mx, lambda t=t, mx=mx: ("b", c.local(list(t), mx))))
                fam.append(("physical" + s, mx, lambda t=t, mx=mx: ("p", list(t))))
    fam = [f for i, f in enumerate(fam) if i % task["parts"] == task["part"]]
    for spec, mx, how in fam:
        kind, arg = how()
        if kind == "b":
            if sum(c.size(b) for b in arg) > lim:
                rep.add("too_large_skipped")
                continue
            want = c.union(arg)
        else:
            want = c.physical(arg, mx)
            if len(want) > lim:
                rep.add("too_large_skipped")
                continue
        sdp.build_columns(spec, max_monomial_length=mx)
        compare(sdp, c, want, rep, (sc, spec, mx))
        if rep.violations:
            return
        if mx == 0 and len(want) <= 120:
            one = got(sdp, c.A)
            sym = sdp.build_columns(spec, symbolic=True)
            sdp.build_columns(sym)
            two = got(sdp, c.A)
            rep.ok([c.A.nf(w) for w in one] == [c.A.nf(w) for w in two], "symbolic",
                   f"{sc} {spec}: columns given back as symbols {sym} generate other columns")
            if rep.violations:
                return
    rep.sample({"scenario": sc, "specs": len(fam)})


def t_blocks(task, rep):
    """All lists of up to 3 party blocks of length <=3 (any party order)."""
    from inflation import InflationSDP
    sc = MENU[task["case"]]
    c = Cols(sc)
    sdp = InflationSDP(problem(sc))
    blocks = [list(b) for L in (1, 2, 3) for b in product(range(c.r.n), repeat=L) if c.size(b) <= task["lim"]]
    for k in (0, 1, 2):
        for comb in combinations(blocks, k):
            spec = [[]] + [list(b) for b in comb]
            sdp.build_columns(spec)
            compare(sdp, c, c.union(spec), rep, (sc, spec))
            if rep.violations:
                return
    rep.sample({"scenario": sc, "blocks": len(blocks)})


def t_lists(task, rep):
    """Explicit lists give exactly the listed products, in order."""
    import sympy
    from inflation import InflationSDP
    sc = MENU[task["case"]]
    c = Cols(sc)
    A = c.A
    sdp = InflationSDP(problem(sc))
    used = [i for u in c.used for i in u]
    have = {str(x): x for P in sdp.measurements for q in P for m in q for x in m}
    rep.ok(sorted(have) == sorted(A.r.op_name(A.r.ops[i]) for i in used), "measurements",
           lambda: f"{sc}: symbols offered {sorted(have)[:8]}..., expected {[A.r.op_name(A.r.ops[i]) for i in used][:8]}...")
    words = [w for L in (1, 2, 3) for w in product(used, repeat=L) if A.nf(w) != alg.ZERO][:task["words"]]
    for k in (1, 2):
        for comb in combinations(words, k):
            lists = {"1d": [np.array([], dtype=np.intc)] + [np.array(w, dtype=np.intc) + 1 for w in comb],
                     "2d": [np.empty((0, sdp._lexorder.shape[1]), dtype=int)] + [np.array([A.r.ops[i] for i in w]) for w in comb],
                     "sym": [sympy.S.One] + [sympy.Mul(*[have[A.r.op_name(A.r.ops[i])] for i in w]) for w in comb]}
            want = [()] + [A.nf(w) for w in comb]
            # the same without the identity: also lists with a single element
            lists.update({form + ", no identity": spec[1:] for form, spec in list(lists.items())})
            for form, spec in lists.items():
                want = [()] * ("no" not in form) + [A.nf(w) for w in comb]
                sdp.build_columns(spec)
                g = [A.nf(w) for w in got(sdp, A)]
                rep.add("evaluations")
                same = g == want or (len(set(comb)) != len(comb)) or sorted(g) == sorted(want)
                if not rep.ok(same, "explicit", f"{sc} {form}: asked for {want}, got {g}"):
                    return
    rep.state(("lists", task["case"]))


def plan(thorough):
    parts = 4
    t = [dict(kind="menu", case=i, part=q, parts=parts, lim=(20000 if thorough else 2500))
         for i in range(len(MENU)) for q in range(parts)]
    yield t_menu, t
    yield t_blocks, [dict(kind="blocks", case=i, lim=(1000 if thorough else 130)) for i in range(len(MENU))]
    yield t_lists, [dict(kind="lists", case=i, words=(120 if thorough else 40)) for i in range(len(MENU))]
