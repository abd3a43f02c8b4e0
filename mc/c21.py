"""C21: names, symbols and arrays are read back as the moment they denote."""
import io
from contextlib import redirect_stdout
from itertools import combinations_with_replacement, permutations, product

import numpy as np

import alg
import ref
from c05 import S, TWO, BIL, TRI, problem
from c06 import MENU as MENU6

LEVEL = "exploration"
RULE = ("for each scenario of a menu, SDP and LP objects before and after generating the relaxation: every word of length <=2-3 "
        "given as nested array, as '<op op>', as 'op*op' and as product of symbols in every operator spelling; every moment of the relaxation given "
        "by its name, short name and symbol; every ordered product of up to 3 elementary moments given as a product of names, with "
        "powers, and of symbols. Single operators and pairs in problems with more than 256 operators; arrays that differ from an operator in one entry, in particular by multiples of 256, must be refused, also as columns. Settings, outcomes of two digits and parties whose names are concatenations of others. Each is compared with the model's identity of the moment; different moments have different names "
        "and symbols. Non-trivial: products of at least two operators")

MENU = MENU6 + [
    S(TWO + [["A", ["B"]]], [2, 2], [2, 2], [1]),
    S([["s0", ["A", "B"]]], [2, 2], [2, 2], [2]),
    S(TWO + [["A", ["B"]]], [2, 3], [1, 1], [1], "all"),
    S(TWO + [["A", ["B"]]], [2, 2], [1, 1], [2], "all"),
    S(BIL, [2, 2, 2], [2, 1, 2], [1, 1], "all"),
    S([["h0", ["Alice", "AB"]], ["h1", ["AB", "B"]]], [2, 2, 2], [1, 2, 1], [2, 1], ["h1"]),
]
BASE = len(MENU)
# numbers of more than one digit
MENU = MENU + [
    S(TWO, [13, 12], [1, 1], [1], "all", nonfanout=True),
    S(TWO, [2, 2], [11, 3], [1], nonfanout=True),
    S(TWO + [["A", ["B"]]], [12, 2], [1, 2], [1], nonfanout=True),
    S(TWO, [12, 3], [1, 3], [1], nonfanout=True),
    # names of parties that are concatenations of others
    S([["h", ["A", "AA", "AB", "B"]]], [2, 2, 2, 2], [1, 1, 1, 1], [1], "all"),
    S([["h0", ["A", "AA"]], ["h1", ["B", "AB"]]], [2, 2, 2, 2], [1, 2, 1, 1], [1, 2], "all"),
]



def warmup():
    from inflation import InflationSDP, InflationLP
    for sc in (MENU[3], MENU[5], MENU[7]):
        s = InflationSDP(problem(sc))
        s.generate_relaxation("npa2")
        l = InflationLP(problem(sc))


def spellings(r, o):
    """Documented ways to write one operator."""
    p = r.parties[o[0] - 1]
    cop = [str(v) for v in o[1:-2]]
    out = ["_".join([p] + cop + [str(o[-2]), str(o[-1])])]
    if len(r.eff[o[0] - 1]) == 1:
        out.append("_".join([p] + cop + ["∅", str(o[-1])]))
    return out


class Adapter:
    def __init__(self, kind, sc, relax):
        from inflation import InflationSDP, InflationLP
        self.kind, self.A = kind, alg.Algebra(sc)
        self.p = problem(sc)
        if kind == "sdp":
            self.o = InflationSDP(self.p)
            if relax:
                self.o.generate_relaxation(relax)
            self.off = 1
            self.san = self.o._sanitise_moment
            self.moments = (lambda: self.o.moments) if relax else (lambda: [])
        else:
            self.o = InflationLP(self.p, **({"nonfanout": True} if "nonfanout" in sc else {}))
            self.off = 0
            self.san = self.o._sanitise_monomial
            self.moments = lambda: self.o.monomials

    def key(self, m):
        A = self.A
        if m.is_zero:
            return alg.ZERO
        fs = [tuple(int(x) - self.off for x in f.as_lexmon) for f in m.factors]
        fs = [f for f in fs if f]
        return min(tuple(sorted(A.atom(f) for f in fs)), tuple(sorted(A.atom(f[::-1]) for f in fs)))


def compatible(A, w):
    return (len(set(w)) == len(w) and A.all_commuting(w) and A.nf(w) != alg.ZERO)


def t_words(task, rep):
    import sympy
    sc, kind = MENU[task["case"]], task["obj"]
    ad = Adapter(kind, sc, task["relax"])
    A = ad.A
    r = A.r
    n = A.N
    L = 3 if n ** 3 <= task["lim"] else 2
    symbols = [sympy.Symbol(spellings(r, o)[0], commutative=False) for o in r.ops]
    for w in [w for k in range(1, L + 1) for w in product(range(n), repeat=k)]:
        if kind == "lp" and not compatible(A, w):
            continue
        k = A.key(w)
        ops = [r.ops[i] for i in w]
        forms = {"nested": [list(o) for o in ops], "array": np.array(ops)}
        names = [spellings(r, o) for o in ops]
        for j in range(max(map(len, names))):
            nm = [x[min(j, len(x) - 1)] for x in names]
            forms[f"bracket{j}"] = "<" + " ".join(nm) + ">"
            forms[f"bracketP{j}"] = "P[" + " ".join(nm) + "]"
            forms[f"star{j}"] = "*".join(nm)
        forms["symbol"] = sympy.Mul(*[symbols[i] for i in w])
        for f, x in forms.items():
            rep.add("evaluations")
            m = ad.san(x)
            if not rep.ok(ad.key(m) == k, "word",
                          lambda: f"{sc} {kind}: {f} {x} gives {m} = {ad.key(m)}, should be {k}"):
                return
        if len(w) > 1:
            rep.state((task["case"], kind, k))
    rep.sample({"scenario": sc, "object": kind, "length": L})


def t_names(task, rep):
    import sympy
    sc, kind = MENU[task["case"]], task["obj"]
    ad = Adapter(kind, sc, task["relax"])
    fresh = Adapter(kind, sc, task["relax"])     # same relaxation, separate object
    bare = Adapter(kind, sc, None)
    ms = [m for m in ad.moments() if not (m.is_zero or m.is_one)]
    by_name, by_sym = {}, {}
    for m in ms:
        k = ad.key(m)
        rep.ok(by_name.setdefault(m.name, k) == k, "name clash", lambda: f"{sc} {kind}: two moments are called {m.name}")
        rep.ok(by_name.setdefault(m.legacy_name, k) == k, "name clash", lambda: f"{sc} {kind}: two moments are called {m.legacy_name}")
        rep.ok(by_sym.setdefault(m.symbol, k) == k, "symbol clash", lambda: f"{sc} {kind}: two moments have symbol {m.symbol}")
        if rep.violations:
            return
    for m in ms:
        k = ad.key(m)
        todo = [(ad, m.name), (ad, m.legacy_name), (ad, m.symbol), (fresh, m.name), (fresh, m.legacy_name), (fresh, m.symbol)]
        if not any(ad.A.r.parents):
            todo.append((bare, m.name))
        for a, x in todo:
            rep.add("evaluations")
            q = a.san(x)
            if not rep.ok(a.key(q) == k, "name", lambda: f"{sc} {kind}: {x!r} names {m} = {k} but is read as {q} = {a.key(q)}"):
                return
        rep.state((task["case"], kind, k))
    rep.sample({"scenario": sc, "object": kind, "names": [m.name for m in ms[:5]]})


def t_products(task, rep):
    sc, kind = MENU[task["case"]], task["obj"]
    ad = Adapter(kind, sc, task["relax"])
    A = ad.A
    atoms = [m for m in ad.o.atomic_monomials if not (m.is_one or m.is_zero)]
    atoms = atoms[:task["atoms"]]
    words = [tuple(int(x) - ad.off for x in m.factors[0].as_lexmon) for m in atoms]

    def key(idx):
        ws = [words[i] for i in idx]
        return min(tuple(sorted(A.atom(w) for w in ws)), tuple(sorted(A.atom(w[::-1]) for w in ws)))
    n = len(atoms)
    for L in (2, 3):
        for idx in product(range(n), repeat=L):
            k = key(idx)
            names = [atoms[i].name for i in idx]
            forms = ["*".join(names), "*".join(atoms[i].legacy_name for i in idx)]
            if idx[0] == idx[1]:
                forms.append("*".join([names[0] + "^2"] + names[2:]))
                if L == 3 and idx[2] == idx[0]:
                    forms.append(names[0] + "^3")
            s = 1
            for i in idx:
                s = s * atoms[i].symbol
            forms.append(s)
            for x in forms:
                rep.add("evaluations")
                q = ad.san(x)
                if not rep.ok(ad.key(q) == k, "product", lambda: f"{sc} {kind}: {x!r} is read as {q} = {ad.key(q)}, should be {k}"):
                    return
            rep.state((task["case"], kind, k))
    rep.sample({"scenario": sc, "object": kind, "atoms": [m.name for m in atoms]})


def rejected(ad, x, op, key, rep):
    """x names nothing: it has to be refused."""
    rep.add("evaluations")
    try:
        m = op(x)
    except Exception:
        return True
    return rep.ok(False, key, lambda: f"{ad.A.sc if hasattr(ad.A, 'sc') else ''} {ad.kind}: {x!r} names no operator but is read as {m}")


def t_foreign(task, rep):
    """Arrays with an entry that no operator has (in particular those that
    agree with an operator modulo the size of the integers) are refused."""
    sc, kind = MENU[task["case"]], task["obj"]
    ad = Adapter(kind, sc, task["relax"])
    r = ad.A.r
    there = {tuple(o) for o in r.ops}
    for o in r.ops:
        for j in range(len(o)):
            for d in (-512, -256, -255, 255, 256, 512, 65536, 2 ** 32, -2 ** 32, 0.5, -0.5, 256.5):
                x = list(o)
                x[j] = x[j] + d
                if tuple(x) in there:
                    continue
                for words in ([x], [list(r.ops[0]), x], [x, list(r.ops[-1])]):
                    for form in (words, np.array(words), tuple(map(tuple, words))):
                        if not rejected(ad, form, ad.san, "foreign", rep):
                            return
                    if kind == "sdp":
                        cols = [np.empty((0, len(x))), np.array(words)]
                        if not rejected(ad, cols, ad.o.build_columns, "foreign column", rep):
                            return
        rep.state((task["case"], kind, task["relax"], o))
    rep.sample({"scenario": sc, "object": kind, "operators": len(r.ops)})


WIDE = [S(TWO, [2, 2], [200, 2], [1], "all"), S(TWO, [2, 2], [2, 130], [1]), S(TWO, [150, 2], [1, 2], [1], "all"),
        S(TWO, [2, 2], [300, 1], [1], "all")]


def t_wide(task, rep):
    """More operators than a byte can count: single operators and pairs of
    operators far apart, in every form."""
    from inflation import InflationSDP, InflationLP
    sc, kind = WIDE[task["case"]], task["obj"]
    A = alg.Algebra(sc)
    r = A.r
    p = problem(sc)
    off = int(kind == "sdp")
    if kind == "sdp":
        o = InflationSDP(p)
        o.generate_relaxation([np.array([0]), np.array([1])])
        san = o._sanitise_moment
    else:
        o = InflationLP(p, nonfanout=True)
        san = o._sanitise_monomial
    n = A.N
    far = sorted({0, 1, n // 2, 254, 255, 256, 257, n - 2, n - 1} & set(range(n)))
    words = [(i,) for i in range(n)] + [w for i in far for j in far for w in [(i, j)] if i != j and compatible(A, w)]
    last = {}
    for w in words:
        ops = [r.ops[i] for i in w]
        names = [spellings(r, x)[0] for x in ops]
        forms = [[list(x) for x in ops], np.array(ops)]
        if kind == "sdp" or set(w) <= set(far):
            forms += ["<" + " ".join(names) + ">", "*".join(names)]
        if kind == "lp":
            forms += [np.array(sorted(w)), np.array(sorted(w), dtype=np.intc)]
        want = A.key(w)
        for x in forms:
            rep.add("evaluations")
            with redirect_stdout(io.StringIO()):     # (the LP lists all names it knows)
                m = san(x)
            fs = [tuple(int(q) - off for q in f.as_lexmon) for f in m.factors]
            if not rep.ok(not m.is_zero and tuple(sorted(A.atom(f) for f in fs if f)) == want, "wide",
                          lambda: f"{sc} {kind}: {x!r} is read as {m}, with operators {fs}, should be {want}"):
                return
        if not rep.ok(last.setdefault(m.name, want) == want, "wide", lambda: f"{sc} {kind}: two moments are called {m.name}"):
            return
        rep.state((task["case"], kind, w))
    rep.sample({"scenario": sc, "operators": n})


def plan(thorough):
    w, nm, pr = [], [], []
    lim = 6000 if thorough else 500
    for i, sc in enumerate(MENU[:BASE]):
        lp = "all" == sc["classical"] or i in (3, 5, 8, 15, 18, 21, 22)
        for relax in (None, "npa2"):
            w.append(dict(kind="words", case=i, obj="sdp", relax=relax, lim=lim))
        for relax in ("npa2", "local1", "physical2"):
            if relax == "physical2" and i in (11, 12) and not thorough:
                continue
            nm.append(dict(kind="names", case=i, obj="sdp", relax=relax))
        pr.append(dict(kind="products", case=i, obj="sdp", relax="npa1", atoms=(9 if thorough else 5)))
        pr.append(dict(kind="products", case=i, obj="sdp", relax="npa2", atoms=(14 if thorough else 7)))
        if lp:
            w.append(dict(kind="words", case=i, obj="lp", relax=None, lim=lim))
            nm.append(dict(kind="names", case=i, obj="lp", relax=None))
            pr.append(dict(kind="products", case=i, obj="lp", relax=None, atoms=(14 if thorough else 7)))
    yield t_words, w
    few = range(BASE) if thorough else (0, 3, 5, 7, 15, 21, 22, BASE - 1)
    yield t_foreign, [dict(kind="foreign", case=i, obj="sdp", relax=relax) for i in few for relax in (None, "npa1")] + \
        [dict(kind="foreign", case=i, obj="lp", relax=None) for i in few]
    yield t_wide, [dict(kind="wide", case=i, obj=o) for i, o in [(i, "sdp") for i in range(len(WIDE))] + [(1, "lp"), (2, "lp")]]
    for i in range(BASE, len(MENU)):
        nm.append(dict(kind="names", case=i, obj="sdp", relax="local1"))
        pr.append(dict(kind="products", case=i, obj="sdp", relax="npa1", atoms=5))
        nm.append(dict(kind="names", case=i, obj="lp", relax=None))
    yield t_names, nm
    yield t_products, pr
