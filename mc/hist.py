"""Reference model of what the user has asked for so far (values, objective,
bounds, extra constraints), the program it stands for, and an explorer of
operation sequences on the real objects.  A state is snapshotted by fork(), so
every sequence runs on the real object from its true predecessor state."""
import os
import pickle
import sys
import traceback
from fractions import Fraction

import numpy as np

import alg
import common

ONE = ()


def r9(x):
    return round(float(x), 9) + 0.0


class Problem:
    """One relaxation of one scenario, as the model sees it."""

    def __init__(self, kind, A, obj):
        self.kind, self.A, self.obj = kind, A, obj
        self.off = 1 if kind == "sdp" else 0
        ms = list(obj.moments) if kind == "sdp" else list(obj.monomials)
        self.mom = {self.ident(m): m for m in ms}
        self.keys = set(self.mom)
        self.byname = {m.name: k for k, m in self.mom.items()}
        self.byname[obj.constant_term_name] = ONE
        self.byname["1"] = ONE
        self.byname["0"] = alg.ZERO
        if kind == "sdp":
            # positive by default: products of commuting projectors
            self.nonneg = {k for k, m in self.mom.items() if m in set(obj.hermitian_moments)}
            self.eqs = [self.row(e) for e in obj.minimal_equalities]
            self.ineqs = [self.row(e) for e in obj.minimal_inequalities]
        else:
            self.nonneg = set()
            self.eqs = [self.row(e) for e in obj.moment_equalities]
            self.ineqs = [self.row(e) for e in obj.moment_inequalities]

    def ident(self, m):
        if m.is_zero:
            return alg.ZERO
        fs = [tuple(int(x) - self.off for x in f.as_lexmon) for f in m.factors if len(f.as_lexmon)]
        return self.canon(fs)

    def canon(self, fs):
        A = self.A
        return min(tuple(sorted(A.atom(f) for f in fs)), tuple(sorted(A.atom(f[::-1]) for f in fs)))

    def row(self, d):
        out = {}
        for m, c in d.items():
            k = self.ident(m)
            out[k] = out.get(k, 0) + float(c)
        return out

    def name(self, k):
        if k == ONE:
            return "1"
        if k in self.mom:
            return self.mom[k].name
        return self.moment(k).name

    def moment(self, k):
        """The library's object for a key (by operators, factor by factor)."""
        if k in self.mom:
            return self.mom[k]
        o = self.obj
        if len(k) == 1:
            f = o.Moment_1d if self.kind == "sdp" else o.Monomial
            return f(np.array(k[0], dtype=np.intc) + self.off)
        raise common.HarnessError(f"no object for {k}")


class Model:
    def __init__(self, pb):
        self.pb = pb
        self.maximize, self.objective = True, {}
        self.lo, self.up = {}, {}
        self.clear_values()
        self.solved = False

    def clear_values(self):
        self.user, self.inferred, self.semi = {}, {}, {}
        self.xeq, self.xin = [], []

    def update(self, vals, lpi=False, only=False):
        if not vals:
            return
        for k, v in vals.items():
            self.user[k] = v
            self.inferred.pop(k, None)
        if only:
            return
        self.inferred, self.semi = {}, {}
        K = {k: v for k, v in self.user.items() if len(k) == 1}
        for m in self.pb.keys:
            if m == alg.ZERO or len(m) < 2:
                continue
            v, left = 1, []
            for f in m:
                kf = self.pb.canon([f])
                if kf in K:
                    v = v * K[kf]
                else:
                    left.append(f)
            if not left:
                self.inferred[m] = v
            elif lpi and len(left) < len(m):
                if abs(v) < 1e-8:
                    self.inferred[m] = 0
                else:
                    self.semi[m] = (v, self.pb.canon(left))

    def program(self):
        """Normal form of the program the user has asked for."""
        pb = self.pb
        known = {k: v for k, v in {**self.inferred, **self.user}.items() if k in pb.keys}
        # inference replaces a value given for a product
        known.update({k: v for k, v in self.inferred.items()})
        known[ONE] = 1
        known[alg.ZERO] = 0
        semi = {k: v for k, v in self.semi.items() if k not in known}
        lo = {k: 0. for k in pb.nonneg}
        lo.update(self.lo)
        ineqs = pb.ineqs + self.xin
        ineqs = ineqs + [{k: 1, ONE: -b} if k != ONE else {ONE: 1 - b} for k, b in lo.items()]
        ineqs = ineqs + [{k: -1, ONE: b} if k != ONE else {ONE: b - 1} for k, b in self.up.items()]
        sign = 1 if self.maximize else -1
        rows = []
        if pb.kind == "lp":     # proportionalities are equality rows
            rows = [{k: 1, k2: -float(c)} for k, (c, k2) in semi.items()]
            semi = {}
        return normal(known, semi, pb.eqs + rows + self.xeq, ineqs, {k: sign * c for k, c in self.objective.items()})


def normal(known, semi, eqs, ineqs, objective):
    """Substitute what is fixed, drop trivially true rows."""
    def sub(row):
        out = {}
        for k, c in row.items():
            c = float(c)
            if k in semi and k not in known:
                c, k = c * float(semi[k][0]), semi[k][1]
            if k in known:
                c, k = c * float(known[k]), ONE
            out[k] = out.get(k, 0) + c
        return {k: r9(c) for k, c in out.items() if abs(c) > 1e-10}
    E, I = set(), set()
    for e in eqs:
        e = sub(e)
        if e:
            f = sorted(e.items(), key=repr)
            s = -1 if f[0][1] < 0 else 1
            E.add(tuple((k, r9(s * c)) for k, c in f))
    for i in ineqs:
        i = sub(i)
        if i and not (set(i) == {ONE} and i[ONE] >= 0):
            I.add(tuple(sorted(i.items(), key=repr)))
    S = {}
    for k, (c, k2) in semi.items():
        if k in known:
            continue
        S[k] = (r9(c), k2)
    return dict(known={k: r9(v) for k, v in known.items() if k not in (ONE, alg.ZERO)}, semi=S, eqs=E, ineqs=I,
                objective=sub(objective))


def from_sdp_args(pb, args):
    def key(n):
        if n in pb.byname:
            return pb.byname[n]
        return pb.ident(pb.obj.monomial_from_name[n])
    row = lambda d: {k: c for k, c in ((key(n), c) for n, c in d.items())} if len({key(n) for n in d}) == len(d) else merge(d, key)
    known = {key(n): v for n, v in args["known_vars"].items()}
    semi = {key(n): (c, key(n2)) for n, (c, n2) in args["semiknown_vars"].items()}
    return normal(known, semi, [row(e) for e in args["equalities"]], [row(e) for e in args["inequalities"]],
                  merge(args["objective"], key)), known.get(ONE)


def merge(d, key):
    out = {}
    for n, c in d.items():
        k = key(n)
        out[k] = out.get(k, 0) + float(c)
    return out


def from_lp_args(pb, args):
    keys = [pb.byname[str(n)] for n in args["variables"]]

    def rows(m):
        m = m.tocsr()
        m.sum_duplicates()
        return [{keys[j]: float(v) for j, v in zip(m.indices[a:b], m.data[a:b])}
                for a, b in zip(m.indptr[:-1], m.indptr[1:])]
    one = lambda name: rows(args[name])[0]
    known = one("known_vars")
    # coo with explicit zeros keeps zero-valued knowns
    km = args["known_vars"].tocoo()
    known.update({keys[j]: float(v) for j, v in zip(km.col, km.data)})
    lo, up = args["lower_bounds"].tocoo(), args["upper_bounds"].tocoo()
    ineqs = rows(args["inequalities"])
    ineqs += [{keys[j]: 1, ONE: -float(b)} if keys[j] != ONE else {ONE: 1 - float(b)} for j, b in zip(lo.col, lo.data)]
    ineqs += [{keys[j]: -1, ONE: float(b)} if keys[j] != ONE else {ONE: float(b) - 1} for j, b in zip(up.col, up.data)]
    return normal(known, {}, rows(args["equalities"]), ineqs, one("objective")), known.get(ONE)


def difference(got, want):
    for part in ("known", "semi", "objective"):
        g, w = got[part], want[part]
        for k in set(g) | set(w):
            a, b = g.get(k), w.get(k)
            same = a == b
            if not same and a is not None and b is not None:
                if isinstance(a, tuple):
                    same = abs(a[0] - b[0]) < 1e-7 and a[1] == b[1]
                else:
                    same = abs(a - b) < 1e-7
            if not same:
                return part, f"{part} of {k}: {a} is passed to the solver, {b} was asked for"
    for part in ("eqs", "ineqs"):
        if got[part] != want[part]:
            x, m = close(got[part] - want[part], want[part] - got[part])
            if x or m:
                return part, f"{part}: {len(x)} too many, e.g. {list(x)[:1]}; {len(m)} missing, e.g. {list(m)[:1]}"
    return None


def close(a, b):
    """Pair off rows that differ by rounding."""
    a, b = list(a), list(b)
    for x in list(a):
        for y in b:
            if len(x) == len(y) and all(p[0] == q[0] and abs(p[1] - q[1]) < 1e-7 for p, q in zip(x, y)):
                a.remove(x)
                b.remove(y)
                break
    return a, b


# ------------------------------------------------------------------- explorer
class Recorder:
    """Stands in for the solver: keeps what it is given, answers a constant."""

    def __init__(self, target):
        self.target, self.args = target, None
        self.answer = 1.25

    def __call__(self, **kw):
        self.args = kw
        d = {"status": "feasible", "success": True, "primal_value": self.answer, "dual_value": self.answer,
             "dual_certificate": {}, "x": {}}
        return d


class Machine:
    """An implementation object with its model; ops is a list of
    (label, function(machine))."""

    def __init__(self, kind, sc, relax=None, **kw):
        from c05 import problem
        from inflation import InflationSDP, InflationLP
        self.kind, self.sc = kind, sc
        self.A = alg.Algebra(sc)
        self.p = problem(sc)
        if kind == "sdp":
            self.o = InflationSDP(self.p, **kw)
            self.o.generate_relaxation(relax)
            self.mod = sys.modules["inflation.sdp.InflationSDP"]
            self.rec = Recorder("solveSDP_MosekFUSION")
        else:
            self.o = InflationLP(self.p, **kw)
            self.mod = sys.modules["inflation.lp.InflationLP"]
            self.rec = Recorder("solveLP")
        if not hasattr(self.mod, self.rec.target):
            raise common.HarnessError("the solver entry point has moved")
        setattr(self.mod, self.rec.target, self.rec)
        self.pb = Problem(kind, self.A, self.o)
        self.m = Model(self.pb)
        self.path = []

    def relax(self, spec):
        self.o.generate_relaxation(spec)
        self.pb = Problem("sdp", self.A, self.o)
        self.m = Model(self.pb)

    def check(self, rep):
        """What solve() hands to the solver is what was asked for.  Runs in a
        child process: solving is not part of the explored history."""
        if self.m.solved:
            rep.ok(getattr(self.o, "status", None) == "feasible" and hasattr(self.o, "objective_value"), "result lost",
                   lambda: f"{self.where()}: the result of solve is not available")
        else:
            rep.ok(not hasattr(self.o, "objective_value") and not hasattr(self.o, "solution_object"), "stale result",
                   lambda: f"{self.where()}: the result of a previous solve is still reported after the problem changed")
        self.rec.args = None
        self.o.solve()
        a = self.rec.args
        if self.kind == "sdp":
            got, one = from_sdp_args(self.pb, a)
            want = self.m.program()
        else:
            got, one = from_lp_args(self.pb, a)
            want = self.m.program()
        rep.add("transitions")
        rep.add("traces_validated_against_impl")
        d = difference(got, want)
        if d:
            rep.violation(d[0], f"{self.where()}: {d[1]}")
        rep.ok(one is not None and abs(float(one) - 1) < 1e-12, "unit", lambda: f"{self.where()}: the unit moment is {one}")
        rep.ok(abs(self.o.objective_value - (1.25 if self.m.maximize else -1.25)) < 1e-12, "sign",
               lambda: f"{self.where()}: the solver's value 1.25 is reported as {self.o.objective_value}")
        rep.state((self.kind, repr(self.sc), sorted(map(repr, want["known"].items())), sorted(map(repr, want["semi"].items())),
                   sorted(map(repr, want["objective"].items())), sorted(map(repr, want["ineqs"])), sorted(map(repr, want["eqs"]))))

    def where(self):
        return f"{self.kind} {self.sc} after {self.path}"


def branch(mac, rep, body):
    """Run body(report) in a child process and merge its report."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            sub = common.Report()
            try:
                body(sub)
            except common.HarnessError:
                raise
            except Exception as e:
                if common._in_repo(e.__traceback__):
                    sub.violation(f"exception:{type(e).__name__}",
                                  f"{mac.where()}: the implementation raised on a valid operation:\n" + traceback.format_exc())
                elif isinstance(e, (KeyError, IndexError, ValueError, AssertionError)):
                    sub.violation(f"malformed:{type(e).__name__}", f"{mac.where()}:\n" + traceback.format_exc())
                else:
                    raise
            data = pickle.dumps(("ok", sub.counts, sub.violations, sub.states))
        except BaseException:
            data = pickle.dumps(("err", traceback.format_exc(), None, None))
        with os.fdopen(w, "wb") as f:
            f.write(data)
        os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    if not data:
        raise common.HarnessError(f"a branch died at {mac.path}")
    tag, counts, viol, states = pickle.loads(data)
    if tag == "err":
        raise common.HarnessError(counts)
    for k, v in counts.items():
        if k != "violations_seen":
            rep.add(k, v)
    for k, v in viol:
        rep.violation(k, v)
    rep.states |= states
    return len(viol)


def explore(mac, ops, depth, rep, first=None):
    """All operation sequences of the given length from the present state,
    checked after every operation."""
    for i, (label, fn) in enumerate(ops):
        if first is not None and i != first:
            continue

        def body(sub):
            mac.path = mac.path + [label]
            fn(mac)
            if branch(mac, sub, mac.check) == 0 and depth > 1:
                explore(mac, ops, depth - 1, sub)
        branch(mac, rep, body)
        if len(rep.violations) >= rep.MAXV:
            return


# ------------------------------------------------------------------ operations
def operations(mac, other=None):
    """The menu of user operations, each mirrored on the model."""
    import ref
    from c07 import distribution, value
    pb, A = mac.pb, mac.A
    r = ref.Scenario(mac.sc)

    def knowable(f):
        return A.all_commuting(f) and r.atomic_knowable([r.ops[i] for i in f])

    def values(P, keys):
        return {k: float(value(r, P, r.atomic_event([r.ops[i] for i in k[0]]))) for k in keys}

    def pick(pb):
        atoms = sorted([k for k in pb.keys if len(k) == 1 and k != alg.ZERO and k != ONE], key=lambda k: (len(k[0]), k))
        prods = sorted([k for k in pb.keys if len(k) >= 2 and k != alg.ZERO], key=lambda k: (len(k), sum(map(len, k)), k))
        kn = [k for k in atoms if knowable(k[0])]
        un = [k for k in atoms if not knowable(k[0])]
        # factors of products first
        used = {pb.canon([f]) for p in prods for f in p}
        kn.sort(key=lambda k: k not in used)
        un.sort(key=lambda k: k not in used)
        semi = [p for p in prods if any(knowable(f) for f in p) and not all(knowable(f) for f in p)]
        full = [p for p in prods if all(knowable(f) for f in p)]
        return kn, un, semi, full

    def form(k, i):
        """The same moment written in different ways."""
        m = mac.pb.mom[k]
        return [m, m.name, m.symbol][i % 3] if len(k) else "1"

    def do(name, *args, **kw):
        getattr(mac.o, name)(*args, **kw)
        mac.m.solved = False

    def set_distribution(seed, lpi, shared):
        def f(mac):
            P = distribution(r, seed)
            do("set_distribution", np.array(P, dtype=float), use_lpi_constraints=lpi, shared_randomness=shared)
            mac.m.clear_values()
            mac.m.update(values(P, pick(mac.pb)[0]), lpi, shared)
        return f

    def upd(keys, vals, lpi=False, only=False, clear=False):
        def f(mac):
            d = {k: v for k, v in zip(keys, vals) if k in mac.pb.keys}
            if clear:
                mac.m.clear_values()
            elif not d:
                return
            do("set_values" if clear else "update_values", {form(k, i): v for i, (k, v) in enumerate(d.items())},
               use_lpi_constraints=lpi, only_specified_values=only)
            mac.m.update(d, lpi, only)
        return f

    def set_none(mac):
        do("set_values", None)
        mac.m.clear_values()

    def objective(d, direction):
        def f(mac):
            e = {k: c for k, c in d.items() if k in mac.pb.keys} if d is not None else None
            do("set_objective", {form(k, i): c for i, (k, c) in enumerate(e.items())} if e is not None else None, direction)
            mac.m.objective = dict(e or {})
            mac.m.maximize = direction == "max" or d is None
        return f

    def bounds(d, typ):
        def f(mac):
            e = {k: c for k, c in d.items() if k in mac.pb.keys}
            do("set_bounds", {form(k, i): c for i, (k, c) in enumerate(e.items())}, typ)
            if typ == "up":
                mac.m.up = e
            else:
                mac.m.lo = e
        return f

    def extra(rows, typ):
        def f(mac):
            e = [{k: c for k, c in row.items() if k in mac.pb.keys or k == ONE} for row in rows] if rows is not None else None
            do("set_extra_" + typ, [{form(k, i): c for i, (k, c) in enumerate(row.items())} for row in e] if e is not None else None)
            setattr(mac.m, "xeq" if typ == "equalities" else "xin", e or [])
        return f

    def reset(what):
        def f(mac):
            do("reset", what)
            parts = [what] if isinstance(what, str) else what
            if parts == ["all"]:
                parts = ["values", "bounds", "objective"]
            for p in parts:
                if p == "values":
                    mac.m.clear_values()
                if p in ("bounds", "lowerbounds"):
                    mac.m.lo = {}
                if p in ("bounds", "upperbounds"):
                    mac.m.up = {}
                if p == "objective":
                    mac.m.objective, mac.m.maximize = {}, True
        return f

    def solve(mac):
        mac.o.solve()
        mac.m.solved = True

    def relax(spec):
        def f(mac):
            mac.relax(spec)
        return f

    kn, un, semi, full = pick(pb)
    k1, k2 = kn[0], kn[1 % len(kn)]
    zero = kn[-1]
    u = un[0] if un else k2
    s = semi[0] if semi else u
    p = full[0] if full else k2
    # no product and factors at once, no bounds that values contradict
    free = [k for k in (full + semi + un)[::-1] if zero not in [pb.canon([f]) for f in k]] or [u]
    b = free[0]
    ops = [
        ("set_distribution(P1)", set_distribution(7, False, False)),
        ("set_distribution(P2, lpi)", set_distribution(11, True, False)),
        ("set_distribution(P1, shared)", set_distribution(7, False, True)),
        ("set_values(k1, k2)", upd([k1, k2], [.25, .5], clear=True)),
        ("update_values(k1)", upd([k1], [.375])),
        ("update_values(u)", upd([u], [.3125])),
        ("update_values(k1, lpi)", upd([k1], [.4375], lpi=True)),
        ("update_values(zero, lpi)", upd([zero], [0], lpi=True)),
        ("update_values(k1, only)", upd([k1], [.28125], only=True)),
        ("update_values(product, only)", upd([p], [.1875], only=True)),
        ("set_values(None)", set_none),
        ("set_objective(max)", objective({k1: 2, p: 3, s: -1, u: .5}, "max")),
        ("set_objective(min)", objective({s: 2, k2: 1.5}, "min")),
        ("set_objective(None)", objective(None, "min")),
        ("set_bounds(up)", bounds({k1: .75, p: .625, s: .875}, "up")),
        ("set_bounds(lo)", bounds({b: .03125}, "lo")),
        ("set_bounds({}, lo)", bounds({}, "lo")),
        ("set_extra_equalities", extra([{p: 1, k2: -.5}, {s: 2, u: 1, ONE: -.25}], "equalities")),
        ("set_extra_inequalities", extra([{k1: 1, s: -1}, {p: -1, ONE: .7}], "inequalities")),
        ("set_extra_equalities(None)", extra(None, "equalities")),
        ("set_extra_inequalities(None)", extra(None, "inequalities")),
        ("reset(values)", reset("values")),
        ("reset(bounds)", reset("bounds")),
        ("reset(lowerbounds)", reset("lowerbounds")),
        ("reset(upperbounds)", reset("upperbounds")),
        ("reset(objective)", reset("objective")),
        ("reset(all)", reset("all")),
        ("reset([objective, values])", reset(["objective", "values"])),
        ("solve", solve),
    ]
    if other:
        ops.append((f"generate_relaxation({other})", relax(other)))
    return ops


CORE = ["set_distribution(P1)", "set_distribution(P2, lpi)", "update_values(k1)", "update_values(u)", "update_values(zero, lpi)", "set_values(None)",
        "set_objective(max)", "set_objective(None)", "set_bounds(up)", "set_bounds(lo)", "set_extra_equalities", "set_extra_inequalities",
        "reset(values)", "reset(bounds)", "reset(all)", "solve"]


def core(ops):
    return [o for o in ops if o[0] in CORE or o[0].startswith("generate")]
