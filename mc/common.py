"""Shared machinery of the checks: scenario enumeration is in scen.py, the
reference models in ref.py; this file has the explorer's bookkeeping (counts,
violations, replay artefacts, known findings, evidence, parallel execution)."""
import contextlib
import gc
import hashlib
import io
import json
import multiprocessing as mp
import os
import sys
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
THOROUGH = TIER == "thorough"
SCRATCH = os.environ.get("VERIF_SCRATCH", "/tmp")
NPROC = max(1, min(8, os.cpu_count() or 1))
warnings.simplefilter("ignore")


def jsonable(x):
    import numpy as np
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set, frozenset)):
        return [jsonable(v) for v in x]
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, np.ndarray):
        return x.tolist()
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return str(x)


class Report:
    """What one task (one scenario, one history root, ...) explored."""
    MAXV = 5

    def __init__(self):
        self.counts = {}
        self.violations = []      # (key, message)
        self.samples = []
        self.states = set()

    def add(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def state(self, obj):
        """Record one distinct state (hashed canonical form)."""
        h = hashlib.blake2b(repr(obj).encode(), digest_size=8).digest()
        self.states.add(h)

    def sample(self, s):
        if len(self.samples) < 2:
            self.samples.append(jsonable(s))

    def violation(self, key, message):
        if len(self.violations) < self.MAXV:
            self.violations.append((str(key), str(message)[:4000]))
        self.add("violations_seen")

    def ok(self, cond, key, message):
        if not cond:
            self.violation(key, message() if callable(message) else message)
        return bool(cond)


class HarnessError(Exception):
    pass


@contextlib.contextmanager
def quiet():
    """Swallow what the library prints (it prints on some error paths)."""
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(buf):
        yield buf


def _in_repo(tb):
    frames = traceback.extract_tb(tb)
    return any(os.path.abspath(f.filename).startswith(REPO + "/inflation")
               for f in frames)


_FUNC = None


def _run_one(task):
    rep = Report()
    try:
        with quiet():
            _FUNC(task, rep)
    except HarnessError:
        return task, rep, traceback.format_exc()
    except MemoryError:
        return task, rep, traceback.format_exc()
    except Exception as e:      # noqa
        if _in_repo(e.__traceback__):
            rep.violation(f"exception:{type(e).__name__}",
                          "the implementation raised on a valid input:\n"
                          + traceback.format_exc())
        elif isinstance(e, (KeyError, IndexError, ValueError, AssertionError)):
            # what the library returned could not be read as what it promises
            # (never happens on code where the property holds)
            rep.violation(f"malformed:{type(e).__name__}",
                          "what the implementation returned is malformed:\n"
                          + traceback.format_exc())
        else:
            return task, rep, traceback.format_exc()
    return task, rep, None


def load_known():
    known = {}
    path = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if line and line.startswith("{"):
                    d = json.loads(line)
                    if "key" in d:
                        known.setdefault(d["property"], []).append(d)
    return known


class Check:
    def __init__(self, pid, level, rule, assumptions=()):
        self.pid, self.level, self.rule = pid, level, rule
        self.assumptions = list(assumptions)
        self.t0 = time.time()
        self.total = Report()
        self.total.MAXV = 10 ** 9
        self.errors = []
        self.viol = []          # (task, key, msg)
        self.extra = {}
        self.exhaustive = True

    # -- running -----------------------------------------------------------
    def run(self, func, tasks, parallel=True, nproc=None, limit_s=None):
        global _FUNC
        _FUNC = func
        tasks = list(tasks)
        if not tasks:
            raise HarnessError("empty task list")
        nproc = nproc or NPROC
        limit = limit_s or float(os.environ.get("VERIF_LIMIT", 820 if not THOROUGH else 10 ** 7))
        sys.stdout.flush()
        # the library calls gc.collect() often; what exists by now is
        # permanent, so let the collector skip it
        gc.collect()
        gc.freeze()
        if parallel and nproc > 1 and len(tasks) > 1:
            ctx = mp.get_context("fork")
            pool = ctx.Pool(min(nproc, len(tasks)))
            it = pool.imap_unordered(_run_one, tasks, chunksize=1)
            done = 0
            try:
                while done < len(tasks):
                    left = limit - (time.time() - self.t0)
                    try:
                        res = it.next(timeout=max(1.0, left))
                    except mp.TimeoutError:
                        self.errors.append(
                            f"time limit reached with {len(tasks)-done} of "
                            f"{len(tasks)} tasks unfinished")
                        break
                    done += 1
                    self._merge(*res)
            finally:
                pool.terminate()
                pool.join()
        else:
            for t in tasks:
                self._merge(*_run_one(t))

    def _merge(self, task, rep, err):
        for k, v in rep.counts.items():
            self.total.add(k, v)
        self.total.states |= rep.states
        for s in rep.samples:
            if len(self.total.samples) < 4:
                self.total.samples.append(s)
        for key, msg in rep.violations:
            self.viol.append((task, key, msg))
        if err:
            self.errors.append(err)

    # -- reporting ---------------------------------------------------------
    def finish(self):
        c = self.total.counts
        known = load_known().get(self.pid, [])
        new, seen_known = [], {}
        for task, key, msg in self.viol:
            hit = next((k for k in known if k["key"] == key), None)
            if hit:
                seen_known.setdefault(hit["key"], hit)
            else:
                new.append((task, key, msg))
        wall = time.time() - self.t0
        cov = {"rule": self.rule, "exhaustive": bool(self.exhaustive and not self.errors),
               "samples": self.total.samples or ["(none)"]}
        cov.update({k: v for k, v in c.items()})
        if self.level == "model_checking":
            cov["states"] = c.get("states", len(self.total.states))
            cov.setdefault("transitions", 0)
            cov.setdefault("traces_validated_against_impl", 0)
        else:
            cov.setdefault("evaluations", 0)
            cov["distinct_nontrivial"] = c.get("distinct_nontrivial",
                                               len(self.total.states))
        cov.update(self.extra)
        ev = {"property": self.pid, "tier": "thorough" if THOROUGH else "quick",
              "seed": SEED, "level": self.level, "coverage": jsonable(cov),
              "assumptions": self.assumptions, "wall_s": round(wall, 2),
              "violations": len(new)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{self.pid}.json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k in known:
            # A listed finding is announced on every run; `reproduced` says
            # whether this run met it again.
            print(f"KNOWN-FINDING: property={self.pid} {k['what']} "
                  f"[{'reproduced' if k['key'] in seen_known else 'not met'} this run]")
        if new:
            d = os.path.join(VERIF, "replays")
            os.makedirs(d, exist_ok=True)
            new.sort(key=lambda v: len(json.dumps(jsonable(v[0]))))
            for i, (task, key, msg) in enumerate(new[:5]):
                p = os.path.join(d, f"{self.pid}-{i}.json")
                with open(p, "w") as f:
                    json.dump({"property": self.pid, "task": jsonable(task),
                               "key": key, "message": msg}, f, indent=1)
                print(f"VIOLATION property={self.pid} replay={p}")
                print("  key:", key)
                print("  " + msg.replace("\n", "\n  ")[:1500])
            if len(new) > 5:
                print(f"({len(new)} violations in total)")
            return 1
        if self.errors:
            print(f"ERROR in check {self.pid}:", file=sys.stderr)
            for e in self.errors[:3]:
                print(e, file=sys.stderr)
            return 2
        shown = {k: v for k, v in cov.items() if isinstance(v, int)}
        print(f"{self.pid} held: {shown} in {wall:.1f}s")
        return 0


def canon_json(x):
    return json.dumps(jsonable(x), sort_keys=True)
