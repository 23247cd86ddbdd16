"""
Shared explorer: enumerates a finite case space completely, runs every case on the real
qetpy code, compares with a reference model, records states/transitions/traces, writes
evidence and replayable counterexamples.

A check module (mc/checks/<id>.py) defines

    ID, LEVEL, RULE, ASSUMPTIONS, BOUNDS
    def cases(tier)      -> iterable of JSON-able cases, simplest first
    def run(case, rec)   -> executes ONE case; reports through `rec`

Nothing is sampled: `cases` is a complete enumeration of the stated bounds.
"""
import argparse
import concurrent.futures as cf
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import signal
import sys
import tempfile
import time
import traceback
import shutil

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get("QETMC_EVID") or os.path.join(HERE, "evidence")
FAILFAST = os.environ.get("QETMC_FAILFAST") == "1"     # development aid: stop at the first violating case
REPLAYS = os.path.join(EVID, "replays")
KNOWN = os.path.join(HERE, "KNOWN_FINDINGS.txt")

CASE_CPU_S = 120          # horizon of one case, CPU seconds: waiting is made visible
MAX_REPORT = 5
NPROC = int(os.environ.get("QETMC_NPROC", 0)) or min(8, os.cpu_count() or 1)


class CaseTimeout(BaseException):
    pass


def _alarm(signum, frame):
    raise CaseTimeout()


def h64(obj):
    return int.from_bytes(hashlib.blake2b(canon_bytes(obj), digest_size=8).digest(), "big")


def canon_bytes(obj):
    """Deterministic byte image of nested plain data / numpy arrays / plain objects."""
    import numpy as np
    out = []

    def rec(o, depth=0):
        if depth > 12:
            out.append(b"<deep>")
        elif o is None or isinstance(o, (bool, int, str, complex, float)):
            out.append(repr(o).encode() + b";")
        elif isinstance(o, bytes):
            out.append(b"b" + o)
        elif isinstance(o, np.generic):
            rec(o.item(), depth + 1)
        elif isinstance(o, np.ndarray):
            out.append(("A%s%s" % (o.shape, o.dtype)).encode())
            if o.dtype == object:
                for e in o.ravel():
                    rec(e, depth + 1)
            else:
                out.append(np.ascontiguousarray(o).tobytes())
        elif isinstance(o, dict):
            out.append(b"{")
            for k in sorted(o, key=repr):
                rec(k, depth + 1)
                rec(o[k], depth + 1)
            out.append(b"}")
        elif isinstance(o, (list, tuple)):
            out.append(b"[")
            for e in o:
                rec(e, depth + 1)
            out.append(b"]")
        elif isinstance(o, (set, frozenset)):
            rec(sorted(o, key=repr), depth + 1)
        elif callable(o):
            out.append(b"<fn>")
        elif hasattr(o, "__dict__"):
            out.append(type(o).__name__.encode())
            rec(vars(o), depth + 1)
        else:
            out.append(repr(o).encode())

    rec(obj)
    return b"".join(out)


class Rec:
    """Recorder handed to one case."""

    def __init__(self):
        self.problems = []       # (key, message)
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.outcomes = set()
        self.notes = {}

    def fail(self, key, msg, **extra):
        self.problems.append((str(key), str(msg), extra))

    def state(self, *obj):
        self.states.add(h64(obj))

    def step(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def outcome(self, *sig):
        self.outcomes.add(h64(sig))

    def note(self, k, n=1):
        self.notes[k] = self.notes.get(k, 0) + n

    # ---- comparisons -------------------------------------------------
    def close(self, key, got, want, rtol=1e-6, atol=0.0, scale=None, ctx=""):
        import numpy as np
        try:
            g = np.asarray(got)
            w = np.asarray(want)
            if g.dtype == object or w.dtype == object:
                raise TypeError("non numeric result %r" % (got,))
        except Exception as e:  # ragged or foreign
            self.fail(key, f"{ctx}: result not comparable: {e}")
            return False
        if g.shape != w.shape:
            self.fail(key, f"{ctx}: shape {g.shape} instead of {w.shape}")
            return False
        if g.size == 0:
            return True
        s = np.max(np.abs(w[np.isfinite(w)])) if scale is None and np.any(np.isfinite(w)) else (scale or 0.0)
        with np.errstate(all="ignore"):
            bad = ~((np.abs(g - w) <= atol + rtol * s) | (np.isnan(g) & np.isnan(w)) | (g == w))
        if np.any(bad):
            i = int(np.flatnonzero(bad.ravel())[0])
            self.fail(key, f"{ctx}: got {g.ravel()[i]!r}, reference {w.ravel()[i]!r} (flat index {i} of {g.shape}, scale {s:.3g})")
            return False
        return True

    def true(self, key, cond, msg):
        if not cond:
            self.fail(key, msg)
        return bool(cond)


class Raised:
    """Marker for a call that raised."""

    def __init__(self, exc):
        self.exc = exc

    def __repr__(self):
        return f"<raised {type(self.exc).__name__}: {self.exc}>"


def attempt(fn, *a, **k):
    try:
        return fn(*a, **k)
    except Exception as e:
        return Raised(e)


def must(rec, key, ctx, fn, *a, **k):
    """Call that the property says must answer; returns None and records on an exception."""
    rec.step()
    try:
        return fn(*a, **k)
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = next((f"{os.path.basename(f.filename)}:{f.lineno}" for f in reversed(tb) if "qetpy" in f.filename), "")
        rec.fail(key, f"{ctx}: raised {type(e).__name__}: {e} [{where}]")
        return None


# ----------------------------------------------------------------------
_stop = None
_mod = None


def _run_one(mod, case):
    rec = Rec()
    signal.signal(signal.SIGVTALRM, _alarm)
    limit = getattr(mod, "CASE_CPU_S", CASE_CPU_S)
    signal.setitimer(signal.ITIMER_VIRTUAL, limit)
    timed = False
    try:
        mod.run(case, rec)
    except CaseTimeout:
        timed = True
        rec.fail("no-termination", f"case did not finish within {limit} CPU s")
    except Exception as e:
        tb = traceback.format_exc().strip().splitlines()
        inrepo = any("/qetpy/" in l for l in tb)
        if inrepo:
            key = "unexpected-exception"
        elif isinstance(e, (MemoryError, OSError, ImportError)):
            key = "HARNESS"
        else:
            # a result of a form for which the check has no reading (wrong type, shape or missing parts)
            key = "uninterpretable-result"
        rec.fail(key, f"{type(e).__name__}: {e} | " + " | ".join(tb[-4:]))
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    return rec, timed


def _batch(items):
    import warnings
    import numpy as np
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    out = dict(problems=[], states=set(), transitions=0, traces=0, outcomes=set(), n=0, skipped=0, notes={})
    scratch = tempfile.mkdtemp(prefix="qetmc-")
    cwd = os.getcwd()
    os.chdir(scratch)
    try:
        for idx, case in items:
            if _stop.value:
                out["skipped"] += 1
                continue
            rec, timed = _run_one(_mod, case)
            out["n"] += 1
            out["states"] |= rec.states
            out["transitions"] += rec.transitions
            out["traces"] += rec.traces
            out["outcomes"] |= rec.outcomes
            for k, v in rec.notes.items():
                out["notes"][k] = max(out["notes"].get(k, 0), v) if k.startswith("max_") else out["notes"].get(k, 0) + v
            if rec.problems:
                out["problems"].append((idx, case, rec.problems[:8]))
                if FAILFAST:
                    _stop.value = 1
            if timed:
                _stop.value = 1
    finally:
        os.chdir(cwd)
        shutil.rmtree(scratch, ignore_errors=True)
    return out


def known_keys(pid):
    keys = {}
    if os.path.exists(KNOWN):
        with open(KNOWN) as fh:
            lines = fh.read().splitlines()
        for line in lines:
            line = line.strip()
            if line.startswith("KNOWN-FINDING:") and f"property={pid} " in line:
                for w in line.split():
                    if w.startswith("key="):
                        keys[w[4:]] = line
    return keys


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--list", action="store_true")
    a = ap.parse_args(argv)
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()

    import warnings
    warnings.simplefilter("ignore")
    global _mod, _stop
    _stop = mp.Value("i", 0)
    _mod = importlib.import_module("mc.checks." + a.pid)
    pid = _mod.ID

    if a.replay:
        case = json.load(open(a.replay))["case"]
        rec, _ = _run_one(_mod, case)
        for k, m, x in rec.problems:
            print(f"  [{k}] {m}")
        if rec.problems:
            print(f"VIOLATION property={pid} replay={a.replay}")
            return 1
        print("replay: property held")
        return 0

    cases = list(_mod.cases(tier))
    if a.list:
        for c in cases:
            print(json.dumps(c))
        return 0

    n = len(cases)
    nb = max(1, min(n, NPROC * 8))
    batches = [[(i, cases[i]) for i in range(b, n, nb)] for b in range(nb)]
    res = dict(problems=[], states=set(), transitions=0, traces=0, outcomes=set(), n=0, skipped=0, notes={})
    ctx = mp.get_context("fork")
    with cf.ProcessPoolExecutor(max_workers=min(NPROC, nb), mp_context=ctx) as ex:
        for r in ex.map(_batch, batches):
            for k in ("problems",):
                res[k] += r[k]
            for k in ("states", "outcomes"):
                res[k] |= r[k]
            for k in ("transitions", "traces", "n", "skipped"):
                res[k] += r[k]
            for k, v in r["notes"].items():
                res["notes"][k] = max(res["notes"].get(k, 0), v) if k.startswith("max_") else res["notes"].get(k, 0) + v

    res["problems"].sort(key=lambda p: p[0])
    known = known_keys(pid)
    seen_known = {}
    fresh = []
    harness = []
    for idx, case, probs in res["problems"]:
        rest = []
        for key, msg, extra in probs:
            if key == "HARNESS":
                harness.append((case, msg))
            elif key in known:
                seen_known.setdefault(key, msg)
            else:
                rest.append((key, msg, extra))
        if rest:
            fresh.append((idx, case, rest))
    for key, msg in seen_known.items():
        print(f"KNOWN-FINDING: property={pid} key={key} {msg[:300]}")

    os.makedirs(REPLAYS, exist_ok=True)
    shown = set()
    nshown = 0
    for idx, case, probs in fresh:
        for key, msg, extra in probs:
            if key in shown or nshown >= MAX_REPORT:
                continue
            shown.add(key)
            nshown += 1
            rc = extra.get("replay_case", case)
            path = os.path.join(REPLAYS, f"{pid}-{h64([pid, key, rc]):016x}.json")
            with open(path, "w") as f:
                json.dump(dict(property=pid, key=key, message=msg, case=rc,
                               how=f"python3 /verif/run.py {pid} --replay {path}"), f, indent=1)
            print(f"  [{key}] {msg[:600]}")
            print(f"VIOLATION property={pid} replay={path}")

    wall = time.time() - t0
    samples = [cases[i] for i in sorted({0, n // 3, (2 * n) // 3, n - 1})] if n else []
    level = _mod.LEVEL
    if level == "model_checking":
        cov = dict(states=len(res["states"]), transitions=res["transitions"],
                   traces_validated_against_impl=res["traces"], samples=samples)
    else:
        cov = dict(evaluations=res["transitions"], distinct_nontrivial=len(res["states"]),
                   rule=_mod.RULE, samples=samples)
    cov["cases_enumerated"] = n
    cov["distinct_outcomes"] = len(res["outcomes"])
    cov["exhaustive"] = res["skipped"] == 0
    cov["space"] = _mod.BOUNDS
    cov["how"] = _mod.RULE
    if res["notes"]:
        cov["notes"] = res["notes"]
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov,
              assumptions=list(getattr(_mod, "ASSUMPTIONS", [])), wall_s=round(wall, 2),
              violations=len(fresh))
    os.makedirs(EVID, exist_ok=True)
    tmp = os.path.join(EVID, f".{pid}.{os.getpid()}.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(tmp, os.path.join(EVID, f"{pid}.json"))
    print(f"{pid} [{tier}] cases={n} states={len(res['states'])} transitions={res['transitions']} "
          f"traces={res['traces']} outcomes={len(res['outcomes'])} violating_cases={len(fresh)} "
          f"known={len(seen_known)} wall={wall:.1f}s notes={res['notes']}")
    if fresh:
        return 1
    if harness:
        print("HARNESS ERROR", harness[0])
        return 3
    return 0
