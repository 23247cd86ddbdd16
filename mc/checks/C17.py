"""C17: dIdV objects: call histories and equivalent descriptions of one measurement."""
import copy
import warnings
import numpy as np
import qetpy as qp
from mc import bfs, ref_didv as D
from mc.core import must, attempt, Raised

ID = "C17"
LEVEL = "model_checking"
CASE_CPU_S = 300
BOUNDS = ("DIDV objects for 2 circuits x add180phase: all histories over 10 operations (3 fits, 2 cut-off fits, processing, 3 result "
          "queries, a refused fit) explored to the fixpoint of the object state space, plus all sequences to depth 2 (quick) / 3 (thorough) on "
          "fresh objects; DIDVPriors: 7 operations likewise; 11 equivalent descriptions of the same measurement x 3 circuits x both "
          "phases x 3 models; didvinitfromdata for 1 to 40 periods")
RULE = ("explicit-state breadth-first search over the real objects (state = complete object content) with replay of plain operation "
        "sequences; oracle: every fit answers as on a fresh object given only that fit, queries return the last fit of that model or an "
        "empty dictionary with a warning; equivalent descriptions are compared pairwise")
ASSUMPTIONS = ["a 3-pole fit may start from an earlier 2-pole fit: its result is compared as a circuit (1e-3), the others to 1e-7"]
AMP, RSH, FS = 4.7e-7, 5e-3, 625e3
CIRC = [dict(rsh=RSH, rp=6e-3, r0=0.0756, beta=0.1, l=10, L=1e-7, tau0=5e-4, gratio=0.2, tau3=1e-3),
        dict(rsh=RSH, rp=6e-3, r0=0.0756, beta=2, l=0.5, L=1e-7, tau0=5e-4),
        dict(rsh=RSH, rp=0.03, L=1e-7)]


def data(i, bins=2500, per=1, shift=0.3, off=4e-6):
    p = CIRC[i]
    y = D.response(p, bins * per, per, FS, FS / bins, AMP, 0.5, shift)
    return D.traces(y, 1e-3 * np.max(np.abs(y)), 3, off)


def cases(tier):
    deep = tier != "quick"
    for i in (0, 1):
        for ph in (False, True):
            yield dict(kind="hist", i=i, phase=ph)
    yield dict(kind="phist", i=1, phase=True)
    yield dict(kind="phist", i=1, phase=False)
    for i in (0, 1):
        for first in range(10):
            yield dict(kind="seq", i=i, phase=True, first=first, depth=2 if not deep else 3)
    for i in (0, 1, 2):
        for ph in (False, True):
            for m in (1, 2, 3):
                if (i == 2 and m != 1) or (i == 1 and m != 2) or (i == 0 and m == 1):
                    continue
                yield dict(kind="equiv", i=i, phase=ph, m=m)
    yield dict(kind="fromdata")


def run(case, rec):
    globals()["run_" + case["kind"]](case, rec)


OPS = ("process", "fit1", "fit2", "fit3", "fit1cut", "fit2cut", "res1", "res2", "res3", "bad")


def ops_for(i):
    # a 3-pole fit of an exact 2-pole circuit has no unique answer
    return OPS if "gratio" in CIRC[i] else tuple(o for o in OPS if o != "fit3")


def mk(i, phase, **k):
    tr = data(i)
    p = CIRC[i]
    sg = FS / 2500
    return qp.DIDV(tr, FS, sg, AMP, RSH, r0=p["r0"], rp=p["rp"], add180phase=phase, dt0=0.4 / FS - (1 / (2 * sg) if phase else 0))


def apply(o, op):
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        if op == "process":
            return attempt(o.processtraces)
        if op.startswith("fit"):
            return attempt(o.dofit, int(op[3]), **(dict(fcutoff=9e4) if op.endswith("cut") else {}))
        if op == "bad":
            return attempt(o.dofit, 4)
        r = attempt(o.fitresult, int(op[3]))
        if isinstance(r, Raised):
            return r
        return copy.deepcopy(r), [str(x.message) for x in w]


def last_fit(hist, m):
    for op in reversed(hist):
        if op.startswith("fit") and op[3] == str(m):
            return op
    return None


def same_result(a, b, tol, key="smallsignalparams"):
    if set(a) != set(b):
        return f"entries {sorted(a)} instead of {sorted(b)}"
    for part in ("params", key):
        if part not in a:
            continue
        if list(a[part]) != list(b[part]):
            return f"{part} {list(a[part])} instead of {list(b[part])}"
        for k in a[part]:
            x, y = a[part][k], b[part][k]
            if not abs(x - y) <= tol * abs(y) + (1e-9 if k == "dt" else 0):
                return f"{part}[{k}] = {x!r} instead of {y!r}"
    if not abs(a["cost"] - b["cost"]) <= 10 * tol * abs(b["cost"]) + 1e-2:
        return f"cost {a['cost']!r} instead of {b['cost']!r}"
    if not np.allclose(np.atleast_1d(a["falltimes"]), np.atleast_1d(b["falltimes"]), rtol=10 * tol):
        return f"falltimes {a['falltimes']!r} instead of {b['falltimes']!r}"
    return None


def mk_oracle(build, apply, priors=False):
    cache = {}

    def ref(op):
        if op not in cache:
            o = build()
            apply(o, op)
            cache[op] = apply(o, "res" + op[3])[0]
        return cache[op]

    tr0 = build()._rawtraces.copy() if hasattr(build(), "_rawtraces") else None

    def oracle(hist, op, res, o):
        out = []
        if isinstance(res, Raised):
            if op == "bad" and isinstance(res.exc, ValueError):
                pass
            else:
                out.append(("history-raise", f"{res!r}"))
                return out
        elif op == "bad":
            out.append(("bad-poles", "a 4-pole fit was accepted"))
        full = hist + (op,)
        for m in (1, 2, 3):
            if priors and m == 3:
                continue
            lf = last_fit(full, m)
            if op.startswith("res") and op[3] != str(m):
                continue
            r, w = apply(o, f"res{m}")
            if lf is None:
                if r != {} or not any("has not been run" in x for x in w):
                    out.append(("no-fit", f"{m}-pole result before any such fit: {r!r}, warnings {w}"))
            else:
                if w:
                    out.append(("no-fit", f"{m}-pole result after the fit warns {w}"))
                msg = same_result(r, ref(lf), 1e-3 if m == 3 else 1e-7)
                if msg:
                    out.append(("history", f"{m}-pole result differs from a fresh object's: {msg}"))
        if tr0 is not None and not np.array_equal(o._rawtraces, tr0):
            out.append(("purity", "the object changed the traces it was given"))
        return out
    return oracle


def run_hist(case, rec):
    proto = mk(case["i"], case["phase"])
    build = lambda: copy.deepcopy(proto)
    oracle = mk_oracle(build, apply)
    if "hist" in case:
        return bfs.replay(rec, case, build, case["hist"], apply, oracle)
    bfs.explore(rec, case, build, ops_for(case["i"]), apply, oracle, max_depth=12, max_states=400)
    rec.trace()


def run_seq(case, rec):
    build = lambda: mk(case["i"], case["phase"])
    oracle = mk_oracle(build, apply)
    if "hist" in case:
        return bfs.replay(rec, case, build, case["hist"], apply, oracle)
    import itertools
    ops = ops_for(case["i"])
    if case["first"] >= len(ops):
        return
    for d in range(case["depth"]):
        for rest in itertools.product(ops, repeat=d):
            bfs.replay(rec, case, build, (ops[case["first"]],) + rest, apply, oracle, last_only=True)
            if len(rec.problems) > 10:
                return


def run_phist(case, rec):
    p = CIRC[case["i"]]
    sg = FS / 2500
    tr = data(case["i"])
    pr = {1: (np.array([RSH, 6e-3, 0, 0]), np.diag([(0.1 * RSH) ** 2, (0.1 * 6e-3) ** 2, 0, 0])),
          2: (np.array([RSH, 6e-3, p["r0"], 0, 0, 0, 0, 0]), np.diag([(0.1 * RSH) ** 2, (0.1 * 6e-3) ** 2, (0.1 * p["r0"]) ** 2, 0, 0, 0, 0, 0]))}
    proto = qp.DIDVPriors(tr, FS, sg, AMP, RSH, add180phase=case["phase"], dt0=0.4 / FS - (1 / (2 * sg) if case["phase"] else 0))
    build = lambda: copy.deepcopy(proto)

    def app(o, op):
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            if op == "process":
                return attempt(o.processtraces)
            if op.startswith("fit"):
                m = int(op[3])
                return attempt(o.dofit, m, *pr[m], **(dict(fcutoff=9e4) if op.endswith("cut") else {}))
            if op == "bad":
                return attempt(o.dofit, 4, *pr[2])
            r = attempt(o.fitresult, int(op[3]))
            if isinstance(r, Raised):
                return r
            return copy.deepcopy(r), [str(x.message) for x in w]
    oracle = mk_oracle(build, app, priors=True)
    if "hist" in case:
        return bfs.replay(rec, case, build, case["hist"], app, oracle)
    bfs.explore(rec, case, build, ("process", "fit1", "fit2", "fit2cut", "res1", "res2", "bad"), app, oracle, max_depth=8, max_states=100)
    rec.trace()


def run_equiv(case, rec):
    i, ph, m = case["i"], case["phase"], case["m"]
    p = CIRC[i]
    bins, per = 2500, 2
    sg = FS / bins
    n = bins * per
    tr = data(i, bins, per)
    kw = dict(r0=p.get("r0", 0.3), rp=p["rp"])
    half = 1 / (2 * sg)
    dt0 = 0.4 / FS - (half if ph else 0)

    def fit(o):
        r = attempt(o.dofit, m)
        rec.step()
        return r if isinstance(r, Raised) else o.fitresult(m)
    basis = fit(qp.DIDV(tr, FS, sg, AMP, RSH, add180phase=ph, dt0=dt0, **kw))
    if isinstance(basis, Raised):
        return rec.fail("equivalence", f"plain fit: {basis!r}")
    src = qp.DIDV(tr, FS, sg, AMP, RSH, dt0=dt0, add180phase=ph, **kw)
    src.processtraces()
    names = ("_tmean", "_didvmean", "_didvstd", "_offset", "_offset_err")
    variants = {
        "gain": (lambda: qp.DIDV(tr * -3.2e4, FS, sg, AMP, RSH, tracegain=-3.2e4, add180phase=ph, dt0=dt0, **kw), 1e-6),
        "baseline": (lambda: qp.DIDV(tr + 1e-5, FS, sg, AMP, RSH, add180phase=ph, dt0=dt0, **kw), 1e-5),
        "trace order": (lambda: qp.DIDV(tr[::-1], FS, sg, AMP, RSH, add180phase=ph, dt0=dt0, **kw), 1e-6),
        "partial tail": (lambda: qp.DIDV(np.concatenate([tr, tr[:, :777] * 50 + 1e-5], axis=1), FS, sg, AMP, RSH, add180phase=ph, dt0=dt0, **kw), 1e-6),
        "explicit phase": (lambda: qp.DIDV(tr, FS, sg, AMP, RSH, add180phase=not ph, dt0=dt0 + (half if ph else -half), **kw), 1e-6),
        "amplitude": (lambda: qp.DIDV(tr * 1.7, FS, sg, AMP * 1.7, RSH, add180phase=ph, dt0=dt0, **kw), 1e-6),
        "whole period": (lambda: qp.DIDV(np.roll(tr, bins, axis=1), FS, sg, AMP, RSH, add180phase=ph, dt0=dt0, **kw), 1e-6),
        "duplicated traces": (None, 1e-6),
        "positional": (lambda: qp.DIDV(tr, FS, sg, AMP, RSH, 1.0, kw["r0"], kw["rp"], 0.5, ph, dt0, False), 1e-12),
        "integer rates": (lambda: qp.DIDV(tr, int(FS), int(sg), AMP, RSH, add180phase=ph, dt0=dt0, **kw), 1e-6),
        "autoresample unused": (lambda: qp.DIDV(tr, FS, sg, AMP, RSH, add180phase=ph, dt0=dt0, autoresample=True, **kw), 1e-12),
    }
    if all(hasattr(src, a) for a in names):
        variants["from data"] = (lambda: qp.didvinitfromdata(*[getattr(src, a) for a in names], FS, sg, AMP, RSH, add180phase=ph, dt0=dt0, **kw), 1e-6)
        variants["from data, explicit phase"] = (lambda: qp.didvinitfromdata(*[getattr(src, a) for a in names], FS, sg, AMP, RSH, add180phase=False, dt0=dt0 + (half if ph else 0), **kw), 1e-6)
    for name, (build, tol) in variants.items():
        if build is None:
            r = fit(qp.DIDV(np.concatenate([tr, tr]), FS, sg, AMP, RSH, add180phase=ph, dt0=dt0, **kw))
            if isinstance(r, Raised):
                rec.fail("equivalence", f"{name}: {r!r}")
                continue
            for k in basis["params"]:
                x, y = r["params"][k], basis["params"][k]
                rec.true("equivalence", abs(x - y) <= 1e-4 * abs(y) + 1e-9 * (k == "dt"), f"{m}-pole circuit {i} phase {ph}, every trace twice: {k} {x!r} instead of {y!r}")
                x, y = r["errors"][k], basis["errors"][k] / np.sqrt(2)
                rec.true("equivalence", abs(x - y) <= 0.02 * y, f"{m}-pole circuit {i} phase {ph}, every trace twice: error of {k} {x!r} instead of {y!r}")
            continue
        o = attempt(build)
        r = o if isinstance(o, Raised) else fit(o)
        if isinstance(r, Raised):
            rec.fail("equivalence", f"{m}-pole circuit {i} phase {ph}, {name}: {r!r}")
            continue
        msg = same_result(r, basis, max(tol * 100, 1e-4) if tol > 1e-9 else 1e-9)
        if msg:
            rec.fail("equivalence", f"{m}-pole circuit {i} add180phase {ph}, same measurement described by '{name}': {msg}")
        rec.state(case, name, [round(float(v), 12) for v in r["params"].values()])
    rec.trace()


def run_fromdata(case, rec):
    """Any number of periods, odd and even bins."""
    for bins in (100, 101, 250, 625):
        for per in list(range(1, 13)) + [33, 40]:
            n = bins * per
            fs = 625e3
            sg = fs / bins
            p = CIRC[1]
            y = D.response(p, n, per, fs, sg, AMP)
            tr = D.traces(y, 1e-3 * np.max(np.abs(y)), 2)
            for dt0 in (1e-6, 0.4 / sg, -0.3 / sg):
                a = qp.DIDV(tr, fs, sg, AMP, RSH, dt0=dt0)
                must(rec, "periods", f"{per} periods of {bins} bins", a.processtraces)
                names = ("_tmean", "_didvmean", "_didvstd", "_offset", "_offset_err")
                if rec.problems or not all(hasattr(a, x) for x in names):
                    return
                b = must(rec, "periods", f"didvinitfromdata, {per} periods of {bins} bins", qp.didvinitfromdata, *[getattr(a, x) for x in names], fs, sg, AMP, RSH, dt0=dt0)
                if b is None:
                    return
                if dt0 == 1e-6 and per in (1, 2, 33):
                    ra, rb = attempt(a.dofit, 2), attempt(b.dofit, 2)
                    rec.step(2)
                    if isinstance(ra, Raised) != isinstance(rb, Raised):
                        rec.fail("fromdata", f"{per} periods of {bins} bins: {ra!r} / {rb!r}")
                    elif not isinstance(ra, Raised):
                        msg = same_result(b.fitresult(2), a.fitresult(2), 1e-3)
                        if msg:
                            rec.fail("fromdata", f"{per} periods of {bins} bins: didvinitfromdata: {msg}")
                for x in ("_time", "_freq"):
                    if hasattr(a, x) and hasattr(b, x):
                        u, v = np.asarray(getattr(a, x)), np.asarray(getattr(b, x))
                        rec.true("fromdata", u.shape == v.shape and np.allclose(u, v, rtol=1e-9, atol=1e-15), f"{per} periods of {bins} bins dt0 {dt0}: {x} differs between DIDV and didvinitfromdata")
                rec.state(bins, per, dt0)
    rec.trace()
