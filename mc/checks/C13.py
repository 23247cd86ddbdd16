"""C13: automatic trace cuts (autocuts) and their composition."""
import itertools
import numpy as np
import qetpy as qp
import qetpy.cut._cut as CC
from mc.core import must, attempt, Raised
from mc import ref_of as R

ID = "C13"
LEVEL = "model_checking"
BOUNDS = ("all 32 on/off combinations of the five stages x dIdV on/off x 2 outlier algorithms x 6 populations (thorough 14) of 14-24 traces and of 1031 (thorough 2053); "
          "every position of a bad trace in the array for every stage; every nsig parameter against every stage; per-trace offsets")
RULE = ("complete enumeration of stage combinations on the real function; oracle: composition law (all stages = stages one at a time "
        "on the survivors), equivariance under reordering, planted bad traces, invariances of each stage; state = (configuration, mask)")
ASSUMPTIONS = ["the outlier removers themselves are decided by C12"]
STAGES = ("pileup1", "slope", "baseline", "pileup2", "chi2")
FS = 625e3
CASE_CPU_S = 150


def flags(on):
    return {"lgc" + s: (s in on) for s in STAGES}


def population(pop, n, nbin, didv):
    rs = R.lcg(n * nbin + 4 * n, 100 + pop)
    tr = np.round(rs[: n * nbin].reshape(n, nbin) * 40)
    k = rs[n * nbin:].reshape(4, n)
    x = np.arange(nbin)
    pulse = np.where(x >= nbin // 2, np.exp(-np.clip(x - nbin // 2, 0, None) / (0.15 * nbin)), 0)
    tr += np.round(k[0] * 10)[:, None]                                   # baselines
    tr += np.round(np.outer(k[1] * 12, x / nbin))                        # slopes
    tr += np.round(np.outer(np.abs(k[2]) * 10, pulse))                   # amplitudes
    m = pop % 7
    if m in (1, 5, 6):
        tr[2 % n] += np.round(900 * pulse)
        tr[n // 2] += np.round(500 * pulse)
    if m in (2, 5, 6):
        tr[n - 1] += 300
        tr[0] += np.round(800 * x / nbin)
    if m in (3, 6):
        tr[n // 3, ::3] += 400
    if m in (4, 6):
        tr[:, :] += 37
        tr[1] += np.round(np.outer([400], x / nbin))[0]
    if didv:
        tr += np.where((x * 4 // nbin) % 2 == 0, 60, -60)[None, :]
    return tr


def call(rec, ctx, tr, **kw):
    a = tr.copy()
    m = must(rec, "autocuts", ctx, qp.autocuts, a, fs=FS, **kw)
    if m is None:
        return None
    if not np.array_equal(a, tr):
        rec.fail("input", f"{ctx}: traces modified")
    m = np.asarray(m)
    if m.shape != (len(tr),) or m.dtype != bool:
        rec.fail("mask", f"{ctx}: returned {m.dtype} mask of shape {m.shape} for {len(tr)} traces")
        return None
    if not m.any():
        rec.fail("mask", f"{ctx}: no trace survives")
    return m


def cases(tier):
    q = tier == "quick"
    for pop in range(6 if q else 14):
        for didv in (False, True):
            for algo in ("removeoutliers", "iterstat"):
                yield dict(kind="compose", pop=pop, didv=didv, algo=algo, n=14 + 2 * (pop % 6), nbin=80 + 20 * (pop % 3))
    for stage in STAGES:
        for algo in ("removeoutliers", "iterstat"):
            for sign in (1, -1):
                yield dict(kind="planted", stage=stage, algo=algo, sign=sign, n=24 if q else 36)
    for stage in STAGES:
        yield dict(kind="nsig", stage=stage)
    for algo in ("removeoutliers", "iterstat"):
        for didv in (False, True):
            yield dict(kind="invariance", algo=algo, didv=didv)
    for per in ((1, 200.0), (2, 200.0), (4, 100.0), (8, 250.0)):
        yield dict(kind="periodic", nper=per[0], sg=per[1])
    for st in STAGES:
        for didv in (False, True):
            for algo in ("removeoutliers", "iterstat"):
                yield dict(kind="values", stage=st, didv=didv, algo=algo, pops=14 if q else 42)
    for algo in ("removeoutliers", "iterstat"):
        for didv in (True, False):
            yield dict(kind="compose", pop=6, didv=didv, algo=algo, n=1031 if q else 2053, nbin=80)
            for st in STAGES:
                yield dict(kind="values", stage=st, didv=didv, algo=algo, pops=1 if q else 3, n=1031 if q else 2053)
    yield dict(kind="args")


def run(case, rec):
    getattr(__import__(__name__, fromlist=["x"]), "run_" + case["kind"])(case, rec)
    rec.trace()


def sg_of(nbin):
    return FS / (nbin / 2.0)      # two periods in the trace


def run_compose(case, rec):
    tr = population(case["pop"], case["n"], case["nbin"], case["didv"])
    base = dict(is_didv=case["didv"], outlieralgo=case["algo"], sgfreq=sg_of(case["nbin"]))
    single = {}
    n = len(tr)

    def step(idx, s):
        key = (tuple(idx), s)
        if key not in single:
            single[key] = call(rec, f"autocuts({case}, traces {list(idx)}, only {s})", tr[list(idx)], **base, **flags([s]))
        return single[key]
    for on in itertools.chain.from_iterable(itertools.combinations(STAGES, r) for r in range(6)):
        ctx = f"autocuts({case}, stages {on})"
        m = call(rec, ctx, tr, **base, **flags(on))
        if m is None:
            return
        rec.state(case, on, m)
        rec.outcome(tuple(on), int(m.sum()))
        idx = np.arange(n)
        for s in on:
            k = step(tuple(idx), s)
            if k is None:
                return
            if s == "pileup2" and not case["didv"] and not k.all():
                rec.fail("pileup2", f"{ctx}: second pile-up cut is active without is_didv")
            idx = idx[k]
        if not np.array_equal(np.flatnonzero(m), idx):
            rec.fail("compose", f"{ctx}: keeps {list(np.flatnonzero(m))}, the stages one after the other keep {list(idx)}")
    perm = np.argsort((np.arange(n) * 7 + 3) % 11, kind="stable")
    a, b = call(rec, f"autocuts({case})", tr, **base), call(rec, f"autocuts({case} reordered)", tr[perm], **base)
    if a is not None and b is not None and not np.array_equal(a[perm], b):
        rec.fail("order", f"autocuts({case}): result depends on the order of the traces: {list(np.flatnonzero(a))} vs {list(np.flatnonzero(b))}")
    d, e = call(rec, "default stages", tr, **base, **flags(STAGES)), a
    if d is not None and e is not None and not np.array_equal(d, e):
        rec.fail("defaults", f"autocuts({case}): the default is not to use all of the stages")


def run_planted(case, rec):
    st, n, nbin = case["stage"], case["n"], 100
    didv = st == "pileup2"
    tr0 = population(0, n, nbin, didv)
    x = np.arange(nbin)
    pulse = np.where(x >= nbin // 2, np.exp(-np.clip(x - nbin // 2, 0, None) / 15.0), 0)
    if st in ("slope", "baseline") and case["algo"] == "removeoutliers" and case["sign"] < 0:
        return                                                          # removeoutliers acts on the positive tail by definition
    bad = {"pileup1": 3000 * pulse, "pileup2": 3000 * pulse, "slope": 3000 * x / nbin, "baseline": np.full(nbin, 2000.0), "chi2": np.where(x % 2 == 0, 3000.0, -3000.0)}[st]
    bad = np.round(bad * case["sign"])
    kw = dict(is_didv=didv, outlieralgo=case["algo"], sgfreq=sg_of(nbin))
    clean = call(rec, f"autocuts(clean, {st})", tr0, **kw, **flags([st]))
    for j in range(n):
        for extra in ((), ((j + 5) % n,)):
            tr = tr0.copy()
            for i in (j,) + extra:
                tr[i] += bad
            ctx = f"autocuts({case}, bad traces {[j] + list(extra)})"
            m = call(rec, ctx, tr, **kw, **flags([st]))
            if m is None:
                return
            rec.state(case, j, extra, m)
            if m[j] or any(m[i] for i in extra):
                rec.fail("planted", f"{ctx}: the bad trace is kept by the {st} cut")
            if m.sum() < n // 3:
                rec.fail("planted", f"{ctx}: only {m.sum()} of {n} traces are kept")
            m2 = call(rec, ctx + " all stages", tr, **kw) if not extra and st != "chi2" else None
            if m2 is not None and (m2[j] or any(m2[i] for i in extra)):
                rec.fail("planted", f"{ctx}: the bad trace is kept with all of the cuts")


def run_nsig(case, rec):
    st, n, nbin = case["stage"], 24, 100
    for pop in (0, 6, 13):
        didv = st == "pileup2"
        tr = population(pop, n, nbin, didv)
        kw = dict(is_didv=didv, outlieralgo="iterstat", sgfreq=sg_of(nbin))
        ref = call(rec, f"autocuts(pop {pop}, only {st})", tr, **kw, **flags([st]))
        if ref is None:
            return
        for p in STAGES:
            for v in (1.2, 50.0):
                ctx = f"autocuts(pop {pop}, only {st}, nsig{p}={v})"
                m = call(rec, ctx, tr, **kw, **flags([st]), **{"nsig" + p: v})
                if m is None:
                    return
                rec.state(case, pop, p, v, m)
                if p != st and not np.array_equal(m, ref):
                    rec.fail("nsig", f"{ctx}: changes the {st} cut")
                if p == st and v == 50.0 and not m.all():
                    rec.fail("nsig", f"{ctx}: cuts traces at 50 sigma")
                if p == st and v == 1.2 and not m.sum() < n * 0.93:
                    rec.fail("nsig", f"{ctx}: keeps {m.sum()} of {n} traces at 1.2 sigma")
        # the outlier algorithm does not matter to the chi2 cut
        if st == "chi2":
            kw["outlieralgo"] = "removeoutliers"
            m = call(rec, "chi2 algorithm", tr, **kw, **flags([st]))
            if m is not None and not np.array_equal(m, ref):
                rec.fail("nsig", f"autocuts(pop {pop}, only chi2): depends on outlieralgo")


def run_invariance(case, rec):
    n, nbin = 20, 100
    kw = dict(is_didv=case["didv"], outlieralgo=case["algo"], sgfreq=sg_of(nbin))
    for pop in range(7):
        tr = population(pop, n, nbin, case["didv"])
        off = np.round(R.lcg(n, 7 + pop) * 200)[:, None]
        for st, what in (("slope", tr + off), ("pileup2", tr + off), ("slope", tr * 4.0), ("baseline", tr * 4.0), ("pileup1", tr * 4.0), ("chi2", tr * 4.0),
                         ("pileup1", -tr), ("chi2", -tr)):
            a = call(rec, f"autocuts({case}, pop {pop}, only {st})", tr, **kw, **flags([st]))
            b = call(rec, f"autocuts({case}, pop {pop}, only {st}, changed)", what, **kw, **flags([st]))
            if a is None or b is None:
                return
            rec.state(case, pop, st, a)
            if not np.array_equal(a, b):
                rec.fail("invariance", f"autocuts({case}, pop {pop}): the {st} cut changes under an offset/scale/sign it must not depend on: {list(np.flatnonzero(a))} vs {list(np.flatnonzero(b))}")
        if not np.array_equal(call(rec, "int", tr, **kw), call(rec, "int", tr.astype(int).astype(float), **kw)):
            rec.fail("invariance", "nondeterministic")


def of_ref(tr, fs):
    """amplitude and chi2 of the best-fitting unit pulse (10 us rise, 100 us fall, from the centre of the trace) in white noise"""
    n = tr.shape[1]
    t = (np.arange(1, n + 1) - round(n / 2)) / fs
    s = np.where(t < 0, 0.0, (1 - np.exp(-np.clip(t, 0, None) / 10e-6)) * np.exp(-np.clip(t, 0, None) / 100e-6))
    s /= s.max()
    A, C, G = [], [], []
    S0 = s - s.mean()                                     # AC coupling: the mean carries no information
    nn = np.sum(S0 ** 2)
    for y in tr:
        y0 = y - y.mean()
        a = np.array([np.sum(y0 * np.roll(S0, k)) for k in range(n)]) / nn
        c = np.sum(y0 ** 2) - a ** 2 * nn
        j = np.argsort(c)
        A.append(a[j[0]])
        C.append(c[j[0]])
        G.append(c[j[1]] - c[j[0]])
    return np.array(A), np.array(C), np.array(G)


def run_values(case, rec):
    """what each stage looks at: the pulse amplitude, the slope, the baseline or the chi2 of every trace"""
    st, didv = case["stage"], case["didv"]
    if st == "pileup2" and not didv:
        return
    for pop in range(case["pops"]):
        for per in (2, 1, 3) if st in ("slope", "baseline") and didv else (2,):
            n, nbin = case.get('n', 18 + pop % 5), 120 + 12 * (pop % 3)
            tr = population(pop, n, nbin, didv)
            # rounding must not decide: unique values
            tr = tr + R.lcg(n * nbin, 900 + pop).reshape(n, nbin) * 0.5
            sg = FS / (nbin / per)
            M = nbin / per
            kw = dict(is_didv=didv, sgfreq=sg, outlieralgo=case["algo"], **flags([st]))
            if didv:
                b = slice(int(M / 4), int(3 * M / 8)) if per > 1 else slice(int(M / 4), int(5 * M / 16))
                e = slice(int((per - 1) * M + M / 4), int((per - 1) * M + 3 * M / 8)) if per > 1 else slice(int(5 * M / 16), int(3 * M / 8))
            else:
                b, e = slice(0, nbin // 10), slice(9 * nbin // 10, nbin)
            if st in ("pileup1", "pileup2", "chi2"):
                a, c, g = of_ref(tr, FS)
                if np.any(g < 1e-6 * c):
                    rec.note("undecided_best_time")
                    continue
                v = c if st == "chi2" else abs(a)
            else:
                v = tr[:, b].mean(axis=1) if st == "baseline" else tr[:, e].mean(axis=1) - tr[:, b].mean(axis=1)
            for nsig in (2, 1.3) if case["algo"] == "iterstat" or st == "chi2" else (2,):
                for sym in (False, True) if st == "slope" else (False,):
                    ctx = f"autocuts({case}, population {pop}, {per} periods, nsig {nsig}, symmetrizeflag {sym})"
                    np.random.seed(pop)
                    got = call(rec, ctx, tr, symmetrizeflag=sym, **kw, **{"nsig" + st: nsig})
                    if got is None:
                        return
                    np.random.seed(pop)
                    idx = np.flatnonzero(CC.symmetrizedist(v)) if sym else np.arange(n)
                    w = v[idx]
                    k = qp.cut.iterstat(w, cut=nsig, precision=10000.0)[2] if case["algo"] == "iterstat" or st == "chi2" else qp.cut.removeoutliers(w)
                    want = np.isin(np.arange(n), idx[np.asarray(k)])
                    rec.state(case, pop, per, nsig, sym, got)
                    rec.step()
                    if not np.array_equal(want, got):
                        rec.fail("values", f"{ctx}: keeps {list(np.flatnonzero(got))}; the outlier removal of the traces' {st} values keeps {list(np.flatnonzero(want))}")


def run_periodic(case, rec):
    """the slope cut of a dIdV compares the same part of the period: amplitude differences are not slopes"""
    ppb = int(FS / case["sg"])
    nbin = ppb * case["nper"]
    n = 12
    x = np.arange(nbin)
    sq = np.where((x % ppb) < ppb // 2, 1.0, -1.0)
    amp = np.array([10, 12, 9, 11, 300, 10, 8, 13, 250, 9, 10, 11.0])
    tr = amp[:, None] * sq[None]
    for algo in ("removeoutliers", "iterstat"):
        kw = dict(is_didv=True, outlieralgo=algo, sgfreq=case["sg"])
        m = call(rec, f"autocuts({case}, {algo}, only slope)", tr, **kw, **flags(["slope"]))
        if m is None:
            return
        rec.state(case, algo, m)
        if not m.all():
            rec.fail("periodic", f"autocuts({case}, {algo}): the slope cut of a dIdV removes {list(np.flatnonzero(~m))} without any slope")
        for j in range(n):
            t2 = tr + np.round(R.lcg(n, 3) * 3)[:, None] * x[None] / nbin
            t2[j] += np.round(500.0 * x / nbin)
            m = call(rec, f"autocuts({case}, {algo}, only slope, slope in {j})", t2, **kw, **flags(["slope"]))
            if m is not None and m[j]:
                rec.fail("periodic", f"autocuts({case}, {algo}): slope in trace {j} not removed")


def run_args(case, rec):
    tr = population(0, 14, 80, True)
    for st in STAGES:
        r = attempt(qp.autocuts, tr, fs=FS, is_didv=True, sgfreq=sg_of(80), outlieralgo="unknown", **flags([st]))
        rec.step()
        rec.state("args", st)
        if st == "chi2":
            if isinstance(r, Raised):
                rec.fail("args", f"autocuts(only chi2): outlieralgo is not used but raises {r}")
        elif not (isinstance(r, Raised) and isinstance(r.exc, ValueError)):
            rec.fail("args", f"autocuts(only {st}, outlieralgo='unknown'): {r!r} instead of ValueError")
    # symmetrising: a subset is kept, deterministic for a given seed, and the input is not changed
    for pop in range(7):
        t = population(pop, 24, 80, False)
        for s in range(3):
            out = []
            for _ in range(2):
                np.random.seed(s)
                out.append(call(rec, f"autocuts(pop {pop}, symmetrizeflag, seed {s})", t, symmetrizeflag=True, **flags(["slope"])))
            if out[0] is not None and out[1] is not None:
                rec.state("sym", pop, s, out[0])
                if not np.array_equal(*out):
                    rec.fail("symmetrize", f"autocuts(pop {pop}, symmetrizeflag): not reproducible with a fixed seed")
