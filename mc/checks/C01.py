"""C01: delay search = brute force over exactly the allowed delays (all window/direction settings)."""
import numpy as np
import qetpy as qp
from mc import ref_of as R
from mc.core import must, attempt, Raised

ID = "C01"
LEVEL = "model_checking"
BOUNDS = ("trace lengths 5..9 (thorough 4..13) x signals x couplings x fs; for each, EVERY nconstrain in "
          "{None,1..n+2}, window side, windowcenter in the full legal range plus both illegal neighbours, "
          "direction in {-1,0,1}, for ofamp_withdelay/ofamp_baseline/ofamp_pileup_iterative/"
          "ofamp_pileup_stationary and the function forms; detector-sized traces (1024, 1625, 32500 and 70001 samples, thorough up to 130000; "
          "625 kHz, 1e-7 A pulses, 1/f noise with a line) with selected windows")
RULE = ("complete enumeration of the window/direction option space on the real filters; each answer compared with "
        "a brute-force residual scan over the documented allowed set of delays; a state is one "
        "(configuration, option tuple, answer) triple")
ASSUMPTIONS = ["white-box free: only public calls; ties within 1e-6 of the minimum are accepted either way",
               "with no allowed delay the function forms and ofamp_pileup_stationary have no documented answer and are not asked"]


def _signals(n, k):
    t0 = R.template(n, 0)
    if k == 0:
        return np.roll(t0, 1) * 3.0 + 0.01 * R.lcg(n, 3)
    if k == 1:
        return R.lcg(n, 7)
    if k == 2:
        return -2.0 * np.roll(t0, -2) + 0.1 * R.lcg(n, 5) + 1.5
    return R.lcg(n, 11) * 1e-6


def cases(tier):
    ns = [5, 6, 7, 8, 9] if tier == "quick" else [4, 5, 6, 7, 8, 9, 10, 11, 12, 13]
    sigs = [0, 1, 2] if tier == "quick" else [0, 1, 2, 3]
    for n in ns:
        for sig in sigs:
            for coupling in ("AC", "DC"):
                for method in ("withdelay", "baseline", "iterative", "stationary", "functions", "errors"):
                    yield dict(n=n, sig=sig, coupling=coupling, method=method, fs=[1.0, 625e3, 3.0][(n + sig) % 3],
                               tk=(n + sig) % 2, pk=sig % 3)
    for n in (1024, 1625, 32500, 70001) if tier == "quick" else (1024, 1625, 3250, 4096, 32500, 40001, 65536, 130000):
        for sig in (0, 1, 2, 3) if n < 5000 or tier != "quick" else (n % 3 % 2, 3):
            for coupling in ("AC", "DC"):
                for method in ("withdelay", "baseline", "iterative", "stationary", "functions"):
                    yield dict(n=n, sig=sig, coupling=coupling, method=method, fs=625e3, tk=0, pk=0, real=True)


def run(case, rec):
    n, fs = case["n"], case["fs"]
    sig = _signals(n, case["sig"])
    tm = R.template(n, case["tk"])
    psd = R.psd(n, case["pk"], 1e-2)
    real = case.get("real", False)
    if real:
        sig, tm, psd, fs = R.real(n, case["sig"])
    cp = case["coupling"]
    ref = R.OFRef(sig, tm, psd, fs, cp)
    of = qp.OptimumFilter(sig, tm, psd, fs, coupling=cp)
    meth = case["method"]
    lo, hi = -(n // 2), n // 2 - (n + 1) % 2
    ncs = [None] + list(range(1, n + 3))
    wcs, drs = list(range(lo, hi + 1)), (0, 1, -1)
    if real:
        ncs = [None, 1, 2, 25, 100, n // 2, n - 1, n, 2 * n]
        wcs = sorted({lo, lo + 1, -n // 5, -1, 0, 1, 37, n // 4, hi})
        if n > 5000:
            ncs, wcs, drs = [None, 100, n - 1], [-n // 5, 0, hi], (0, -1)
    scale = ref.chi0 + 1e-300
    base = f"n={n} fs={fs} sig={case['sig']}{' detector-sized' if real else ''} coupling={cp}"

    if meth == "errors":
        for name, call in (("withdelay", of.ofamp_withdelay), ("baseline", of.ofamp_baseline),
                           ("iterative", lambda **k: of.ofamp_pileup_iterative(1.0, 0.0, **k)),
                           ("stationary", of.ofamp_pileup_stationary)):
            bad = [dict(nconstrain=0), dict(nconstrain=-1), dict(nconstrain=2, windowcenter=hi + 1),
                   dict(nconstrain=2, windowcenter=lo - 1), dict(windowcenter=n), dict(windowcenter=-n)]
            if name != "stationary":
                bad += [dict(pulse_direction_constraint=2), dict(pulse_direction_constraint=-2),
                        dict(nconstrain=2, pulse_direction_constraint=0.5)]
            for k in bad:
                rec.step()
                r = attempt(call, **k)
                rec.state(name, k)
                if not (isinstance(r, Raised) and isinstance(r.exc, ValueError)):
                    rec.fail("bad-option-accepted", f"{base} {name}{k}: expected ValueError, got {r!r}")
        rec.trace()
        return

    if meth == "functions":
        A, X = ref.delays()
        A1, A2, XS = ref.stationary()
        for nc in ncs:
            for out in (False, True):
                idx = R.window(n, nc, out, 0)
                if not idx:
                    continue
                ctx = f"{base} nconstrain={nc} outside={out}"
                g = must(rec, "ofamp", "ofamp " + ctx, qp.ofamp, sig, tm, psd, fs, coupling=cp, nconstrain=nc,
                         lgcoutsidewindow=out)
                if g is not None:
                    R.check_pick(rec, "ofamp", "ofamp " + ctx, g, A, X, n, fs, nc, out, 0, 0, ref.chi0, scale)
                    rec.state(base, "ofamp", nc, out, g)
                g = must(rec, "fn-stationary", "ofamp_pileup_stationary " + ctx, qp.ofamp_pileup_stationary, sig, tm,
                         psd, fs, coupling=cp, nconstrain=nc, lgcoutsidewindow=out)
                if g is not None:
                    _stat(rec, "fn-stationary", "ofamp_pileup_stationary " + ctx, g, A1, A2, XS, n, fs, nc, out, 0, scale)
                for nc1 in (None, 1, 2, n // 2, n + 1) if not real else (None, 100):
                    g = must(rec, "fn-pileup", "ofamp_pileup " + ctx, qp.ofamp_pileup, sig, tm, psd, fs, coupling=cp,
                             nconstrain1=nc1, nconstrain2=nc, lgcoutsidewindow=out)
                    if g is not None:
                        a1, t1, a2, t2, c2 = g
                        c = f"ofamp_pileup nconstrain1={nc1} {ctx}"
                        i = int(round(t1 * fs)) + n // 2
                        if not 0 <= i < n:
                            rec.fail("fn-pileup", f"{c}: t1={t1} outside trace")
                            continue
                        R.check_pick(rec, "fn-pileup", c + " first pulse", (a1, t1, X[i]), A, X, n, fs, nc1, False, 0, 0,
                                     ref.chi0, scale)
                        A2p, X2p, c0 = ref.pileup(a1, t1)
                        R.check_pick(rec, "fn-pileup", c, (a2, t2, c2), A2p, X2p, n, fs, nc, out, 0, 0, c0, scale)
        rec.trace()
        return

    if meth == "withdelay":
        A, X = ref.delays()
        alts, call, c0 = [(A, X, ref.chi0)], of.ofamp_withdelay, None
    elif meth == "baseline":
        bl, s2 = ref.baseline()
        scale = s2
        alts, call = [(A, X, c0) for _, A, X, c0 in bl], of.ofamp_baseline
    elif meth == "iterative":
        a1, t1 = 1.3 * np.max(np.abs(sig)), (1 - n // 2 + case["sig"]) / fs
        A, X, c0 = ref.pileup(a1, t1)
        scale = ref.chi0 + a1 ** 2 * ref.norm
        alts = [(A, X, c0)]

        def call(**k):
            return of.ofamp_pileup_iterative(a1, t1, **k)
    else:
        A1, A2, XS = ref.stationary()
        for nc in ncs:
            for out in (False, True):
                for wc in wcs:
                    if not R.window(n, nc, out, wc):
                        continue
                    ctx = f"{base} stationary nconstrain={nc} outside={out} windowcenter={wc}"
                    g = must(rec, "stationary", ctx, of.ofamp_pileup_stationary, nconstrain=nc, lgcoutsidewindow=out,
                             windowcenter=wc)
                    if g is not None:
                        rec.state(base, "st", nc, out, wc, g)
                        _stat(rec, "stationary", ctx, g, A1, A2, XS, n, fs, nc, out, wc, scale)
        rec.trace()
        return

    for nc in ncs:
        for out in (False, True):
            for wc in wcs:
                for dr in drs:
                    ctx = f"{base} {meth} nconstrain={nc} outside={out} windowcenter={wc} direction={dr}"
                    g = must(rec, meth, ctx, call, nconstrain=nc, lgcoutsidewindow=out, windowcenter=wc,
                             pulse_direction_constraint=dr)
                    if g is None:
                        continue
                    rec.state(base, meth, nc, out, wc, dr, g)
                    best = None
                    for A, X, c0 in alts:
                        probe = type(rec)()
                        R.check_pick(probe, meth, ctx, g, A, X, n, fs, nc, out, wc, dr, c0, scale)
                        if best is None or len(probe.problems) < len(best.problems):
                            best = probe
                    rec.problems += best.problems
                    rec.outcomes |= best.outcomes
    # the defaults: windows inside for withdelay/baseline, outside for the pileup forms
    dflt = meth == "iterative"
    for nc in (1, 3):
        k = dict(nconstrain=nc)
        g, h = attempt(call, **k), attempt(call, lgcoutsidewindow=dflt, windowcenter=0, pulse_direction_constraint=0, **k)
        if isinstance(g, Raised) or isinstance(h, Raised) or not np.allclose(g, h, rtol=1e-9, atol=1e-12 * scale):
            rec.fail(meth + "-default", f"{base} {meth}: default window side is not {dflt}: {g!r} vs {h!r}")
    rec.trace()


def _stat(rec, key, ctx, g, A1, A2, XS, n, fs, nc, out, wc, scale):
    try:
        a1, a2, t2, c2 = (float(np.real(x)) for x in g)
        i = int(round(t2 * fs)) + n // 2
        ok = np.all(np.isfinite([a1, a2, t2, c2])) and 0 <= i < n
    except Exception as e:
        rec.fail(key, f"{ctx}: {g!r}: {e}")
        return
    idx = R.window(n, nc, out, wc)
    if not ok or i not in idx or abs(t2 * fs - round(t2 * fs)) > 1e-6:
        rec.fail(key, f"{ctx}: t2={t2} is not an allowed delay bin {idx}")
        return
    s = np.max(np.abs(np.concatenate([A1, A2]))) + 1e-300
    rec.outcome(i, a1 > 0, a2 > 0)
    if i == n // 2:
        if abs(a1 + a2 - A1[i] - A2[i]) > 1e-6 * s:
            rec.fail(key, f"{ctx}: coincident pulses a1+a2={a1 + a2}, least squares {A1[i] + A2[i]}")
    elif abs(a1 - A1[i]) > 1e-5 * s or abs(a2 - A2[i]) > 1e-5 * s:
        rec.fail(key, f"{ctx}: amplitudes {(a1, a2)}, least squares {(A1[i], A2[i])}")
    if abs(c2 - XS[i]) > 1e-6 * scale:
        rec.fail(key, f"{ctx}: chi2 {c2}, residual of the reported fit {XS[i]}")
    best = min(XS[j] for j in idx)
    if XS[i] > best + 1e-6 * scale:
        rec.fail(key, f"{ctx}: picked bin {i} chi2 {XS[i]}, allowed bin {min(idx, key=lambda q: XS[q])} has {best}")
