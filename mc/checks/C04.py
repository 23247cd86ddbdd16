"""C04: sub-bin interpolation refines the grid optimum, never leaves it."""
import numpy as np
import qetpy as qp
from mc import ref_of as R
from mc.core import must

ID = "C04"
LEVEL = "model_checking"
BOUNDS = ("trace lengths 5..9 (thorough 5..14), pulses at EVERY bin (including first and last) x sub-bin phases, "
          "x {AC,DC} x every nconstrain/window side/centre/direction, for withdelay, baseline and iterative pile-up; "
          "the same on detector-sized traces (1024, 1625, 32500, 70001 samples, thorough up to 130000) with selected windows")
RULE = ("complete enumeration; interpolated answer compared with the vertex of the parabola through the brute-force chi2 of "
        "the grid optimum and its two circular neighbours, or the grid answer when the optimum is not bracketed")
ASSUMPTIONS = ["cases where the grid optimum or its bracketing is a tie within 1e-7 are only checked for being within half a bin"]


def cases(tier):
    ns = [5, 6, 7, 8, 9] if tier == "quick" else range(5, 15)
    for n in ns:
        for cp in ("AC", "DC"):
            for b in range(n):
                for ph in (0.0, 0.4) if tier == "quick" else (0.0, 0.25, 0.4, -0.3):
                    for m in ("withdelay", "baseline", "iterative"):
                        yield dict(n=n, cp=cp, b=b, ph=ph, m=m, fs=[1.0, 625e3, 7.3][(n + b) % 3], tk=(n + b) % 2, sgn=1 if b % 2 else -1)
    for n in (1024, 1625, 32500, 70001) if tier == "quick" else (1024, 1625, 3250, 4096, 32500, 40001, 65536, 130000):
        for cp in ("AC", "DC"):
            for k in range(4) if n < 5000 else (0, 3):
                for m in ("withdelay", "baseline", "iterative"):
                    yield dict(n=n, cp=cp, b=k, ph=0, m=m, fs=625e3, tk=0, sgn=1, real=True)


def run(case, rec):
    n, fs, cp, m = case["n"], case["fs"], case["cp"], case["m"]
    tm = R.template(n, case["tk"])
    f = np.fft.fftfreq(n)
    sig = np.real(np.fft.ifft(np.fft.fft(tm) * np.exp(-2j * np.pi * f * (case["b"] + case["ph"]))))
    sig = case["sgn"] * 2 * sig + 0.01 * R.lcg(n, n + case["b"])
    psd = R.psd(n, (n + case["b"]) % 3, 1e-2)
    real = case.get("real", False)
    if real:
        sig, tm, psd, fs = R.real(n, case["b"])
    ref = R.OFRef(sig, tm, psd, fs, cp)
    of = qp.OptimumFilter(sig, tm, psd, fs, coupling=cp)
    base = f"n={n} fs={fs} coupling={cp} pulse at bin {case['b']}+{case['ph']} {m}"
    if real:
        base = f"detector-sized n={n} coupling={cp} trace {case['b']} {m}"
    if m == "withdelay":
        A, X = ref.delays()
        call, c0, scale = of.ofamp_withdelay, ref.chi0, ref.chi0
    elif m == "baseline":
        bl, scale = ref.baseline()
        if len(bl) > 1:
            return
        _, A, X, c0 = bl[0]
        call = of.ofamp_baseline
    else:
        a1, t1 = (1.1e-7, 21.7 / fs) if real else (0.7, (2 - n // 2) / fs)
        A, X, c0 = ref.pileup(a1, t1)
        scale = ref.chi0 + a1 ** 2 * ref.norm

        def call(**k):
            return of.ofamp_pileup_iterative(a1, t1, **k)
    lo, hi = -(n // 2), n // 2 - (n + 1) % 2
    ncs, wcs = [None] + list(range(1, n + 1)), range(lo, hi + 1)
    if real:
        ncs, wcs = [None, 1, 2, 3, 25, 100, n // 2, n - 1, n], sorted({lo, -n // 5, -1, 0, 1, 36, 37, 38, n // 4, hi})
    for nc in ncs:
        for out in (False, True):
            for wc in wcs:
                for dr in (0, 1, -1):
                    ctx = f"{base} nconstrain={nc} outside={out} windowcenter={wc} direction={dr}"
                    sure, may = R.allowed(n, A, nc, out, wc, dr, 1e-9 * np.max(np.abs(A)))
                    if sure != may:
                        continue
                    g = must(rec, m, ctx, call, nconstrain=nc, lgcoutsidewindow=out, windowcenter=wc,
                             pulse_direction_constraint=dr, interpolate_t0=True)
                    if g is None:
                        continue
                    rec.state(ctx, g)
                    amp, t0, chi2 = (float(np.real(x)) for x in g)
                    if not sure:
                        if amp != 0 or t0 != 0 or abs(chi2 - c0) > 1e-6 * scale:
                            rec.fail(m + "-none", f"{ctx}: no delay allowed but got {g}")
                        continue
                    order = sorted(sure, key=lambda j: X[j])
                    i = order[0]
                    tied = len(order) > 1 and X[order[1]] - X[i] < 1e-7 * scale
                    l, r = X[(i - 1) % n], X[(i + 1) % n]
                    if tied or min(abs(l - X[i]), abs(r - X[i])) < 1e-7 * scale:
                        near = [j for j in sure if X[j] - X[i] < 1e-6 * scale]
                        if min(abs(t0 * fs - (j - n // 2)) for j in near) > 0.5 + 1e-6:
                            rec.fail(m, f"{ctx}: interpolated t0 {t0 * fs} bins is not within half a bin of a best delay")
                        rec.note("ties")
                        continue
                    if X[i] < l and X[i] < r:
                        a, b = (r - 2 * X[i] + l) / 2, (r - l) / 2
                        x = -b / (2 * a)
                        wt, wx = (i - n // 2 + x) / fs, X[i] - b * b / (4 * a)
                        Al, Ai, Ar = A[(i - 1) % n], A[i], A[(i + 1) % n]
                        wa = (Ar - 2 * Ai + Al) / 2 * x * x + (Ar - Al) / 2 * x + Ai
                        cond = scale / a
                        rec.outcome("bracketed", i, round(x, 1))
                    else:
                        wt, wx, wa, cond = (i - n // 2) / fs, X[i], A[i], 0
                        rec.outcome("edge", i)
                    tol = 1e-9 * max(1.0, cond)
                    rec.close(m + "-t0", t0 * fs, wt * fs, atol=1e-6 + tol, rtol=0, ctx=ctx + " interpolated time (bins)")
                    rec.close(m + "-chi2", chi2, wx, atol=1e-6 * scale, rtol=0, ctx=ctx + " interpolated chi2")
                    rec.close(m + "-amp", amp, wa, atol=(1e-6 + tol) * np.max(np.abs(A)), rtol=0, ctx=ctx + " interpolated amplitude")
                    if chi2 > X[i] + 1e-6 * scale:
                        rec.fail(m + "-worse", f"{ctx}: interpolated chi2 {chi2} worse than the grid optimum {X[i]}")
    rec.trace()
