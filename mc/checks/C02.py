"""C02: amplitudes, chi2, resolutions are the weighted-least-squares quantities they claim to be."""
import itertools
import numpy as np
import qetpy as qp
from mc import ref_of as R
from mc.core import must, attempt, Raised

ID = "C02"
LEVEL = "model_checking"
BOUNDS = ("ALL signals in {-1,0,2}^n for n=4,5 (thorough n<=6 and {-1,0,1,2}^4) plus fixed generic signals n<=9, x "
          "{AC,DC} x integralnorm x PSD shapes x templates x fs; every window centre for the no-delay fit; every "
          "(amp,t0 quarter-bin,cutoff bin edge) for the low-frequency chi2; batches of 1..3 and 259 traces; every query on detector-sized "
          "traces (1024, 1625, 32500 and 70001 samples, thorough up to 130000; 625 kHz, 1e-7 A pulses, 1/f noise with a line)")
RULE = ("exhaustive enumeration of small signals and options; class and function answers compared with residuals "
        "summed directly over the DFT bins; state = (configuration, signal, query, answer)")
ASSUMPTIONS = ["PSD symmetric and positive, template not degenerate, as the API documents",
               "comparison tolerance 1e-7 of the no-pulse chi2 / amplitude scale"]


def cases(tier):
    quick = tier == "quick"
    for n in ((4, 5) if quick else (4, 5, 6)):
        for cp in ("AC", "DC"):
            for integ in (False, True):
                for pk in ((n + integ) % 3,) if quick else (0, 1, 2):
                    for tk in (0, 1, 2, 3):
                        for first in (-1, 0, 2):
                            yield dict(kind="all", n=n, cp=cp, integ=integ, pk=pk, tk=tk, first=first,
                                       fs=[1.0, 625e3, 3.0][(n + tk) % 3])
    for n in ((4, 5, 6, 7, 8, 9) if quick else range(4, 18)):
        for cp in ("AC", "DC"):
            for tk in (0, 1, 2, 3):
                for fs in (1.0, 625e3, 7.3):
                    yield dict(kind="queries", n=n, cp=cp, tk=tk, fs=fs, pk=(n + tk) % 3)
                    yield dict(kind="batch", n=n, cp=cp, tk=tk, fs=fs, pk=(n + tk) % 3)


    for n in (1024, 1625, 32500, 70001) if quick else (1024, 1625, 3250, 4096, 32500, 40001, 65536, 130000):
        for cp in ("AC", "DC"):
            for k in range(4) if n < 5000 else (0,):
                yield dict(kind="queries", n=n, cp=cp, tk=0, fs=625e3, pk=0, real=k)
            yield dict(kind="batch", n=n, cp=cp, tk=0, fs=625e3, pk=0, real=0)


def run(case, rec):
    n, fs, cp, tk, pk = case["n"], case["fs"], case["cp"], case["tk"], case["pk"]
    tm = R.template(n, tk)
    unit = 1e-6 if fs > 10 else 1.0
    psd = R.psd(n, pk, 0.7 * unit ** 2 / fs)
    base = f"n={n} fs={fs} coupling={cp} template={tk} psd={pk}"
    real = case.get("real")
    if real is not None:
        rsig, tm, psd, fs = R.real(n, real)
        unit = 1e-7
        base = f"detector-sized n={n} coupling={cp} trace {real}"
    if case["kind"] == "all":
        integ = case["integ"]
        rest = list(itertools.product((-1, 0, 2), repeat=n - 1))
        of0 = None
        for tail in rest:
            sig = unit * np.array((case["first"],) + tail, float)
            ref = R.OFRef(sig, tm, psd, fs, cp, integ)
            ctx = f"{base} integralnorm={integ} signal={(case['first'],) + tail}"
            sc = ref.chi0 + 1e-3 * ref.ip(ref.v, ref.v, ref.wfull) + 1e-30
            asc = np.sqrt(sc / ref.norm)
            of = must(rec, "init", ctx, qp.OptimumFilter, sig, tm, psd, fs, coupling=cp, integralnorm=integ)
            if of is None:
                return
            A, X = ref.delays()
            # no delay
            g = must(rec, "nodelay", ctx, of.ofamp_nodelay)
            h = must(rec, "nodelay-fn", ctx, qp.ofamp, sig, tm, psd, fs, withdelay=False, coupling=cp,
                     integralnorm=integ, lgcsigma=True)
            z = n // 2
            if g is not None:
                rec.close("nodelay", g[0], A[z], atol=1e-7 * asc, rtol=0, ctx=ctx + " nodelay amp")
                rec.close("nodelay", g[1], X[z], atol=1e-7 * sc, rtol=0, ctx=ctx + " nodelay chi2")
            if h is not None:
                rec.close("nodelay-fn", h[0], A[z], atol=1e-7 * asc, rtol=0, ctx=ctx + " ofamp(withdelay=False) amp")
                rec.close("nodelay-fn", h[1], 0.0, atol=0, rtol=0, ctx=ctx + " ofamp(withdelay=False) t0")
                rec.close("nodelay-fn", h[2], X[z], atol=1e-7 * sc, rtol=0, ctx=ctx + " ofamp(withdelay=False) chi2")
                rec.close("sigma-fn", h[3], 1 / np.sqrt(ref.norm), rtol=1e-7, ctx=ctx + " sigma")
            # with delay: both forms
            g = must(rec, "withdelay", ctx, of.ofamp_withdelay)
            h = must(rec, "withdelay-fn", ctx, qp.ofamp, sig, tm, psd, fs, coupling=cp, integralnorm=integ)
            for nm, r in (("withdelay", g), ("withdelay-fn", h)):
                if r is not None:
                    R.check_pick(rec, nm, f"{ctx} {nm}", r, A, X, n, fs, None, False, 0, 0, ref.chi0, sc, asc)
            if not integ:
                b = must(rec, "baseline", ctx, of.ofamp_baseline)
                if b is not None:
                    bl, s2 = ref.baseline()
                    best = None
                    for _, A2, X2, c0 in bl:
                        p = type(rec)()
                        R.check_pick(p, "baseline", f"{ctx} baseline", b, A2, X2, n, fs, None, False, 0, 0, c0, s2 + 1e-30, asc)
                        best = p if best is None or len(p.problems) < len(best.problems) else best
                    rec.problems += best.problems
            for nm, r in (("nopulse", must(rec, "nopulse", ctx, of.chi2_nopulse)),
                          ("nopulse-fn", must(rec, "nopulse-fn", ctx, qp.chi2_nopulse, sig, psd, fs, coupling=cp))):
                if r is not None:
                    rec.close(nm, r, ref.chi0, atol=1e-7 * sc, rtol=0, ctx=f"{ctx} {nm}")
            r = must(rec, "sigma", ctx, of.energy_resolution)
            if r is not None:
                rec.close("sigma", r, 1 / np.sqrt(ref.norm), rtol=1e-7, ctx=ctx + " energy_resolution")
            rec.state(ctx, g, h)
        rec.trace()
        return

    if case["kind"] == "queries":
        sig = unit * (np.roll(tm, 1) * 3 + 0.05 * R.lcg(n, n) + 0.4)
        if real is not None:
            sig = rsig
        ref = R.OFRef(sig, tm, psd, fs, cp)
        of = qp.OptimumFilter(sig, tm, psd, fs, coupling=cp)
        A, X = ref.delays()
        asc, sc = np.max(np.abs(A)), ref.chi0
        lo, hi = -(n // 2), n // 2 - (n + 1) % 2
        for wc in range(lo, hi + 1) if n < 5000 else sorted({lo, lo + 1, -37, -1, 0, 1, n // 5, hi}):
            g = must(rec, "nodelay-at", base, of.ofamp_nodelay, windowcenter=wc)
            if g is not None:
                i = wc + n // 2
                rec.close("nodelay-at", g[0], A[i], atol=1e-7 * asc, rtol=0, ctx=f"{base} nodelay windowcenter={wc} amp")
                rec.close("nodelay-at", g[1], X[i], atol=1e-7 * sc, rtol=0, ctx=f"{base} nodelay windowcenter={wc} chi2")
                rec.state(base, wc, g)
        df = fs / n
        qs = range(-4 * n, 4 * n + 1, 3)
        cuts = [k * df * (1 + e) for k in range(0, n // 2 + 2) for e in (0, 0.3)] + [0.0, 1e12]
        if real is not None:
            qs = [-4 * n, -n, -149, -1, 0, 1, 2, 148, 3 * n // 2]
            cuts = [0.0, 1e3, 1.5e4, 1e5, 3.3e5, 1e12]
            if n > 5000:
                qs, cuts = [-n, 1, 149], [1.5e4, 1e12]
        for amp in (0.0, A[n // 2], -2.0 * unit):
            for q in qs:
                t0 = q / 4 / fs
                for cut in cuts:
                    w = ref.lowfreq(amp, t0, cut)
                    ctx = f"{base} chi2 lowfreq amp={amp} t0={q / 4} bins cut={cut / df} df"
                    r1 = must(rec, "lowfreq", ctx, of.chi2_lowfreq, amp=amp, t0=t0, fcutoff=cut)
                    if r1 is not None and _edge_ok(cut, fs, n):
                        rec.close("lowfreq", r1, w, atol=1e-7 * sc, rtol=1e-7, ctx=ctx)
                    r2 = must(rec, "lowfreq-fn", ctx, qp.chi2lowfreq, sig, tm, amp, t0, psd, fs, fcutoff=cut, coupling=cp)
                    if r2 is not None and _edge_ok(cut, fs, n):
                        rec.close("lowfreq-fn", r2, w, atol=1e-7 * sc, rtol=1e-7, ctx=ctx)
        # full cutoff = the chi2 reported by the fit
        for amp, t0, c in (of.ofamp_withdelay(), of.ofamp_nodelay()[:1] + (0.0,) + of.ofamp_nodelay()[1:]):
            rec.close("lowfreq-total", of.chi2_lowfreq(amp, t0, 1e12), c, atol=1e-7 * sc, rtol=0,
                      ctx=base + " residual of the reported fit at full bandwidth")
        for amp in (A[n // 2], 2.0 * unit, -0.3 * unit, 100 * unit):
            r = must(rec, "time-res", base, of.time_resolution, amp)
            if r is not None:
                rec.close("time-res", r, ref.time_res(amp), rtol=1e-7, ctx=f"{base} time_resolution({amp})")
        # scaling laws
        for c in (2.0, -3.0, 1e-3):
            of2 = qp.OptimumFilter(c * sig, tm, psd, fs, coupling=cp)
            g, g2 = of.ofamp_nodelay(), of2.ofamp_nodelay()
            rec.close("scaling", g2[0], c * g[0], atol=1e-7 * asc * abs(c), rtol=0, ctx=f"{base} signal x{c}: amplitude")
            rec.close("scaling", g2[1], c * c * g[1], atol=1e-7 * sc * c * c, rtol=0, ctx=f"{base} signal x{c}: chi2")
        for c in (4.0, 1e-2):
            of2 = qp.OptimumFilter(sig, tm, c * psd, fs, coupling=cp)
            g, g2 = of.ofamp_baseline(), of2.ofamp_baseline()
            rec.close("scaling", g2[0], g[0], atol=1e-6 * asc, rtol=0, ctx=f"{base} psd x{c}: baseline amplitude")
            rec.close("scaling", g2[2] * c, g[2], atol=1e-6 * (sc + g[2]), rtol=0, ctx=f"{base} psd x{c}: baseline chi2")
            rec.close("scaling", of2.energy_resolution(), np.sqrt(c) * of.energy_resolution(), rtol=1e-7, ctx=f"{base} psd x{c}: sigma")
        # AC coupling: the zeroth bin of the PSD does not matter; with an infinite zeroth bin DC coupling is AC coupling
        if n < 20:
            def answers(p, c):
                o = qp.OptimumFilter(sig, tm, p, fs, coupling=c)
                a, t = 1.5 * unit, 1.25 / fs
                r = [o.ofamp_nodelay(), o.ofamp_withdelay(), o.ofamp_withdelay(nconstrain=3), o.ofamp_pileup_iterative(a, t), o.ofamp_pileup_stationary(),
                     (o.chi2_nopulse(), o.chi2_lowfreq(a, t, fs / 3), o.energy_resolution(), o.time_resolution(a)),
                     qp.ofamp(sig, tm, p, fs, coupling=c, lgcsigma=True), qp.ofamp_pileup(sig, tm, p, fs, coupling=c), qp.ofamp_pileup(sig, tm, p, fs, a1=a, t1=t, coupling=c),
                     qp.ofamp_pileup_stationary(sig, tm, p, fs, coupling=c),
                     (qp.chi2_nopulse(sig, p, fs, coupling=c), qp.chi2lowfreq(sig, tm, a, t, p, fs, fcutoff=fs / 3, coupling=c))]
                return np.array([x for q in r for x in np.ravel(q)])
            want = must(rec, "zero-bin", base, answers, psd, "AC")
            for z, c in ((np.inf, "AC"), (0.0, "AC"), (1e3 * psd[1], "AC"), (1e-3 * psd[1], "AC"), (np.inf, "DC")):
                p = psd.copy()
                p[0] = z
                with np.errstate(all="ignore"):
                    got = must(rec, "zero-bin", f"{base} psd[0]={z} coupling={c}", answers, p, c)
                if want is not None and got is not None:
                    for j in np.flatnonzero(~(np.abs(got - want) <= 1e-7 * (np.abs(want) + 1e-3 * unit))) if len(got) == len(want) else [0]:
                        rec.fail("zero-bin", f"{base} psd[0]={z} coupling={c}: answer {j} is {got[j]}, {want[j]} with the plain zeroth bin and AC coupling")
            # any other coupling keeps the zeroth bin, as documented
            want = answers(psd, "DC")
            for c in ("dc", "ac", "", "none"):
                got = must(rec, "coupling", f"{base} coupling={c!r}", answers, psd, c)
                if got is not None:
                    rec.true("coupling", len(got) == len(want) and np.allclose(got, want, rtol=1e-9, atol=1e-12 * unit), f"{base}: coupling={c!r} does not keep the zeroth bin like 'DC'")
        for dc in (0.7 * unit, -40 * unit):      # a constant offset never moves the baseline fit
            g, g2 = of.ofamp_baseline(), qp.OptimumFilter(sig + dc, tm, psd, fs, coupling=cp).ofamp_baseline()
            rec.close("offset", g2[:2], g[:2], scale=1, atol=0, rtol=1e-5 * max(abs(g[0]), abs(g[1]), 1 / fs), ctx=f"{base} offset {dc}: baseline fit moved")
        rec.trace()
        return

    # batch: many traces at once == one at a time
    sigs = [R.real(n, k)[0] for k in (0, 1, 3)] if real is not None else [unit * (np.roll(tm, k) * (k + 1) + 0.05 * R.lcg(n, n + k)) for k in range(259)]
    for m in (1, 2, 3) + ((259,) if real is None and n in (8, 9) and fs == 1.0 else ()):
        arr = np.array(sigs[:m])
        for kw in (dict(), dict(withdelay=False), dict(nconstrain=3), dict(nconstrain=2, lgcoutsidewindow=True),
                   dict(integralnorm=True), dict(lgcsigma=True), dict(nconstrain=90)):
            ctx = f"{base} batch of {m} ofamp{kw}"
            g = must(rec, "batch", ctx, qp.ofamp, arr, tm, psd, fs, coupling=cp, **kw)
            if g is None:
                continue
            for i in range(m):
                one = must(rec, "batch", ctx, qp.ofamp, sigs[i], tm, psd, fs, coupling=cp, **kw)
                if one is None:
                    continue
                for j, (x, y) in enumerate(zip(g, one)):
                    if j == 3:
                        rec.close("batch", x, y, rtol=1e-9, ctx=ctx + " sigma")
                    else:
                        xx = np.atleast_1d(x)
                        if xx.shape != (m,):
                            rec.fail("batch", f"{ctx}: output {j} has shape {xx.shape}")
                        else:
                            rec.close("batch", xx[i], y, atol=1e-9 * (abs(y) + (unit if j == 0 else 1 / fs if j == 1 else 1)), rtol=0, ctx=f"{ctx} output {j} trace {i}")
            rec.state(ctx, g)
        # one unusable, silent or huge trace among the others leaves the others' answers alone
        for bad in (np.nan, np.inf, 0.0, 1e6) if m == 3 and real is None else ():
            for pos in range(m):
                odd = arr.copy()
                odd[pos] = odd[pos] * bad
                for kw in (dict(), dict(withdelay=False), dict(nconstrain=3), dict(integralnorm=True)):
                    ctx = f"{base} ofamp{kw} of three traces, trace {pos} x {bad}"
                    with np.errstate(all="ignore"):
                        g = attempt(qp.ofamp, odd, tm, psd, fs, coupling=cp, **kw)
                        c = attempt(qp.chi2_nopulse, odd, psd, fs, coupling=cp)
                    w = qp.ofamp(arr, tm, psd, fs, coupling=cp, **kw)
                    wc = qp.chi2_nopulse(arr, psd, fs, coupling=cp)
                    for i in range(m):
                        if i == pos:
                            continue
                        if not isinstance(g, Raised):
                            for j in range(3):
                                y = w[j][i] if np.ndim(w[j]) else w[j]
                                x = g[j][i] if np.ndim(g[j]) else g[j]
                                rec.close("batch-odd", x, y, atol=1e-9 * (abs(y) + (unit if j == 0 else 1 / fs if j == 1 else 1)), rtol=0, ctx=f"{ctx}: output {j} of trace {i}")
                        if not isinstance(c, Raised):
                            rec.close("batch-odd", c[i], wc[i], rtol=1e-9, ctx=f"{ctx}: chi2_nopulse of trace {i}")
        c = must(rec, "batch-nopulse", base, qp.chi2_nopulse, arr, psd, fs, coupling=cp)
        if c is not None:
            w = [R.OFRef(s, tm, psd, fs, cp).chi0 for s in sigs[:m]]
            rec.close("batch-nopulse", np.atleast_1d(c), w, rtol=1e-7, ctx=base + " chi2_nopulse of a batch")
        amps, ts = np.resize([1.0, -2.0, 0.5], m) * unit, np.resize([0.0, 1.25, -2.0], m) / fs
        for cut in (0.0, fs / n * 1.3, fs):
            c = must(rec, "batch-lowfreq", base, qp.chi2lowfreq, arr, tm, amps, ts, psd, fs, fcutoff=cut, coupling=cp)
            if c is not None:
                w = [R.OFRef(s, tm, psd, fs, cp).lowfreq(a, t, cut) for s, a, t in zip(sigs, amps, ts)]
                rec.close("batch-lowfreq", np.atleast_1d(c), w, rtol=1e-7, atol=1e-30, ctx=base + f" chi2lowfreq batch cut={cut}")
    rec.trace()


def _edge_ok(cut, fs, n):
    """a cutoff equal to a bin frequency up to rounding is only asked when every way of writing that frequency gives this float"""
    k = round(cut / (fs / n))
    if abs(cut / (fs / n) - k) > 1e-6 or k > n // 2:
        return True
    if max((1.0 / fs).as_integer_ratio()[1], (fs / n).as_integer_ratio()[1]) > 1024:
        return False
    return all(x == cut for x in (k * (fs / n), k * fs / n, k * (1.0 / (n * (1.0 / fs))), k / (n * (1.0 / fs)), k / n * fs))
