"""C16: from traces to admittance (deconvolution of the square wave)."""
import warnings
import numpy as np
import qetpy as qp
from mc import ref_didv as D
from mc.core import must, attempt, Raised
from mc.ref_of import lcg

ID = "C16"
LEVEL = "model_checking"
CASE_CPU_S = 120
BOUNDS = ("every (sample rate, signal frequency) of a table of 13 x 21 commensurable pairs x 1..6 (1..34 up to 500 bins per period; thorough 1..40) complete "
          "periods x 4 partial tails for the period bookkeeping; 5 circuits x 6 duty cycles x odd/even bins x 1-3 periods x 5 time "
          "guesses x both phases x 3 gains for the deconvolved admittance; 64..1031 (thorough 4099) traces of different size")
RULE = ("complete enumeration on the real DIDV class; traces come from an independent Fourier synthesis of the documented admittance, "
        "with known mean and spread; oracle: that admittance and an independent deconvolution; state = (configuration, processed data)")
ASSUMPTIONS = ["processed data are read from the attributes that didvinitfromdata documents as its inputs (_tmean, _didvmean, _didvstd, _offset, _offset_err) and the frequency axis _freq",
               "the single bin n//2 (Nyquist for even lengths) is not asserted"]

CIRC = [
    dict(rsh=5e-3, rp=6e-3, L=1e-7),
    dict(rsh=5e-3, rp=6e-3, L=4e-6),
    dict(rsh=5e-3, rp=6e-3, r0=0.0756, beta=2, l=10, L=1e-7, tau0=5e-4),
    dict(rsh=5e-3, rp=6e-3, r0=0.0756, beta=0.2, l=0.4, L=1e-6, tau0=2e-4),
    dict(rsh=5e-3, rp=6e-3, r0=0.0756, beta=2, l=10, L=1e-7, tau0=5e-4, gratio=0.5, tau3=1e-3),
]
AMP = 4.7e-7
FS = (625e3, 1e6, 1.25e6, 5e5, 1e5, 2e5, 3.125e6, 5e4, 8e5, 1e4, 312.5e3, 2.5e6, 40e3)
SG = (3.2, 10, 12.5, 20, 25, 40, 50, 62.5, 75, 80, 90, 100, 125, 160, 200, 250, 300, 400, 500, 625, 1000)


def cases(tier):
    deep = tier != "quick"
    for fs in FS:
        for sg in SG:
            M = round(fs / sg)
            if abs(M * sg - fs) > 1e-6 * fs or M < 40 or M > (5000 if not deep else 40000):
                continue
            yield dict(kind="periods", fs=fs, sg=sg, M=M, kmax=40 if deep else 34 if M <= 500 else 6)
    for i in range(len(CIRC)):
        for d in (0.5, 0.25, 0.3, 0.75, 0.1, 0.9, 0.501, 0.49995):
            for bins in (100, 101) + ((1000, 2501) if deep else (1000,)):
                for per in (1, 2, 3):
                    for phase in (False, True):
                        yield dict(kind="dec", i=i, d=d, bins=bins, per=per, phase=phase)
    for i in range(len(CIRC)):
        for bins, per in ((31250, 3), (62500, 1), (30011, 3)) + (((125000, 2),) if deep else ()):
            yield dict(kind="dec", i=i, d=(0.5, 0.3)[i % 2], bins=bins, per=per, phase=False)
    for nt in (64, 257, 1031) if not deep else (64, 257, 1031, 4099):
        for per in (1, 2, 3):
            for d in (0.5, 0.3):
                yield dict(kind="many", nt=nt, per=per, d=d)
    for kind in ("zero", "shape", "resample", "long", "drop"):
        yield dict(kind=kind)


def run(case, rec):
    globals()["run_" + case["kind"]](case, rec)


def attrs(rec, o, names):
    out = []
    for n in names:
        if not hasattr(o, n):
            rec.note("attribute_missing_" + n)
            return None
        out.append(getattr(o, n))
    return out


def run_periods(case, rec):
    fs, sg, M = case["fs"], case["sg"], case["M"]
    for k in range(1, case["kmax"] + 1):
        for tail in (0, 1, M // 2, M - 1):
            n = k * M + tail
            if k > 3 and tail not in (0, M - 1):
                continue
            x = np.tile(np.where(np.arange(M) < M // 2, -1.0, 1.0), k + 1)[:n] * 1e-6
            tr = np.array([x, x * 1.001])
            o = must(rec, "periods", f"DIDV(fs={fs}, sgfreq={sg}), {k} periods + {tail} bins", qp.DIDV, tr, fs, sg, AMP, 5e-3)
            if o is None:
                return
            if must(rec, "periods", f"processtraces fs={fs} sgfreq={sg}, {k} periods + {tail} bins", o.processtraces) is None and rec.problems:
                return
            a = attrs(rec, o, ("_tmean", "_freq"))
            if a is None:
                return
            rec.state(fs, sg, k, tail, len(a[0]))
            if not rec.true("periods", len(a[0]) == k * M and len(a[1]) == k * M, f"fs={fs} sgfreq={sg}: trace of {n} bins = {k} periods of {M} bins + {tail} bins, but {len(a[0])} bins are used"):
                return
    rec.trace()


def run_dec(case, rec):
    p = CIRC[case["i"]]
    d, bins, per = case["d"], case["bins"], case["per"]
    fs = 625e3
    sg = fs / bins
    n = per * bins
    f = np.fft.fftfreq(n, d=1 / fs)
    base = None
    for shift in (0, 5, -3):
        y = D.response(p, n, per, fs, sg, AMP, d, shift)
        for dt0 in (0.0, 1e-5, -2e-5, 0.4 / sg, 1.5 / sg):
            for gain in (1.0, 2.5e5, -3.0):
                if gain != 1.0 and (shift or dt0):
                    continue
                for off in (0.0, 7e-6):
                    if off and (dt0 or shift):
                        continue
                    level = 3e-4 * np.max(np.abs(y))
                    tr = D.traces(y, level, 3, off)
                    raw = tr * gain
                    keep = raw.copy()
                    ctx = f"circuit {case['i']} duty {d} bins {bins} periods {per} shift {shift} dt0 {dt0:g} gain {gain:g} offset {off}"
                    o = qp.DIDV(raw, fs, sg, AMP, p["rsh"], tracegain=gain, dutycycle=d, add180phase=case["phase"], dt0=dt0)
                    must(rec, "process", ctx, o.processtraces)
                    if rec.problems:
                        return
                    rec.true("purity", np.array_equal(raw, keep), f"{ctx}: caller's traces modified")
                    a = attrs(rec, o, ("_tmean", "_didvmean", "_didvstd", "_offset", "_offset_err", "_freq"))
                    if a is None:
                        return
                    tm, dm, ds, of, oe, fr = a
                    if not rec.true("shape", all(np.shape(x) == (n,) for x in (tm, dm, ds, fr)), f"{ctx}: shapes {[np.shape(x) for x in (tm, dm, ds, fr)]}"):
                        return
                    rec.close("tmean", tm, tr.mean(axis=0), 1e-9, ctx=ctx + " mean trace")
                    rec.close("freq", fr, f, 1e-9, ctx=ctx + " frequencies")
                    rec.true("offset", abs(of - tr.mean()) <= 1e-9 * np.max(np.abs(tr)), f"{ctx}: offset {of} instead of {tr.mean()}")
                    rec.true("offset", abs(oe - np.std(tr.mean(axis=1)) / 2) <= 1e-9 * np.max(np.abs(tr)), f"{ctx}: offset error {oe}")
                    on, want, sd = D.deconvolve(tr, per, d, AMP, p["rsh"])
                    truth = 1 / D.z(f[on], p) * np.exp(-2j * np.pi * f[on] * shift / fs)
                    on_i = np.flatnonzero(on)
                    sel = on_i != n // 2
                    on_i, want, sd, truth = on_i[sel], want[sel], sd[sel], truth[sel]
                    sc = np.abs(truth)
                    for name, got, ref, tol in (("truth", dm[on_i], truth, 1e-6 * sc), ("mean", dm[on_i], want, 1e-6 * sc), ("error", ds[on_i], sd, 1e-5 * np.abs(sd) + 1e-9 * sc)):
                        bad = ~(np.abs(got - ref) <= tol)
                        if np.any(bad):
                            b = int(np.flatnonzero(bad)[0])
                            rec.fail("admittance-" + name, f"{ctx}: driven bin {on_i[b]} ({f[on_i[b]]:g} Hz): {got[b]!r} instead of {ref[b]!r}")
                            return
                    off_i = np.flatnonzero(~on)
                    if d == 0.5 and len(off_i):
                        rec.true("undriven", np.all(np.abs(ds[off_i]) > 1e15), f"{ctx}: undriven frequency carries weight")
                    rec.state(case, shift, dt0, gain, off, np.round(dm[on_i] / sc, 6))
    rec.trace()


def run_many(case, rec):
    """A data set of many traces of different size: each counts with the same weight in mean and spread."""
    nt, per, d = case["nt"], case["per"], case["d"]
    fs, bins = 625e3, 100
    p, n, sg = CIRC[2], per * bins, fs / bins
    y = D.response(p, n, per, fs, sg, AMP, d, 0)
    tr = y * (1 + 1e-3 * lcg(nt, 7))[:, None] + 3e-4 * np.max(np.abs(y)) * lcg(nt * n, 8).reshape(nt, n) + 7e-6
    tr[-1] = 1.5 * y
    tr[nt // 2] = 0.4 * y
    for gain in (1.0, -3.0):
        ctx = f"{case}, gain {gain}"
        o = qp.DIDV(tr * gain, fs, sg, AMP, p["rsh"], tracegain=gain, dutycycle=d)
        must(rec, "process", ctx, o.processtraces)
        if rec.problems:
            return
        a = attrs(rec, o, ("_tmean", "_didvmean", "_didvstd", "_offset", "_offset_err"))
        if a is None:
            return
        tm, dm, ds, of, oe = a
        on, want, sd = D.deconvolve(tr, per, d, AMP, p["rsh"])
        i = np.flatnonzero(on)
        i, want, sd = i[i != n // 2], want[i != n // 2], sd[i != n // 2]
        rec.close("tmean", tm, tr.mean(axis=0), 1e-9, ctx=ctx + " mean trace")
        rec.true("offset", abs(of - tr.mean()) <= 1e-9 * np.max(np.abs(tr)) and abs(oe - np.std(tr.mean(axis=1)) / np.sqrt(nt)) <= 1e-9 * np.max(np.abs(tr)), f"{ctx}: offset {of} +- {oe}")
        rec.true("admittance-mean", np.all(np.abs(dm[i] - want) <= 1e-6 * np.abs(want)), f"{ctx}: mean admittance differs from the mean over all traces")
        rec.true("admittance-error", np.all(np.abs(ds[i] - sd) <= 1e-5 * np.abs(sd) + 1e-9 * np.abs(want)), f"{ctx}: error of the mean admittance differs from the spread of all traces over sqrt(n)")
        rec.state(case, gain, dm[i])
    rec.trace()


def run_zero(case, rec):
    """Traces with exactly vanishing undriven components must be kept."""
    base = np.where(np.arange(100) < 50, -100, 100)
    for seed in range(1, 9):
        for per in (1, 2, 3):
            tr = []
            for k in range(6):
                x = np.tile(base, per) + np.round(9 * lcg(100 * per, seed * 7 + k)).astype(int)
                x[-1] -= x.sum()
                tr.append(x)
            tr = np.array(tr, dtype=float)
            for off in (0, 1):
                o = qp.DIDV(tr + off, 1e4, 100.0, 1e-6, 5e-3)
                must(rec, "zero-mean", f"seed {seed} offset {off}", o.processtraces)
                a = attrs(rec, o, ("_tmean", "_didvmean", "_offset"))
                if a is None or rec.problems:
                    return
                rec.true("zero-mean", np.allclose(a[0], (tr + off).mean(axis=0), rtol=1e-9, atol=1e-9), f"six traces of integers with mean {off}: mean trace is not their mean (traces dropped)")
                on, want, sd = D.deconvolve(tr + off, per, 0.5, 1e-6, 5e-3)
                i = np.flatnonzero(on)
                rec.true("zero-mean", np.allclose(a[1][i], want, rtol=1e-8), f"mean {off}: admittance differs")
                rec.state(seed, per, off, np.round(a[1][i], 6))
    rec.trace()


def run_drop(case, rec):
    """Traces holding undefined samples are left out: every subset of five traces, every kind of undefined sample."""
    fs, per = 1e5, 2
    p = CIRC[3]
    names = ("_tmean", "_didvmean", "_didvstd", "_offset", "_offset_err", "_freq")
    for bins, d in ((100, 0.5), (51, 0.5), (100, 0.3)):
        sg, n = fs / bins, per * bins
        tr = D.traces(D.response(p, n, per, fs, sg, AMP, d, 3), 1e-9, 2, 1e-6)
        tr = np.vstack([tr, tr[:1] * 1.01])[:5]
        k = len(tr)
        for mask in range(1, 2**k - 1):
            gone = [i for i in range(k) if mask >> i & 1]
            if k - len(gone) < 2:
                continue
            for val, pos in ((np.nan, 0), (np.nan, n - 1), (np.inf, 7)):
                raw = tr.copy()
                raw[gone, pos] = val
                for cls in (qp.DIDV, qp.DIDVPriors):
                    ctx = f"{cls.__name__} bins {bins} duty {d}: traces {gone} of {k} with {val} in bin {pos}"
                    o, ref = (cls(x, fs, sg, AMP, p["rsh"], dutycycle=d) for x in (raw, np.delete(tr, gone, axis=0)))
                    must(rec, "drop", ctx, o.processtraces)
                    ref.processtraces()
                    a, b = attrs(rec, o, names), attrs(rec, ref, names)
                    if a is None or b is None or rec.problems:
                        return
                    for nm, x, y in zip(names, a, b):
                        rec.step()
                        if not (np.shape(x) == np.shape(y) and np.allclose(x, y, rtol=1e-9, atol=0)):
                            rec.fail("drop", f"{ctx}: {nm} differs from that of the remaining traces alone")
                            return
                    rec.state(bins, d, mask, str(val), pos, cls.__name__)
    rec.trace()


def run_shape(case, rec):
    """Arguments: incommensurable frequencies are refused, commensurable ones accepted."""
    for fs in FS + (44100.0,):
        for sg in SG + (30, 33.0, 7, 3.0, 0.1, 47.5):
            r = fs / sg
            good = abs(r - round(r)) < 1e-9 * r
            bad = abs(r - round(r)) > 1e-6 * r
            q = attempt(qp.DIDV, None, fs, sg, AMP, 5e-3)
            q2 = attempt(qp.DIDVPriors, None, fs, sg, AMP, 5e-3)
            rec.step(2)
            rec.state(fs, sg, type(q).__name__)
            if good:
                rec.true("commensurable", not isinstance(q, Raised) and not isinstance(q2, Raised), f"fs={fs} sgfreq={sg} (ratio {r!r}) refused: {q!r} {q2!r}")
            if bad:
                for w in (q, q2):
                    rec.true("commensurable", isinstance(w, Raised) and isinstance(w.exc, ValueError), f"fs={fs} sgfreq={sg} (ratio {r!r}) accepted")
    rec.trace()


def run_long(case, rec):
    """Many harmonics: none may get lost, whatever the time guess."""
    fs, sg, per = 625e3, 10.0, 2
    n = int(per * fs / sg)
    p = CIRC[2]
    y = D.response(p, n, per, fs, sg, AMP)
    tr = D.traces(y, 1e-3 * np.max(np.abs(y)), 5, 1e-6)
    on, want, sd = D.deconvolve(tr, per, 0.5, AMP, p["rsh"])
    i = np.flatnonzero(on)
    for dt0 in (0.0, 1e-5, 1e-3, 0.05, -0.05, 0.3):
        for ph in (False, True):
            o = qp.DIDV(tr, fs, sg, AMP, p["rsh"], dt0=dt0, add180phase=ph)
            must(rec, "long", f"dt0 {dt0}", o.processtraces)
            a = attrs(rec, o, ("_didvmean", "_didvstd"))
            if a is None or rec.problems:
                return
            lost = int(np.sum(np.abs(a[1][i]) > 1e15))
            rec.true("long", lost == 0 and np.allclose(a[0][i], want, rtol=1e-5), f"dt0 {dt0} add180phase {ph}: {lost} of {len(i)} driven harmonics are ignored or wrong")
            rec.state(dt0, ph, lost)
    rec.trace()


def run_resample(case, rec):
    """autoresample: warns, uses commensurable rate, whole periods, and still measures the admittance."""
    p = CIRC[3]
    for fs, sg in ((625e3, 90.0), (625e3, 30.0), (100e3, 70.0), (50e3, 7.0), (1e5, 300.0)):
        per = 3
        n = int(np.ceil(per * fs / sg)) + 5
        t = np.arange(n) / fs
        y = np.zeros(n)
        for h in range(1, 40, 2):
            y += 2 * np.real((1 - np.exp(-1j * np.pi * h)) / (-2j * np.pi * h) * AMP * p["rsh"] / D.z(h * sg, p) * np.exp(2j * np.pi * h * sg * t))
        tr = np.array([y * 1.0, y * 1.001, y * 0.999])
        keep = tr.copy()
        for cls in (qp.DIDV, qp.DIDVPriors):
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter("always")
                o = must(rec, "autoresample", f"{cls.__name__} fs={fs} sgfreq={sg}", cls, tr, fs, sg, AMP, p["rsh"], autoresample=True)
            if o is None:
                return
            rec.true("autoresample", any("resampl" in str(x.message) for x in w), "no warning about resampling")
            must(rec, "autoresample", f"{cls.__name__} fs={fs} sgfreq={sg} processtraces", o.processtraces)
            a = attrs(rec, o, ("_tmean", "_freq", "_didvmean", "_fs"))
            if a is None or rec.problems:
                return
            tm, fr, dm, fs2 = a
            M = fs2 / sg
            rec.true("autoresample", abs(M - round(M)) < 1e-9 * M, f"resampled rate {fs2} is not a multiple of {sg}")
            k = len(tm) / M
            rec.true("autoresample", abs(k - round(k)) < 1e-9 and round(k) == per, f"fs={fs} sgfreq={sg}: {k} periods used out of {per} complete ones")
            for h in (1, 3, 5):
                j = int(np.argmin(np.abs(fr - h * sg)))
                want = 1 / D.z(h * sg, p)
                rec.true("autoresample", abs(dm[j] - want) < 0.02 * abs(want), f"fs={fs} sgfreq={sg} harmonic {h}: admittance {dm[j]} instead of {want}")
            rec.state(fs, sg, cls.__name__, np.round(dm[:5], 3))
        rec.true("purity", np.array_equal(tr, keep), "autoresample modified the traces")
        q = attempt(qp.DIDV, tr, 1000.0, 10.0, AMP, 5e-3, autoresample=True)
        rec.true("autoresample", not isinstance(q, Raised) and len(q._rawtraces[0]) == n if hasattr(q, "_rawtraces") else not isinstance(q, Raised), "commensurable data was resampled")
    rec.trace()
