"""C06: non-linear pulse and muon-tail fits: models, statistics, recovery, independence of history."""
import itertools
import numpy as np
import qetpy as qp
from mc.core import must, attempt, Raised
from mc import bfs

ID = "C06"
LEVEL = "model_checking"
CASE_CPU_S = 150
BOUNDS = ("model grid: every (A,B,C,tau_r,tau_f*,t0) tuple of a 2-3 valued alphabet (rise longer than fall included, t0 at every "
          "whole bin 0..n-1) for 1-4 poles and the muon tail; noiseless recovery (301..8192 samples, thorough 32500) over amplitudes x times x onset x "
          "{explicit guess, default guess, template guess} x errscale; every sequence of fits up to length 2 (thorough 3) "
          "from an 8-fit alphabet on one object, against fresh objects; perturbed traces, 4 sample rates, errscale below and above one, default and explicit bounds")
RULE = ("complete enumeration against the documented functional forms evaluated directly; chi2 and covariance recomputed "
        "from the returned parameters with an independent model")
ASSUMPTIONS = ["odd trace lengths so that a real trace represents the frequency model exactly",
               "recovery tolerance 1e-4 relative; scipy.least_squares trusted as minimiser",
               "time-domain forms place the onset at the nearest bin"]

FS = 625e3


def m_freq(kind, p, f, df):
    w = 2 * np.pi * f
    e = lambda tau: tau / (1 + 1j * w * tau)
    if kind == "two":
        A, tr, tf, t0 = p
        s = A * (e(tf) - e(tr))
    elif kind == "twoscaled":
        A, tr, tf, t0 = p
        tp = np.log(tr / tf) * tr * tf / (tr - tf)
        s = A / (np.exp(-tp / tf) - np.exp(-tp / tr)) * (e(tf) - e(tr))
    elif kind == "three":
        A, B, tr, t1, t2, t0 = p
        s = A * e(t1) + B * e(t2) - (A + B) * e(tr)
    elif kind == "four":
        A, B, C, tr, t1, t2, t3, t0 = p
        s = A * e(t1) + B * e(t2) + C * e(t3) - (A + B + C) * e(tr)
    else:
        A, tau = p
        return A * e(tau) * np.sqrt(df)
    return s * np.exp(-1j * w * t0) * np.sqrt(df)


def m_time(kind, p, t):
    def ex(tau):
        return np.exp(-np.clip(t - p[-1], 0, None) / tau)
    if kind == "two":
        A, tr, tf, t0 = p
        s = A * (ex(tf) - ex(tr))
    elif kind == "twoscaled":
        A, tr, tf, t0 = p
        tp = np.log(tr / tf) * tr * tf / (tr - tf)
        s = A / (np.exp(-tp / tf) - np.exp(-tp / tr)) * (ex(tf) - ex(tr))
    elif kind == "three":
        A, B, tr, t1, t2, t0 = p
        s = A * ex(t1) + B * ex(t2) - (A + B) * ex(tr)
    else:
        A, B, C, tr, t1, t2, t3, t0 = p
        s = A * ex(t1) + B * ex(t2) + C * ex(t3) - (A + B + C) * ex(tr)
    return np.where(t >= p[-1] - 0.5 / FS, s, 0.0)


def psd_of(n):
    f = np.abs(np.fft.fftfreq(n)) * n
    return 1e-22 * (1 + 3 / (1 + f))


def cases(tier):
    for n in (31, 40):
        for kind in ("two", "twoscaled", "three", "four", "muon", "one"):
            yield dict(k="model", n=n, kind=kind)
    for n, on in ((401, 100), (401, 200), (401, 21), (401, 4), (301, 107), (401, 0)) if tier == "quick" else [
            (n, on) for n in (301, 401, 501) for on in (0, 1, 3, 4, 6, 7, 8, 21, 57, 100, 107, 200)]:
        for kind in ("one", "oneunscaled", "two", "twoscaled"):
            for guess in ("explicit", "default", "template"):
                for A in (1e-6, 3.0e-3):
                    yield dict(k="fit", n=n, on=on, kind=kind, guess=guess, A=A, es=1 if guess == "explicit" else 7)
        for kind in ("three", "four"):
            yield dict(k="fit", n=n, on=on, kind=kind, guess="explicit", A=1e-6, es=3)
            yield dict(k="fit", n=n, on=on, kind=kind, guess="default", A=1e-6, es=1)
    for n in (2001, 8192) if tier == "quick" else (2001, 5000, 8192, 32500):
        for on in (4, n // 3):
            for kind in ("one", "two", "twoscaled"):
                for guess in ("explicit", "default", "template"):
                    yield dict(k="fit", n=n, on=on, kind=kind, guess=guess, A=1e-6, es=1)
    for n in (301, 501) + ((8192,) if tier == "quick" else (8192, 32500)):
        for A in (1e-7, 2e-6):
            for tau in (60e-6, 150e-6, 300e-6):
                for es in (1, 5):
                    yield dict(k="muon", n=n, A=A, tau=tau, es=es)
    # other sample rates
    for fs in (1.25e6, 8e5, 2e5):
        for kind in ("two", "twoscaled", "three", "four", "muon", "one"):
            yield dict(k="model", n=31, kind=kind, fs=fs)
        for kind in ("one", "oneunscaled", "two", "twoscaled"):
            for guess in ("explicit", "default", "template")[:1 if fs > 1e6 else 3]:      # default bounds are 30 samples about the peak
                yield dict(k="fit", n=701, on=200 if fs > 1e6 else 60, kind=kind, guess=guess, A=1e-6, es=0.5, fs=fs)
        for kind in ("three", "four"):
            yield dict(k="fit", n=701, on=100, kind=kind, guess="explicit", A=1e-6, es=3, fs=fs)
        for tau in (60e-6, 300e-6):
            yield dict(k="muon", n=701, A=2e-6, tau=tau, es=0.5, fs=fs)
    for i in range(8):
        yield dict(k="hist", first=i, depth=1 if tier == "quick" else 2)
    for i in range(3):
        yield dict(k="mhist", first=i, depth=2)
    for fs in (625e3, 1.25e6, 2e5):
        for kind in ("one", "oneunscaled", "two", "twoscaled"):
            yield dict(k="bounds", kind=kind, fs=fs)
    yield dict(k="guesslen")


def _par(kind, A, on):
    t0 = on / FS
    return {"two": (A, 18e-6, 70e-6, t0), "twoscaled": (A, 18e-6, 70e-6, t0),
            "three": (A, A / 2.5, 15e-6, 60e-6, 200e-6, t0),
            "four": (A, A / 2, A / 4, 12e-6, 50e-6, 120e-6, 320e-6, t0)}[kind]


def run(case, rec):
    global FS
    FS = case.get("fs", 625e3)
    try:
        _run(case, rec)
    finally:
        FS = 625e3


def _run(case, rec):
    k = case["k"]
    if k == "model":
        return _model(case, rec)
    if k == "fit":
        return _fit(case, rec)
    if k == "bounds":
        return _bounds(case, rec)
    if k == "muon":
        return _muon(case, rec)
    if k == "guesslen":
        nl = qp.OFnonlin(psd_of(101), FS)
        for npole, m in ((1, 3), (2, 4), (3, 6), (4, 8)):
            for L in range(1, 10):
                if L != m:
                    r = attempt(nl.fit_falltimes, np.ones(101) * 1e-6, npolefit=npole, guess=(1e-6,) * L, taurise=1e-5)
                    rec.step()
                    if not (isinstance(r, Raised) and isinstance(r.exc, ValueError)):
                        rec.fail("guess-length", f"{npole}-pole fit accepted a guess of length {L}: {r!r}")
        r = attempt(nl.fit_falltimes, np.ones(101) * 1e-6, npolefit=1, guess=(1e-6,) * 3)
        if not (isinstance(r, Raised) and isinstance(r.exc, ValueError)):
            rec.fail("guess-length", f"1-pole fit without taurise: {r!r}")
        rec.trace()
        return
    return _hist(case, rec)


def _model(case, rec):
    n, kind = case["n"], case["kind"]
    f = np.fft.fftfreq(n, 1 / FS)
    t = np.arange(n) / FS
    df = FS / n
    taus = (3e-6, 10e-6, 24e-6)
    if kind == "muon":
        mt = qp.MuonTailFit(psd_of(n), FS)
        for A in (1.0, -2e-6, 5e-7):
            for tau in (3e-6, 1e-4, 2e-2):
                g = must(rec, "model-muon", f"A={A} tau={tau}", mt.muontailfcn, A, tau)
                if g is not None:
                    rec.close("model-muon", g, m_freq("muon", (A, tau), f, df), rtol=1e-9, ctx=f"muon tail A={A} tau={tau}")
                    rec.state(n, A, tau, g)
        rec.trace()
        return
    nl = qp.OFnonlin(psd_of(n), FS)
    scaled = kind in ("twoscaled", "one")
    nl.scale_amplitude = scaled
    if kind in ("two", "twoscaled", "one"):
        grid = [(A, a, b) for A in (1.0, -3e-6) for a in taus for b in taus if a != b]
        ref = "twoscaled" if scaled else "two"
    elif kind == "three":
        grid = [(A, B, a, b, c) for A in (1.0, 2e-6) for B in (0.3, -1e-6) for a in taus for b in taus for c in taus]
        ref = "three"
    else:
        grid = [(A, B, 0.7 * B, a, b, c, d) for A in (1.0,) for B in (0.3, -0.2) for a in taus for b in taus for c in taus for d in taus]
        ref = "four"
    freq = {"two": nl.twopole, "twoscaled": nl.twopole, "three": nl.threepole, "four": nl.fourpole}
    tim = {"two": nl.twopoletime, "twoscaled": nl.twopoletime, "three": nl.threepoletime, "four": nl.fourpoletime}
    ons = range(n) if kind in ("two", "twoscaled") else (0, 1, 5, 21, n - 1)
    for p in grid:
        for on in ons:
            pp = p + (on / FS,)
            ctx = f"{kind} n={n} {pp} (onset bin {on})"
            w = m_freq(ref, pp, f, df)
            if kind == "one":
                nl.taurise = p[1]
                g = must(rec, "model-one", ctx, nl.onepole, p[0], p[2], pp[-1])
                if g is not None:
                    rec.close("model-one", g, w, rtol=1e-8, ctx=ctx)
                continue
            g = must(rec, "model-freq", ctx, freq[kind], *pp)
            if g is not None:
                rec.close("model-freq", g, w, rtol=1e-8, scale=max(np.max(np.abs(w)), 1e-9 * abs(p[0]), 1e-4 * max(np.abs(pp[:-1]), default=0) * max(taus)), ctx=ctx + " frequency form")
            for fr in (0, 0.3, -0.3, 0.45) if on in (0, 1, 5, 21) else (0,):
                if on + fr < 0:
                    continue
                po = p + ((on + fr) / FS,)
                g = must(rec, "model-time", ctx, tim[kind], *po)
                if g is not None:
                    rec.close("model-time", g, m_time(ref, p + (on / FS,), t), rtol=1e-8, scale=max(abs(p[0]), 1e-9),
                              ctx=ctx + f" time form, onset {on + fr} bins")
            rec.state(ctx, g)
    rec.trace()


def _stats(rec, ctx, kind, full, data, err2, dof, reduced, truth, model):
    v, errors, cov, chi2 = full[:4]
    n = len(data)
    w = np.sum(np.abs(data - model(v)) ** 2 / err2)
    w = w / (n - dof) if reduced else w
    rec.close("chi2", chi2, w, rtol=1e-5, atol=1e-9, ctx=ctx + " chi2 of the returned parameters")
    rec.close("errors", errors, np.sqrt(np.diag(cov)), scale=1, rtol=1e-9 * np.max(np.abs(errors)), ctx=ctx + " errors vs covariance")
    J = []
    for i in range(len(v)):
        h = 1e-5 * max(abs(v[i]), 1 / FS)
        a, b = np.array(v, float), np.array(v, float)
        a[i] += h
        b[i] -= h
        d = (model(a) - model(b)) / (2 * h) / np.sqrt(err2)
        J.append(np.concatenate([d.real, d.imag]))
    J = np.array(J)
    H = J.dot(J.T)
    d = np.sqrt(np.diag(H))
    if np.linalg.cond(H / np.outer(d, d)) < 1e6:
        C = np.linalg.inv(H / np.outer(d, d)) / np.outer(d, d)
        s = np.sqrt(np.diag(C))
        rec.close("cov", np.asarray(cov) / np.outer(s, s), C / np.outer(s, s), rtol=2e-2, ctx=ctx + " covariance (in units of sigma)")
    else:
        rec.note("ill-conditioned-cov-skipped")


def _fit(case, rec):
    n, on, kind, es, A = case["n"], case["on"], case["kind"], case["es"], case["A"]
    f = np.fft.fftfreq(n, 1 / FS)
    df = FS / n
    base = {"one": "twoscaled", "oneunscaled": "two"}.get(kind, kind)
    p = _par(base, A, on)
    norm = np.sqrt(FS * n)
    mod = m_freq(base, p, f, df)
    pulse = np.real(np.fft.ifft(mod * norm))
    psd = psd_of(n) * (A / 1e-6) ** 2
    truth = (p[0], p[2], p[3]) if kind.startswith("one") else p
    tmpl = pulse / np.max(pulse) if case["guess"] == "template" else None
    nl = qp.OFnonlin(psd, FS, template=tmpl)
    kw = dict(npolefit=dict(one=1, oneunscaled=1, two=2, twoscaled=2, three=3, four=4)[kind], errscale=es,
              scale_amplitude=base == "twoscaled", lgcfullrtn=True)
    if kind.startswith("one"):
        kw["taurise"] = p[1]
    if case["guess"] == "explicit":
        g0 = [x * (1.15 if i % 2 else 0.9) for i, x in enumerate(truth)]
        g0[-1] = truth[-1] + 1.5 / FS
        if kind in ("three", "four"):
            g0 = [x * (1.02 if i % 2 else 0.99) for i, x in enumerate(truth)]
            g0[-1] = truth[-1] + 0.1 / FS
        kw["guess"] = tuple(g0)
    ctx = f"fit {case}"
    full = must(rec, "fit-answers", ctx, nl.fit_falltimes, pulse, **kw)
    if full is None:
        return
    rec.trace()
    rec.state(case, full[0])
    err2 = psd.copy()
    err2[0] = 1e40
    err2 = err2 / es
    if kind.startswith("one"):
        model = lambda v: m_freq(base, (v[0], p[1], v[1], v[2]), f, df)
    else:
        model = lambda v: m_freq(base, tuple(v), f, df)
    data = np.fft.fft(pulse) / norm
    _stats(rec, ctx, kind, full, data, err2, len(truth), True, truth, model)
    v = np.array(full[0])
    if kind not in ("three", "four"):
        if case["guess"] == "explicit" or on >= 4:
            rec.close("recovery", v[:-1] / np.array(truth[:-1]), np.ones(len(v) - 1), rtol=1e-4, ctx=ctx + f" recovered {v} of {truth}")
            rec.close("recovery", v[-1] * FS, truth[-1] * FS, scale=1, rtol=1e-3, ctx=ctx + " onset (bins)")
    elif case["guess"] == "explicit":
        peak = np.max(np.abs(data))
        rec.close("recovery", model(v), data, scale=peak, rtol=1e-2, ctx=ctx + " fitted curve vs data")
    if kind not in ("three", "four") and n < 1000:
        _perturbed(case, rec, kw, pulse, psd, tmpl, err2, model, truth, norm)
    short = attempt(nl.fit_falltimes, pulse, **dict(kw, lgcfullrtn=False))
    if isinstance(short, Raised) or not np.allclose(short, full[0], rtol=1e-12, atol=0):
        rec.fail("short-return", f"{ctx}: lgcfullrtn=False gives {short!r}, full gives {full[0]!r}")


# fit_falltimes lets scipy difference its residuals with steps of 6e-6 s (several bins); it therefore stops up to
# about half a sigma from the minimum.  Recorded in KNOWN_FINDINGS.txt for STALL_CASE; elsewhere (up to 1.3 seen) a result
# whose chi2 is more than STALL above the minimum is a violation.
STALL = 3.0
STALL_CASE = dict(k="fit", n=401, on=100, kind="one", guess="explicit", A=1e-6, es=1)


def _minimum(v, sig, data, err2, model):
    """Gauss-Newton with steps of 1e-4 sigma, halving; never worse than v"""
    def res(x):
        d = (data - model(x)) / np.sqrt(err2)
        return np.concatenate([d.real, d.imag])
    x, r = v.copy(), res(v)
    for _ in range(30):
        J = np.array([(res(x + h) - res(x - h)) / 2e-4 for h in np.diag(1e-4 * sig)]).T
        step = np.linalg.lstsq(J, -r, rcond=None)[0]
        for k in range(12):
            y = x + sig * step / 2 ** k
            q = res(y)
            if q.dot(q) < r.dot(r):
                break
        else:
            break
        done = r.dot(r) - q.dot(q) < 1e-9
        x, r = y, q
        if done:
            break
    return x


def _perturbed(case, rec, kw, pulse, psd, tmpl, err2, model, truth, norm):
    """a trace that is not exactly of the form: statistics, optimality, errscale as pure scaling, zero frequency ignored"""
    n, A, ctx = case["n"], case["A"], f"perturbed {case}"
    if case["guess"] != "explicit" and case["on"] < 4:
        return
    i = np.arange(n)
    tr = pulse + 0.004 * np.max(pulse) * (np.cos(i * 0.9) + np.cos(i * 1.7 + 1) - np.sin(i * 2.6))
    data = np.fft.fft(tr) / norm
    es = kw["errscale"]
    full = must(rec, "perturbed-answers", ctx, qp.OFnonlin(psd, FS, template=tmpl).fit_falltimes, tr, **kw)
    if full is None:
        return
    v = np.array(full[0], float)
    _stats(rec, ctx, case["kind"], full, data, err2, len(truth), True, truth, model)
    obj = lambda x: np.sum(np.abs(data - model(x)) ** 2 / err2)
    sig = np.array(full[1], float)
    if np.all(np.isfinite(v)) and np.all(sig > 0):
        excess = obj(v) - obj(_minimum(v, sig, data, err2, model))
        rec.step()
        if excess > STALL:
            rec.fail("optimum", f"{ctx}: objective of the result {obj(v)} is {excess} above the minimum next to it")
        elif excess > 1e-3 and case == STALL_CASE:
            rec.fail("optimum-3point-steps", f"fit_falltimes stops {excess:.3g} in chi2 above the minimum next to it: {case}")
    psds = {"zeroth bin 0": 0.0, "zeroth bin huge": 1e3, "zeroth bin inf": np.inf}
    alt = []
    for name, z in psds.items():
        q = psd.copy()
        q[0] = z
        alt.append((name, q, tr, kw, 1.0))
    for e in (0.3, 11):
        alt.append((f"errscale {e}", psd, tr, dict(kw, errscale=e), e / es))
    if case["guess"] == "explicit":
        alt.append(("offset trace", psd, tr + 0.7 * np.max(pulse), kw, 1.0))
        for j in range(len(v)) if case["on"] >= 4 else ():           # bounds of the caller hold, also when they exclude the minimum
            lo, hi = v - 40 * np.abs(sig), v + 40 * np.abs(sig)
            hi[j] = v[j] - 2 * sig[j]
            k = dict(kw, bounds=(tuple(lo), tuple(hi)), guess=tuple(np.minimum(v, hi - sig)))
            g = must(rec, "bounds", f"{ctx} bounds {k['bounds']}", qp.OFnonlin(psd, FS, template=tmpl).fit_falltimes, tr, **k)
            if g is not None and not (np.all(g[0] >= lo * (1 - 1e-12)) and np.all(g[0] <= hi * (1 + 1e-12))):
                rec.fail("bounds", f"{ctx}: result {g[0]} outside the bounds {k['bounds']}")
    for name, q, x, k, r in alt:
        g = must(rec, "perturbed-answers", f"{ctx} {name}", qp.OFnonlin(q, FS, template=tmpl).fit_falltimes, x, **k)
        if g is None:
            continue
        rec.trace()
        rec.close("relation", (np.array(g[0]) - v) / sig, np.zeros(len(v)), scale=1, rtol=2e-3, ctx=f"{ctx} {name}: parameters, in sigma")
        rec.close("relation", np.array(g[1]) * np.sqrt(r) / sig, np.ones(len(v)), rtol=1e-3, ctx=f"{ctx} {name}: errors")
        rec.close("relation", g[3], full[3] * r, rtol=1e-4, ctx=f"{ctx} {name}: chi2")


def _bounds(case, rec):
    """default bounds as documented: a factor of 100 for amplitudes, of 10 for times, 30 samples for the onset"""
    kind, n, on = case["kind"], 601, 150
    base = {"one": "twoscaled", "oneunscaled": "two"}.get(kind, kind)
    p = _par(base, 1e-6, on)
    f = np.fft.fftfreq(n, 1 / FS)
    pulse = np.real(np.fft.ifft(m_freq(base, p, f, FS / n) * np.sqrt(FS * n)))
    truth = np.array((p[0], p[2], p[3]) if kind.startswith("one") else p)
    kw = dict(npolefit=1 if kind.startswith("one") else 2, scale_amplitude=base == "twoscaled", taurise=p[1])
    nl = qp.OFnonlin(psd_of(n), FS)
    for j in range(len(truth)):
        for r in (0.3, 0.9, 1.2) if j == len(truth) - 1 else (0.3, 0.8, 1.3):
            for sign in (-1, 1):
                g = truth.copy()
                if j == len(truth) - 1:
                    g[j] += sign * r * 30 / FS
                    lo, hi = g[j] - 30 / FS, g[j] + 30 / FS
                else:
                    F = 100 if j == 0 else 10
                    g[j] *= F ** (sign * r)
                    lo, hi = g[j] / F, g[j] * F
                out = must(rec, "default-bounds", f"{case} guess {g}", nl.fit_falltimes, pulse, guess=tuple(g), **kw)
                if out is None:
                    continue
                rec.trace()
                ctx = f"{case}: guess {g} of {truth} gives {out}"
                if not lo * (1 - 1e-9) <= out[j] <= hi * (1 + 1e-9):
                    rec.fail("default-bounds", f"{ctx}: outside the documented range {lo}..{hi}")
                elif (r < 0.5 or (r < 1 and kind.startswith("one"))) and not np.allclose(out, truth, rtol=1e-3):
                    rec.fail("default-bounds", f"{ctx}: the truth, within the documented range, is not found")      # two poles: local minima
                rec.state(case, g, np.round(out / truth, 3))


def _muon(case, rec):
    n, A, tau, es = case["n"], case["A"], case["tau"], case["es"]
    f = np.fft.fftfreq(n, 1 / FS)
    norm = np.sqrt(FS * n)
    mod = m_freq("muon", (A, tau), f, FS / n)
    sig = np.real(np.fft.ifft(mod * norm))
    psd = psd_of(n) * (A / 1e-6) ** 2
    mt = qp.MuonTailFit(psd, FS)
    full = must(rec, "muon-answers", f"{case}", mt.fitmuontail, sig, lgcfullrtn=True, errscale=es)
    if full is None:
        return
    rec.trace()
    rec.state(case, full[0])
    rec.close("muon-recovery", np.array(full[0]) / (A, tau), [1, 1], rtol=1e-4, ctx=f"muon {case}")
    _stats(rec, f"muon {case}", "muon", full, np.fft.fft(sig) / norm, psd / es, 2, False, (A, tau),
           lambda v: m_freq("muon", tuple(v), f, FS / n))
    # noisy chi2: perturbed data so that the optimum is not zero
    sig2 = sig + 0.02 * A * np.cos(np.arange(n) * 0.9)
    full = must(rec, "muon-answers", f"{case}", mt.fitmuontail, sig2, lgcfullrtn=True, errscale=es)
    if full is not None:
        _stats(rec, f"muon perturbed {case}", "muon", full, np.fft.fft(sig2) / norm, psd / es, 2, False, (A, tau),
               lambda v: m_freq("muon", tuple(v), f, FS / n))
    short = attempt(mt.fitmuontail, sig2, errscale=es)
    if full is not None and (isinstance(short, Raised) or not np.allclose(short, full[0], rtol=1e-12, atol=0)):
        rec.fail("short-return", f"muon {case}: {short!r} vs {full[0]!r}")


N = 201
_pul = [m_time("two", (1e-6, 15e-6, 60e-6, 40 / FS), np.arange(N) / FS),
        m_time("three", (2e-6, 1e-6, 12e-6, 40e-6, 110e-6, 60 / FS), np.arange(N) / FS)]
FITS = [dict(npolefit=1, taurise=15e-6), dict(npolefit=1, taurise=25e-6, scale_amplitude=False, errscale=4),
        dict(npolefit=2), dict(npolefit=2, scale_amplitude=False),
        dict(npolefit=3, guess=(2e-6, 1e-6, 14e-6, 45e-6, 100e-6, 60 / FS)),
        dict(npolefit=2, p=1, errscale=2), dict(npolefit=1, taurise=15e-6, p=1),
        dict(npolefit=4, p=1, guess=(1e-6, 1e-6, 1e-6, 12e-6, 40e-6, 90e-6, 150e-6, 60 / FS))]
MFITS = [dict(A=1e-6, tau=60e-6, es=1), dict(A=3e-6, tau=100e-6, es=4), dict(A=1e-7, tau=30e-6, es=1)]


def _dofit(obj, i):
    kw = dict(FITS[i])
    p = kw.pop("p", 0)
    return attempt(obj.fit_falltimes, _pul[p].copy(), lgcfullrtn=True, **kw)


def _domfit(obj, i):
    c = MFITS[i]
    sig = c["A"] * np.exp(-np.arange(N) / FS / c["tau"]) + 1e-9 * np.cos(np.arange(N))
    return attempt(obj.fitmuontail, sig, lgcfullrtn=True, errscale=c["es"])


_fr = {}


def _hist(case, rec):
    mu = case["k"] == "mhist"
    do = _domfit if mu else _dofit
    build = (lambda: qp.MuonTailFit(psd_of(N), FS)) if mu else (lambda: qp.OFnonlin(psd_of(N), FS))
    nops = len(MFITS) if mu else len(FITS)

    def same(a, b):
        if isinstance(a, Raised) or isinstance(b, Raised):
            return type(a) is type(b)
        return all(np.allclose(np.asarray(x, float), np.asarray(y, float), rtol=1e-9, atol=0, equal_nan=True) for x, y in zip(a[:4], b[:4]))

    def oracle(hist, op, res, obj):
        if (mu, op) not in _fr:
            _fr[mu, op] = do(build(), op)
        rec.outcome(op)
        if isinstance(res, Raised):
            return [("history-raises", f"fit {op} raised {res!r}")]
        return [] if same(res, _fr[mu, op]) else [
            ("history", f"fit {op} gives {res[0]!r} chi2={res[3]}, fresh object gives {_fr[mu, op][0]!r} chi2={_fr[mu, op][3]}")]

    if "hist" in case:
        return bfs.replay(rec, case, build, case["hist"], do, oracle)
    for d in range(case["depth"] + 1):
        for tail in itertools.product(range(nops), repeat=d):
            bfs.replay(rec, case, build, (case["first"],) + tail, do, oracle, last_only=True)
