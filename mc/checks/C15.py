"""C15: impedance / admittance models and the square-wave response (documented forms)."""
import itertools
import warnings
import numpy as np
import qetpy as qp
from mc.core import must, attempt, Raised

ID = "C15"
LEVEL = "model_checking"
BOUNDS = ("every combination of a grid of circuit parameters (loop gain 0 to 300 either side of one, beta, tau0, gratio, tau3, L, rsh, "
          "rp, r0) for the 1-, 2- and 3-pole models x 6 frequency arguments; every subset of the nine model parameters passed or "
          "left out; square waves: 4 periods counts x odd/even bins per period x 6 duty cycles x 6 models, and detector-sized ones (4 sample rates, signal frequencies that are rounded quotients, up to 70000 samples)")
RULE = ("complete enumeration of the grid on the public functions; oracle: the documented formulas written out independently, and for "
        "square waves the exact Fourier coefficients (numerical contour-free integral of the wave) times the documented admittance, "
        "plus the closed-form exponential steady state away from the edges; state = (model, arguments, answers)")
ASSUMPTIONS = ["time arguments are uniform and cover a whole number of periods; the first sample is the start of a signal-generator period wherever the axis starts (so used by the DIDV plots)",
               "a loop gain of exactly one is excluded (the documented form divides by 1 - l)"]

P1 = ("rsh", "rp", "L")
P2 = ("rsh", "rp", "r0", "beta", "l", "L", "tau0")
P3 = P2 + ("gratio", "tau3")
ALL = ("rsh", "rp", "r0", "beta", "l", "L", "tau0", "gratio", "tau3")


def zdoc(f, p, m):
    s = 2j * np.pi * np.asarray(f, dtype=float)
    z = p["rsh"] + p["rp"] + s * p["L"]
    if m == 1:
        return z
    z = z + p["r0"] * (1 + p["beta"])
    if m == 2:
        return z + p["r0"] * (2 + p["beta"]) * p["l"] / (1 - p["l"]) / (1 + s * p["tau0"] / (1 - p["l"]))
    den = 1 + s * p["tau0"] / (1 - p["l"]) - p["gratio"] / (1 - p["l"]) / (1 + s * p["tau3"])
    return z + p["r0"] * (2 + p["beta"]) * p["l"] / (1 - p["l"]) / den


def params(tier):
    deep = tier != "quick"
    for rsh, rp, L in itertools.product((5e-3, 0.02), (0.0, 6e-3), (1e-7, 4e-6)):
        yield 1, dict(rsh=rsh, rp=rp, L=L)
    for beta, l, tau0, L, r0 in itertools.product((0, 0.3, 2), (0, 0.5, 0.97, 1.5, 10, 300), (1e-5, 5e-4), (1e-7, 4e-6), (0.0756, 0.3) if deep else (0.0756,)):
        yield 2, dict(rsh=5e-3, rp=6e-3, r0=r0, beta=beta, l=l, L=L, tau0=tau0)
    for beta, l, tau0, g, t3 in itertools.product((0, 2), (0.5, 1.5, 10), (1e-5, 5e-4), (0, 0.2, 0.5, 3), (0, 1e-4, 1e-3) if deep else (0, 1e-3)):
        if abs(1 - l - g) < 1e-9 or (l == 1.5 and g == 0.5 and t3 == 0):
            continue
        yield 3, dict(rsh=5e-3, rp=6e-3, r0=0.0756, beta=beta, l=l, L=1e-7, tau0=tau0, gratio=g, tau3=t3)


MODELS = [
    (1, dict(rsh=5e-3, rp=6e-3, L=1e-7)),
    (1, dict(rsh=5e-3, rp=6e-3, L=4e-6)),
    (2, dict(rsh=5e-3, rp=6e-3, r0=0.0756, beta=2, l=10, L=1e-7, tau0=5e-4)),
    (2, dict(rsh=5e-3, rp=6e-3, r0=0.0756, beta=0.2, l=0.4, L=1e-6, tau0=2e-4)),
    (3, dict(rsh=5e-3, rp=6e-3, r0=0.0756, beta=2, l=10, L=1e-7, tau0=5e-4, gratio=0.5, tau3=1e-3)),
    (3, dict(rsh=5e-3, rp=6e-3, r0=0.0756, beta=0.5, l=0.5, L=1e-6, tau0=3e-4, gratio=0.2, tau3=1e-4)),
]


def cases(tier):
    deep = tier != "quick"
    for m, p in params(tier):
        yield dict(kind="z", m=m, p=p)
    for mask in range(512):
        yield dict(kind="subset", mask=mask)
    for nd in (1, 2, 3):
        for n in (1, 2, 5):
            yield dict(kind="std", nd=nd, n=n)
    for i in range(len(MODELS)):
        for per in (1, 2, 3) + ((7,) if deep else ()):
            for bins in (40, 41, 250) + ((625, 1000, 1001) if deep else ()):
                for d in (0.5, 0.25, 0.3, 0.75, 0.1, 0.9, 0.501, 0.49995):
                    for t0 in (0.0, 0.3):
                        yield dict(kind="sq", i=i, per=per, bins=bins, d=d, t0=t0)
    for i in range(len(MODELS)):
        for fs in (625e3, 1.25e6, 1e5, 50e3 / 3):
            for per in (1, 3, 10) + ((37,) if deep else ()):
                for bins in (70, 999, 6250, 7000) + ((1000, 1001, 31250) if deep else ()):
                    for d in (0.5, 0.3):
                        yield dict(kind="sq", i=i, per=per, bins=bins, d=d, t0=(i % 3) * 1e4 / fs, fs=fs)
        yield dict(kind="sq", i=i, per=2, bins=250000, d=(0.5, 0.3)[i % 2], t0=0.0, fs=1.25e6)
    for i in range(len(MODELS)):
        for d in (0.5, 0.25, 0.7):
            yield dict(kind="edge", i=i, d=d)


def run(case, rec):
    k = case["kind"]
    if k == "z":
        return run_z(case, rec)
    if k == "subset":
        return run_subset(case, rec)
    if k == "std":
        return run_std(case, rec)
    if k == "sq":
        return run_sq(case, rec)
    return run_edge(case, rec)


def run_z(case, rec):
    m, p = case["m"], case["p"]
    pp = dict(p)
    for farg in (0, 0.0, 123.4, -5e4, np.array([0.0, 1.0, 1e3, 1e6]), np.fft.fftfreq(9, d=1 / 625e3), np.fft.fftfreq(40001, d=1 / 625e3), np.array([10, 200]), np.array([[1.0, 2.0], [3.0, -4.0]])):
        z = must(rec, "impedance", f"compleximpedance({farg}, {p})", qp.compleximpedance, farg, **p)
        y = must(rec, "admittance", f"complexadmittance({farg}, {p})", qp.complexadmittance, farg, **p)
        if z is None or y is None:
            return
        want = zdoc(farg, p, m)
        with np.errstate(all="ignore"):
            if not np.all(np.isfinite(want)) or np.any(np.abs(want) < 1e-9):
                continue
            rec.true("impedance", np.shape(z) == np.shape(want) and np.allclose(z, want, rtol=1e-8, atol=1e-14), f"compleximpedance({farg}, {p}) = {z!r}, documented form {want!r}")
            rec.true("admittance", np.shape(y) == np.shape(want) and np.allclose(y, 1 / want, rtol=1e-7, atol=1e-12), f"complexadmittance({farg}, {p}) = {y!r}, documented {1/want!r}")
        e = attempt(qp.compleximpedance, farg, **p, dt=3e-6, A=1.0, anything="x")
        rec.step()
        rec.true("extra-kwargs", not isinstance(e, Raised) and np.array_equal(e, z), f"extra keyword arguments change compleximpedance({farg}, {p}): {e!r}")
        e = attempt(qp.complexadmittance, farg, **p, dt=3e-6, A=1.0, anything="x")
        rec.true("extra-kwargs", not isinstance(e, Raised) and np.array_equal(e, y), f"extra keyword arguments change complexadmittance({farg}, {p}): {e!r}")
        rec.state(m, p, farg, np.round(np.asarray(z), 12))
    rec.true("purity", pp == p, "parameters modified")
    if m == 3 and p["gratio"] == 0:
        q = {x: p[x] for x in P2}
        f = np.array([0.0, 10.0, 1e4])
        rec.close("reduction", qp.compleximpedance(f, **p), qp.compleximpedance(f, **q), 1e-9, ctx=f"3-pole model without extra conductance is not the 2-pole model {p}")
    if m == 2 and p["l"] == 0:
        f = np.array([0.0, 10.0, 1e4])
        rec.close("reduction", qp.compleximpedance(f, **p), p["rsh"] + p["rp"] + p["r0"] * (1 + p["beta"]) + 2j * np.pi * f * p["L"], 1e-9, ctx=f"no loop gain {p}")
    rec.trace()


def run_subset(case, rec):
    full = dict(rsh=5e-3, rp=6e-3, r0=0.0756, beta=2, l=10, L=1e-7, tau0=5e-4, gratio=0.5, tau3=1e-3)
    p = {x: full[x] for i, x in enumerate(ALL) if case["mask"] >> i & 1}
    m = 3 if set(P3) <= set(p) else 2 if set(P2) <= set(p) else 1 if set(P1) <= set(p) else 0
    f = np.array([0.0, 50.0, 2e4])
    t = np.arange(200) / 2e4
    for name, fn in (("compleximpedance", lambda **q: qp.compleximpedance(f, **q)), ("complexadmittance", lambda **q: qp.complexadmittance(f, **q)),
                     ("squarewaveresponse", lambda **q: qp.squarewaveresponse(t, 1e-6, 100, **q))):
        for style in ("absent", "none"):
            q = dict(p) if style == "absent" else {x: p.get(x) for x in ALL}
            r = attempt(fn, **q)
            rec.step()
            rec.state(name, case["mask"], style, type(r).__name__)
            if m == 0:
                rec.true("model-choice", isinstance(r, Raised) and isinstance(r.exc, ValueError), f"{name} with only {sorted(p)}: {r!r} instead of ValueError")
            elif isinstance(r, Raised):
                rec.fail("model-choice", f"{name} with {sorted(p)}: {r!r}")
            else:
                need = {x: full[x] for x in (P1, P2, P3)[m - 1]}
                if name == "squarewaveresponse":
                    want = fn(**need)
                else:
                    want = zdoc(f, full, m)
                    want = 1 / want if name == "complexadmittance" else want
                rec.true("model-choice", np.allclose(r, want, rtol=1e-7, atol=0), f"{name} with {sorted(p)} is not the {m}-pole model")
    rec.trace()


def run_std(case, rec):
    nd, n = case["nd"], case["n"]
    from mc.ref_of import lcg
    shape = (n, 3, 2)[:nd]
    size = int(np.prod(shape))
    x = (lcg(size, 3) + 2j * lcg(size, 4) + 1).reshape(shape)
    for ax in range(nd):
        r = must(rec, "stdcomplex", f"stdcomplex{shape} axis {ax}", qp.stdcomplex, x, axis=ax)
        if r is None:
            return
        mu = x.mean(axis=ax, keepdims=True)
        want = np.sqrt((((x - mu).real) ** 2).mean(axis=ax)) + 1j * np.sqrt((((x - mu).imag) ** 2).mean(axis=ax))
        rec.true("stdcomplex", np.shape(r) == np.shape(want) and np.allclose(r, want, rtol=1e-10, atol=1e-13), f"stdcomplex of {shape} along {ax}: {r!r} instead of {want!r}")
        rec.state(shape, ax, np.round(r, 10))
    r = must(rec, "stdcomplex", "list input", qp.stdcomplex, x.tolist())
    if r is not None:
        rec.true("stdcomplex", np.allclose(r, qp.stdcomplex(x, axis=0)), "default axis / list input differs")
    rec.trace()


def run_sq(case, rec):
    m, p = MODELS[case["i"]]
    per, bins, d = case["per"], case["bins"], case["d"]
    sgf = 80.0
    n = per * bins
    fs = sgf * bins
    if "fs" in case:        # sample rate given, signal frequency a rounded quotient
        fs = case["fs"]
        sgf = fs / bins
    t = np.arange(n) / fs - case["t0"] * 1e-4
    amp = 4.7e-7
    y = must(rec, "squarewave", f"squarewaveresponse n={n} bins={bins} duty={d} model={case['i']}", qp.squarewaveresponse, t, amp, sgf, d, **p)
    if y is None:
        return
    ok = isinstance(y, np.ndarray) and y.shape == (n,) and np.isrealobj(y) and np.all(np.isfinite(y))
    if not rec.true("squarewave", ok, f"n={n}: not a finite real array of the shape of t"):
        return
    Y = np.fft.fft(y) / n
    scale = np.max(np.abs(y)) + 1e-30
    top = (n - 1) // 2
    want = np.zeros(n, complex)
    for h in range(1, top // per + 1):
        # low for the first fraction d of the period, high for the rest
        c = (1 - np.exp(-2j * np.pi * h * d)) / (-2j * np.pi * h)
        want[h * per] = amp * p["rsh"] * c / zdoc(h * sgf, p, m)
        want[-h * per] = np.conj(want[h * per])
    sel = np.ones(n, bool)
    if n % 2 == 0:
        sel[n // 2] = False
    bad = np.abs(Y - want)[sel] > 1e-7 * scale
    if np.any(bad):
        b = int(np.flatnonzero(np.where(sel, np.abs(Y - want) > 1e-7 * scale, False))[0])
        rec.fail("squarewave", f"periods={per} bins/period={bins} duty={d} model {p}: Fourier bin {b} is {Y[b]!r}, reference {want[b]!r}")
    y2 = must(rec, "squarewave", "scaled", qp.squarewaveresponse, t, 3 * amp, sgf, dutycycle=d, dt=1.0, cov=3, **p)
    if y2 is not None:
        rec.close("squarewave-linear", y2, 3 * y, 1e-9, ctx=f"three times the jitter {case}")
    if d == 0.5:
        y3 = must(rec, "squarewave", "default duty", qp.squarewaveresponse, t, amp, sgf, **p)
        if y3 is not None:
            rec.true("squarewave-default", np.array_equal(y3, y), "default duty cycle is not 0.5")
    rec.state(case["i"], per, bins, d, np.round(y / scale, 9))
    rec.trace()


def run_edge(case, rec):
    """Closed-form steady state (partial fractions) away from the switching edges: sign and phase."""
    m, p = MODELS[case["i"]]
    d = case["d"]
    sgf, bins = 80.0, 20000
    n = bins
    t = np.arange(n) / (sgf * bins)
    amp = 4.7e-7
    y = must(rec, "squarewave", f"long period {case}", qp.squarewaveresponse, t, amp, sgf, d, **p)
    if y is None:
        return
    # Z(s) = num/den polynomials in s
    if m == 1:
        num, den = np.array([p["L"], p["rsh"] + p["rp"]]), np.array([1.0])
    else:
        A0 = p["rsh"] + p["rp"] + p["r0"] * (1 + p["beta"])
        if m == 2:
            den = np.array([p["tau0"], 1 - p["l"]])
            num = np.polymul([p["L"], A0], den) + np.array([0, 0, p["r0"] * (2 + p["beta"]) * p["l"]])
        else:
            den = np.polymul([p["tau0"], 1 - p["l"]], [p["tau3"], 1]) - np.array([0, 0, p["gratio"]])
            b = p["r0"] * (2 + p["beta"]) * p["l"] * np.array([p["tau3"], 1])
            num = np.polymul([p["L"], A0], den)
            num[-2:] += b
    roots = np.roots(num)
    # step response: Y(s)/s -> y0 + sum r_i/s_i e^{s_i t}
    dnum = np.polyder(num)
    y0 = np.polyval(den, 0) / np.polyval(num, 0)
    res = [np.polyval(den, r) / np.polyval(dnum, r) / r for r in roots]
    if np.any(np.real(roots) >= 0):
        return
    T = 1 / sgf
    x = np.zeros(n)
    # drive: up-step of amp*rsh at phase d, down-step at phase 0; zero mean
    for sign, ph in ((1, d), (-1, 0.0)):
        u = np.mod(t / T - ph, 1.0) * T
        # periodic superposition of one step per period: geometric series of the transients
        for r, s in zip(res, roots):
            x = x + sign * np.real(r * np.exp(s * u) / (1 - np.exp(s * T)))
    lvl = np.where(np.mod(t / T, 1.0) < d, 0.0, 1.0) * y0
    ref = amp * p["rsh"] * (x + lvl)
    ref = ref - ref.mean()
    dist = np.minimum(np.abs(np.mod(t / T - d + 0.5, 1) - 0.5), np.abs(np.mod(t / T + 0.5, 1) - 0.5))
    far = dist > 0.01
    err = np.max(np.abs(y - ref)[far]) / np.max(np.abs(ref))
    rec.true("squarewave-shape", err < 0.01, f"model {p}, duty {d}: response differs from the steady-state solution by {err:.3g} of its height")
    rec.state(case, np.round(err, 3))
    rec.step()
    rec.trace()
