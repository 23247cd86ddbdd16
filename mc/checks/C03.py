"""C03: pile-up fits are exact for every position/amplitude of the first pulse."""
import numpy as np
import qetpy as qp
from mc import ref_of as R
from mc.core import must
from mc.checks import C01

ID = "C03"
LEVEL = "model_checking"
BOUNDS = ("trace lengths 5..8,64 (thorough 4..13,64,100,300) x {AC,DC} x fs in {1,3,625e3,1.25e6,7.3}; first-pulse time t1 over "
          "EVERY whole bin of [-n, n] and every quarter-bin between, plus +-1e-9 bin rounding neighbours; amplitude "
          "a1 in {0, fitted, -2, 5}; class and function form; detector-sized traces (1024, 1625, 32500, 70001 samples, thorough up to 130000) with t1 over the "
          "ends, the middle and fractions of bins, and the stationary fit")
RULE = ("complete enumeration of (configuration, t1, a1); second-pulse amplitude/time/chi2 compared with a brute-force "
        "scan whose residual is formed directly in the frequency domain; state = (configuration, t1, a1, answer)")
ASSUMPTIONS = ["ties within 1e-6 of chi2 accepted", "zero-delay coincidence of the stationary fit only determines a1+a2"]


def cases(tier):
    ns = [5, 6, 7, 8] if tier == "quick" else [4, 5, 6, 7, 8, 9, 10, 11, 12, 13]
    for n in ns:
        for cp in ("AC", "DC"):
            for fs in (1.0, 3.0, 625e3, 1.25e6, 7.3):
                for a1 in ("fit", 0.0, -2.0, 5.0):
                    yield dict(n=n, cp=cp, fs=fs, a1=a1, kind="t1", seed=n)
    for n in ([64] if tier == "quick" else [64, 100, 300]):
        for fs in (625e3, 7.3, 1.25e6):
            for cp in ("AC", "DC"):
                yield dict(n=n, cp=cp, fs=fs, a1=2.0, kind="whole", seed=1)
    for n in ns:
        for fs in (1.0, 625e3):
            for cp in ("AC", "DC"):
                for seed in range(4 if tier == "quick" else 10):
                    for tk in (0, 1, 2, 3):
                        yield dict(n=n, cp=cp, fs=fs, kind="stationary", seed=seed, tk=tk, a1=0)
    for n in (1024, 1625, 32500, 70001) if tier == "quick" else (1024, 1625, 4096, 32500, 40001, 65536, 130000):
        for cp in ("AC", "DC"):
            for k in range(4) if n < 5000 else (0, 3):
                yield dict(n=n, cp=cp, fs=625e3, a1=["fit", 1e-7, "fit", -2e-7][k], kind="real", seed=k)
                yield dict(n=n, cp=cp, fs=625e3, kind="stationary", seed=k, tk=0, a1=0, real=True)


def run(case, rec):
    n, fs, cp = case["n"], case["fs"], case["cp"]
    tk = case.get("tk", n % 2)
    sig = np.roll(R.template(n, tk), 1) * 2 + np.roll(R.template(n, tk), -2) + 0.02 * R.lcg(n, case["seed"])
    if case["seed"] % 3 == 2:
        sig = R.lcg(n, case["seed"]) * 0.3
    tm = R.template(n, tk)
    psd = R.psd(n, case["seed"] % 3, 1e-2)
    real = case["kind"] == "real" or case.get("real", False)
    if real:
        sig, tm, psd, fs = R.real(n, case["seed"])
    ref = R.OFRef(sig, tm, psd, fs, cp)
    of = qp.OptimumFilter(sig, tm, psd, fs, coupling=cp)
    base = f"n={n} fs={fs} coupling={cp} seed={case['seed']}" + (" detector-sized" if real else "")
    if case["kind"] == "stationary":
        A1, A2, XS = ref.stationary()
        for name, fn in (("class", of.ofamp_pileup_stationary),
                         ("function", lambda **k: qp.ofamp_pileup_stationary(sig, tm, psd, fs, coupling=cp, **k))):
            for nc, out in ((None, False), (1, False), (n - 1, True), (3, True), (3, False)):
                ctx = f"{base} stationary {name} tk={tk} nconstrain={nc} outside={out}"
                g = must(rec, "stationary", ctx, fn, nconstrain=nc, lgcoutsidewindow=out)
                if g is not None:
                    rec.state(base, name, tk, nc, out, g)
                    C01._stat(rec, "stationary", ctx, g, A1, A2, XS, n, fs, nc, out, 0, ref.chi0 + 1e-300)
        rec.trace()
        return
    if case["kind"] == "whole":
        ts = [b / fs for b in range(-(n // 2), n // 2 + n % 2)]
    elif real:
        ts = [b / fs for b in (-n // 2, -n // 2 + 0.5, -n / 5, -1.3, -1, -0.5, 0, 1e-9, 0.49, 1, 37, 37.3, n // 4, n // 2 - 3, n // 2 - 1, n // 2 - 0.5)]
    else:
        bins = [q / 4 for q in range(-4 * n, 4 * n + 1)]
        bins += [b + e for b in range(-2, 3) for e in (-1e-9, 1e-9, -1e-13, 1e-13)]
        ts = [b / fs for b in bins]
    for t1 in ts:
        a1 = ref.amp_at(t1) if case["a1"] == "fit" else case["a1"]
        A, X, c0 = ref.pileup(a1, t1)
        scale = ref.chi0 + a1 ** 2 * ref.norm
        for name, fn in (("class", lambda: of.ofamp_pileup_iterative(a1, t1)),
                         ("function", lambda: qp.ofamp_pileup(sig, tm, psd, fs, a1=a1, t1=t1, coupling=cp)[2:])):
            ctx = f"{base} {name} a1={a1} t1={t1 * fs} bins"
            g = must(rec, "iterative-" + name, ctx, fn)
            if g is not None:
                rec.state(base, name, t1, a1, g)
                R.check_pick(rec, "iterative-" + name, ctx, g, A, X, n, fs, None, True, 0, 0, c0, scale)
        if case["kind"] == "t1" and abs(t1 * fs) < n:
            g = must(rec, "iterative-none", f"{base} t1={t1 * fs} no delay allowed", of.ofamp_pileup_iterative, a1, t1, nconstrain=n)
            if g is not None and (g[0] != 0 or g[1] != 0 or abs(g[2] - c0) > 1e-6 * scale):
                rec.fail("iterative-none", f"{base} a1={a1} t1={t1 * fs} bins: no delay allowed, got {g}, expected (0,0,{c0})")
        if case["kind"] == "t1":
            # a1/t1 given are echoed by the function form
            g = must(rec, "echo", base, qp.ofamp_pileup, sig, tm, psd, fs, a1=a1, t1=t1, coupling=cp)
            if g is not None and (g[0] != a1 or g[1] != t1):
                rec.fail("echo", f"{base}: ofamp_pileup changed the given first pulse {(a1, t1)} into {g[:2]}")
    rec.trace()
