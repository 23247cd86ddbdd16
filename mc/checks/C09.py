"""C09: power spectral densities: calc_psd, foldpsd, smooth_psd."""
import itertools
import numpy as np
import qetpy as qp
from mc.core import must
from mc import ref_of as R

ID = "C09"
LEVEL = "model_checking"
BOUNDS = ("calc_psd: every trace over {-1,0,2} of length 1..6 (thorough 1..8), generic 1-, 2-, 3-dim batches of lengths 1..33 and "
          "detector-sized lengths 1000..50001 (thorough 130000), "
          "4 sample rates; foldpsd on every such two-sided PSD; smooth_psd: every symmetric PSD over {1,2,3} of length 2..9 (thorough 11) and to 65537 (thorough 1000003) samples; batches to 10007 traces (thorough 100003)")
RULE = ("complete enumeration on the real functions; the oracle is an O(n^2) DFT sum, Parseval's sum and the agreement of the "
        "one-sided, folded and averaged forms; state = (input, output)")
ASSUMPTIONS = []


def cases(tier):
    q = tier == "quick"
    for n in range(1, 7 if q else 9):
        for first in (-1, 0, 2):
            yield dict(kind="small", n=n, first=first)
    for n in range(1, 34 if q else 80):
        yield dict(kind="generic", n=n)
    for n in (1000, 1024, 1625, 3250, 32500, 50001, 130000) if q else (1000, 1024, 1625, 3250, 4096, 16384, 32500, 50001, 65536, 130000):
        yield dict(kind="large", n=n)
    for shape in ((1031, 8), (10007, 7), (2053, 3, 8), (7, 1031, 5), (300, 500)) + (() if q else ((40009, 33), (8209, 2, 64), (3, 100003, 4))):
        yield dict(kind="many", n=shape[-1], shape=shape)
    for n in range(2, 10 if q else 12):
        yield dict(kind="smooth", n=n)
    for n in (100, 1001, 32500, 65537) if q else (100, 1001, 32500, 65537, 1000003):
        yield dict(kind="smoothlong", n=n)


def dft_psd(x, fs):
    n = x.shape[-1]
    k = np.arange(n)
    if n > 400:
        return np.abs(np.fft.fft(x)) ** 2 / (n * fs)
    W = np.exp(-2j * np.pi * np.outer(k, k) / n)
    return np.abs(x @ W) ** 2 / (n * fs)


def one(rec, x, fs):
    n = x.shape[-1]
    ctx = f"calc_psd(shape {x.shape}{' ' + str(x.tolist()) if x.size < 9 else ''}, fs={fs})"
    x0 = x.copy()
    two = must(rec, "psd", ctx, qp.calc_psd, x, fs=fs, folded_over=False)
    one_ = must(rec, "psd", ctx, qp.calc_psd, x, fs=fs, folded_over=True)
    dflt = must(rec, "psd", ctx, qp.calc_psd, x, fs=fs)
    if two is None or one_ is None or dflt is None:
        return
    if not np.array_equal(x, x0):
        rec.fail("psd", f"{ctx}: input modified")
    want = dft_psd(x, fs)
    if x.ndim > 1:
        want = want.mean(axis=0)
    sc = float(np.max(want)) + 1e-300
    rec.state(x, fs)
    rec.close("psd", two[1], want, rtol=1e-9, scale=sc, ctx=ctx + " two-sided")
    nh = n // 2 + 1
    w1 = want[..., :nh] * 2.0
    w1[..., 0] /= 2
    if n % 2 == 0:
        w1[..., -1] /= 2
    rec.close("psd", one_[1], w1, rtol=1e-9, scale=sc, ctx=ctx + " one-sided")
    rec.close("psd", dflt[1], w1, rtol=1e-9, scale=sc, ctx=ctx + " default is one-sided")
    f2 = np.array([(i if i <= (n - 1) // 2 else i - n) * fs / n for i in range(n)])
    f1 = np.arange(nh) * fs / n
    rec.close("freqs", two[0], f2, rtol=1e-9, ctx=ctx + " two-sided frequencies")
    rec.close("freqs", one_[0], f1, rtol=1e-9, ctx=ctx + " one-sided frequencies")
    # Parseval: integral of the PSD is the mean power
    msq = np.mean(np.abs(x) ** 2, axis=-1)
    if x.ndim > 1:
        msq = msq.mean(axis=0)
    for nm, p in (("two", two[1]), ("one", one_[1])):
        rec.close("parseval", np.sum(p, axis=-1) * fs / n, msq, rtol=1e-8, scale=float(np.max(msq)) + 1e-300, ctx=ctx + f" {nm}-sided integral")
    if want.ndim == 1:
        p0 = np.array(two[1])
        g = must(rec, "fold", ctx, qp.foldpsd, two[1], fs)
        if g is not None:
            rec.close("fold", g[1], w1, rtol=1e-9, scale=sc, ctx="foldpsd of " + ctx)
            rec.close("fold", g[0], f1, rtol=1e-9, ctx="foldpsd frequencies of " + ctx)
            if not np.array_equal(p0, two[1]):
                rec.fail("fold", f"foldpsd modified its input ({ctx})")


def run(case, rec):
    n = case["n"]
    if case["kind"] == "small":
        for rest in itertools.product((-1, 0, 2), repeat=n - 1):
            x = np.array((case["first"],) + rest, dtype=float)
            one(rec, x, 3.0)
        rec.trace()
    elif case["kind"] == "generic":
        for fs in (1.0, 0.5, 7.0, 625e3):
            for shape in ((n,), (1, n), (3, n), (2, 3, n), (1, 1, n)):
                one(rec, R.lcg(int(np.prod(shape)), n).reshape(shape) + 0.3, fs)
        rec.trace()
    elif case["kind"] == "large":       # detector-sized: 1e-9 A noise on a microampere offset
        for fs in (625e3, 1.25e6):
            for shape in ((n,), (4, n), (2, 2, n)):
                one(rec, 1e-9 * R.lcg(int(np.prod(shape)), n).reshape(shape) + 2e-6, fs)
        rec.trace()
    elif case["kind"] == "many":        # batches: every trace counts with the same weight
        for fs in (1.0, 625e3):
            x = R.lcg(int(np.prod(case["shape"])), n).reshape(case["shape"]) + 0.3
            x[-1] *= 30                 # the last trace dominates the average
            x[len(x) // 2] *= 17
            one(rec, x, fs)
        rec.trace()
    elif case["kind"] == "smoothlong":
        nh = n // 2 + 1
        for seed in range(3):
            h = 2.0 + np.abs(R.lcg(nh, seed)) + 1e3 / (1 + np.arange(nh)) * (seed != 1)
            h[nh // 3] = h[nh - 1] = 0.5            # bins below everything before them, one of them the last
            psd = np.concatenate((h, h[1:n - nh + 1][::-1]))
            p0 = psd.copy()
            ctx = f"smooth_psd(n={n}, spectrum {seed})"
            g = must(rec, "smooth", ctx, qp.smooth_psd, psd)
            if g is None:
                continue
            rec.state(ctx, g)
            g = np.asarray(g)
            if not np.array_equal(psd, p0) or g.shape != psd.shape or not np.all(np.isfinite(g)):
                rec.fail("smooth", f"{ctx}: input modified or values not finite")
                continue
            rec.close("smooth", g[1:], g[:0:-1], rtol=1e-9, ctx=ctx + " symmetry")
            if np.any(np.diff(g[:nh]) > 1e-9 * np.max(h)):
                rec.fail("smooth", f"{ctx}: increases with frequency")
            if np.any(g < np.min(h) * (1 - 1e-9)):
                rec.fail("smooth", f"{ctx}: value {np.min(g)!r} below the smallest PSD value {np.min(h)}")
            m = np.concatenate(([True], h[1:] < np.minimum.accumulate(h)[:-1]))
            rec.close("smooth", g[:nh][m], h[m], rtol=1e-9, ctx=ctx + " bins below everything before them")
        rec.trace()
    else:
        nh = n // 2 + 1
        for vals in itertools.product((1.0, 2.0, 3.0), repeat=nh):
            h = np.array(vals)
            psd = np.array([h[min(i, n - i)] for i in range(n)])
            p0 = psd.copy()
            ctx = f"smooth_psd({psd.tolist()})"
            g = must(rec, "smooth", ctx, qp.smooth_psd, psd)
            if g is None:
                continue
            g = np.asarray(g)
            rec.state(psd, g)
            if not np.array_equal(psd, p0):
                rec.fail("smooth", f"{ctx}: input modified")
            if g.shape != psd.shape or not np.all(np.isfinite(g)):
                rec.fail("smooth", f"{ctx} -> {g.tolist()}")
                continue
            if any(abs(g[i] - g[n - i]) > 1e-9 for i in range(1, n)):
                rec.fail("smooth", f"{ctx} -> {g.tolist()}: not symmetric")
            if np.any(np.diff(g[:nh]) > 1e-9):
                rec.fail("smooth", f"{ctx} -> {g.tolist()}: increases with frequency")
            if np.any(g < np.min(h) - 1e-9):
                rec.fail("smooth", f"{ctx} -> {g.tolist()}: below the smallest PSD value")
            low = h[0]
            for i in range(nh):
                if i == 0 or h[i] < low:
                    low = h[i]
                    if abs(g[i] - h[i]) > 1e-9:
                        rec.fail("smooth", f"{ctx} -> {g.tolist()}: bin {i} lies below everything before it and was changed")
        rec.trace()
