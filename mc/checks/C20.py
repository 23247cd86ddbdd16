"""C20: resampling makes the number of samples per period an integer."""
import math
from fractions import Fraction
import numpy as np
from scipy import signal
import qetpy.utils as U
from mc.core import must, attempt, Raised
from mc import ref_of as R

ID = "C20"
LEVEL = "model_checking"
BOUNDS = ("resample_factors: every pair fs in 1..FS, sgfreq in 1..SG (FS,SG = 240,240 quick; 1200,700 thorough), every sgfreq "
          "in 1..2000 (thorough 1..20000) for the sample rates 625e3, 1.25e6, 1e6, 2.5e6, 52100, 156250; int and float types; "
          "resample_data: 12 ratios x 1/2/3-dim data (to 1031 traces and 40009 samples) x axis x padding")
RULE = ("exhaustive enumeration of the input pairs on the real function; the oracle is exact rational arithmetic: "
        "up, down >= 1, fs*up/down an integer multiple of sgfreq and within a factor of two of fs unless the denominator asks for more; state = (fs, sgfreq, up, down)")
ASSUMPTIONS = ["scipy.signal.resample_poly is trusted"]


def cases(tier):
    q = tier == "quick"
    FS, SG = (240, 240) if q else (1200, 700)
    for f0 in range(1, FS + 1, 10):
        yield dict(kind="grid", f0=f0, f1=min(f0 + 10, FS + 1), sg=SG)
    for fs in (625e3, 1.25e6, 1e6, 2.5e6, 52100, 156250):
        for s0 in range(1, 2001 if q else 20001, 250):
            yield dict(kind="real", fs=fs, s0=s0, s1=s0 + 250)
    yield dict(kind="badargs")
    for fs, sg in ((100, 30), (100, 45), (60, 7), (1000, 36), (1250, 12), (90, 8), (10, 30), (77, 11), (96, 54), (48, 32), (350, 24), (30, 30)):
        yield dict(kind="data", fs=fs, sg=sg)


def one(rec, fs, sg):
    r = attempt(U.resample_factors, fs, sg)
    rec.step()
    if isinstance(r, Raised):
        rec.fail("factors", f"resample_factors({fs!r},{sg!r}) raised {r}")
        return
    up, down = r
    rec.state(fs, sg, int(up), int(down))
    if up != int(up) or down != int(down) or up < 1 or down < 1:
        rec.fail("factors", f"resample_factors({fs!r},{sg!r}) -> {r}: not positive integers")
        return
    q = Fraction(int(fs)) * int(up) / int(down) / int(sg)
    if q.denominator != 1:
        rec.fail("factors", f"resample_factors({fs!r},{sg!r}) -> {r}: {q} samples per period is not an integer")
    den = Fraction(int(fs), int(sg)).denominator
    if 2 * up < down or up > max(den, 2 * down):
        rec.fail("rate", f"resample_factors({fs!r},{sg!r}) -> {r}: the sample rate changes by {up / down:.4g}, more than a factor of two and more than the denominator {den} requires")
    if int(fs) % int(sg) == 0 and (up, down) != (1, 1):
        rec.fail("factors", f"resample_factors({fs!r},{sg!r}) -> {r} although fs/sgfreq is an integer")


def run(case, rec):
    k = case["kind"]
    if k == "grid":
        for fs in range(case["f0"], case["f1"]):
            for sg in range(1, case["sg"] + 1):
                one(rec, fs, sg)
    elif k == "real":
        for sg in range(case["s0"], case["s1"]):
            one(rec, case["fs"], sg)
            if sg % 50 == 0:
                one(rec, int(case["fs"]), float(sg))
    elif k == "badargs":
        for fs in (10, 10.5, 1e6 + 0.25, 99.999):
            for sg in (3, 3.5, 0.1, 30.1):
                r = attempt(U.resample_factors, fs, sg)
                bad = fs != int(fs) or sg != int(sg)
                rec.step()
                rec.state("bad", fs, sg)
                if bad and not (isinstance(r, Raised) and isinstance(r.exc, ValueError)):
                    rec.fail("badargs", f"resample_factors({fs},{sg}) gave {r!r} instead of ValueError")
                if bad:
                    r = attempt(U.resample_data, np.ones(30), fs, sg)
                    if not (isinstance(r, Raised) and isinstance(r.exc, ValueError)):
                        rec.fail("badargs", f"resample_data(.., {fs},{sg}) gave {r!r} instead of ValueError")
    else:
        fs, sg = case["fs"], case["sg"]
        for shape in ((120,), (3, 120), (2, 3, 60), (121,), (2, 77), (1031, 60), (2, 40009), (257, 2, 90), (200003,)):
            x = R.lcg(int(np.prod(shape)), 3).reshape(shape) + 2
            for kw in ({}, dict(padtype="line"), dict(axis=0), dict(padtype="mean", window=("kaiser", 4.0))):
                ctx = f"resample_data(shape {shape}, fs={fs}, sgfreq={sg}, {kw})"
                x0 = x.copy()
                r = must(rec, "data", ctx, U.resample_data, x, fs, sg, **kw)
                if r is None:
                    continue
                y, nfs = r
                up, down = U.resample_factors(fs, sg)
                rec.state(fs, sg, shape, str(kw), y.shape, float(nfs))
                rec.trace()
                if not np.array_equal(x, x0):
                    rec.fail("data", f"{ctx}: input modified")
                if abs(nfs - fs * up / down) > 1e-9 * nfs:
                    rec.fail("data", f"{ctx}: reported sample rate {nfs}, expected {fs}*{up}/{down}")
                if abs(nfs / sg - round(nfs / sg)) > 1e-9 * (nfs / sg):
                    rec.fail("data", f"{ctx}: {nfs / sg} samples per period")
                k2 = dict(axis=-1)
                k2.update(kw)
                want = signal.resample_poly(x, up, down, **k2)
                rec.close("data", y, want, rtol=1e-9, ctx=ctx)
                ax = k2["axis"]
                if y.shape[ax] != math.ceil(x.shape[ax] * up / down):
                    rec.fail("data", f"{ctx}: length {y.shape[ax]}")
