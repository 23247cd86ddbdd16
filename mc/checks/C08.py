"""C08: background templates, polarity arrays and search windows for the nSmB fits."""
import itertools
import math
from fractions import Fraction
import numpy as np
import qetpy as qp
from mc.core import must, attempt, Raised

ID = "C08"
LEVEL = "model_checking"
BOUNDS = ("slope/dc templates for every trace length 1..600 (thorough ..4000) and powers of two and ten to 32768; ttl templates for trace lengths 8..40 "
          "(thorough ..90) plus realistic ones x every whole and half-integer period x 5 sample rates x notch sizes 0..3 and up to beyond "
          "the trace x 4 polarity settings")
RULE = "complete enumeration on the real builders against bin-by-bin definitions in exact rational arithmetic; state = (arguments, answers)"
ASSUMPTIONS = ["ttl periods are at least two bins; the first template may be rolled by a neighbouring bin of the exact half length of the pulse train"]


def cases(tier):
    deep = tier != "quick"
    top = 4000 if deep else 600
    for a in range(1, top, 100):
        yield dict(kind="slope", lo=a, hi=min(a + 100, top + 1))
    yield dict(kind="slope", lo=0, hi=0)
    for n in list(range(8, 91 if deep else 41)):
        yield dict(kind="ttl", nbin=n, deep=deep)
    for n in (300, 625, 1000, 3125) + ((4096, 6250) if deep else ()):
        yield dict(kind="ttl", nbin=n, deep=deep)


def run(case, rec):
    globals()["run_" + case["kind"]](case, rec)


def run_slope(case, rec):
    lens = range(case["lo"], case["hi"]) if case["hi"] else [2 ** k for k in range(16)] + [10 ** k for k in range(5)] + [31250, 32500, 16250]
    for n in lens:
        ctx = f"get_slope_dc_template_nsmb({n})"
        r = must(rec, "slope", ctx, qp.get_slope_dc_template_nsmb, n)
        rec.step()
        if r is None:
            return
        b, sh = r
        if not rec.true("slope", np.shape(b) == (n, 2) and np.shape(sh) == (2,), f"{ctx}: shapes {np.shape(b)} {np.shape(sh)}"):
            return
        rec.true("slope", np.allclose(b[:, 0], np.arange(n) / n, rtol=0, atol=1e-12) and np.all(b[:, 1] == 1), f"{ctx}: not a slope from 0 towards 1 and a constant")
        rec.true("slope", np.all(np.isnan(sh)), f"{ctx}: shifts {sh}")
        rec.state(n)
    rec.trace()


def run_ttl(case, rec):
    n = case["nbin"]
    big = n > 100
    t = np.arange(n)
    pulse = np.where(t >= n // 2, np.exp(-(t - n // 2) / 4.0) + 0.01, 0.0)
    ramp = np.sin(0.7 * t) + 0.1 * t
    if big:
        periods = [Fraction(p) for p in (n // 12, n // 7, n // 3, n // 2, n)] + [Fraction(n, 10), Fraction(n, 7), Fraction(2 * n)]
    else:
        periods = [Fraction(p, 2) for p in range(8 if n > 30 else 4, 2 * n + 6)] + [Fraction(n, k) for k in (3, 7) if n / k >= 3]
    for j, per in enumerate(periods):
        if n / per > 60:
            continue
        for fs in ((625e3, 1e3) if j % 2 else (1.0, 1.25e6, 3e5)):
            for notch in ((0, 1, 3) if j % 3 else (0, 2, n // 2, n + 3)):
                con, pos = ((False, True), (True, True), (True, False), (False, False))[(j + notch) % 4]
                for tm in (pulse, ramp)[: 1 if big or (j + notch) % 2 else 2]:
                    one(rec, tm, n, fs, per, con, pos, notch, keyword=bool(j % 2))
                    if len(rec.problems) > 3:
                        return
    # defaults
    a = must(rec, "defaults", f"nbin={n}", qp.maketemplate_ttlfit_nsmb, pulse, 1e3, 1e3 / (n / 2))
    b = must(rec, "defaults", f"nbin={n}", qp.maketemplate_ttlfit_nsmb, pulse, 1e3, 1e3 / (n / 2), False, True, 0)
    if a is not None and b is not None:
        rec.true("defaults", all(np.array_equal(x, y, equal_nan=True) for x, y in zip(a[:3], b[:3])) and np.array_equal(a[3][0], b[3][0]), f"nbin={n}: defaults are not (False, True, 0)")
    rec.trace()


def one(rec, tm, n, fs, per, con, pos, notch, keyword):
    rate = fs / float(per)
    keep = tm.copy()
    ctx = f"maketemplate_ttlfit_nsmb(nbin={n}, fs={fs}, period {per} bins, constrain={con}, positive={pos}, notch={notch})"
    r = attempt(qp.maketemplate_ttlfit_nsmb, tm, fs, rate, lgcconstrainpolarity=con, lgcpositivepolarity=pos, notch_window_size=notch) if keyword else \
        attempt(qp.maketemplate_ttlfit_nsmb, tm, fs, rate, con, pos, notch)
    rec.step()
    if isinstance(r, Raised):
        rec.fail("ttl", f"{ctx}: {r!r}")
        return
    b, sh, pc, win = r
    rec.true("purity", np.array_equal(tm, keep), f"{ctx}: template modified")
    m = math.floor(Fraction(n) / per)
    if not rec.true("count", np.shape(b) == (n, m + 2) and np.shape(sh) == np.shape(pc) == (m + 2,), f"{ctx}: shapes {np.shape(b)} {np.shape(sh)} {np.shape(pc)} for {m} pulses in the trace"):
        return
    rec.true("slope", np.allclose(b[:, -2], np.arange(n) / n, rtol=0, atol=1e-12) and np.all(b[:, -1] == 1), f"{ctx}: last two templates are not slope and constant")
    rec.true("shifts", np.all(np.isnan(sh[-2:])), f"{ctx}: shifts of slope and constant {sh[-2:]}")
    shifts = []
    for i in range(m):
        x = float(sh[i])
        rec.true("shifts", x == int(x) and abs(x - float(per * i)) <= 0.5 + 1e-6, f"{ctx}: shift {i} is {x}, period multiple {float(per * i)}")
        shifts.append(int(x))
    if m:
        exact = float(-per * m / 2)
        rolls = [k for k in (math.floor(exact - 1e-6), math.ceil(exact - 1e-6), math.ceil(exact + 1e-6)) if np.array_equal(b[:, 0], np.roll(tm, k))]
        rec.true("first", bool(rolls), f"{ctx}: first template is not the template moved by {exact} bins")
        for i in range(1, m):
            want = np.zeros(n)
            want[shifts[i]:] = b[: n - shifts[i], 0]
            rec.true("templates", np.array_equal(b[:, i], want), f"{ctx}: template {i} is not the first one moved by {shifts[i]} bins")
    sign = 0 if not con else 1 if pos else -1
    rec.true("polarity", np.array_equal(pc, [sign] * m + [0, 0]), f"{ctx}: polarities {pc}")
    banned = {(s + k) % n for s in shifts for k in range(-notch, notch + 1)}
    want = [i for i in range(n) if i not in banned]
    rec.true("window", isinstance(win, list) and len(win) == 1 and np.shape(win[0]) == (1, len(want)) and np.array_equal(np.ravel(win[0]), want), f"{ctx}: window {win}, expected {want[:40]}")
    rec.state(n, fs, str(per), con, pos, notch, b.tobytes() if n < 50 else m)
