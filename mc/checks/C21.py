"""C21: array helpers: shift, make_template, make_decreasing, fill_negatives, slope."""
import itertools
import numpy as np
import qetpy.utils as U
from qetpy.core._noise import smooth_psd
from mc.core import must, attempt, Raised
from mc import ref_of as R

ID = "C21"
LEVEL = "model_checking"
BOUNDS = ("shift: lengths 1..9 (thorough 1..16), every shift in quarter bins of [-n-2, n+2], fill 0/1.5/-3, int/float arrays and "
          "2-dim arrays; make_template: lengths 2..40 with every offset that leaves the pulse in the trace, 5 time-constant pairs; "
          "make_decreasing: every sequence over {0,1,2,3,-1} of length 1..5 (thorough 6), with even and uneven x; fill_negatives: "
          "every sequence over {-1,0,1,2.5} of length 1..6 (thorough 7); slope: every integer point set over small grids, as such and in four other units and origins; arrays of 257 to 100003 values (thorough 1000003) for all of them")
RULE = ("complete enumeration of inputs of the real functions against bin-by-bin definitions; state = (function, input, output)")
ASSUMPTIONS = []


def cases(tier):
    q = tier == "quick"
    for n in range(1, 10 if q else 17):
        for dt in ("float", "int", "2d"):
            yield dict(kind="shift", n=n, dt=dt)
    for n in list(range(2, 41)) + [1000, 32500, 100003]:
        yield dict(kind="template", n=n)
    for n in range(1, 6 if q else 7):
        for first in (0, 1, 2, 3, -1):
            yield dict(kind="dec", n=n, first=first)
    for n in range(1, 7 if q else 8):
        for first in (-1, 0, 1, 2.5):
            yield dict(kind="fill", n=n, first=first)
    for n in range(2, 5 if q else 6):
        for first in (-1, 0, 2):
            yield dict(kind="slope", n=n, first=first)
    for n in (257, 1031, 32500, 100003) if q else (257, 1031, 4099, 32500, 100003, 1000003):
        yield dict(kind="big", n=n)


def ref_shift(a, num, fill):
    n = len(a)
    out = np.full(a.shape, float(fill))
    for i in range(n):
        s = i - num
        if s < 0 or s > n - 1:
            continue
        j = int(np.floor(s))
        w = s - j
        out[i] = a[j] * (1 - w) + (a[j + 1] * w if w else 0)
    return out


def ref_shift_long(a, num, fill):
    """ref_shift in whole-array form"""
    n = len(a)
    x = np.arange(n) - num
    j = np.clip(np.floor(x).astype(int), 0, n - 1)
    w = (x - np.floor(x)).reshape((n,) + (1,) * (a.ndim - 1))
    out = a[j] * (1 - w) + a[np.minimum(j + 1, n - 1)] * w
    out[(x < 0) | (x > n - 1)] = fill
    return out


def run_big(case, rec):
    n = case["n"]
    for a in (R.lcg(n, 2) + 1, np.arange(n) % 97, R.lcg(3 * n, 2).reshape(n, 3) + 1, 1e-9 * R.lcg(n, 4) + 2e-6):
        for num in (0, 1, -1, 7, n // 2, -n // 2, n - 1, 1 - n, n, -n, n + 5, 0.25, -0.75, 100.5, -n / 2 + 0.25, n - 1.5):
            ctx = f"shift({n} values, {num})"
            b = a.copy()
            g = must(rec, "shift", ctx, U.shift, b, num, fill_value=0.5)
            if g is not None:
                rec.state(ctx, a.ndim, str(a.dtype), np.asarray(g)[:50], np.asarray(g)[-50:])
                rec.close("shift", g, ref_shift_long(a, num, 0.5), rtol=1e-9, ctx=ctx, scale=max(float(np.max(np.abs(a))), 0.5) if a.ndim == 2 or a.dtype.kind == "i" else float(np.max(np.abs(a))))
            if not np.array_equal(a, b):
                rec.fail("shift", f"{ctx}: input modified")
    for seed in range(3):
        y = R.lcg(n, seed + 1) * 2 + 5.0 / (1 + np.arange(n) / 50.0) * (seed > 0) + 3
        y[n - 2] = -1.0
        x = np.cumsum(1 + np.arange(n) % 5) * 0.5
        low = np.concatenate(([True], y[1:] < np.minimum.accumulate(y)[:-1]))
        last = np.flatnonzero(low)[-1]
        for xx in (None, x):
            ctx = f"make_decreasing({n} values, x={'uneven' if xx is not None else None})"
            g = must(rec, "decreasing", ctx, U.make_decreasing, y.copy(), *(() if xx is None else (xx,)))
            if g is not None:
                z = np.arange(n) if xx is None else xx
                rec.state(ctx, seed)
                rec.close("decreasing", np.asarray(g)[: last + 1], np.interp(z[: last + 1], z[low], y[low]), rtol=1e-9, ctx=ctx)
                if np.any(np.diff(g) > 1e-9) or np.min(g) < np.min(y) - 1e-9:
                    rec.fail("decreasing", f"{ctx}: increases, or goes below every value")
        y = R.lcg(n, seed + 5)
        y[n // 4: n // 2] = -1
        y[-1] = 0.7
        y[0] = 0.0 if seed else 0.3
        good = np.flatnonzero(y > 0)
        g = must(rec, "fill", f"fill_negatives({n} values)", U.fill_negatives, y.copy())
        if g is not None:
            rec.close("fill", g, np.interp(np.arange(n), good, y[good]), rtol=1e-9, ctx=f"fill_negatives({n} values)")
        x = R.lcg(n, 8) * 3 + 10
        y = 2.5 * x + R.lcg(n, 9 + seed) * 5
        x[-1], y[-1] = 500.0 * n, -300.0 * n
        p = np.sum((x - x.mean()) * (y - y.mean())) / np.sum((x - x.mean()) ** 2)
        for a, rm in ((x, True), (x - x.mean(), False)):
            g = must(rec, "slope", f"slope({n} points)", U.slope, a, y, removemeans=rm)
            if g is not None:
                rec.close("slope", g, p, rtol=1e-7, ctx=f"slope({n} points, removemeans={rm})")
    rec.trace()


def run(case, rec):
    k, n = case["kind"], case["n"]
    if k == "big":
        return run_big(case, rec)
    if k == "shift":
        a = np.arange(1, n + 1) * 3
        if case["dt"] == "float":
            a = R.lcg(n, 2) + 1
        if case["dt"] == "2d":
            a = R.lcg(3 * n, 2).reshape(n, 3) + 1
        for q in range(-4 * n - 8, 4 * n + 9):
            num = q / 4
            for fill in (0, 1.5, -3):
                for nn in ({num, int(num)} if num == int(num) else {num}):
                    ctx = f"shift({a.tolist()}, {nn!r}, fill_value={fill})"
                    b = a.copy()
                    g = must(rec, "shift", ctx, U.shift, b, nn, fill_value=fill)
                    if g is None:
                        continue
                    rec.state(case, nn, fill, np.asarray(g))
                    rec.close("shift", g, ref_shift(a, num, fill), rtol=1e-9, ctx=ctx, scale=float(np.max(np.abs(a))))
                    if not np.array_equal(a, b):
                        rec.fail("shift", f"{ctx}: input modified")
                    if fill == 1.5:
                        h = must(rec, "shift", ctx + " of a list", U.shift, a.tolist(), nn, fill_value=fill)
                        if h is not None:
                            rec.close("shift", h, g, rtol=1e-12, ctx=ctx + " of a list", scale=float(np.max(np.abs(a))))
        rec.trace()
    elif k == "template":
        for fs in (1.0, 625e3):
            t = np.arange(n) / fs
            for tr, tf in ((1.0, 3.0), (2.0, 2.5), (0.3, 20.0), (5.0, 6.0), (1e-2, 1.0)):
                offs = range(-n // 2 - 2, n - n // 2 - 1) if n < 100 else (1 - n // 2, -4, 0, 7, n - n // 2 - 2)
                for off in offs:
                    c = n // 2 + off
                    if c + 1 > n - 1:
                        continue
                    ctx = f"make_template(n={n}, fs={fs}, tau=({tr},{tf})/fs, offset={off})"
                    g = must(rec, "template", ctx, U.make_template, t, tr / fs, tf / fs, off)
                    if g is None:
                        continue
                    rec.state(ctx)
                    x = np.arange(n) - c
                    w = np.where((x >= 0) & (x < n), np.exp(-x / tf) - np.exp(-x / tr), 0.0)
                    w = np.where(x < 0, 0, w)
                    # the pulse itself exists for n samples after its start
                    w = w / w.max()
                    m = x < n
                    rec.close("template", np.asarray(g)[m], w[m], rtol=1e-9, ctx=ctx, scale=1.0)
                    if abs(np.max(g) - 1) > 1e-9 and m.all():
                        rec.fail("template", f"{ctx}: maximum {np.max(g)} instead of 1")
        rec.trace()
    elif k == "dec":
        for rest in itertools.product((0, 1, 2, 3, -1), repeat=n - 1):
            y = np.array((case["first"],) + rest, dtype=float)
            keep = [0]
            for i in range(1, n):
                if y[i] < y[keep[-1]]:
                    keep.append(i)
            for x in (None, np.cumsum(np.arange(1, n + 1)) * 0.5):
                ctx = f"make_decreasing({y.tolist()}, x={'uneven' if x is not None else None})"
                y0 = y.copy()
                g = must(rec, "decreasing", ctx, U.make_decreasing, y) if x is None else must(
                    rec, "decreasing", ctx, U.make_decreasing, y, x)
                if g is None:
                    continue
                g = np.asarray(g)
                rec.state("dec", y, x is None, g)
                if g.shape != y.shape or not np.all(np.isfinite(g)):
                    rec.fail("decreasing", f"{ctx} -> {g.tolist()}")
                    continue
                if np.any(np.diff(g) > 1e-9):
                    rec.fail("decreasing", f"{ctx} -> {g.tolist()} is not decreasing")
                if np.any(g < np.min(y) - 1e-9):
                    rec.fail("decreasing", f"{ctx} -> {g.tolist()} goes below every value of the data")
                xx = np.arange(n) if x is None else x
                last = keep[-1]
                want = np.interp(xx[: last + 1], xx[keep], y[keep])
                rec.close("decreasing", g[: last + 1], want, rtol=1e-9, ctx=ctx, scale=3.0)
                if not np.array_equal(y, y0):
                    rec.fail("decreasing", f"{ctx}: input modified")
        rec.trace()
        # smoothing a folded PSD acts on the array through the same rule
    elif k == "fill":
        for rest in itertools.product((-1, 0, 1, 2.5), repeat=n - 1):
            y = np.array((case["first"],) + rest, dtype=float)
            good = np.flatnonzero(y > 0)
            ctx = f"fill_negatives({y.tolist()})"
            g = must(rec, "fill", ctx, U.fill_negatives, y.copy())
            if g is None:
                continue
            rec.state("fill", y, np.asarray(g))
            if len(good) == 0:
                continue
            want = np.interp(np.arange(n), good, y[good])
            rec.close("fill", g, want, rtol=1e-9, ctx=ctx)
        rec.trace()
    else:
        al = (-1, 0, 2)
        for xs in itertools.product(al, repeat=n - 1):
            x = np.array((case["first"],) + xs, dtype=float)
            if np.ptp(x) == 0:
                continue
            for ys in itertools.product(al, repeat=n):
                y = np.array(ys, dtype=float) * 1.5 + 1
                p = np.polyfit(x, y, 1)[0] if False else np.sum((x - x.mean()) * (y - y.mean())) / np.sum((x - x.mean()) ** 2)
                ctx = f"slope({x.tolist()},{y.tolist()})"
                for xx, rm in ((x, True), (x - x.mean(), False), (x + 7, True)):
                    g = must(rec, "slope", ctx, U.slope, xx, y, removemeans=rm)
                    if g is not None:
                        rec.close("slope", g, p, rtol=1e-9, atol=1e-9, ctx=ctx + f" removemeans={rm}")
                        rec.state("slope", xx, y, rm)
                # other units and origins: time stamps, sample times, nanoampere currents on a microampere offset
                for xo, xs_, yo, ys_ in ((1.7e9, 1.0, 0, 1e-9), (500.0, 1.0, 2e-6, 1e-9), (0.0, 1.6e-6, 1e-6, 1e-9), (0.0, 1e3, 3e5, 1.0)):
                    g = must(rec, "slope", ctx, U.slope, xo + xs_ * x, yo + ys_ * y)
                    if g is not None:
                        rec.close("slope", g, p * ys_ / xs_, atol=1e-5 * ys_ / xs_, rtol=1e-5, ctx=ctx + f" for x = {xo}+{xs_}*x, y = {yo}+{ys_}*y")
        rec.trace()
