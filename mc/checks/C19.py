"""C19: IV curves."""
import itertools
import numpy as np
import qetpy as qp
from mc.core import must, attempt, Raised
from mc import ref_of as R

ID = "C19"
LEVEL = "model_checking"
BOUNDS = ("all combinations of data dimension 1-3, temperatures 1-3, channels 1-9, 4 shapes of rload, 3 kinds of normal-point "
          "selection (range, list, array, automatic; the automatic one decided exactly on 2-12 points x number of normal points x scatter x NaN padding), noisy and noiseless points, NaN padding, signs of the bias, repeated calc_iv")
RULE = ("complete enumeration of the argument shapes on the real class; oracle: closed-form weighted straight-line fit, Ohm's law "
        "and numerically differentiated error propagation of independent inputs; state = (configuration, results)")
ASSUMPTIONS = ["errors treat bias voltage, current, offset and load resistance as independent (as documented by the formulas of the class)"]


def cases(tier):
    for dim, nt, nch in ((1, 1, 1), (2, 1, 1), (2, 1, 3), (3, 1, 2), (3, 2, 1), (3, 2, 3), (3, 3, 9)):
        for rshape in ("scalar", "ch", "tch", "full"):
            for ninds in ("range", "list", "array", "auto"):
                for sign in (1, -1):
                    for noise in (0, 1):
                        yield dict(dim=dim, nt=nt, nch=nch, rshape=rshape, ninds=ninds, sign=sign, noise=noise, pad=(nt == 2))
    for n in (2, 3, 4, 6, 12):
        for normal in (2, 3, 4, 6, 12):
            for amp in (0, 1, 3, 6, 9, 14):
                for pad in (0, 2):
                    if normal <= n:
                        yield dict(kind="auto", n=n, normal=normal, amp=amp, pad=pad)
    for dim, nt, nch, n in ((1, 1, 1, 500), (3, 12, 7, 101), (3, 2, 3, 1001), (3, 70, 2, 40)):      # many temperatures, channels or points
        for rshape in ("scalar", "ch", "tch", "full"):
            for ninds in ("range", "list", "array"):
                yield dict(dim=dim, nt=nt, nch=nch, rshape=rshape, ninds=ninds, sign=1, noise=1, pad=(nt == 2), n=n)
    yield dict(kind="args")


def wfit(x, y, s):
    A = np.stack([np.ones_like(x), x], 1) / s[:, None]
    C = np.linalg.inv(A.T @ A)
    return C @ (A.T @ (y / s)), C


def make(case, rl):
    nt, nch = case["nt"], case["nch"]
    n = case.get("n", 12)
    vb = np.zeros((nt, nch, n))
    d = np.zeros_like(vb)
    for t in range(nt):
        for c in range(nch):
            v = np.linspace(10, 1, n) * 1e-6 * case["sign"]
            rn = 0.3 + 0.02 * c
            p0 = 8e-12 / 6 * (1 + 0.1 * t)
            ites = v / (rn + rl[t, c])
            # transition: constant power below a threshold
            for i in range(n):
                if i >= n // 2:
                    # i v - rl i^2 = p
                    pt = ites[n // 2 - 1] ** 2 * rn
                    disc = v[i] ** 2 - 4 * rl[t, c, i] * pt
                    ites[i] = np.nan if disc < 0 else (v[i] - case["sign"] * np.sqrt(disc)) / (2 * rl[t, c, i])
            ites = np.where(np.isnan(ites), v / rl[t, c], ites)
            vb[t, c] = v
            d[t, c] = ites + 2e-6 * (c + 1) * (1 + t)
    derr = np.abs(R.lcg(vb.size, 4)).reshape(vb.shape) * 1e-9 + 1e-9
    d = d + case["noise"] * derr * R.lcg(vb.size, 5).reshape(vb.shape) * 0.5
    if case["pad"]:
        for a in (vb, d, derr):
            a[1, :, -2:] = np.nan
    return vb, d, derr


def run_auto(case, rec):
    """Automatic selection, exactly: every point up to the first one at which the reduced chi-square of the straight line through
    the points so far exceeds the documented cutoff of 10 (the last point of a curve that stays normal may be left out)."""
    n, pad = case["n"], case["pad"]
    for seed in range(1, 7):
        for sign in (1, -1):
            v = sign * np.linspace(10, 1, n) * 1e-6
            s = np.array([1e-9 * (1 + (k * seed) % 3) for k in range(n)])
            d = v / 0.31 + 1e-6 + case["amp"] * s * R.lcg(n, seed)
            d[case["normal"]:] += sign * 4e-8 * np.arange(1, n - case["normal"] + 1)
            blocks = []
            m, near = 2, False
            while m < n:
                p, _ = wfit(v[:m + 1], d[:m + 1], s[:m + 1])
                c2 = np.sum(((d[:m + 1] - p[0] - p[1] * v[:m + 1]) / s[:m + 1]) ** 2) / (m - 1)
                near = near or abs(c2 - 10) < 1e-3
                if c2 > 10:
                    break
                m += 1
            if near:
                continue                    # a decision at rounding distance of the cutoff is not settled by the documentation
            blocks = [m] if m < n or n == 2 else [m, m - 1]
            full = [np.concatenate([x, np.full(pad, np.nan)])[None, None] for x in (d, s, v, np.abs(v) * 0.01)]
            ctx = f"IV(normalinds=None) on {n} points + {pad} NaN, {case['normal']} normal, scatter {case['amp']} sigma, data set {seed}, polarity {sign}"
            rec.state(case, seed, sign, m)
            if n == 2 and m == 2:
                blocks = [2]
            o = must(rec, "auto", ctx, lambda: qp.IV(*full, 5e-3, 1e-4, ["a"]))
            if o is None:
                return
            r = attempt(o.calc_iv)
            rec.step()
            if isinstance(r, Raised):
                if n <= 2 or max(blocks) < 2 or min(blocks) < 2:
                    continue
                rec.fail("auto", f"{ctx}: {r!r}")
                continue
            ok = []
            for b in blocks:
                p, C = wfit(v[:b], d[:b], s[:b])
                ok.append(abs(o.ioff[0, 0] - p[0]) < 1e-6 * np.max(np.abs(d)) and abs(o.rfit[0, 0] * p[1] - 1) < 1e-6 and
                          abs(o.ioff_err[0, 0] / np.sqrt(C[0, 0]) - 1) < 1e-4 and abs(o.rfit_err[0, 0] / np.sqrt(C[1, 1]) * p[1] ** 2 - 1) < 1e-4)
            if not any(ok):
                rec.fail("auto", f"{ctx}: ioff {o.ioff[0, 0]!r} +- {o.ioff_err[0, 0]!r}, rfit {o.rfit[0, 0]!r} are not those of the first {blocks} points, which the cutoff selects")
    rec.trace()


def run(case, rec):
    if case.get("kind") == "auto":
        return run_auto(case, rec)
    if case.get("kind") == "args":
        z = np.ones((2, 4))
        for a, names, rl in ((np.ones((1, 1, 2, 4)), ["a"], 1.0), (z, ["a"], 1.0), (z, ["a", "b", "c"], 1.0), (z, ["a", "b"], np.ones(3)), (z, ["a", "b"], np.ones((2, 2))), (z, ["a", "b"], np.ones((2, 4)))):
            r = attempt(qp.IV, a, a, a, a, rl, rl, names)
            rec.step()
            rec.state(a.shape, len(names), np.shape(rl))
            if not (isinstance(r, Raised) and isinstance(r.exc, ValueError)):
                rec.fail("args", f"IV(dites {a.shape}, {len(names)} names, rload {np.shape(rl)}): {r!r} instead of ValueError")
        return
    nt, nch = case["nt"], case["nch"]
    n = case.get("n", 12)
    rl_tc = 5e-3 + 1e-3 * np.arange(nch)[None, :] + 5e-4 * np.arange(nt)[:, None]
    if case["rshape"] == "scalar":
        rl, arg = np.full((nt, nch, n), 6e-3), 6e-3
        rle, arge = np.full((nt, nch, n), 2e-4), 2e-4
    elif case["rshape"] == "ch":
        rl = np.repeat(np.tile(rl_tc[:1], (nt, 1))[:, :, None], n, 2)
        arg, rle = rl_tc[0].copy(), rl * 0.1
        arge = arg * 0.1
    elif case["rshape"] == "tch":
        rl = np.repeat(rl_tc[:, :, None], n, 2)
        arg, rle = rl_tc.copy(), rl * 0.1
        arge = arg * 0.1
    else:
        rl = rl_tc[:, :, None] + 1e-4 * np.arange(n)
        arg, rle = rl.copy(), rl * 0.1
        arge = arg * 0.1
    vb, d, derr = make(case, rl)
    verr = np.abs(vb) * 0.01
    shp = {1: (n,), 2: (nch, n), 3: (nt, nch, n)}[case["dim"]]
    inds = {"range": range(0, 5), "list": [0, 1, 3, 4], "array": np.array([4, 0, 2]), "auto": None}[case["ninds"]]
    if n > 12:
        inds = {"range": range(0, n // 2 - 1), "list": list(range(0, n // 2, 3)), "array": np.arange(n // 2)[::-1]}[case["ninds"]]
    a = [x.reshape(shp).copy() for x in (d, derr, vb, verr)]
    keep = [x.copy() for x in a]
    ctx = f"IV({case})"
    o = must(rec, "build", ctx, qp.IV, *a, arg, arge, [f"c{i}" for i in range(nch)], normalinds=inds)
    if o is None:
        return
    for rep in range(2):
        if must(rec, "calc", ctx, lambda: (o.calc_iv(), 1)[1]) is None:
            return
        for x, y in zip(a, keep):
            if not np.array_equal(x, y, equal_nan=True):
                rec.fail("input", f"{ctx}: input arrays modified")
        ioff, ioe, rf, rfe = (np.zeros((nt, nch)) for _ in range(4))
        for t in range(nt):
            for c in range(nch):
                ii = list(inds) if inds is not None else None
                if ii is None:
                    # automatic selection: the fit must be that of some leading block of truly normal points
                    best = None
                    for m in range(2, 7):
                        p, C = wfit(vb[t, c, :m], d[t, c, :m], derr[t, c, :m])
                        e = abs(np.asarray(o.ioff)[t, c] - p[0]) / abs(p[0])
                        e = max(e, 1e-7) + 1e-6 * abs(np.log(np.asarray(o.ioff_err)[t, c] / np.sqrt(C[0, 0])))
                        if best is None or e < best[0]:
                            best = (e, p, C)
                    _, p, C = best
                else:
                    p, C = wfit(vb[t, c, ii], d[t, c, ii], derr[t, c, ii])
                ioff[t, c], ioe[t, c] = p[0], np.sqrt(C[0, 0])
                rf[t, c], rfe[t, c] = 1 / p[1], np.sqrt(C[1, 1]) / p[1] ** 2
        i3, e3 = ioff[:, :, None], ioe[:, :, None]
        ites = d - i3
        want = dict(ioff=ioff, ioff_err=ioe, rfit=rf, rfit_err=rfe, rnorm=rf - rl[:, :, 0], rnorm_err=np.sqrt(rfe ** 2 + rle[:, :, 0] ** 2),
                    ites=ites, ites_err=np.sqrt(derr ** 2 + e3 ** 2), r0=vb / ites - rl, ptes=ites * vb - rl * ites ** 2)
        ie = want["ites_err"]

        def prop(f):
            x = [ites, vb, rl]
            s = [ie, verr, rle]
            tot = 0
            for k in range(3):
                h = np.abs(x[k]) * 1e-5
                up = [v + h if j == k else v for j, v in enumerate(x)]
                dn = [v - h if j == k else v for j, v in enumerate(x)]
                tot = tot + ((f(*up) - f(*dn)) / (2 * h) * s[k]) ** 2
            return np.sqrt(tot)
        want["r0_err"] = prop(lambda i, v, r: v / i - r)
        want["ptes_err"] = prop(lambda i, v, r: i * v - r * i * i)
        for k, w in want.items():
            g = getattr(o, k)
            tol = 1e-4 if k.endswith("_err") else 1e-6
            try:
                g = np.asarray(g, float)
            except Exception:
                rec.fail(k, f"{ctx}: {k} is {g!r}")
                continue
            if g.shape != w.shape or not np.array_equal(np.isnan(g), np.isnan(w)):
                rec.fail(k, f"{ctx}: {k} has shape {g.shape} / NaN pattern different from the data")
                continue
            m = ~np.isnan(w)
            dd = np.abs(g - w)[m] > tol * (np.abs(w)[m] + (1e-3 * np.nanmax(np.abs(w)) if not k.endswith("_err") else 0))
            if np.any(dd):
                j = int(np.flatnonzero(dd)[0])
                rec.fail(k, f"{ctx} (calc_iv call {rep + 1}): {k} is {g[m][j]!r}, expected {w[m][j]!r}")
        if not case["noise"] and case["ninds"] != "auto":
            tr = np.array([[0.3 + 0.02 * c for c in range(nch)]] * nt)
            if case["rshape"] != "full":
                rec.close("rnorm", o.rnorm, tr, rtol=1e-4, ctx=ctx + " true normal resistance")
        rec.state(case, rep, np.asarray(o.rnorm), np.asarray(o.r0))
    rec.trace()
