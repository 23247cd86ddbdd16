"""C25: IBIS curves (bias current vs sensor current)."""
import itertools
import numpy as np
import qetpy as qp
from mc.core import must, attempt, Raised
from mc import ref_of as R

ID = "C25"
LEVEL = "model_checking"
BOUNDS = ("all combinations of data dimension 1-3, temperatures 1-3, channels 1-9, 4 shapes of rp_guess, SC fit on/off, given/"
          "fitted current and bias offsets (numbers or arrays), noiseless and noisy points, index selections, repeated analysis; 4 ratios of normal to parasitic resistance x 5 precisions of the two branches x 2 offsets, so that every term of the error propagation dominates somewhere")
RULE = ("complete enumeration on the real class; oracle: closed-form weighted straight-line fits, intersection of the two lines, "
        "Ohm's law, numerically differentiated error propagation; noiseless data recover the true circuit values")
ASSUMPTIONS = ["errors combine the fit errors of slope and intercept as independent, the convention of the class"]


def cases(tier):
    for dim, nt, nch in ((1, 1, 1), (2, 1, 1), (2, 1, 3), (3, 1, 2), (3, 2, 1), (3, 2, 3), (3, 3, 9)):
        for fitsc in (True, False):
            for rshape in ("scalar", "ch", "tch", "full"):
                if fitsc and rshape in ("tch", "full"):
                    continue
                for off in ("none", "y", "x", "xy", "xyarr"):
                    for noise in (0, 1):
                        for inds in ("range", "list"):
                            yield dict(dim=dim, nt=nt, nch=nch, fitsc=fitsc, rshape=rshape, off=off, noise=noise, inds=inds)
    # every term of the error propagation dominates somewhere: normal resistance as small as the parasitic one, one branch or the other imprecise
    for rscale in (1.0, 0.1, 0.02, 0.005):
        for nerr, scerr in ((1, 30), (30, 1), (1, 1), (1, 1000), (1000, 1)):
            for far in (0, 1):
                for off in ("none", "y", "x"):
                    yield dict(dim=3, nt=2, nch=2, fitsc=True, rshape="scalar", off=off, noise=far, inds="list", rscale=rscale, nerr=nerr, scerr=scerr, far=far)
    for nt, nch, fitsc, rshape, off in itertools.product((2, 3), (1, 2), (True, False), ("scalar", "ch", "tch", "full"), ("none", "xy")):
        if not (fitsc and rshape in ("tch", "full")):
            yield dict(dim=3, nt=nt, nch=nch, fitsc=fitsc, rshape=rshape, off=off, noise=1, inds="range", pad=True)
    for dim, nt, nch, n in ((1, 1, 1, 500), (3, 12, 7, 101), (3, 2, 3, 1001), (3, 70, 2, 40)):      # many temperatures, channels or points
        for fitsc, rshape, off in itertools.product((True, False), ("scalar", "ch", "tch", "full"), ("none", "xy")):
            if not (fitsc and rshape in ("tch", "full")):
                yield dict(dim=dim, nt=nt, nch=nch, fitsc=fitsc, rshape=rshape, off=off, noise=1, inds="range", n=n)
    yield dict(kind="args")


def wfit(x, y, s):
    A = np.stack([np.ones_like(x), x], 1) / s[:, None]
    C = np.linalg.inv(A.T @ A)
    return C @ (A.T @ (y / s)), np.sqrt(np.diag(C))


def numprop(f, x, s):
    tot = 0.0
    for k in range(len(x)):
        h = max(abs(x[k]), s[k], 1e-30) * 1e-5
        up, dn = list(x), list(x)
        up[k] += h
        dn[k] -= h
        tot += ((f(*up) - f(*dn)) / (2 * h) * s[k]) ** 2
    return np.sqrt(tot)


def run(case, rec):
    if case.get("kind") == "args":
        z = np.ones((2, 6))
        for a, kw in ((np.ones((1, 1, 2, 6)), dict(chan_names=["a"])), (z, dict(chan_names=["a"])), (z, dict(chan_names=["a", "b", "c"])),
                      (z, dict(chan_names=["a", "b"], fitsc=True)), (z, dict(chan_names=["a", "b"], rp_guess=np.ones(3))),
                      (z, dict(chan_names=["a", "b"], rp_guess=np.ones((2, 2)))), (z, dict(chan_names=["a", "b"], rp_guess=np.ones((2, 6))))):
            r = attempt(qp.IBIS, a, a, a, a, 5e-3, 1e-4, range(3), **kw)
            rec.step()
            rec.state(a.shape, str(kw))
            if not (isinstance(r, Raised) and isinstance(r.exc, ValueError)):
                rec.fail("args", f"IBIS(dites {a.shape}, {list(kw)}): {r!r} instead of ValueError")
        return
    nt, nch = case["nt"], case["nch"]
    n = 14 if case.get("pad") else case.get("n", 12)
    h, q3 = (6, 9) if n < 20 else (n // 2, 3 * n // 4)
    rsh, rshe = 5e-3, 3e-4
    rp_tc = 6e-3 + 1e-3 * np.arange(nch)[None, :] + 5e-4 * np.arange(nt)[:, None]
    if case["rshape"] in ("scalar", "full"):
        rp_tc = rp_tc if case["rshape"] == "full" else np.full((nt, nch), 6e-3)
    if case["rshape"] == "ch":
        rp_tc = np.tile(rp_tc[:1], (nt, 1))
    rpe_tc = rp_tc * 0.07
    arg = {"scalar": 6e-3, "ch": rp_tc[0].copy(), "tch": rp_tc.copy(), "full": np.repeat(rp_tc[:, :, None], n, 2)}[case["rshape"]]
    arge = {"scalar": 6e-3 * 0.07, "ch": rpe_tc[0].copy(), "tch": rpe_tc.copy(), "full": np.repeat(rpe_tc[:, :, None], n, 2)}[case["rshape"]]
    rn = 0.3 + 0.02 * np.arange(nch)[None, :] + 0.01 * np.arange(nt)[:, None]
    rn = rn * case.get("rscale", 1.0)
    ib = np.repeat(np.repeat((np.linspace(203, -21 if n < 20 else 60, n) * 1e-6)[None, None, :], nt, 0), nch, 1)
    xo = (2e-6 + 1e-6 * np.arange(nch))[None, :] * np.ones((nt, 1))
    yo = (3e-6 - 2e-6 * np.arange(nch))[None, :] * np.ones((nt, 1))
    if not case["fitsc"]:
        xo = xo * 0
    if case.get("far"):         # crossing point of the two branches far from zero bias
        xo, yo = xo - 60e-6, yo + 40e-6
    true = ib - xo[:, :, None]
    it = true * rsh / (rsh + (rp_tc + rn)[:, :, None])
    it[:, :, h:q3] *= 1.7
    it[:, :, q3:] = true[:, :, q3:] * rsh / (rsh + rp_tc[:, :, None])
    derr = (np.abs(R.lcg(ib.size, 4)).reshape(ib.shape) + 0.5) * 1e-8
    derr[:, :, :h] *= case.get("nerr", 1) * (1e-2 if "nerr" in case else 1)
    derr[:, :, q3:] *= case.get("scerr", 1) * (1e-2 if "nerr" in case else 1)
    d = it + yo[:, :, None] + case["noise"] * derr * R.lcg(ib.size, 6).reshape(ib.shape)
    ibe = np.abs(ib) * 0.01
    if case.get("pad"):     # fewer bias points at the other temperatures
        for q in (d, derr, ib, ibe):
            q[1:, :, 12:] = np.nan
            q[2:, 0, 12:] = 1.5e-6
    shp = {1: (n,), 2: (nch, n), 3: (nt, nch, n)}[case["dim"]]
    a = [x.reshape(shp).copy() for x in (d, derr, ib, ibe)]
    keep = [x.copy() for x in a]
    ni = range(0, 5) if case["inds"] == "range" else [0, 1, 2, 4]
    si = range(9, 12) if case["inds"] == "range" else [11, 9, 10]
    if n > 20:
        ni, si = range(0, h - 1), range(q3, n)
    ctx = f"IBIS({case})"
    o = must(rec, "build", ctx, qp.IBIS, *a, rsh, rshe, ni, rp_guess=arg, rp_err_guess=arge, chan_names=[f"c{i}" for i in range(nch)], fitsc=case["fitsc"], scinds=si if case["fitsc"] else None)
    if o is None:
        return
    kw = {}
    full = np.ones((nt, nch, n))
    y3, x3 = 2.5e-6, 1.5e-6
    if "y" in case["off"]:
        kw.update(yoff=y3, yoff_err=4e-8)
    if "x" in case["off"]:
        kw.update(xoff=x3, xoff_err=6e-8)
    if case["off"] == "xyarr":
        kw = {k: v * full for k, v in kw.items()}
    for rep in range(2):
        if must(rec, "analyze", ctx, lambda: (o.analyze(**kw), 1)[1]) is None:
            return
        for x, y in zip(a, keep):
            if not np.array_equal(x, y, equal_nan=True):
                rec.fail("input", f"{ctx}: input arrays modified")
        names = ("ioff", "ioff_err", "ibias_off", "ibias_off_err", "rfit", "rfit_err", "rp", "rp_err", "rnorm", "rnorm_err")
        W = {k: np.zeros((nt, nch)) for k in names}
        S = {k: np.zeros((nt, nch, n)) for k in ("r0", "ptes")}       # size of the terms whose difference is taken
        for k in ("ites", "ites_err", "r0", "r0_err", "ptes", "ptes_err", "vb", "vb_err", "ibias_true", "ibias_true_err"):
            W[k] = np.zeros((nt, nch, n))
        for t in range(nt):
            for c in range(nch):
                ii = list(ni)
                p, pe = wfit(ib[t, c, ii], d[t, c, ii], derr[t, c, ii])
                W["rfit"][t, c] = rsh / p[1]
                W["rfit_err"][t, c] = numprop(lambda m, r: r / m, [p[1], rsh], [pe[1], rshe])
                if case["fitsc"]:
                    jj = list(si)
                    q, qe = wfit(ib[t, c, jj], d[t, c, jj], derr[t, c, jj])
                    rp, rpe = rsh / q[1] - rsh, numprop(lambda m, r: r / m - r, [q[1], rsh], [qe[1], rshe])
                    fx = lambda bn, mn, bs, ms: (bn - bs) / (ms - mn)
                    fy = lambda bn, mn, bs, ms: mn * (bn - bs) / (ms - mn) + bn
                    v, s = [p[0], p[1], q[0], q[1]], [pe[0], pe[1], qe[0], qe[1]]
                    xoff, yoff, xe, ye = fx(*v), fy(*v), numprop(fx, v, s), numprop(fy, v, s)
                else:
                    rp, rpe = rp_tc[t, c], rpe_tc[t, c]
                    xoff, xe, yoff, ye = 0.0, 0.0, p[0], pe[0]
                if "y" in case["off"]:
                    yoff, ye = y3, 4e-8
                if "x" in case["off"]:
                    xoff, xe = x3, 6e-8
                W["rp"][t, c], W["rp_err"][t, c] = rp, rpe
                W["ioff"][t, c], W["ioff_err"][t, c], W["ibias_off"][t, c], W["ibias_off_err"][t, c] = yoff, ye, xoff, xe
                W["rnorm"][t, c] = W["rfit"][t, c] - rsh - rp
                W["rnorm_err"][t, c] = np.hypot(W["rfit_err"][t, c], rpe)
                for i in range(n):
                    x = [ib[t, c, i], xoff, rsh, d[t, c, i], yoff, rp]
                    s = [ibe[t, c, i], xe, rshe, derr[t, c, i], ye, rpe]
                    fr = lambda b, bo, r, dd, io, rr: (b - bo) * r / (dd - io) - (r + rr)
                    fp = lambda b, bo, r, dd, io, rr: (b - bo) * r * (dd - io) - (r + rr) * (dd - io) ** 2
                    tbi, di, rt = x[0] - x[1], x[3] - x[4], x[2] + x[5]
                    S["r0"][t, c, i], S["ptes"][t, c, i] = abs(tbi * rsh / di) + rt, abs(tbi * rsh * di) + rt * di ** 2
                    gr = [rsh / di, -rsh / di, tbi / di - 1, -tbi * rsh / di ** 2, tbi * rsh / di ** 2, -1.0]
                    gp = [rsh * di, -rsh * di, tbi * di - di ** 2, tbi * rsh - 2 * rt * di, -tbi * rsh + 2 * rt * di, -di ** 2]
                    W["r0"][t, c, i], W["r0_err"][t, c, i] = fr(*x), np.sqrt(sum((u * v) ** 2 for u, v in zip(gr, s)))
                    W["ptes"][t, c, i], W["ptes_err"][t, c, i] = fp(*x), np.sqrt(sum((u * v) ** 2 for u, v in zip(gp, s)))
                    W["ites"][t, c, i], W["ites_err"][t, c, i] = d[t, c, i] - yoff, np.hypot(derr[t, c, i], ye)
                    tb = ib[t, c, i] - xoff
                    W["ibias_true"][t, c, i], W["ibias_true_err"][t, c, i] = tb, np.hypot(ibe[t, c, i], xe)
                    W["vb"][t, c, i], W["vb_err"][t, c, i] = tb * rsh, np.hypot(tb * rshe, rsh * np.hypot(ibe[t, c, i], xe))
        if all(hasattr(o, k) for k in ("slope_n", "int_n", "slope_sc", "int_sc")):
            for k in ("slope_n", "int_n", "slope_sc", "int_sc"):
                W[k] = np.zeros((nt, nch, n))
            for t in range(nt):
                for c in range(nch):
                    p, _ = wfit(ib[t, c, list(ni)], d[t, c, list(ni)], derr[t, c, list(ni)])
                    W["int_n"][t, c], W["slope_n"][t, c] = p
                    if case["fitsc"]:
                        W["int_sc"][t, c], W["slope_sc"][t, c] = wfit(ib[t, c, list(si)], d[t, c, list(si)], derr[t, c, list(si)])[0]
        for k, w in W.items():
            try:
                g = np.asarray(getattr(o, k), float)
            except Exception as e:
                rec.fail(k, f"{ctx}: {k}: {e!r}")
                continue
            if g.shape != w.shape:
                rec.fail(k, f"{ctx}: {k} has shape {g.shape}, expected {w.shape}")
                continue
            if not np.array_equal(np.isnan(g), np.isnan(w)):
                rec.fail(k, f"{ctx}: {k}: points that are not a number differ from the padding of the data")
                continue
            terms = S[k][~np.isnan(w)] if k in S else 0.0
            g, w = g[~np.isnan(w)], w[~np.isnan(w)]
            tol = 2e-4 if k.endswith("_err") else 2e-5
            bad = np.abs(g - w) > tol * np.abs(w) + (1e-9 if k.startswith('r0') else 1e-7) * np.max(np.abs(w)) + 1e-6 * terms
            if k.startswith("int_"):
                bad = np.abs(g - w) > tol * np.abs(w) + 1e-5 * 3e-6
            if k in ("ibias_off", "ioff", "rp", "ibias_off_err"):
                bad = np.abs(g - w) > tol * np.abs(w) + 1e-5 * {"ibias_off": 2e-6, "ioff": 3e-6, "rp": 6e-3, "ibias_off_err": 1e-8}[k]
            if np.any(bad):
                j = int(np.flatnonzero(bad)[0])
                rec.fail(k, f"{ctx} (analysis {rep + 1}): {k} is {g.ravel()[j]!r}, expected {w.ravel()[j]!r}")
        if not case["noise"] and case["off"] == "none":
            rec.close("truth", o.rnorm, rn, rtol=1e-5, ctx=ctx + " true normal resistance")
            rec.close("truth", o.rp, rp_tc, rtol=1e-5, ctx=ctx + " true parasitic resistance")
            rec.close("truth", o.ioff, yo, rtol=1e-5, ctx=ctx + " true current offset")
            rec.close("truth", o.ibias_off, xo, rtol=1e-5, atol=1e-12, ctx=ctx + " true bias offset")
        rec.state(case, rep, np.asarray(o.rnorm), np.asarray(o.r0))
    rec.trace()
