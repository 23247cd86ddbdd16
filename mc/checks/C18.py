"""C18: dIdV fits recover the circuit; statistics, fall times and conversions."""
import itertools
import warnings
import numpy as np
import qetpy as qp
from mc import ref_didv as D
from mc.core import must, attempt, Raised

ID = "C18"
LEVEL = "model_checking"
CASE_CPU_S = 120
BOUNDS = ("1-pole: 9 circuits; 2-pole: r0 x beta x loop gain (both sides of one) x tau0 grid of 42 (quick) / 96 (thorough) circuits; "
          "3-pole: 16 / 32 circuits, fitted directly and after the 2-pole fit; each x signal frequency / periods x time offsets of whole and "
          "fractional bins x time guesses within half a bin x add180phase x duty cycle x frequency cut-offs; prior fits of all three models; "
          "fall-time routine on 3780 circuits")
RULE = ("complete enumeration on the real fits of traces synthesised independently from the documented admittance (exact mean, flat known "
        "spread); oracle: the true circuit, the cost and curvature recomputed from traces and returned parameters, poles recomputed by "
        "substituting the fall times into the documented impedance; state = (circuit, configuration, result)")
ASSUMPTIONS = ["the time guess is within half a sample of the truth and the circuits are in the region where the built-in starting values lead to the global optimum (the documentation asks for iterating dt0 otherwise)",
               "covariance means the inverse curvature of the reported cost (which counts positive and negative frequencies)"]
AMP = 4.7e-7
RSH = 5e-3
FS = 625e3


def circuits(m, tier):
    deep = tier != "quick"
    if m == 1:
        for rp, L in itertools.product((6e-3, 0.03, 0.1), (3e-8, 1e-7, 3e-7)):
            if L / (rp + RSH) < 2.8e-5:
                yield dict(rsh=RSH, rp=rp, L=L)
    if m == 2:
        for r0, beta, (l, tau0) in itertools.product((0.0756, 0.2), (0.1, 2) if not deep else (0.1, 0.5, 1, 2),
                                                     [(l, t) for l in (0.3, 0.5, 0.7) for t in (2e-4, 5e-4, 1e-3)] + [(10, 5e-4), (20, 2e-4), (20, 5e-4)]):
            yield dict(rsh=RSH, rp=6e-3, r0=r0, beta=beta, l=l, L=1e-7, tau0=tau0)
    if m == 3:
        for beta, l, tau0, g, t3 in itertools.product((0.1, 2) if deep else (0.1,), (0.5, 10, 15), (5e-4,) if not deep else (5e-4, 7e-4), (0.2, 0.3) if deep else (0.2,), (1e-4, 1e-3)):
            if l > 1 and (beta > 1 or tau0 > 5e-4):
                continue
            yield dict(rsh=RSH, rp=6e-3, r0=0.0756, beta=beta, l=l, L=1e-7, tau0=tau0, gratio=g, tau3=t3)


def cases(tier):
    deep = tier != "quick"
    for m in (1, 2, 3):
        for p in circuits(m, tier):
            for per, bins in (((2, 2500),) if not deep else ((2, 2500), (1, 2501), (3, 1250), (2, 3125))):
                yield dict(kind="fit", m=m, p=p, per=per, bins=bins)
    for p in list(circuits(2, "quick"))[::5] + [next(circuits(1, tier))]:
        yield dict(kind="duty", p=p)
    for m in (1, 2, 3):
        for j, p in enumerate(circuits(m, "quick")):
            if j % (4 if m == 2 else 2) == 0 or deep:
                yield dict(kind="prior", m=m, p=p)
    for beta in (0, 0.3, 2):
        for l in (0.3, 0.5, 0.97, 1.5, 3, 10, 100):
            yield dict(kind="poles", beta=beta, l=l)


def run(case, rec):
    globals()["run_" + case["kind"]](case, rec)


def model_y(f, q, m):
    return 1 / D.zfit(f, q) * np.exp(-2j * np.pi * f * q["dt"])


KEYS = {1: ("A", "tau2", "dt"), 2: ("A", "B", "tau1", "tau2", "dt"), 3: ("A", "B", "C", "tau1", "tau2", "tau3", "dt")}
SKEYS = {1: ("rsh", "rp", "L", "dt"), 2: D.P2 + ("dt",), 3: D.P3 + ("dt",)}


def check_statistics(rec, ctx, r, m, f, dm, sd, keys, ymodel, pnames):
    """cost, covariance, errors of a result against the data."""
    q = r["params"]
    x0 = np.array([q[k] for k in keys])

    def resid(x):
        d = dm - ymodel(f, dict(zip(keys, x)))
        return np.concatenate([d.real / sd.real, d.imag / sd.imag])
    cost = 0.5 * np.sum(resid(x0) ** 2)
    rec.true("cost", abs(r["cost"] - cost) <= 1e-4 * cost + 1e-4, f"{ctx}: reported cost {r['cost']!r}, recomputed {cost!r}")
    cov = np.asarray(r["cov"])
    if not rec.true("cov", cov.shape == (len(keys), len(keys)) and np.all(np.isfinite(cov)), f"{ctx}: covariance shape {cov.shape}"):
        return
    rec.true("cov", np.allclose(cov, cov.T, rtol=1e-4, atol=1e-4 * np.sqrt(np.outer(np.diag(cov), np.diag(cov))).max()) and np.all(np.diag(cov) >= 0), f"{ctx}: covariance not symmetric positive")
    e = np.array([r["errors"][k] for k in keys])
    rec.true("errors", np.allclose(e, np.sqrt(np.diag(cov)), rtol=1e-8), f"{ctx}: errors are not the square roots of the covariance diagonal")
    rec.true("errors", list(r["errors"]) == list(q) == list(pnames), f"{ctx}: result names {list(r['errors'])} {list(q)}")
    return x0, resid, cov


def jac(resid, x0, cov):
    J = []
    for i in range(len(x0)):
        h = 1e-4 * max(np.sqrt(cov[i, i]), 1e-7 * abs(x0[i]))
        h = max(h, abs(x0[i]) * 1e-6)
        a, b = x0.copy(), x0.copy()
        a[i] += h
        b[i] -= h
        J.append((resid(a) - resid(b)) / (2 * h))
    return np.array(J).T


def check_cov(rec, ctx, x0, resid, cov, extra=0):
    J = jac(resid, x0, cov)
    H = J.T @ J + extra
    s = np.sqrt(np.diag(cov))
    M = (H * np.outer(s, s)) @ (cov / np.outer(s, s))
    c = np.linalg.cond(H * np.outer(s, s))
    rec.true("cov", np.max(np.abs(M - np.eye(len(x0)))) < 0.3 + 1e-6 * c, f"{ctx}: covariance is not the inverse curvature of the cost (product with it {np.round(np.diag(M), 4).tolist()})")


def check_falltimes(rec, ctx, r, ss, m, npoles):
    ft = np.atleast_1d(r["falltimes"])
    if not rec.true("falltimes", len(ft) == npoles, f"{ctx}: {len(ft)} fall times for {npoles} poles"):
        return
    rec.true("falltimes", np.all(np.diff(ft.real) >= -1e-9 * np.abs(ft).max()), f"{ctx}: fall times not sorted {ft}")
    poles_ok(rec, "falltimes", ctx, ft, ss)


def poles_ok(rec, key, ctx, ft, ss):
    """every -1/tau is a zero of the documented impedance; all of them (product rule) are present."""
    for t in ft:
        s = -1 / t
        parts = [ss["rsh"] + ss["rp"] + s * ss["L"]]
        if "r0" in ss:
            parts.append(ss["r0"] * (1 + ss["beta"]))
            parts.append(D.zs(s, ss) - parts[0] - parts[1])
        tot, size = abs(D.zs(s, ss)), max(np.sum(np.abs(parts)), abs(s) * ss["L"], ss["rsh"])
        # numerical sensitivity: relative change of Z for a relative change 1e-6 of the pole
        rec.true(key, tot <= 1e-5 * size or tot <= 2 * abs(D.zs(s * (1 + 1e-6), ss) - D.zs(s, ss)), f"{ctx}: fall time {t!r} is not a pole of the admittance (|Z| = {tot:.3g}, terms {size:.3g}); all {np.asarray(ft).tolist()}")
    # completeness: sum of the fall times = -Z'(0)/Z(0) + (contribution of the poles of Z)
    if "r0" in ss:
        den = [1 - ss["l"], ss["tau0"]]
        if "gratio" in ss:
            den = [1 - ss["l"] - ss["gratio"], ss["tau0"] + (1 - ss["l"]) * ss["tau3"]]
        num0 = D.zs(0, ss) * den[0]
        h = 1e-6 / max(abs(np.asarray(ft)).max(), 1e-9)
        dz = (D.zs(h, ss) - D.zs(-h, ss)) / (2 * h)
        num1 = dz * den[0] + D.zs(0, ss) * den[1]
        want = num1 / num0
        rec.true(key, abs(np.sum(ft) - want) <= 1e-4 * np.sum(np.abs(ft)), f"{ctx}: sum of the fall times {np.sum(ft)!r}, expected {want!r}")


def run_fit(case, rec):
    m, p, per, bins = case["m"], case["p"], case["per"], case["bins"]
    sg = FS / bins
    n = per * bins
    f = np.fft.fftfreq(n, d=1 / FS)
    for shift, ddt, phase, cut in ((0.25, 0.1, False, np.inf), (1, -0.4, False, np.inf), (7.3, 0.4, True, np.inf), (2, -2.0, False, 1.1e5), (-3, 0.2, False, np.inf)):
        y = D.response(p, n, per, FS, sg, AMP, 0.5, shift)
        tr = D.traces(y, 2e-4 * np.max(np.abs(y)), 3, 4e-6)
        dt0 = (shift + ddt) / FS - (1 / (2 * sg) if phase else 0)
        for order in ([(m,)] if m < 3 else [(3,), (2, 3)]):
            ctx = f"{m}-pole {p} shift {shift} dt0 {dt0:g} add180phase {phase} fcutoff {cut:g} order {order}"
            o = qp.DIDV(tr, FS, sg, AMP, RSH, r0=p.get("r0", 0.3), rp=p["rp"], add180phase=phase, dt0=dt0)
            for k in order:
                must(rec, "fit", ctx, o.dofit, k, fcutoff=cut)
            if rec.problems:
                return
            r = o.fitresult(m)
            q, ss = r["params"], r["smallsignalparams"]
            rec.state(case, shift, ddt, phase, cut, order, [round(float(q[k] / (abs(q[k]) + 1e-30)), 3) for k in q], round(float(q["dt"] * FS), 3))
            rec.true("names", tuple(q) == KEYS[m] and tuple(ss) == SKEYS[m], f"{ctx}: names {list(q)} {list(ss)}")
            if rec.problems:
                return
            on, dm, sd = D.deconvolve(tr, per, 0.5, AMP, RSH)
            fon = f[on]
            sel = (np.abs(fon) < cut) & (np.flatnonzero(on) != n // 2)
            fon, dm, sd = fon[sel], dm[sel], sd[sel]
            truth = 1 / D.z(fon, p) * np.exp(-2j * np.pi * fon * shift / FS)
            got = model_y(fon, q, m)
            rec.true("recovery", np.max(np.abs(got - truth)) <= 1e-4 * np.max(np.abs(truth)), f"{ctx}: fitted admittance is off by {np.max(np.abs(got - truth)) / np.max(np.abs(truth)):.3g}")
            eff = 0.0
            true_dt = shift / FS
            rec.true("recovery", abs(q["dt"] - true_dt) < 1e-9 and abs(ss["dt"] - q["dt"]) == 0, f"{ctx}: time offset {q['dt']!r} instead of {true_dt!r}")
            for k in p:
                rec.true("recovery", abs(ss[k] - p[k]) <= 1e-3 * abs(p[k]), f"{ctx}: {k} = {ss[k]!r} instead of {p[k]!r}")
            a, b = D.z(fon, {k: ss[k] for k in ss if k != "dt"}), D.zfit(fon, q)
            rec.true("conversion", np.allclose(a, b, rtol=1e-7), f"{ctx}: fit parameters and small-signal parameters describe different circuits")
            d0 = 1 / np.real(D.z(0.0, {k: ss[k] for k in ss if k != "dt"}))
            rec.true("didv0", abs(r["didv0"] - d0) <= 1e-7 * abs(d0), f"{ctx}: didv0 {r['didv0']!r} instead of {d0!r}")
            st = check_statistics(rec, ctx, r, m, fon, dm, sd, KEYS[m], lambda ff, qq: model_y(ff, qq, m), KEYS[m])
            if st and m < 3:
                check_cov(rec, ctx, *st)
            check_falltimes(rec, ctx, r, ss, m, m)
            if rec.problems:
                return
    rec.trace()


def run_duty(case, rec):
    p = case["p"]
    m = 1 if "r0" not in p else 2
    bins, per = 2500, 2
    sg, n = FS / bins, per * bins
    f = np.fft.fftfreq(n, d=1 / FS)
    for d in (0.45, 0.5, 0.55):
        y = D.response(p, n, per, FS, sg, AMP, d, 2)
        tr = D.traces(y, 2e-4 * np.max(np.abs(y)), 3, 4e-6)
        o = qp.DIDV(tr, FS, sg, AMP, RSH, r0=p.get("r0", 0.3), rp=p["rp"], dutycycle=d, dt0=2.2 / FS)
        must(rec, "duty", f"duty {d} {p}", o.dofit, m)
        if rec.problems:
            return
        ss = o.fitresult(m)["smallsignalparams"]
        for k in p:
            rec.true("duty", abs(ss[k] - p[k]) <= 2e-3 * abs(p[k]), f"duty cycle {d}, {p}: {k} = {ss[k]!r} instead of {p[k]!r}")
        rec.state(case, d, [round(float(ss[k] / p[k]), 2) for k in p if p[k]])
    rec.trace()


def run_prior(case, rec):
    m, p = case["m"], case["p"]
    bins, per = 2500, 2
    sg, n = FS / bins, per * bins
    f = np.fft.fftfreq(n, d=1 / FS)
    y = D.response(p, n, per, FS, sg, AMP, 0.5, 2)
    names = SKEYS[m]
    tr = D.traces(y, 5e-3 * np.max(np.abs(y)), 3, 4e-6)
    keep = tr.copy()
    for pull, phase in ((0.0, False), (0.0, True), (0.05, False)):
        pri = np.zeros(len(names))
        cov = np.zeros((len(names), len(names)))
        for j, k in enumerate(names[:2 if m == 1 else 3]):
            pri[j] = p[k] * (1 + pull * (1 if j % 2 else -1))
            cov[j, j] = (0.05 * p[k]) ** 2
        pri0, cov0 = pri.copy(), cov.copy()
        dt0 = 2.2 / FS - (1 / (2 * sg) if phase else 0)
        ctx = f"prior fit {m}-pole {p} pull {pull} add180phase {phase}"
        o = qp.DIDVPriors(tr, FS, sg, AMP, RSH, dt0=dt0, add180phase=phase)
        must(rec, "prior", ctx, o.dofit, m, pri, cov)
        if rec.problems:
            return
        rec.true("purity", np.array_equal(pri, pri0) and np.array_equal(cov, cov0) and np.array_equal(tr, keep), f"{ctx}: arguments modified")
        r = o.fitresult(m)
        q = r["params"]
        rec.true("names", tuple(q) == names, f"{ctx}: names {list(q)}")
        rec.true("priors-kept", np.array_equal(r["priors"], pri0) and np.array_equal(r["priorscov"], cov0), f"{ctx}: stored priors differ")
        if rec.problems:
            return
        on, dm, sd = D.deconvolve(tr, per, 0.5, AMP, RSH)
        sel = np.flatnonzero(on) != n // 2
        fon, dm, sd = f[on][sel], dm[sel], sd[sel]
        x0 = np.array([q[k] for k in names])
        ic = np.linalg.pinv(cov0)

        def ym(x):
            qq = dict(zip(names, x))
            dt = qq.pop("dt")
            return x[0] / D.z(fon, qq) * np.exp(-2j * np.pi * fon * dt)

        def cost(x):
            e = dm * RSH - ym(x)
            return 0.5 * np.sum((e.real / (sd.real * RSH)) ** 2 + (e.imag / (sd.imag * RSH)) ** 2) + 0.5 * (x - pri0) @ ic @ (x - pri0)
        c = cost(x0)
        truth = np.array([2.0 / FS if k == "dt" else p[k] for k in names])
        rec.true("cost", abs(r["cost"] - c) <= 1e-4 * c + 1e-3, f"{ctx}: reported cost {r['cost']!r}, recomputed with the priors {c!r}")
        rec.true("prior-optimum", c <= cost(truth) + 0.5, f"{ctx}: cost {c:.6g} exceeds that of the true circuit {cost(truth):.6g}")
        if pull == 0:
            got, want = ym(x0), ym(truth)
            rec.true("prior-recovery", np.max(np.abs(got - want)) < 5e-3 * np.max(np.abs(want)), f"{ctx}: fitted admittance is off by {np.max(np.abs(got - want)) / np.max(np.abs(want)):.3g}")
            rec.true("prior-recovery", abs(q["dt"] - 2 / FS) < 2e-7, f"{ctx}: dt {q['dt']!r} instead of {2 / FS!r}")
            for k in names[:2 if m == 1 else 3]:
                rec.true("prior-recovery", abs(q[k] - p[k]) < 0.05 * p[k], f"{ctx}: {k} = {q[k]!r}, prior and truth {p[k]!r}")
        e = np.array([r["errors"][k] for k in names])
        rec.true("errors", np.shape(r["cov"]) == (len(names),) * 2 and np.allclose(e ** 2, np.diag(r["cov"]), rtol=1e-6), f"{ctx}: errors are not from the covariance")
        ss = {k: q[k] for k in names if k != "dt"}
        check_falltimes(rec, ctx, r, ss, m, m)
        d0 = 1 / np.real(D.z(0.0, ss))
        rec.true("didv0", abs(r["didv0"] - d0) <= 1e-7 * abs(d0), f"{ctx}: didv0 {r['didv0']!r} instead of {d0!r}")
        rec.state(case, pull, phase, np.round(x0 / np.where(truth == 0, 1, truth), 2))
    rec.trace()


def run_poles(case, rec):
    fn, cv = getattr(qp.DIDV, "_findpolefalltimes", None), getattr(qp.DIDV, "_convertfromtesvalues", None)
    if fn is None or cv is None:
        rec.note("helper_missing")
        return
    for tau0, L, r0 in itertools.product((1e-5, 5e-5, 2e-4, 5e-4, 5e-3), (1e-8, 1e-7, 1e-6), (0.03, 0.0756, 0.3)):
        for g, t3 in ((None, None),) + tuple(itertools.product((0.1, 0.45, 2), (1e-4, 1e-3))):
            p = dict(rsh=RSH, rp=6e-3, r0=r0, beta=case["beta"], l=case["l"], L=L, tau0=tau0)
            if g is not None:
                p.update(gratio=g, tau3=t3)
            if g is not None and abs(1 - case["l"] - g) < 1e-6:
                continue
            x = cv(tuple(p[k] for k in (D.P3 if g is not None else D.P2)) + (0.0,))
            ft = must(rec, "falltimes", f"fall times of {p}", fn, x)
            if ft is None:
                return
            want = 3 if g is not None else 2
            if rec.true("falltimes", np.shape(ft) == (want,), f"{p}: {np.shape(ft)} fall times"):
                poles_ok(rec, "falltimes", f"circuit {p}", ft, p)
            rec.state(case, tau0, L, r0, g, t3, np.round(np.asarray(ft) * 1e6, 4))
            if len(rec.problems) > 5:
                return
    rec.trace()
