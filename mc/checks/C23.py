"""C23: TES power, absorbed energy, muon offset and thermal conductance conversions."""
import itertools
import numpy as np
from scipy import constants
import qetpy.utils as U
from mc.core import must, attempt, Raised
from mc import ref_of as R

ID = "C23"
LEVEL = "model_checking"
BOUNDS = ("energy_absorbed/powertrace: all combinations of 3 circuit settings, 1-4 dim traces, pre/post baseline regions at every "
          "bin of an 8-bin trace, batches to 2053 traces, traces to 10007 samples, explicit baselines, fs or (even/uneven) time; estimate_g: 4 p0 x 3 tc x 4 tbath x n 2..6 x 5 covariances; "
          "get_offset_from_muon: 3 bias x 3 rn x 3 rload x 4 baselines")
RULE = "complete enumeration on the real functions against independent sums and numerical derivatives; state = (function, input, output)"
ASSUMPTIONS = []

CIRC = [dict(ioffset=0.0, qetbias=1.0, rload=1.0, rsh=1.0), dict(ioffset=1e-7, qetbias=2e-4, rload=7e-3, rsh=5e-3),
        dict(ioffset=-0.3, qetbias=-1.5, rload=0.25, rsh=0.5)]
SHAPES = [(8,), (3, 8), (2, 3, 8), (2, 1, 2, 8), (1031, 8), (2053, 2, 8), (2, 10007), (300, 625), (2, 70001)]


def cases(tier):
    for c in range(3):
        for s in range(9):
            for seed in range(1 if s > 3 else 2 if tier == "quick" else 6):
                yield dict(kind="energy", c=c, s=s, seed=seed)
    for n in (2, 3, 4, 5, 6):
        yield dict(kind="g", n=n)
    yield dict(kind="muon")


def power(tr, c):
    i = tr - c["ioffset"]
    return i * c["qetbias"] * c["rsh"] - c["rload"] * i * i


def trapz(y, x):
    return np.sum((y[..., 1:] + y[..., :-1]) * np.diff(x) / 2, axis=-1)


def run(case, rec):
    k = case["kind"]
    if k == "energy":
        c = CIRC[case["c"]]
        shape = SHAPES[case["s"]]
        n = shape[-1]
        some = range(0, n) if n == 8 else (0, 1, n // 3, 5000 % n, n - 1)
        sc = 1e-6 if case["c"] == 1 else 1.0
        tr = (R.lcg(int(np.prod(shape)), case["seed"]).reshape(shape) + 0.5) * sc
        tr0 = tr.copy()
        ctx = f"circuit {c} shape {shape}"
        p = must(rec, "power", ctx, U.powertrace_simple, tr, **c)
        if p is not None:
            rec.close("power", p, power(tr, c), rtol=1e-10, ctx="powertrace_simple " + ctx)
        even = np.arange(n) / 625e3
        uneven = np.cumsum(1 + np.arange(n) % 977) * 1e-6
        bases = [(dict(indbasepre=i, indbasepost=j), np.concatenate((tr[..., :i], tr[..., j:] if j is not None else tr[..., :0]), axis=-1).mean(axis=-1, keepdims=True))
                 for i in [*some, n] for j in [None, *some]
                 if (i > 0 or j is not None)]
        bl = R.lcg(int(np.prod(shape[:-1])) if len(shape) > 1 else 1, 9).reshape(shape[:-1] + (1,)) * sc
        bases.append((dict(baseline=bl), bl))
        for kw, b in bases:
            for tkw, x in ((dict(fs=625e3), even), (dict(time=even), even), (dict(time=uneven), uneven)):
                cx = f"energy_absorbed({ctx}, {list(kw.items()) if 'baseline' not in kw else 'baseline'}, {list(tkw)[0]}{' uneven' if x is uneven else ''})"
                g = must(rec, "energy", cx, U.energy_absorbed, tr, **c, **kw, **tkw)
                if g is None:
                    continue
                d = power(b, c) - power(tr, c)
                rec.close("energy", g, trapz(d, x) / constants.e, rtol=1e-8, scale=float(np.max(np.abs(d)) * np.ptp(x) / constants.e), ctx=cx)
                rec.state(cx, np.asarray(g))
            r = attempt(U.energy_absorbed, tr, **c, **kw)
            if not (isinstance(r, Raised) and isinstance(r.exc, ValueError)):
                rec.fail("energy", f"energy_absorbed without fs/time gave {r!r}")
        r = attempt(U.energy_absorbed, tr, fs=1.0, **c)
        if not (isinstance(r, Raised) and isinstance(r.exc, ValueError)):
            rec.fail("energy", f"energy_absorbed without baseline gave {r!r}")
        if not np.array_equal(tr, tr0):
            rec.fail("energy", f"{ctx}: input modified")
        rec.trace()
    elif k == "g":
        n = case["n"]
        f = lambda p, tc, tb: n * p * tc ** (n - 1) / (tc ** n - tb ** n)
        for p0 in (3e-12, 1e-13, 5e-9, -2e-12):
            for tc in (40e-3, 52e-3, 1.0):
                for tb in (0, 10e-3, 30e-3, 0.5 * tc):
                    g0 = f(p0, tc, tb)
                    for perr in (0, 0.1, 2.0):
                        ctx = f"estimate_g(p0={p0}, tc={tc}, tbath={tb}, n={n}, p0_err={perr * abs(p0)})"
                        g = must(rec, "g", ctx, U.estimate_g, p0, tc, tb, p0_err=perr * abs(p0), n=n)
                        if g is not None:
                            rec.close("g", g, [g0, abs(perr * g0)], rtol=1e-9, ctx=ctx)
                            rec.state(ctx)
                    v = np.array([p0, tc, tb], dtype=float)
                    st = np.array([abs(p0), tc, max(tb, 0.1 * tc)])
                    J = np.zeros(3)
                    for i in range(3):
                        h = np.zeros(3)
                        h[i] = 1e-4 * st[i]
                        J[i] = (f(*(v + h)) - f(*(v - h))) / (2 * h[i])
                    for r01, r02, r12 in ((0, 0, 0), (-.95, -.95, .95), (.5, 0, 0), (0, -.7, 0), (0, 0, .6)):
                        s = st * np.array([0.3, 0.02, 0.1])
                        cov = np.array([[1, r01, r02], [r01, 1, r12], [r02, r12, 1]]) * np.outer(s, s)
                        c0 = cov.copy()
                        ctx = f"estimate_g(p0={p0}, tc={tc}, tbath={tb}, n={n}, cov=rho{(r01, r02, r12)})"
                        g = must(rec, "g", ctx, U.estimate_g, p0, tc, tb, cov=cov, n=n)
                        if g is None:
                            continue
                        rec.state(ctx)
                        rec.close("g", g[0], g0, rtol=1e-9, ctx=ctx)
                        want = np.sqrt(J @ cov @ J)
                        lim = np.sqrt((J * s) @ (J * s))
                        rec.close("g", g[1], want, rtol=1e-4, scale=float(lim), ctx=ctx + " error")
                        if not np.array_equal(cov, c0):
                            rec.fail("g", f"{ctx}: covariance modified")
        rec.trace()
    else:
        for qb, rn, rl, nb, b0, d in itertools.product((2e-4, 1e-4, 5e-5), (0.03, 0.1, 0.3), (6e-3, 1e-2, 2e-2), (50, 100, 300, 300.7), (0.0, 3e-7, -1e-6), (0.2, 0.7)):
            rsh = 5e-3
            inorm = qb * rsh / (rl + rn)
            i0 = inorm / d            # quiescent current: larger than the normal state one
            off = b0 - i0
            # saturated muon: current falls (in measured, the muon pulse is positive toward normal state)
            n = 2000
            delta = inorm - i0
            # measured current of a fully saturating muon relative to baseline; positive polarity needed by argmax
            tr = np.full(n, b0)
            tr[400:600] = b0 + abs(delta)          # the saturated part is the 200 samples from the maximum on
            tr[600:1000] = b0 + 0.5 * abs(delta)
            ctx = f"get_offset_from_muon(qetbias={qb}, rn={rn}, rload={rl}, nbaseline={nb})"
            g = must(rec, "muon", ctx, U.get_offset_from_muon, tr, qb, rn, rl, rsh, nb)
            o = must(rec, "muon", ctx, U.get_offset_from_muon, tr, qb, rn, rl, rsh, nb, lgcfullrtn=False)
            if g is None or o is None:
                continue
            i0r = inorm - abs(delta)
            want = np.array([b0 - i0r, qb * rsh / i0r - rl if i0r else np.inf, i0r, i0r * qb * rsh - rl * i0r ** 2])
            rec.state(ctx, b0, d)
            if abs(i0r) < 1e-3 * inorm:
                continue
            for i in range(4):
                rec.close("muon", g[i], want[i], rtol=1e-7, ctx=ctx + f" output {i}", atol=1e-9 * inorm)
        # the baseline is the mean of exactly the first nbaseline samples, whatever comes before and after the muon
        for n, start in ((2000, 900), (40000, 30000)):
            qb, rn, rl, rsh = 1e-4, 0.1, 6e-3, 5e-3
            inorm = qb * rsh / (rl + rn)
            tr = (R.lcg(n, n) * 0.05 + 0.1) * inorm
            tr[start:start + 400] = 0.8 * inorm
            for nb in (1, 2, 7, 300, 899, 899.6, 5000, 6000, 20000, 30000):
                if nb > start:
                    continue
                ctx = f"get_offset_from_muon(uneven baseline of {n} samples, nbaseline={nb})"
                b = np.mean(tr[:int(nb)])
                i0 = inorm - (0.8 * inorm - b)
                t0 = tr.copy()
                g = must(rec, "muon", ctx, U.get_offset_from_muon, tr, qb, rn, rl, rsh, nb)
                if g is not None:
                    rec.close("muon", g, [b - i0, qb * rsh / i0 - rl, i0, i0 * qb * rsh - rl * i0 ** 2], rtol=1e-9, ctx=ctx)
                    rec.true("muon", np.array_equal(tr, t0), ctx + ": trace modified")
                    rec.state(ctx)
            rec.close("muon", o, want[0], rtol=1e-7, ctx=ctx + " offset only", atol=1e-9 * inorm)
            # circuit consistency: v = i0 (r0 + rload)
            rec.close("muon", g[2] * (g[1] + rl), qb * rsh, rtol=1e-7, ctx=ctx + " loop equation")
            rec.close("muon", g[3], g[2] ** 2 * g[1], rtol=1e-6, ctx=ctx + " power is i0^2 r0", atol=1e-9 * qb * rsh * abs(g[2]))
        rec.trace()
