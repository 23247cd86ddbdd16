"""C12: iterative outlier removal (iterstat, itercov, removeoutliers)."""
import itertools
import warnings
import numpy as np
from scipy import stats
import qetpy as qp
import qetpy.cut as CUT
from mc.core import must, attempt, Raised
from mc.ref_of import lcg

ID = "C12"
CASE_CPU_S = 150
LEVEL = "model_checking"
BOUNDS = ("iterstat and removeoutliers: every multiset of up to 5 (thorough 8) values of a 0..7 grid (0..8 thorough; smallest value 0 from 5 values on), plus tight cores with "
          "1-3 outliers at all pairs/triples of positions; cuts 1, 1.5, 2, 3; itercov: 12-20 point cores x every pair of outlier positions on a "
          "5x5 grid (7x7), 2 and 3 dimensions; 1031 and 10007 values (thorough 100003) with 7 kinds of tails, nsigma 1.5/2.75, both call forms; orderings, shifts, scalings")
RULE = ("complete enumeration on the real functions; oracle: independent fixed-point iteration on sets of points, definition of "
        "mean/covariance, truncated-normal moments (scipy.stats.truncnorm); state = (data, mask)")
ASSUMPTIONS = ["points exactly on the cut boundary (within 1e-9) are left undecided"]


def cases(tier):
    q = tier == "quick"
    G, N = (8, 5) if q else (9, 8)
    for n in range(1, N + 1):
        if n <= 2:
            yield dict(kind="multi", n=n, g=G, low=[])
        elif n <= 4:
            for a in range(G):
                yield dict(kind="multi", n=n, g=G, low=[a])
        else:
            for a in range(G):
                for b in range(a, G) if n > 6 else (None,):
                    yield dict(kind="multi", n=n, g=G, low=[0, a] + ([b] if b is not None else []))
    pos = [-40, -12, -7, -5, -4, 0, 4, 5, 6, 8, 11, 25, 60] if q else [-100, -40, -20, -12, -9, -7, -6, -5, -4, -3, 0, 3, 4, 5, 6, 7, 8, 9, 11, 16, 25, 60, 150]
    for core in (8, 13, 21):
        for p in pos:
            yield dict(kind="core", core=core, p=p, pos=pos)
    g = 5 if q else 7
    for dim in (2, 3):
        for core in (12, 20):
            for i in range(g * g):
                yield dict(kind="cov", dim=dim, core=core, i=i, g=g)
    for dim in (2, 3):
        for i in range(40 if q else 200):
            yield dict(kind="covsmall", dim=dim, i=i)
    for n in (1031, 10007) if q else (300, 1031, 2053, 10007, 100003):
        for tail in range(7):
            yield dict(kind="many", n=n, tail=tail)
    yield dict(kind="args")


def core_values(n):
    """symmetric, distinct, roughly normal quantiles"""
    return np.round(stats.norm.ppf((np.arange(n) + 0.5) / n) * 64) / 64


def ref_iter(x, cut):
    """mask of the fixed point, None if fewer than 2 points would remain, 'tie' if undecidable"""
    m = np.ones(len(x), bool)
    for _ in range(200):
        mu, sd = np.mean(x[m]), np.std(x[m])
        d = abs(x - mu) - cut * sd
        if np.any(abs(d) < 1e-9 * max(1, np.max(abs(x)))):
            return "tie"
        new = d < 0
        if new.sum() <= 1:
            return None
        if np.array_equal(new, m):
            return m
        m = new
    return "tie"


class brief(list):
    """list that prints briefly when it is long"""

    def __repr__(self):
        return list.__repr__(self) if len(self) < 40 else f"<{len(self)} values {list.__repr__(self[:3])}..>"

    __str__ = __repr__
    __format__ = lambda self, spec: repr(self)


def iterates(x, cut, precision=1000.0):
    """The masks at which the documented convergence threshold std(data)/precision is met, in order, up to the fixed point; for
    large data the threshold may stop the iteration before the set of points is the final one."""
    out, m = [], np.ones(len(x), bool)
    mu, sd = np.mean(x), np.std(x)
    lim = sd / precision
    for _ in range(2000):
        new = abs(x - mu) < cut * sd
        if new.sum() <= 1:
            return out + [np.ones(len(x), bool)]
        mu2, sd2 = np.mean(x[new]), np.std(x[new])
        if abs(mu2 - mu) <= lim * 1.0001 and abs(sd2 - sd) <= lim * 1.0001:
            out.append(new)
        if np.array_equal(new, m):
            break
        m, mu, sd = new, mu2, sd2
    return out


def one_iterstat(rec, x, cut):
    ctx = f"iterstat({brief(x)}, cut={cut})"
    y = x.copy()
    r = must(rec, "iterstat", ctx, qp.cut.iterstat, y, cut=cut)
    if r is None:
        return
    rec.outcome("mask", len(x), int(np.sum(r[2])))
    if not np.array_equal(x, y):
        rec.fail("iterstat", f"{ctx}: data modified")
    mu, sd, m = r
    m = np.asarray(m)
    if m.dtype != bool or m.shape != x.shape or m.sum() == 0:
        rec.fail("iterstat", f"{ctx}: mask is {m!r}")
        return
    rec.state(x, cut, m)
    s = 1e-9 * max(1.0, np.max(abs(x)))
    if abs(mu - np.mean(x[m])) > s or abs(sd - np.std(x[m])) > s:
        rec.fail("iterstat", f"{ctx}: mean/std {mu!r}/{sd!r} are not those of the kept points {brief(x[m])}")
    ref = ref_iter(x, cut)
    if isinstance(ref, str):
        rec.note("boundary_tie")
        return
    want = np.ones(len(x), bool) if ref is None else ref
    if not np.array_equal(want, m) and not (len(x) > 100 and any(np.array_equal(w, m) for w in iterates(x, cut))):
        rec.fail("iterstat", f"{ctx}: kept {brief(x[m])}, the iteration converges to {brief(x[want])}")


def one_ro(rec, x, target=0.05):
    ctx = f"removeoutliers({brief(x)}, skewtarget={target})"
    y = x.copy()
    m = must(rec, "removeoutliers", ctx, qp.cut.removeoutliers, y, skewtarget=target)
    if m is None:
        return None
    m = np.asarray(m)
    if not np.array_equal(x, y):
        rec.fail("removeoutliers", f"{ctx}: data modified")
    if m.dtype != bool or m.shape != x.shape:
        rec.fail("removeoutliers", f"{ctx}: mask is {m!r}")
        return None
    rec.state("ro", x, target, m)
    rec.outcome("ro", len(x), int(m.sum()))
    if not m.any():
        rec.fail("removeoutliers", f"{ctx}: every point is removed")
        return m
    if np.any(np.isinf(x) & m):
        rec.fail("removeoutliers", f"{ctx}: an infinite value is kept")
    lo, hi = np.min(x[m]), np.max(x[m])
    if np.any(~m & (x >= lo) & (x <= hi)):
        rec.fail("removeoutliers", f"{ctx}: removes points between kept ones: {brief(x[m])}")
    fin = x[np.isfinite(x)]
    with np.errstate(all="ignore"):
        s0 = stats.skew(fin)
        s1 = stats.skew(x[m])
    if not (s0 > target) and m.sum() != len(fin):
        rec.fail("removeoutliers", f"{ctx}: skewness {s0} is within the target but points are removed")
    if s0 > target:
        chain, cur = [np.isfinite(x)], np.isfinite(x)
        for _ in range(20):
            with np.errstate(all="ignore"):
                sk = stats.skew(x[cur])
            if abs(sk - target) < 1e-9:
                rec.note("undecided_skew")
                return m
            if not sk > target:
                break
            d = abs(x - np.median(x[cur]))
            nxt = cur & (d < min(abs(np.min(x) - np.median(x[cur])), abs(np.max(x) - np.median(x[cur]))))
            if not nxt.any():
                break
            cur = nxt
            chain.append(cur)
        if not np.array_equal(cur, m):
            rec.fail("removeoutliers", f"{ctx}: keeps {brief(x[m])} with skewness {s1}, the first set within the target (or the last possible) is {brief(x[cur])}")
    return m


def group(rec, x, cuts):
    x = np.asarray(x, float)
    for c in cuts:
        one_iterstat(rec, x, c)
    m = one_ro(rec, x)
    if m is None:
        return
    if len(x) == 5 or 6 <= len(x) <= 8 and min(x) == 0 and max(x) < 9:
        return
    # order, shift and (positive) scale do not matter
    for perm in (np.arange(len(x))[::-1], np.argsort((np.arange(len(x)) * 7 + 3) % (len(x) + 1), kind="stable")):
        mp = attempt(qp.cut.removeoutliers, x[perm])
        rec.step()
        if isinstance(mp, Raised) or not np.array_equal(mp, m[perm]):
            rec.fail("order", f"removeoutliers depends on the order of the points: {brief(x)} -> {brief(x[m])}, reordered {list(x[perm])} -> {mp!r}")
        a, b = attempt(qp.cut.iterstat, x, cut=2), attempt(qp.cut.iterstat, x[perm], cut=2)
        rec.step()
        if not isinstance(ref_iter(x, 2), str) and (isinstance(b, Raised) or not np.array_equal(a[2][perm], b[2])):
            rec.fail("order", f"iterstat depends on the order of the points: {brief(x)}")
    for sc, sh in ((4.0, 0.0), (0.25, 16.0)):
        ms = attempt(qp.cut.removeoutliers, x * sc + sh)
        rec.step()
        if isinstance(ms, Raised) or not np.array_equal(ms, m):
            # the skewness may sit exactly on the target
            rec.fail("units", f"removeoutliers depends on units/offset of the data: {brief(x)} -> {m}, {list(x * sc + sh)} -> {ms!r}")
        if not isinstance(ref_iter(x, 2), str):
            a, b = attempt(qp.cut.iterstat, x, cut=2), attempt(qp.cut.iterstat, x * sc + sh, cut=2)
            if isinstance(b, Raised) or not np.array_equal(a[2], b[2]):
                rec.fail("units", f"iterstat depends on units/offset of the data: {brief(x)}")


def unbiased(rec, x, cut):
    a = attempt(qp.cut.iterstat, x, cut=cut)
    b = must(rec, "unbiased", f"iterstat({brief(x)}, cut={cut}, unbiased)", qp.cut.iterstat, x, cut=cut, return_unbiased_estimates=True)
    if b is None or isinstance(a, Raised):
        return
    rec.step()
    if not np.array_equal(a[2], b[2]):
        rec.fail("unbiased", f"iterstat({brief(x)}, cut={cut}): mask depends on return_unbiased_estimates")
        return
    if isinstance(ref_iter(x, cut), str) or ref_iter(x, cut) is None or not a[1] > 0:
        return
    lo, hi = a[0] - cut * a[1], a[0] + cut * a[1]
    k = (x >= lo) & (x <= hi)
    if not np.array_equal(k, a[2]):
        return
    mu, sd = b[:2]
    t = stats.truncnorm((lo - mu) / sd, (hi - mu) / sd, loc=mu, scale=sd)
    if abs(t.mean() - a[0]) > 1e-3 * a[1] or abs(t.std() - a[1]) > 1e-3 * a[1]:
        rec.fail("unbiased", f"iterstat({brief(x)}, cut={cut}): N({mu},{sd}) truncated to [{lo},{hi}] has mean {t.mean()}, std {t.std()}; data have {a[0]}, {a[1]}")


def ref_cov(data, nsigma, thr):
    d, n = data.shape
    m = np.ones(n, bool)
    for _ in range(12):
        mu, C = np.mean(data[:, m], 1), np.cov(data[:, m])
        if np.linalg.cond(C) > 1e9:
            return "sing"
        D = data - mu[:, None]
        c2 = np.einsum("in,ij,jn->n", D, np.linalg.inv(C), D)
        mx = d + nsigma * np.sqrt(2 * d)
        sd = np.sqrt(np.diag(C))[:, None] * thr
        if np.any(abs(c2 - mx) < 1e-9) or np.any(abs(abs(D) - sd) < 1e-9):
            return "tie"
        new = (c2 < mx) & np.all(abs(D) < sd, 0)
        if new.sum() <= 1:
            return None
        if np.array_equal(new, m):
            return m
        m = new
    return "tie"


def run_cov(case, rec):
    dim, n, g = case["dim"], case["core"], case["g"]
    k = np.arange(n)
    base = np.stack([np.cos(2.399963 * k) * np.sqrt(k + 0.5) * 0.5, np.sin(2.399963 * k) * np.sqrt(k + 0.5) * 0.3 + 0.2 * np.cos(k)] + ([np.sin(1.7 * k) * 0.7] if dim == 3 else []))
    ax = np.linspace(-9, 9, g)
    grid = [np.array([a, b] + ([a * 0.5 - b * 0.2] if dim == 3 else [])) for a in ax for b in ax]
    p = grid[case["i"]]
    for j in range(case["i"], g * g):
        data = np.concatenate([base[:, : n // 2], p[:, None], base[:, n // 2:], grid[j][:, None]], 1)
        for ns in (2.75, 1.5):
            ctx = f"itercov(dim {dim}, core {n}, outliers {list(p)}, {list(grid[j])}, nsigma={ns})"
            keep = data.copy()
            r = must(rec, "itercov", ctx, qp.cut.itercov, data.T.copy(), nsigma=ns)
            if r is None:
                return
            mu, C, m = r
            m = np.asarray(m)
            rec.state(data, ns, m)
            rec.outcome("cov", dim, int(m.sum()))
            if m.shape != (data.shape[1],) or m.dtype != bool:
                rec.fail("itercov", f"{ctx}: mask has shape {m.shape}")
                return
            if not np.allclose(mu, np.mean(data[:, m], 1), atol=1e-9) or not np.allclose(C, np.cov(data[:, m]), atol=1e-9):
                rec.fail("itercov", f"{ctx}: mean/covariance are not those of the kept points")
            thr = max(3.0, np.sqrt(stats.chi2.ppf(0.95 ** (1 / dim), 1)))
            ref = ref_cov(data, ns, thr)
            if isinstance(ref, str):
                rec.note("undecided_" + ref)
            else:
                w = np.ones(data.shape[1], bool) if ref is None else ref
                if not np.array_equal(w, m):
                    rec.fail("itercov", f"{ctx}: mask {np.flatnonzero(~m)} cut, the iteration converges to {np.flatnonzero(~w)} cut")
            if ns == 2.75:
                r2 = must(rec, "itercov", ctx + " as separate vectors", qp.cut.itercov, *[d.copy() for d in data], nsigma=ns)
                perm = np.argsort((np.arange(data.shape[1]) * 5) % 7, kind="stable")
                r3 = must(rec, "itercov", ctx + " reordered", qp.cut.itercov, data[:, perm].T.copy(), nsigma=ns)
                r4 = must(rec, "itercov", ctx + " axes swapped and scaled", qp.cut.itercov, (data[::-1] * 8.0).T.copy(), nsigma=ns)
                for name, q, mm, dd in (("vectors", r2, m, data), ("order", r3, m[perm], data[:, perm]), ("axes", r4, m, data[::-1] * 8.0)):
                    if q is None:
                        continue
                    if not np.array_equal(q[2], mm) and not isinstance(ref, str):
                        rec.fail("itercov", f"{ctx}: different points cut for the same data ({name})")
                    elif not np.allclose(q[1], np.cov(dd[:, q[2]]), atol=1e-7):
                        rec.fail("itercov", f"{ctx}: wrong covariance ({name})")


def run_covsmall(case, rec):
    """few points, explicit thresholds (also so small that nothing would remain)"""
    dim, i = case["dim"], case["i"]
    for n in range(dim + 1, 10):
        data = np.round(lcg(dim * n, 1000 * dim + i).reshape(dim, n) * 12) + (5.0 if i % 2 else 0.0)
        if i % 3 == 0:
            data[:, -1] += 40
        for thr in (None, 3.0, 0.4, 0.9, 1.3, 2.0, 6.0):
            for ns in (2.75, 0.5, -0.6):
                ctx = f"itercov({data.tolist()}, nsigma={ns}, threshold={thr})"
                t = thr if thr is not None else max(3.0, np.sqrt(stats.chi2.ppf(0.95 ** (1 / dim), 1)))
                ref = ref_cov(data, ns, t)
                if isinstance(ref, str):
                    rec.note("undecided_" + ref)
                    continue
                w = np.ones(n, bool) if ref is None else ref
                with warnings.catch_warnings(record=True) as wl:
                    warnings.simplefilter("always")
                    kw = {} if thr is None else dict(threshold=thr)
                    q = [must(rec, "itercov", ctx, qp.cut.itercov, *a, nsigma=ns, **kw) for a in ([data.T.copy()], [d.copy() for d in data])]
                for nm, r in zip(("array", "vectors"), q):
                    rec.step()
                    if r is None:
                        return
                    mu, C, m = r
                    if np.shape(m) != (n,) or not np.array_equal(m, w):
                        rec.fail("itercov", f"{ctx} as {nm}: keeps {np.flatnonzero(m)}, the iteration converges to {np.flatnonzero(w)}")
                    elif not np.allclose(mu, data[:, w].mean(axis=1), atol=1e-9) or not np.allclose(C, np.cov(data[:, w]), atol=1e-9):
                        rec.fail("itercov", f"{ctx} as {nm}: mean/covariance are not those of the kept points")
                if ref is None and not wl:
                    rec.fail("itercov", f"{ctx}: nothing is cut as fewer than two points would remain, but there is no warning")
                rec.state(data, thr, ns, w)
                rec.outcome("covsmall", dim, n, int(w.sum()), ref is None)


def run(case, rec):
    k = case["kind"]
    if k == "multi":
        n, g = case["n"], case["g"]
        low = tuple(case["low"])
        for t in itertools.combinations_with_replacement(range(low[-1] if low else 0, g), n - len(low)):
            x = low + t
            group(rec, x, (1, 1.5, 2, 3))
            if n == 4:
                one_ro(rec, np.array(x + (np.inf,), float))
        rec.trace()
    elif k == "core":
        c = core_values(case["core"])
        for q in case["pos"]:
            for r in (None, 9, 33):
                x = np.concatenate([[case["p"]], c[::-1], [q], [r] if r is not None else []])
                group(rec, x, (1.5, 2, 3))
                for cut in (2, 3) if r is None else ():
                    unbiased(rec, x, cut)
                for t in (0.5, 0.01):
                    one_ro(rec, x, t)
        rec.trace()
    elif k == "many":           # as many values as a real data set has events
        n, tail = case["n"], case["tail"]
        c = stats.norm.ppf((np.arange(n) + 0.5) / n)
        c = c[np.argsort((np.arange(n) * 7919) % n, kind="stable")]
        out = {0: [], 1: [9.0, 30.0, -25.0], 2: list(np.linspace(5, 60, n // 20)), 3: [-400.0] * 3 + [90.0] * (n // 50), 4: list(4.5 + np.arange(n // 10) / n), 5: [40.0, -30.0, 35.0], 6: []}[tail]
        x = c.copy() if tail < 5 else c + (tail - 4) * 0.15 * c ** 2 + 0.04 * c ** 3       # or skewed, which takes many steps
        x[np.arange(len(out)) * (n // (len(out) + 1)) + n // 3 - n] = out        # scattered through the array, wrapping around
        x[-1] = out[-1] if out else x[-1]
        x = 3e-9 * x + 2e-6
        for cut in (1.5, 2, 3):
            one_iterstat(rec, x * 1e9, cut)
        one_ro(rec, x * 1e9)
        one_ro(rec, x * 1e9, 0.5)
        data = np.stack([x, np.roll(c, 1) * 1e-3 + 0.3 * c * 1e-3, c ** 2 * 0.2 + np.roll(c, 5)])
        for dd in (data[:2], data):
            for ns in (2.75, 1.5):
                ctx = f"itercov({len(dd)} x {n} values, tail {tail}, nsigma={ns})"
                D = dd / np.std(dd, axis=1, keepdims=True)
                ref = ref_cov(D, ns, max(3.0, np.sqrt(stats.chi2.ppf(0.95 ** (1 / len(D)), 1))))
                r = must(rec, "itercov", ctx, qp.cut.itercov, *D.copy(), nsigma=ns)
                if r is None:
                    continue
                m = np.asarray(r[2])
                rec.state(ctx, m)
                if m.shape != (n,) or not np.allclose(r[0], np.mean(D[:, m], 1), atol=1e-9) or not np.allclose(r[1], np.cov(D[:, m]), atol=1e-9):
                    rec.fail("itercov", f"{ctx}: mask shape {m.shape}, or mean/covariance are not those of the kept points")
                elif isinstance(ref, str):
                    rec.note("undecided_" + ref)
                elif np.sum(m != (np.ones(n, bool) if ref is None else ref)) > (n * 1e-3 if n > 5000 else 0):    # frac_err = 1e-3 ends the iteration
                    rec.fail("itercov", f"{ctx}: {int(m.sum())} points kept, the iteration converges to {int(np.sum(ref)) if ref is not None else n}")
        rec.trace()
    elif k == "covsmall":
        run_covsmall(case, rec)
        rec.trace()
    elif k == "cov":
        run_cov(case, rec)
        rec.trace()
    else:
        for a in ((np.arange(5.0),), (np.arange(5.0)[:, None],)):
            r = attempt(qp.cut.itercov, *a)
            rec.step()
            rec.state("args", np.shape(a))
            if not (isinstance(r, Raised) and isinstance(r.exc, ValueError)):
                rec.fail("args", f"itercov of 1-dimensional data of shape {np.shape(a[0])}: {r!r} instead of ValueError")
        # constant data: nothing is cut
        for n in (1, 2, 5):
            r = must(rec, "iterstat", f"iterstat of {n} equal points", qp.cut.iterstat, np.full(n, 3.0))
            if r is not None and not (r[0] == 3 and r[1] == 0 and np.all(r[2])):
                rec.fail("iterstat", f"iterstat of {n} equal points gives {r}")
            m = must(rec, "removeoutliers", f"removeoutliers of {n} equal points", qp.cut.removeoutliers, np.full(n, 3.0))
            if m is not None and not np.all(m):
                rec.fail("removeoutliers", f"removeoutliers of {n} equal points gives {m}")
