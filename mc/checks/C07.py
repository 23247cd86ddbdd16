"""C07: n-signal-m-background fits are the (constrained) least-squares optimum over the search window."""
import contextlib
import io
import itertools
import warnings
import numpy as np
import qetpy as qp
from mc import ref_of as R
from mc.core import must

ID = "C07"
LEVEL = "model_checking"
CASE_CPU_S = 900
BOUNDS = ("trace lengths 5..9 (thorough ..12) x 11 background sets of 1..4 templates (dc, slope, shifted pulses, muon tails, collinear) x "
          "3 PSDs x 2 unit systems; ALL signals in {-1,0,1}^5 and generic ones at every pulse delay x ALL 3^(1+m) polarity patterns x "
          "windows (every start and length, negative and wrapped indices, every extra window); ttl configurations to 96 bins; detector-sized traces (500 samples, thorough 999) with selected windows and polarities")
RULE = ("complete enumeration on the real functions; oracle: for every delay of the window the weighted least-squares problem solved for "
        "every subset of templates, constrained optimum = best subset whose amplitudes are allowed; chi-squares summed over DFT bins; "
        "state = (configuration, signal, polarity, window, answers)")
ASSUMPTIONS = ["one signal template (as of_nsmb_setup builds)", "search windows are integer arrays of shape (1, bins); the first counts delays of the template, "
               "the further ones of the constrained fit count bins from the trace start, with the template start at the trace centre"]


def backgrounds(nt, kind):
    t = np.arange(nt)
    s = np.exp(-t / 2.0) - 0.6 * np.exp(-t / 0.7)
    s /= s.max()

    def at(k):
        return np.where(t >= k, s[np.clip(t - k, 0, None)], 0.0)
    dc, sl = np.ones(nt), t / nt
    mu = np.exp(-t / (2.0 * nt))
    return np.stack({0: [dc], 1: [sl, dc], 2: [mu, dc], 3: [at(1), at(nt // 2 + 1), dc], 4: [at(0), at(nt - 3), sl, dc],
                     5: [at(1), at(2), at(3), dc], 6: [mu, np.exp(-6.0 * t / nt), sl, dc], 7: [-at(2), at(nt - 2)],
                     8: [at(2)], 9: [dc, 2 * dc], 10: [at(1), at(2), at(3), at(4)]}[kind], axis=1)


def cases(tier):
    deep = tier != "quick"
    for nt in (5, 6, 7, 8, 9) + ((10, 11, 12) if deep else ()):
        for bk in range(11):
            for pk in (0, 1, 2) if deep else ((nt + bk) % 3,):
                for unit in (0, 1):
                    yield dict(kind="generic", nt=nt, bk=bk, pk=pk, unit=unit, deep=deep)
    for bk in (0, 1, 3, 5, 7, 8) if not deep else range(11):
        for pk in (bk % 3,) if not deep else (0, 1, 2):
            for first in (-1, 0, 1):
                yield dict(kind="all", nt=5, bk=bk, pk=pk, first=first, deep=deep)
    for nt in (7, 8):
        for bk in (1, 3, 7, 8):
            yield dict(kind="windows", nt=nt, bk=bk, pk=(nt + bk) % 3)
    for nt, per in ((24, 6), (32, 11), (48, 12)) + (((96, 12), (60, 20)) if deep else ()):
        for pol in (0, 1, -1):
            for pk in (0, 1):
                yield dict(kind="ttl", nt=nt, per=per, pol=pol, pk=pk)
    for nt in (500,) if not deep else (500, 999):
        for bk in (0, 1, 2, 3):
            yield dict(kind="big", nt=nt, bk=bk, pk=0, deep=deep)
    for nt, bk in ((4097, 0), (4096, 3), (32500, 2), (33001, 0)) if not deep else tuple((n, k) for n in (1625, 4096, 4097, 32500, 33001, 65536) for k in (0, 1, 2, 3)):
        for j in range(2):
            yield dict(kind="long", nt=nt, bk=bk, pk=0, j=j)
    yield dict(kind="setup")


class Ref:
    """All weighted least-squares solutions of one configuration."""

    def __init__(self, s, b, psd, fs):
        self.s, self.b = s, b
        nt = self.nt = len(s)
        p = np.array(psd, dtype=float) * fs / nt
        p[0] = p[1]
        self.w = 1 / p
        self.F = np.exp(-2j * np.pi * np.outer(np.arange(nt), np.arange(nt)) / nt) / nt
        self.T = [np.concatenate([np.roll(s, d)[:, None], b], axis=1) for d in range(nt)]
        self.k = b.shape[1] + 1
        self.subsets = [[i for i in range(self.k) if m >> i & 1] for m in range(2 ** self.k)]
        self.Tf = [self.F @ T for T in self.T]
        self.A = [np.real(np.conj(t.T) * self.w @ t) for t in self.Tf]
        self.inv = [[np.linalg.pinv(A[np.ix_(u, u)], rcond=1e-12, hermitian=True) if u else None for u in self.subsets] for A in self.A]
        d = np.sqrt(np.diag(self.A[0]))
        self.cond = [np.linalg.cond(A / np.outer(d, d)) for A in self.A]

    def load(self, y):
        self.y = y
        self.Y = self.F @ y
        self.base = float(np.sum(np.abs(self.Y) ** 2 * self.w))
        self.q = [np.real(np.conj(t.T) * self.w @ self.Y) for t in self.Tf]
        # solutions[d] = list over subsets of (amplitudes, chi2)
        self.sol = []
        for d in range(self.nt):
            rows = np.zeros((len(self.subsets), self.k))
            for m, u in enumerate(self.subsets):
                if u:
                    rows[m, u] = self.inv[d][m] @ self.q[d][u]
            chi = self.base - rows @ self.q[d]
            self.sol.append((rows, chi))

    def optimum(self, d, con, with_signal=True):
        """(chi2, amplitudes) at delay d under the polarity constraints."""
        rows, chi = self.sol[d]
        ok = np.all(rows * con >= -1e-10 * (np.max(np.abs(rows)) + 1e-300), axis=1)
        if not with_signal:
            ok &= rows[:, 0] == 0
            ok &= np.array([0 not in u for u in self.subsets])
        i = np.flatnonzero(ok)
        j = i[np.argmin(chi[i])]
        return float(chi[j]), rows[j]

    def chi2(self, d, a, nlow=None):
        r = self.F @ (self.y - self.T[d] @ a)
        return float(np.sum((np.abs(r) ** 2 * self.w)[:nlow]))


class LongRef(Ref):
    """The same for traces too long for explicit sums: products with the shifted template by one Fourier transform."""

    def __init__(self, s, b, psd, fs):
        self.s, self.b = s, b
        nt = self.nt = len(s)
        k = self.k = b.shape[1] + 1
        p = np.array(psd, dtype=float) * fs / nt
        p[0] = p[1]
        self.w = 1 / p
        self.subsets = [[i for i in range(k) if m >> i & 1] for m in range(2 ** k)]
        self.Sf, self.Bf = np.fft.fft(s) / nt, np.fft.fft(b, axis=0) / nt
        self.A = np.zeros((nt, k, k))
        self.A[:, 0, 0] = np.sum(np.abs(self.Sf) ** 2 * self.w)
        self.A[:, 1:, 1:] = np.real(np.conj(self.Bf.T) * self.w @ self.Bf)
        for j in range(k - 1):
            self.A[:, 0, j + 1] = self.A[:, j + 1, 0] = self.corr(self.Bf[:, j])
        d = np.sqrt(np.einsum("dii->di", self.A))
        self.scale = d
        self.norm = self.A / d[:, :, None] / d[:, None, :]
        self.cond = np.linalg.cond(self.norm)

        class T:
            def __getitem__(_, d):
                return np.concatenate([np.roll(s, d)[:, None], b], axis=1)
        self.T = T()

    def corr(self, x):
        """product of the template delayed by d bins with x, for every d"""
        return np.real(np.fft.ifft(np.conj(self.Sf) * self.w * x)) * self.nt

    def load(self, y):
        self.y = y
        self.Y = np.fft.fft(y) / self.nt
        self.base = float(np.sum(np.abs(self.Y) ** 2 * self.w))
        q = np.empty((self.nt, self.k))
        q[:, 0] = self.corr(self.Y)
        q[:, 1:] = np.real(np.conj(self.Bf.T) * self.w @ self.Y)
        qn = q / self.scale
        rows = np.zeros((self.nt, len(self.subsets), self.k))
        for m, u in enumerate(self.subsets):
            if u:
                rows[:, m, u] = np.matmul(np.linalg.pinv(self.norm[:, u][:, :, u], rcond=1e-12, hermitian=True), qn[:, u][:, :, None])[:, :, 0] / self.scale[:, u]
        chi = self.base - np.einsum("dmk,dk->dm", rows, q)
        self.sol = list(zip(rows, chi))

    def chi2(self, d, a, nlow=None):
        r = np.fft.fft(self.y - self.T[d] @ a) / self.nt
        return float(np.sum((np.abs(r) ** 2 * self.w)[:nlow]))


def setup(rec, ctx, s, b, psd, fs):
    keep = s.copy(), b.copy(), np.array(psd)
    out = must(rec, "setup", ctx, qp.of_nsmb_setup, s, b, psd, fs)
    if out is None:
        return None
    rec.true("purity", np.array_equal(s, keep[0]) and np.array_equal(b, keep[1]) and np.array_equal(psd, keep[2]), f"{ctx}: of_nsmb_setup modified its arguments")
    psddnu, phi, Pfs, P, sbf, sbt, iB, B, ns, nb, bitcomb, lf = out
    rec.true("setup", ns == 1 and nb == b.shape[1] and sorted(map(tuple, bitcomb)) == sorted(itertools.product((0, 1), repeat=ns + nb)), f"{ctx}: ns {ns} nb {nb} bitcomb {bitcomb}")
    return out


def frozen(*arrays):
    return [np.array(a, copy=True) for a in arrays]


def same(arrays, keep):
    return all(np.array_equal(a, k, equal_nan=True) for a, k in zip(arrays, keep))


def quiet(rec, key, ctx, fn, *a, **k):
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter("ignore")
        return must(rec, key, ctx, fn, *a, **k)


def one(x):
    x = np.asarray(x, dtype=float)
    return float(x.reshape(-1)[0]) if x.size == 1 else None


def rounding(ref):
    """Of a chi-square: grows with the condition of the normal equations (nearly collinear templates)."""
    return (1e-7 + 1e-15 * min(max(ref.cond), 1e12)) * ref.base + 1e-300


def fit_checks(rec, key, ctx, ref, fs, delays, con, amps, tdel, chi, lfchi, resid, lf):
    """Common judgement of one fit; returns the delay index or None."""
    nt, tol = ref.nt, rounding(ref)
    amps = np.asarray(amps, dtype=float).reshape(-1)
    td, c, cl = one(tdel), one(chi), one(lfchi)
    if len(amps) != ref.k or td is None or c is None or cl is None or not np.all(np.isfinite(amps)):
        rec.fail(key, f"{ctx}: amplitudes {amps} delay {tdel} chi2 {chi} {lfchi}")
        return None
    x = td * fs
    d = int(round(x))
    if abs(x - d) > 1e-6 or not -nt / 2 <= d <= nt / 2 or d % nt not in delays:
        rec.fail(key + "-delay", f"{ctx}: delay {td!r} ({x:g} bins) is not in the window {sorted(delays)}")
        return None
    d %= nt
    best = min(ref.optimum(e, con)[0] for e in delays)
    rec.true(key + "-chi2", abs(c - best) <= tol, f"{ctx}: chi2 {c!r}, smallest over the window {best!r} (base {ref.base:.6g})")
    real = ref.chi2(d, amps)
    rec.true(key + "-amplitudes", abs(c - real) <= tol, f"{ctx}: chi2 {c!r}, residual of the reported amplitudes {amps} at delay {d} {real!r}")
    rec.true(key + "-polarity", np.all(amps * con >= -1e-8 * (np.max(np.abs(amps)) + np.max(np.abs(ref.y)))), f"{ctx}: amplitudes {amps} violate the polarities {con}")
    low = ref.chi2(d, amps, lf)
    rec.true(key + "-lowfreq", abs(cl - low) <= tol, f"{ctx}: low-frequency chi2 {cl!r} instead of {low!r} ({lf} bins)")
    if ref.cond[d] < 1e6:
        want = ref.optimum(d, con)[1]
        rec.true(key + "-amplitudes", np.allclose(amps, want, rtol=0, atol=1e-6 * max(np.max(np.abs(want)), 1e-3 * np.max(np.abs(ref.y)))), f"{ctx}: amplitudes {amps} instead of {want} at delay {d}")
    if resid is not None:
        rr = np.asarray(resid).reshape(-1)
        want = ref.y - ref.T[d] @ amps
        rec.true(key + "-residual", rr.shape == want.shape and np.allclose(rr, want, rtol=0, atol=1e-8 * np.max(np.abs(ref.y)) + 1e-8 * np.max(np.abs(amps))), f"{ctx}: residual is not data minus fit")
    return d


def parabola(x, y, z):
    """vertex of the parabola through y at -1, 0, 1; values of z's parabola there"""
    a, b = (y[0] + y[2]) / 2 - y[1], (y[2] - y[0]) / 2
    v = -b / (2 * a)
    za, zb = (z[0] + z[2]) / 2 - z[1], (z[2] - z[0]) / 2
    return x + v, y[1] - b * b / (4 * a), za * v * v + zb * v + z[1]


def check_interp(rec, key, ctx, ref, con, ds, times, got, grid, dt, interior):
    """ds: the three neighbouring delays; times: their grid times (bins)."""
    pts = [ref.optimum(d % ref.nt, con) for d in ds]
    y = [p[0] for p in pts]
    z = [p[1][0] for p in pts]
    eps = 1e-6 * ref.base + rounding(ref)
    t, c, a = (one(g) for g in got)
    if t is None or c is None or a is None:
        rec.fail(key, f"{ctx}: interpolated results {got}")
        return
    asc = max(abs(v) for v in z) + 1e-3 * np.max(np.abs(ref.y))
    if ref.base > 0 and interior and y[1] <= min(y[0], y[2]) - eps and all(ref.cond[d % ref.nt] < 1e6 for d in ds):
        wt, wc, wa = parabola(times[1], y, z)
    elif not interior or y[1] > min(y[0], y[2]) + eps:
        wt, wc, wa = grid[0] / dt, grid[1], grid[2]
    else:
        return
    off = abs(t / dt - wt)
    off = min(off, abs(off - ref.nt))
    rec.true(key, off <= 1e-4 and abs(c - wc) <= eps and abs(a - wa) <= 1e-4 * asc,
             f"{ctx}: interpolated delay {t / dt:.6g} bins, chi2 {c!r}, amplitude {a!r}; expected {wt:.6g}, {wc!r}, {wa!r}")


def exercise(rec, ctx, ref, st, iP, fs, y, con, wins, lf, unconstrained=True, constrained=True, conargs=True):
    """Runs the three fits for one signal, polarity pattern and window list."""
    psddnu, phi, Pfs, P, sbf, sbt, iB, B, ns, nb, bitcomb, _ = st
    nt, dt = ref.nt, 1 / fs
    con = np.asarray(con, dtype=float)
    free = np.zeros(ref.k)
    mats = [phi, Pfs, P, sbf, sbt, iB, B, psddnu, iP, y]
    keep = frozen(*mats, *wins)
    sig = []
    if unconstrained:
        r = quiet(rec, "of_nsmb", ctx, qp.of_nsmb, y, phi, sbf.T, sbt, iP, psddnu.T, fs, wins, ns, nb, bitcomb, lf)
        rec.step()
        if r is not None:
            d = fit_checks(rec, "of_nsmb", ctx, ref, fs, set((np.ravel(wins[0]) % nt).tolist()), free, *r[:4], r[4], lf)
            sig.append(d)
        rec.true("purity", same(mats + wins, keep), f"{ctx}: of_nsmb modified its arguments")
    if constrained:
        kw = dict(bkgpolarityconstraint=con[1:].copy(), sigpolarityconstraint=con[:1].copy()) if conargs else {}
        r = quiet(rec, "of_nsmb_con", f"{ctx} polarity {con}", qp.of_nsmb_con, y, phi, Pfs, P, sbf.T, sbt, psddnu.T, fs, wins, ns, nb, bitcomb, lf, **kw)
        rec.step()
        c = f"{ctx} polarity {con}"
        if r is not None:
            if len(r) != 14:
                rec.fail("of_nsmb_con", f"{c}: {len(r)} results")
                return
            d = fit_checks(rec, "of_nsmb_con", c, ref, fs, set((np.ravel(wins[0]) % nt).tolist()), con, r[0], r[1], r[2], r[3], r[4], lf)
            sig.append(d)
            if d is not None:
                g = (one(r[1]), one(r[2]), float(np.ravel(r[0])[0]))
                check_interp(rec, "interpolation", c, ref, con, (d - 1, d, d + 1), (d - 1, d, d + 1), (r[9], r[10], r[8]), g, dt, True)
            na, nc, ntm, ia, ic, it = (np.asarray(r[i]) for i in (5, 6, 7, 11, 12, 13))
            nw = len(wins) - 1
            if not rec.true("windows", na.shape == ia.shape == (1, nw) and nc.shape == ntm.shape == ic.shape == it.shape == (nw,), f"{c}: shapes of the window results {na.shape} {nc.shape}"):
                return
            for i in range(nw):
                w = np.ravel(wins[i + 1])
                opt = {int(b): ref.optimum((b - nt // 2) % nt, con) for b in w}
                best = min(v[0] for v in opt.values())
                b = int(round(ntm[i] * fs))
                cw = f"{c} window {w.tolist()}"
                if b not in opt or abs(ntm[i] * fs - b) > 1e-6:
                    rec.fail("windows", f"{cw}: time {ntm[i]!r}")
                    continue
                tol = rounding(ref)
                rec.true("windows", abs(nc[i] - best) <= tol and abs(opt[b][0] - best) <= tol, f"{cw}: chi2 {nc[i]!r} at bin {b}, smallest {best!r}")
                if ref.cond[(b - nt // 2) % nt] < 1e6:
                    rec.true("windows", abs(na[0, i] - opt[b][1][0]) <= 1e-6 * (abs(opt[b][1][0]) + 1e-3 * np.max(np.abs(y))), f"{cw}: signal amplitude {na[0, i]!r} instead of {opt[b][1][0]!r}")
                j = int(np.flatnonzero(w == b)[0])
                if np.all(np.diff(w) == 1):
                    inside = 0 < j < len(w) - 1
                    ds = [x - nt // 2 for x in (b - 1, b, b + 1)]
                    check_interp(rec, "window-interpolation", cw, ref, con, ds, (b - 1, b, b + 1), (it[i], ic[i], ia[0, i]), (ntm[i], nc[i], na[0, i]), dt, inside)
        r = quiet(rec, "of_mb", c, qp.of_mb, y, phi, sbf.T, sbt, iB, B, psddnu.T, fs, ns, nb, lf, **kw)
        rec.step()
        if r is not None:
            amps, chi, low = np.asarray(r[0], dtype=float).reshape(-1), one(r[1]), one(r[2])
            best, want = ref.optimum(0, con, with_signal=False)
            tol = rounding(ref)
            if len(amps) != nb or chi is None or low is None:
                rec.fail("of_mb", f"{c}: {r}")
            else:
                full = np.concatenate([[0.0], amps])
                rec.true("of_mb", abs(chi - best) <= tol, f"{c}: background-only chi2 {chi!r}, optimum {best!r}")
                rec.true("of_mb", abs(chi - ref.chi2(0, full)) <= tol, f"{c}: background-only chi2 {chi!r} is not that of the amplitudes {amps}: {ref.chi2(0, full)!r}")
                rec.true("of_mb", np.all(amps * con[1:] >= -1e-8 * (np.max(np.abs(amps)) + np.max(np.abs(y)))), f"{c}: background amplitudes {amps} violate the polarities")
                rec.true("of_mb", abs(low - ref.chi2(0, full, lf)) <= tol, f"{c}: low-frequency chi2 {low!r} instead of {ref.chi2(0, full, lf)!r}")
        rec.true("purity", same(mats + wins, keep), f"{c}: the constrained fit modified its arguments")
    rec.state(ctx, con.tolist(), sig)


def run(case, rec):
    globals()["run_" + case["kind"]](case, rec)


def pulse_at(s, k):
    """the template s (onset at the centre) moved to start at bin k, not wrapped"""
    h = s[len(s) // 2:]
    return np.concatenate([np.zeros(k), h, np.zeros(len(s))])[:len(s)]


def run_big(case, rec):
    """detector-sized traces: 625 kHz, pulses of 1e-7 A with 1/f noise and a line"""
    q = build(rec, case)
    if q is None:
        return
    s, b, psd, fs, amp, ref, st, iP, ctx = q
    nt, k = ref.nt, ref.k
    full = np.arange(nt)[None, :]
    pats = list(itertools.product((0, 1, -1), repeat=k))
    for j in range(4 if not case["deep"] else 8):
        if j < 4:
            y = R.real(nt, j)[0] + 5e-8 * b @ ((-1.0) ** np.arange(k - 1))
        else:
            y = 2e-7 * np.roll(s, (3, nt - 2, nt // 2, 200)[j - 4]) + 1.2e-9 * R.lcg(nt, j) + 1e-6
        ref.load(y)
        for w in (full, np.arange(-20, 60)[None, :], np.array([[37]])):
            exercise(rec, f"{ctx} trace {j} window {w[0, 0]}..{w[0, -1]}", ref, st, iP, fs, y, np.zeros(k), [w.copy()], (30, 500, nt // 2)[j % 3], conargs=False)
        for i in range(j % 5, len(pats), 5 if k < 4 else 16):
            w = [np.arange(-50, 90)[None, :] if i % 2 else full.copy(), np.arange(nt // 4), np.arange(nt // 2, nt // 2 + 60)[None, :]]
            exercise(rec, f"{ctx} trace {j}", ref, st, iP, fs, y, pats[i], w, 30, unconstrained=False)
        if rec.problems:
            break
    rec.trace(4)


def run_long(case, rec):
    """traces as long as digitized ones"""
    q = build(rec, case)
    if q is None:
        return
    s, b, psd, fs, amp, ref, st, iP, ctx = q
    nt, k, j = ref.nt, ref.k, case["j"]
    if j == 0:
        y, con = R.real(nt, 0)[0] + 5e-8 * b @ ((-1.0) ** np.arange(k - 1)), np.zeros(k)
    else:
        y, con = -2e-7 * np.roll(s, nt // 2 - 700) + 1.2e-9 * R.lcg(nt, j) + 1e-6 * np.arange(nt) / nt, np.array([-1] + [1] * (k - 1))
    ref.load(y)
    w = [np.arange(nt)[None, :] if j == 0 else np.arange(-1500, 1500)[None, :], np.arange(nt // 2 - 900, nt // 2 + 900), np.arange(nt - 1200, nt)[None, :]]
    exercise(rec, f"{ctx} trace {j}", ref, st, iP, fs, y, con, w, (500, nt // 2 + 7)[j])
    rec.trace()


def build(rec, case, fs=None, unit=0):
    nt, bk, pk = case["nt"], case["bk"], case["pk"]
    fs = fs or (625e3 if unit else 2.0)
    amp = 1e-8 if unit else 1.0
    s = np.roll(np.exp(-np.arange(nt) / 2.0) - 0.6 * np.exp(-np.arange(nt) / 0.7), nt // 2)
    s[: nt // 2] = 0
    s /= s.max()
    b = backgrounds(nt, bk)
    psd = R.psd(nt, pk, 0.3 * amp ** 2 / fs)
    psd[0] = (0.0, np.inf, psd[0] * 5)[(nt + bk + pk) % 3]
    if case.get("kind") in ("big", "long"):
        _, s, psd, fs = R.real(nt, 0)
        t = np.arange(nt) / nt
        amp = 1e-7
        b = np.stack({0: [t, 0 * t + 1], 1: [np.exp(-t / 0.7), t, 0 * t + 1], 2: [0 * t + 1], 3: [pulse_at(s, 20), pulse_at(s, 3 * nt // 4), 0 * t + 1]}[bk], axis=1)
    ctx = f"nt={nt} backgrounds={bk} psd={pk} fs={fs}"
    st = setup(rec, ctx, s, b, psd, fs)
    if st is None:
        return None
    iP = must(rec, "iP", ctx, qp.of_nsmb_getiP, st[3])
    if iP is None:
        return None
    return s, b, psd, fs, amp, (LongRef if nt > 999 else Ref)(s, b, psd, fs), st, iP, ctx


def run_generic(case, rec):
    q = build(rec, case, unit=case["unit"])
    if q is None:
        return
    s, b, psd, fs, amp, ref, st, iP, ctx = q
    nt, k = ref.nt, ref.k
    full = np.arange(nt)[None, :]
    pats = list(itertools.product((0, 1, -1), repeat=k))
    sigs = []
    for d in range(nt):
        sigs.append((f"pulse {d}", 3 * np.roll(s, d) + 0.2 * R.lcg(nt, d + 1) / 8 + b @ ((-1.0) ** np.arange(k - 1))))
    for e in (5, 6, 7) if not case["deep"] else range(5, 12):
        sigs.append((f"lcg {e}", R.lcg(nt, e)))
    sigs.append(("negative pulse", -2 * np.roll(s, 1) - 3.0))
    sigs.append(("zero", np.zeros(nt)))
    for j, (name, y) in enumerate(sigs):
        y = y * amp
        ref.load(y)
        lf = (2, 500, nt // 2, 1)[j % 4]
        exercise(rec, f"{ctx} {name}", ref, st, iP, fs, y, np.zeros(k), [full.copy()], lf, conargs=False)
        step = (1, 1, 1, 1, 3, 11)[k] if case["deep"] else 1 if k <= 2 else 7 if k == 3 else 19 if k == 4 else 53
        for i in range(j % step, len(pats), step):
            w = [full.copy(), np.arange(nt), np.arange(1, nt - 1)[None, :], np.array([(i + j) % nt])]
            exercise(rec, f"{ctx} {name}", ref, st, iP, fs, y, pats[i], w, lf, unconstrained=False)
        if rec.problems:
            break
    rec.trace(len(sigs))


def run_all(case, rec):
    q = build(rec, case)
    if q is None:
        return
    s, b, psd, fs, amp, ref, st, iP, ctx = q
    nt, k = ref.nt, ref.k
    full = np.arange(nt)[None, :]
    pats = list(itertools.product((0, 1, -1), repeat=k))
    for j, tail in enumerate(itertools.product((-1, 0, 1), repeat=nt - 1)):
        y = np.array((case["first"],) + tail, dtype=float)
        ref.load(y)
        c = f"{ctx} signal {y.astype(int).tolist()}"
        exercise(rec, c, ref, st, iP, fs, y, np.zeros(k), [full.copy()], 3, constrained=False)
        if case["deep"] and k <= 3:
            sel = pats
        else:
            sel = [pats[(j * 7 + i * 11) % len(pats)] for i in range(8 if case["deep"] else 4)]
        for con in sel:
            exercise(rec, c, ref, st, iP, fs, y, con, [full.copy(), np.arange(nt)], 3, unconstrained=False)
        if rec.problems:
            break
    rec.trace(3 ** (nt - 1))


def run_windows(case, rec):
    q = build(rec, case)
    if q is None:
        return
    s, b, psd, fs, amp, ref, st, iP, ctx = q
    nt, k = ref.nt, ref.k
    cons = (np.zeros(k), np.ones(k), np.array([-1] + [0] * (k - 1)))
    for d in (0, 2, nt - 1):
        y = 2 * np.roll(s, d) + 0.3 * R.lcg(nt, d + 3) / 8 + 0.1
        ref.load(y)
        for start in range(-nt, nt):
            for length in range(1, nt + 1):
                first = np.arange(start, start + length)[None, :]
                if start % 3 == 2:
                    first = first[:, ::-1].copy()
                if start % 5 == 4 and length > 2:
                    first = np.delete(first, length // 2, axis=1)
                extra = [np.arange(start, start + length) for _ in (0,) if 0 <= start and start + length <= nt]
                exercise(rec, f"{ctx} pulse {d} window {first.tolist()}", ref, st, iP, fs, y, cons[(start + length) % 3], [first] + extra, 500)
                if rec.problems:
                    return
    rec.trace(6 * nt * nt)


def run_ttl(case, rec):
    nt, per, pol, pk = case["nt"], case["per"], case["pol"], case["pk"]
    fs = 625e3
    t = np.arange(nt)
    s = np.where(t >= nt // 2, np.exp(-(t - nt // 2) / 3.0), 0.0)
    ctx = f"ttl nt={nt} period={per} polarity={pol} psd={pk}"
    r = must(rec, "ttl", ctx, qp.maketemplate_ttlfit_nsmb, s, fs, fs / per, lgcconstrainpolarity=pol != 0, lgcpositivepolarity=pol > 0, notch_window_size=0)
    if r is None:
        return
    b, shifts, con, win = r
    if b.shape[1] > 9:
        return
    psd = R.psd(nt, pk, 1e-20 / fs)
    st = setup(rec, ctx, s, b, psd, fs)
    if st is None:
        return
    iP = must(rec, "iP", ctx, qp.of_nsmb_getiP, st[3])
    ref = Ref(s, b, psd, fs)
    # amplitudes of the documented use: pulses of one sign, some of the other
    for e in range(3):
        a = 1e-8 * (1.0 + np.arange(b.shape[1]) % 3) * (1 if pol >= 0 else -1)
        if e == 1:
            a[1] *= -1
        y = b @ a + 2e-8 * (1 if pol >= 0 else -1) * np.roll(s, 3) + 1e-9 * R.lcg(nt, e + 1)
        ref.load(y)
        exercise(rec, f"{ctx} signal {e}", ref, st, iP, fs, y, np.concatenate([[pol], con]), [np.array(win[0]), np.arange(nt // 2)], 10)
    # number form of the signal constraint and no constraints at all
    psddnu, phi, Pfs, P, sbf, sbt, iB, B, ns, nb, bitcomb, lf = st
    x1 = quiet(rec, "number", ctx, qp.of_nsmb_con, y, phi, Pfs, P, sbf.T, sbt, psddnu.T, fs, win, ns, nb, bitcomb, lf, bkgpolarityconstraint=con, sigpolarityconstraint=pol)
    x2 = quiet(rec, "number", ctx, qp.of_nsmb_con, y, phi, Pfs, P, sbf.T, sbt, psddnu.T, fs, win, ns, nb, bitcomb, lf, bkgpolarityconstraint=con, sigpolarityconstraint=np.array([pol]))
    if x1 is not None and x2 is not None:
        rec.true("number", all(np.array_equal(u, v) for u, v in zip(x1, x2)), f"{ctx}: signal polarity as a number and as an array differ")
    rec.trace(3)


def run_setup(case, rec):
    """The precomputed quantities follow their definitions."""
    for nt, bk, pk in itertools.product((5, 6, 9), range(11), (0, 1)):
        q = build(rec, dict(nt=nt, bk=bk, pk=pk))
        if q is None:
            return
        s, b, psd, fs, amp, ref, st, iP, ctx = q
        psddnu, phi, Pfs, P, sbf, sbt, iB, B, ns, nb, bitcomb, lf = st
        rec.step()
        rec.true("definitions", np.allclose(np.ravel(psddnu), 1 / ref.w, rtol=1e-9), f"{ctx}: psd times bin width (zeroth bin as the first)")
        rec.true("definitions", np.allclose(sbt, np.column_stack([s, b])) and np.allclose(sbf, ref.F @ np.column_stack([s, b]), atol=1e-12), f"{ctx}: templates in time and frequency")
        f2, t2 = qp.of_nsmb_ffttemplate(s[:, None], b)
        rec.true("definitions", np.allclose(f2, sbf) and np.allclose(t2, sbt), f"{ctx}: of_nsmb_ffttemplate differs from of_nsmb_setup")
        size = np.max(np.abs(ref.A[0]))
        rec.true("definitions", np.allclose(Pfs, ref.A[0], rtol=0, atol=1e-9 * size), f"{ctx}: matrix of template products")
        for d in range(nt):
            rec.true("definitions", np.allclose(P[:, :, d], ref.A[d], rtol=0, atol=1e-9 * size), f"{ctx}: matrix of template products at delay {d}")
            if ref.cond[d] < 1e8:
                rec.true("definitions", np.allclose(iP[:, :, d] @ ref.A[d], np.eye(nb + 1), atol=1e-5), f"{ctx}: inverse at delay {d}")
            for mask in itertools.product((0, 1), repeat=nb + 1):
                if not any(mask):
                    continue
                u = np.flatnonzero(mask)
                r = must(rec, "getPt", f"{ctx} mask {mask}", qp.of_nsmb_getPt, Pfs, P, bindelay=d, bitmask=np.array(mask))
                if r is None:
                    return
                rec.true("definitions", np.allclose(r[0], ref.A[d][np.ix_(u, u)], rtol=0, atol=1e-9 * size), f"{ctx}: of_nsmb_getPt mask {mask} delay {d}")
        if nb == 1 or ref.cond[0] < 1e8:
            rec.true("definitions", np.allclose(np.reshape(iB, (nb, nb)) @ ref.A[0][1:, 1:], np.eye(nb), atol=1e-5), f"{ctx}: inverse background matrix")
        Pf, Pfs2, phi2 = qp.of_nsmb_getPf(sbf, psddnu, ns, nb, nt)
        rec.true("definitions", np.allclose(Pfs2, Pfs) and np.allclose(phi2, phi) and np.allclose(np.real(Pf.sum(axis=2)), Pfs), f"{ctx}: of_nsmb_getPf")
        rec.true("definitions", np.allclose(phi, np.conj(ref.Tf[0].T) * ref.w, rtol=1e-6, atol=1e-9 * np.max(np.abs(phi))), f"{ctx}: optimum filter")
        rec.state(nt, bk, pk)
    rec.trace()
