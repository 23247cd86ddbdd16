"""Boring reference for the optimum filters: direct DFT sums and weighted least squares."""
import numpy as np


def lcg(n, seed):
    """Deterministic small-integer sequence in [-8, 8] (no RNG involved)."""
    x = (seed * 2654435761 + 12345) & 0xFFFFFFFF
    out = []
    for _ in range(n):
        x = (1664525 * x + 1013904223) & 0xFFFFFFFF
        out.append(((x >> 16) % 17) - 8)
    return np.array(out, dtype=float)


def template(n, kind=0):
    """Pulse with its onset at bin n//2-ish or at 0; unit height; no symmetry."""
    t = np.arange(n, dtype=float)
    if kind == 0:
        on = n // 2
        p = np.where(t >= on, np.exp(-(t - on) / 2.0) - 0.6 * np.exp(-(t - on) / 0.7), 0.0)
    elif kind == 1:
        p = np.exp(-t / 1.7) + 0.05
    elif kind == 2:       # bipolar
        p = np.where(t < n // 3, 1.0, -0.4)
        p[0] = 0.3
    else:                 # negative going
        p = -np.exp(-t / 2.3)
    return p / np.max(np.abs(p))


def psd(n, kind=0, scale=1.0):
    """Two-sided, symmetric, positive."""
    f = np.abs(np.fft.fftfreq(n)) * n
    if kind == 0:
        p = np.ones(n)
    elif kind == 1:
        p = 1.0 + 4.0 / (1.0 + f)
    else:
        p = 0.5 + 0.3 * f + (f % 2)
    return p * scale


def real(n, k):
    """Detector-sized data: 625 kHz, traces of order 100 nA with a microampere offset, PSD of order 1e-22 A^2/Hz with 1/f noise,
    roll-off and a line.  Variants: 0 delayed pulse, 1 negative pulse with a later small one, 2 noise, 3 pulses at both ends."""
    fs = 625e3
    t = np.arange(n) / fs
    on = (n // 2) / fs

    def pulse(bins):
        x = np.roll(np.where(t >= on, np.exp(-np.clip(t - on, 0, None) / 66e-6) - np.exp(-np.clip(t - on, 0, None) / 20e-6), 0.0), bins)
        return x / x.max()
    f = np.abs(np.fft.fftfreq(n, 1 / fs))
    f[0] = fs / n / 2
    p = 1e-22 * (1 + 3e3 / f) / (1 + (f / 1.5e5) ** 2) + 4e-24
    p[np.abs(f - 1e5) < fs / n * 1.5] *= 30
    y = lcg(n, 77 + k) * 1.2e-9 + 2.3e-6
    if k == 0:
        y = y + 3.1e-7 * pulse(37)
    elif k == 1:
        y = y - 1.3e-7 * pulse(-n // 5) + 6e-8 * pulse(n // 4)
    elif k == 3:
        y = y + 2e-7 * pulse(n // 2 - 3) + 1.5e-7 * pulse(-(n // 2) + 2)
    return y, pulse(0), p, fs


LONG = 5000


class OFRef:
    def __init__(self, sig, tmpl, psd_in, fs, coupling="AC", integralnorm=False):
        n = len(sig)
        self.n, self.fs, self.df = n, fs, fs / n
        k = np.arange(n)
        self.f = np.where(k <= (n - 1) // 2, k, k - n) * (fs / n)
        if n <= 400:
            W = np.exp(-2j * np.pi * np.outer(k, k) / n)
            self.v = W.dot(sig) / fs
            self.s = W.dot(tmpl) / fs
        else:
            self.v, self.s = np.fft.fft(sig) / fs, np.fft.fft(tmpl) / fs
        if integralnorm:
            self.s = self.s / self.s[0]
        self.psd0 = psd_in[0]
        self.wfull = 1.0 / np.asarray(psd_in, float)
        self.w = self.wfull.copy()
        if coupling == "AC":
            self.w[0] = 0.0
        self.norm = self.ip(self.s, self.s)
        self.chi0 = self.ip(self.v, self.v)
        self.bins = np.arange(n) - n // 2

    def ip(self, a, b, w=None):
        w = self.w if w is None else w
        return float(np.sum((np.conj(a) * b).real * w) * self.df)

    def sh(self, t):
        return self.s * np.exp(-2j * np.pi * self.f * t)

    def chi2(self, r, w=None):
        return self.ip(r, r, w)

    def amp_at(self, t):
        st = self.sh(t)
        return self.ip(st, self.v) / self.norm

    def corr(self, a, b, w=None):
        """ip(a shifted by every bin, b) by one Fourier transform (long traces)"""
        w = self.w if w is None else w
        c = np.fft.ifft(np.conj(a) * b * w).real * self.n * self.df
        return c[self.bins % self.n]

    def _fit(self, v, w, norm):
        """amplitude and residual chi2 at every bin for long traces; the residual is confirmed directly at some bins"""
        A = self.corr(self.s, v, w) / norm
        X = self.chi2(v, w) - A ** 2 * norm
        for i in {0, self.n // 3, int(np.argmin(X)), self.n - 1}:
            d = self.chi2(v - A[i] * self.sh(self.bins[i] / self.fs), w)
            assert abs(d - X[i]) <= 1e-9 * self.chi2(v, w), (d, X[i])
        return A, X

    def delays(self):
        """amplitude and direct residual chi2 at every bin of the rolled axis"""
        if self.n > LONG:
            return self._fit(self.v, self.w, self.norm)
        A = np.array([self.amp_at(b / self.fs) for b in self.bins])
        X = np.array([self.chi2(self.v - a * self.sh(b / self.fs)) for a, b in zip(A, self.bins)])
        return A, X

    def baseline(self):
        """list of (bs, amps, chi2s, chi0) for every baseline that attains the unconstrained optimum"""
        w = self.wfull
        d = np.zeros(self.n, complex)
        d[0] = 1.0 / self.df
        c2 = self.ip(d, d, w)
        nrm = self.ip(self.s, self.s, w)
        X, B = [], []
        if self.n > LONG:
            sd, vd = self.ip(self.s, d, w), self.ip(d, self.v, w)
            sv, det = self.corr(self.s, self.v, w), nrm * c2 - sd ** 2
            a, bs = (sv * c2 - sd * vd) / det, (nrm * vd - sd * sv) / det
            X, B = list(self.chi2(self.v, w) - a * sv - bs * vd), list(bs)
        for b in self.bins if self.n <= LONG else ():
            st = self.sh(b / self.fs)
            M = np.array([[nrm, self.ip(st, d, w)], [self.ip(st, d, w), c2]])
            a, bs = np.linalg.solve(M, [self.ip(st, self.v, w), self.ip(d, self.v, w)])
            X.append(self.chi2(self.v - a * st - bs * d, w))
            B.append(bs)
        X, B = np.array(X), np.array(B)
        out = []
        tol = 1e-7 * max(self.chi2(self.v, w), 1e-300)
        for i in np.flatnonzero(X <= X.min() + tol):
            vb = self.v - B[i] * d
            if self.n > LONG:
                out.append((B[i],) + self._fit(vb, w, nrm) + (self.chi2(vb, w),))
                continue
            A = np.array([self.ip(self.sh(b / self.fs), vb, w) / nrm for b in self.bins])
            XX = np.array([self.chi2(vb - a * self.sh(b / self.fs), w) for a, b in zip(A, self.bins)])
            if not any(np.allclose(B[i], o[0], rtol=1e-9, atol=1e-12 * (abs(B).max() + 1e-300)) for o in out):
                out.append((B[i], A, XX, self.chi2(vb, w)))
        return out, self.chi2(self.v, w)

    def pileup(self, a1, t1):
        vr = self.v - a1 * self.sh(t1)
        if self.n > LONG:
            return self._fit(vr, self.w, self.norm) + (self.chi2(vr),)
        A = np.array([self.ip(self.sh(b / self.fs), vr) / self.norm for b in self.bins])
        X = np.array([self.chi2(vr - a * self.sh(b / self.fs)) for a, b in zip(A, self.bins)])
        return A, X, self.chi2(vr)

    def stationary(self):
        """two pulses, first fixed at zero delay: joint least squares at each delay of the second.
        At zero delay the two pulses coincide: only a1+a2 is determined."""
        A1, A2, X = [], [], []
        if self.n > LONG:
            c, y2, y1 = self.corr(self.s, self.s), self.corr(self.s, self.v), self.ip(self.s, self.v)
            det = self.norm ** 2 - c ** 2
            z = self.bins == 0
            det[z] = 1.0
            A1 = np.where(z, y1 / self.norm / 2, (self.norm * y1 - c * y2) / det)
            A2 = np.where(z, y1 / self.norm / 2, (self.norm * y2 - c * y1) / det)
            return A1, A2, self.chi0 - A1 * y1 - A2 * y2
        for b in self.bins:
            st = self.sh(b / self.fs)
            cols = np.stack([self.s, st], axis=1) * np.sqrt(self.w * self.df)[:, None]
            y = self.v * np.sqrt(self.w * self.df)
            M = np.concatenate([cols.real, cols.imag])
            Y = np.concatenate([y.real, y.imag])
            p = np.linalg.lstsq(M, Y, rcond=1e-10)[0]
            A1.append(p[0])
            A2.append(p[1])
            X.append(self.chi2(self.v - p[0] * self.s - p[1] * st))
        return np.array(A1), np.array(A2), np.array(X)

    def lowfreq(self, amp, t0, fcut):
        r = self.v - amp * self.sh(t0)
        m = np.abs(self.f) <= fcut
        return float(np.sum((np.abs(r) ** 2 * self.w)[m]) * self.df)

    def time_res(self, amp):
        return 1 / np.sqrt(amp ** 2 * np.sum((2 * np.pi * self.f) ** 2 * np.abs(self.s) ** 2 * self.w) * self.df)


def window(n, nconstrain, outside, wc):
    """indices (rolled axis) allowed by the documented window"""
    if nconstrain is None:
        return list(range(n))
    nc = min(nconstrain, n)
    lo = n // 2 - nc // 2 + wc
    hi = lo + nc
    i = np.arange(n)
    return i[((lo <= i) & (i < hi)) != outside].tolist()


def allowed(n, A, nconstrain, outside, wc, direction, tol):
    """(must_ok, may_ok): indices certainly allowed / allowed up to rounding of the amplitude sign"""
    idx = window(n, nconstrain, outside, wc)
    if direction == 0:
        return idx, idx
    i = np.array(idx, dtype=int)
    a = direction * np.asarray(A)[i]
    sure, may = i[a > tol].tolist(), i[a > -tol].tolist()
    return sure, may


def check_pick(rec, key, ctx, got, A, X, n, fs, nconstrain, outside, wc, direction, chi_none, scale, afloor=0.0):
    """got=(amp,t0,chi2) must be an allowed bin with the reference amplitude/chi2 and minimal chi2."""
    try:
        amp, t0, chi2 = (float(np.real(g)) for g in got)
    except Exception as e:
        rec.fail(key, f"{ctx}: result {got!r} is not three numbers ({e})")
        return
    if not np.all(np.isfinite([amp, t0, chi2])):
        rec.fail(key, f"{ctx}: non-finite result {got!r}")
        return
    ascale = max(np.max(np.abs(A)), afloor) + 1e-300
    sure, may = allowed(n, A, nconstrain, outside, wc, direction, 1e-9 * ascale)
    rec.outcome(len(sure), round(t0 * fs), amp > 0)
    tolx = 1e-6 * scale
    tola = 1e-6 * ascale
    if not sure and amp == 0 and t0 == 0 and abs(chi2 - chi_none) <= tolx:
        return
    if not may:
        rec.fail(key, f"{ctx}: no delay is allowed, got {(amp, t0, chi2)} instead of (0, 0, {chi_none})")
        return
    i = int(round(t0 * fs)) + n // 2
    if abs(t0 * fs - round(t0 * fs)) > 1e-6 or not 0 <= i < n or i not in may:
        rec.fail(key, f"{ctx}: t0={t0} (bin {i}) is not an allowed delay {may}")
        return
    if abs(amp - A[i]) > tola:
        rec.fail(key, f"{ctx}: amplitude {amp} at bin {i}, least squares gives {A[i]}")
    if abs(chi2 - X[i]) > tolx:
        rec.fail(key, f"{ctx}: chi2 {chi2} at bin {i}, residual gives {X[i]}")
    if sure:
        best = np.min(np.asarray(X)[sure])
        if X[i] > best + tolx:
            j = min(sure, key=lambda q: X[q])
            rec.fail(key, f"{ctx}: picked bin {i} with chi2 {X[i]}, but allowed bin {j} has {X[j]}")
