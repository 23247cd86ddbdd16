"""C10: generated noise has the requested spectrum: the random source is replaced by every unit vector."""
import numpy as np
import qetpy as qp
from mc.core import must
from mc import ref_of as R

ID = "C10"
LEVEL = "model_checking"
BOUNDS = ("PSD lengths 2..24 (thorough 2..64), 4 PSD shapes (one with an infinite zeroth value), 3 sample rates, 1..3 traces; "
          "for each, the white-noise source is driven through ALL n unit vectors, which determines the linear map completely; two traces at once (their exact joint covariance) for lengths to 12; "
          "batches of 64..2053 traces (thorough 10007) and traces of 1000..32500 samples (thorough 130000)")
RULE = ("numpy's normal generators are replaced by a controlled source; the n responses determine the exact covariance of the "
        "generated noise, whose expected PSD must equal the input PSD; state = (PSD, unit vector, response)")
ASSUMPTIONS = ["numpy's normal generator yields independent unit-variance values"]


def cases(tier):
    for n in list(range(2, 25 if tier == "quick" else 65)):
        for shape in range(4):
            yield dict(n=n, shape=shape)
    for nt in (64, 257, 1031, 2053) if tier == "quick" else (64, 257, 1031, 2053, 4099, 10007):
        yield dict(kind="many", nt=nt, n=8)
    for n in (1000, 1625, 4096, 32500) if tier == "quick" else (1000, 1625, 4096, 5001, 10007, 32500, 65536, 130000):
        yield dict(kind="large", n=n)


class Source:
    """Controlled white-noise source standing in for numpy's global normal generators."""

    def __init__(self):
        self.calls = []
        self.vec = None
        self.pos = 0

    def _give(self, shape):
        if shape is None:
            shape = ()
        if isinstance(shape, (int, np.integer)):
            shape = (int(shape),)
        shape = tuple(int(s) for s in shape)
        self.calls.append(shape)
        out = np.zeros(int(np.prod(shape)))
        rest = self.vec[self.pos:self.pos + out.size]      # one stream, however the code cuts it into calls
        self.pos += out.size
        out[:len(rest)] = rest
        return out.reshape(shape)

    def randn(self, *shape):
        return self._give(shape)

    def standard_normal(self, size=None):
        return self._give(size)

    def normal(self, loc=0.0, scale=1.0, size=None):
        return loc + scale * self._give(size)

    def default_rng(self, *a, **k):
        return self

    RandomState = default_rng

    def __enter__(self):
        self.saved = {k: getattr(np.random, k) for k in ("randn", "standard_normal", "normal", "default_rng", "RandomState")}
        for k in self.saved:
            setattr(np.random, k, getattr(self, k))
        return self

    def __exit__(self, *a):
        for k, v in self.saved.items():
            setattr(np.random, k, v)


def unit_psd_power(rec, ctx, n, nt, fs):
    """White PSD: the map of the white source to the noise is orthogonal up to sqrt(psd*fs), so a source of +-1 gives every trace
    exactly the mean square psd*fs, whichever values went to which trace."""
    src = Source()
    src.vec = np.where(R.lcg(nt * n, 3) > 0, 1.0, -1.0)
    with src:
        y = must(rec, "noise", ctx, qp.gen_noise, 2.0 * np.ones(n), fs=fs, ntraces=nt)
    if y is None:
        return
    if sum(int(np.prod(c)) for c in src.calls) != n * nt:
        rec.note("source_not_controlled")
        return
    y = np.asarray(y)
    rec.state(ctx, y)
    if y.shape != (nt, n):
        rec.fail("noise", f"{ctx}: shape {y.shape}")
        return
    rec.close("spectrum", np.mean(y ** 2, axis=1), np.full(nt, 2.0 * fs), rtol=1e-9, ctx=ctx + " power of each trace driven by +-1 white values")


def run_big(case, rec):
    n, nt = case["n"], case.get("nt", 2)
    for fs in (1.0, 625e3):
        ctx = f"gen_noise(n={n}, ntraces={nt}, fs={fs})"
        unit_psd_power(rec, ctx, n, nt, fs)
        f = np.abs(np.fft.fftfreq(n)) * n
        psd = 1.0 / (1 + f)
        np.random.seed(9)
        y = must(rec, "noise", ctx, qp.gen_noise, psd, fs=fs, ntraces=nt)
        np.random.seed(9)
        y4 = must(rec, "noise", ctx, qp.gen_noise, psd * 4, fs=fs, ntraces=nt)
        if y is None or y4 is None:
            return
        y = np.asarray(y)
        if y.shape != (nt, n) or not np.all(np.isfinite(y)):
            rec.fail("noise", f"{ctx}: shape {y.shape} or values not finite")
            return
        rec.close("noise", y4, 2 * y, rtol=1e-8, ctx=ctx + " four times the PSD doubles the noise")
        rec.state(case, fs, y)
        z = y / np.linalg.norm(y, axis=1, keepdims=True)
        srt = z[np.lexsort(np.abs(np.round(z.T, 9)))]
        if np.any(np.all(np.abs(np.abs(srt[1:]) - np.abs(srt[:-1])) < 1e-7, axis=1)):
            rec.fail("noise", f"{ctx}: repeated traces are identical up to a factor")
        # time-invariant generator (decided on 8 samples): then the response to one unit impulse carries the exact spectrum
        m = []
        for k in range(8):
            src = Source()
            src.vec = np.eye(8)[k]
            with src:
                m.append(np.asarray(qp.gen_noise(1.0 / (1 + np.abs(np.fft.fftfreq(8)) * 8), fs=fs, ntraces=1))[0])
        if np.allclose(m, [np.roll(m[0], k) for k in range(8)], rtol=0, atol=1e-9 * np.max(np.abs(m))):
            src = Source()
            src.vec = np.eye(1, n * nt, (n * nt) // 2)[0]
            with src:
                y = np.asarray(qp.gen_noise(psd, fs=fs, ntraces=nt))
            rec.step()
            rec.close("spectrum", np.sum(np.abs(np.fft.fft(y, axis=1)) ** 2, axis=0), psd * fs, rtol=1e-9, ctx=ctx + ": spectrum of the response to one unit impulse")
        else:
            rec.note("not_circulant")
    rec.trace()


def run(case, rec):
    if "kind" in case:
        return run_big(case, rec)
    n = case["n"]
    f = np.abs(np.fft.fftfreq(n)) * n
    psd = [np.ones(n) * 2.0, 1.0 / (1 + f), 1 + f ** 2 + (f == 2) * 5, np.where(f == 0, np.inf, 3.0 / np.maximum(f, 1))][case["shape"]]
    eff = np.where(np.isinf(psd), 0.0, psd)
    for fs in (1.0, 7.0, 625e3):
        ctx = f"gen_noise(n={n}, psd shape {case['shape']}, fs={fs})"
        p0 = psd.copy()
        for nt in (1, 3):
            np.random.seed(5)
            a = must(rec, "noise", ctx, qp.gen_noise, psd, fs=fs, ntraces=nt)
            if a is None:
                return
            np.random.seed(5)
            b = qp.gen_noise(psd * 4, fs=fs, ntraces=nt)
            if not np.array_equal(psd, p0):
                rec.fail("input", f"{ctx}: the caller's PSD was modified (first value {p0[0]} -> {psd[0]})")
                psd = p0.copy()
            a = np.asarray(a)
            if a.shape != (nt, n) or np.iscomplexobj(a):
                rec.fail("noise", f"{ctx}: result shape {a.shape} {a.dtype}, expected real ({nt},{n})")
                return
            rec.close("noise", b, 2 * a, rtol=1e-8, ctx=ctx + " four times the PSD doubles the noise")
            if nt == 3 and n > 3 and any(np.allclose(a[i], a[j]) for i in range(3) for j in range(i)):
                rec.fail("noise", f"{ctx}: repeated traces are identical")
        # exact linear map
        M = np.zeros((n, n))
        ok = True
        for k in range(n):
            src = Source()
            src.vec = np.eye(n)[k]
            with src:
                y = must(rec, "noise", ctx, qp.gen_noise, psd, fs=fs, ntraces=1)
            if y is None:
                return
            if sum(int(np.prod(c)) for c in src.calls) != n:
                ok = False
                break
            M[:, k] = np.asarray(y)[0]
            rec.state(case, fs, k, M[:, k])
        if not ok:
            rec.note("source_not_controlled")
            continue
        W = np.exp(-2j * np.pi * np.outer(np.arange(n), np.arange(n)) / n)
        exp_psd = np.sum(np.abs(W @ M) ** 2, axis=1) / (n * fs)
        rec.close("spectrum", exp_psd, eff, rtol=1e-9, ctx=ctx + ": exact expected PSD of the generated noise")
        C = M @ M.T
        # stationary: covariance depends on the (circular) time difference only
        C0 = np.array([[C[0, (j - i) % n] for j in range(n)] for i in range(n)])
        rec.close("spectrum", C, C0, rtol=1e-9, atol=1e-12, ctx=ctx + ": stationarity")
        # the traces of one call are independent of each other and each has the same covariance, whichever random values it uses
        if n <= 12:
            T = np.zeros((2 * n, 2 * n))
            for k in range(2 * n):
                src = Source()
                src.vec = np.eye(2 * n)[k]
                with src:
                    T[:, k] = np.asarray(qp.gen_noise(psd, fs=fs, ntraces=2)).reshape(-1)
                rec.step()
            rec.close("traces", T @ T.T, np.kron(np.eye(2), C), rtol=1e-9, atol=1e-12, ctx=ctx + ": exact covariance of two traces of one call")
        rec.trace()
