"""Independent model of a dIdV measurement: documented impedances, square wave, traces, deconvolution."""
import numpy as np

P1 = ("rsh", "rp", "L")
P2 = ("rsh", "rp", "r0", "beta", "l", "L", "tau0")
P3 = P2 + ("gratio", "tau3")


def zs(s, p):
    """Documented impedance at complex angular frequency s (model chosen by the parameters present)."""
    z = p["rsh"] + p["rp"] + s * p["L"]
    if "r0" not in p:
        return z
    z = z + p["r0"] * (1 + p["beta"])
    num = p["r0"] * (2 + p["beta"]) * p["l"]
    den = (1 - p["l"]) + s * p["tau0"]
    if "gratio" in p:
        den = den - p["gratio"] / (1 + s * p["tau3"])
    return z + num / den


def z(f, p):
    return zs(2j * np.pi * np.asarray(f, float), p)


def zfit(f, q):
    """Documented form of the DIDV.dofit parameters (A, B, C, tau1, tau2, tau3)."""
    s = 2j * np.pi * np.asarray(f, float)
    r = q["A"] * (1 + s * q["tau2"])
    if "C" in q:
        return r + q["B"] / (1 + s * q["tau1"] - q["C"] / (1 + s * q["tau3"]))
    if "B" in q:
        return r + q["B"] / (1 + s * q["tau1"])
    return r


def wave(n, per, d):
    """Fourier components (numpy.fft of one unit peak-to-peak wave, low for the first fraction d) of n bins, per periods;
    zero where undriven, the Nyquist bin excluded."""
    W = np.zeros(n, complex)
    for h in range(1, (n - 1) // 2 // per + 1):
        x = h * d
        if abs(x - round(x)) < 1e-9:
            continue
        c = (1 - np.exp(-2j * np.pi * x)) / (-2j * np.pi * h)
        W[h * per] = c * n
        W[n - h * per] = np.conj(c) * n
    return W


def response(p, n, per, fs, sgfreq, amp, d=0.5, shift=0.0):
    """Trace (delayed by `shift` bins), from the documented admittance."""
    W = wave(n, per, d)
    f = np.fft.fftfreq(n, d=1 / fs)
    with np.errstate(all="ignore"):
        Y = np.where(W != 0, W * amp * p["rsh"] / z(f, p), 0) * np.exp(-2j * np.pi * f * shift / fs)
    return np.real(np.fft.ifft(Y))


def noise_pair(n, level, seed=1):
    """Two real sequences with flat modulus spectrum, a quarter of a cycle apart in every component and zero mean."""
    from .ref_of import lcg
    ph = np.exp(1j * np.pi * lcg(n, seed))
    X = np.zeros(n, complex)
    m = (n - 1) // 2
    X[1:m + 1] = ph[1:m + 1]
    X[n - m:] = np.conj(X[1:m + 1][::-1])
    Y = X.copy()
    Y[1:m + 1] *= 1j
    Y[n - m:] *= -1j
    if n % 2 == 0:
        X[n // 2], Y[n // 2] = 1, 1
    k = level * np.sqrt(n)
    return np.real(np.fft.ifft(X)) * k, np.real(np.fft.ifft(Y)) * k


def traces(y, level, seed=1, offset=0.0):
    """Four traces with exact mean y + offset and equal spread of real and imaginary parts at every frequency."""
    u, v = noise_pair(len(y), level, seed)
    return np.array([y + u, y - u, y + v, y - v]) + offset


def deconvolve(tr, per, d, amp, rsh):
    """Driven mask, mean and error of the mean of the admittance, from traces in Amps."""
    n = tr.shape[1]
    W = wave(n, per, d)
    on = W != 0
    D = np.fft.fft(tr, axis=1)[:, on] / (W[on] * amp * rsh)
    sd = (np.std(D.real, axis=0) + 1j * np.std(D.imag, axis=0)) / np.sqrt(len(tr))
    return on, D.mean(axis=0), sd
