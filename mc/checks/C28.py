"""C28: public functions depend only on the values of their arguments and change nothing else."""
import contextlib
import io
import itertools
import copy
import os
import pickle
import subprocess
import sys
import tempfile
import warnings
import numpy as np
import qetpy as qp
import qetpy.cut as CUT
import qetpy.sim as SIM
import qetpy.utils as UT
from mc import ref_of as R, ref_didv as D
from mc.core import attempt, Raised

ID = "C28"
LEVEL = "model_checking"
CASE_CPU_S = 300
BOUNDS = ("about 100 calls covering every public computing function and class of the package x every array argument alone and all together x 8 "
          "representations of the same values (read-only, strided, reversed, Fortran order, byte-swapped, masked-out base, integers, repeated); "
          "all ordered pairs of these calls in one process; all histories of 2 (thorough 3) operations on one object of each of 9 classes, alone (in a fresh process) and interleaved with every operation of another object; every call under a scrambled global state")
RULE = ("complete enumeration of (call, argument, representation) and of ordered pairs of calls on the real package; oracle: the answer to plain "
        "contiguous float64 copies in a fresh history; arguments, the memory around them and the global state are compared bit by bit; "
        "state = (call, representation, answer)")
ASSUMPTIONS = ["integer representations are tried for arrays of measured values (traces, PSD-like inputs stay floating point)",
               "calls that draw random numbers are compared under the same seed; they alone may advance numpy's global generator"]

FS = 625e3


def trs(n, nbin, seed=0, scale=20):
    x = R.lcg(n * nbin, 300 + seed).reshape(n, nbin)
    p = np.where(np.arange(nbin) >= nbin // 2, np.exp(-(np.arange(nbin) - nbin // 2) / (nbin / 8)), 0)
    return np.round(x + scale * np.outer(1 + np.arange(n) % 3, p))


def tmpl(n):
    return R.template(n, 0)


def psd(n, k=1):
    return R.psd(n, k, 1e-3)


def ivdata(nonlin=False):
    n, nt, nch = 12, 2, 2
    v = np.linspace(10, 1, n) * np.ones((nt, nch, 1))
    d = v / 0.3 + 2 + 0.1 * R.lcg(nt * nch * n, 3).reshape(nt, nch, n) / 8
    d[..., 7:] = d[..., 7:8] * 7 / np.arange(7, 12)
    return d * 1e-6, np.full((nt, nch, n), 2e-8), v * 1e-6, np.full((nt, nch, n), 1e-8)


def ibisdata():
    n, nt, nch = 12, 2, 2
    ib = np.linspace(203, -21, n) * 1e-6 * np.ones((nt, nch, 1))
    it = (ib - 2e-6) * 5e-3 / (5e-3 + 0.306)
    it[:, :, 6:9] *= 1.7
    it[:, :, 9:] = (ib[:, :, 9:] - 2e-6) * 5e-3 / (5e-3 + 6e-3)
    return it + 3e-6, np.full((nt, nch, n), 2e-8), ib, np.abs(ib) * 0.01


def attrs(o, names):
    return {k: getattr(o, k) for k in names if hasattr(o, k)}


IVN = ("rnorm", "rnorm_err", "rfit", "rfit_err", "ioff", "ioff_err", "ites", "ites_err", "r0", "r0_err", "ptes", "ptes_err", "vb_off")
IBN = ("ioff", "ioff_err", "ibias_off", "rfit", "rp", "rp_err", "rnorm", "rnorm_err", "ites", "r0", "r0_err", "ptes", "ptes_err", "vb")


def noise_calls(x):
    o = qp.Noise(x, 1e3, ["a", "b"])
    for f in ("calculate_psd", "calculate_corrcoeff", "calculate_csd"):
        getattr(o, f)()
    a = attrs(o, ("psd", "real_psd", "imag_psd", "freqs", "corrcoeff", "csd", "real_csd", "imag_csd"))
    o.calculate_uncorr_noise()
    return a, attrs(o, ("uncorrnoise", "corrnoise"))


def noise_slope(x):
    o = qp.Noise(x, 1e3, ["a", "b"])
    o.remove_trace_slope()
    o.calculate_psd()
    return o.psd


def of_calls(s, t, p):
    o = qp.OptimumFilter(s, t, p, FS, coupling="AC")
    out = [o.ofamp_nodelay(), o.ofamp_withdelay(nconstrain=6, interpolate_t0=True), o.ofamp_baseline(nconstrain=8),
           o.chi2_nopulse(), o.energy_resolution(), o.time_resolution(1.0), o.chi2_lowfreq(1.0, 2 / FS, fcutoff=1e5)]
    out += [o.ofamp_pileup_iterative(3.0, 1 / FS), o.ofamp_pileup_stationary(nconstrain=6)]
    o.update_signal(s + 1)
    return out + [o.ofamp_withdelay()]


def nonlin(s, p, m):
    n = len(s)
    return qp.OFnonlin(p, FS).fit_falltimes(s, npolefit=m, guess=[2000.0, 2.4e-6, 1.9e-5, n // 2 / FS] if m == 2 else [2000.0, 1.9e-5, n // 2 / FS], taurise=2.4e-6)


def nsmb(y, s, b, p, con):
    st = qp.of_nsmb_setup(s, b, p, FS)
    psddnu, phi, Pfs, P, sbf, sbt, iB, B, ns, nb, bc, lf = st
    win = [np.arange(len(s))[None, :], np.arange(3, len(s) - 2)]
    with contextlib.redirect_stdout(io.StringIO()):
        return (qp.of_nsmb(y, phi, sbf.T, sbt, qp.of_nsmb_getiP(P), psddnu.T, FS, win[:1], ns, nb, bc, lf),
                qp.of_nsmb_con(y, phi, Pfs, P, sbf.T, sbt, psddnu.T, FS, win, ns, nb, bc, lf, bkgpolarityconstraint=con, sigpolarityconstraint=np.ones(1)),
                qp.of_mb(y, phi, sbf.T, sbt, iB, B, psddnu.T, FS, ns, nb, lf, bkgpolarityconstraint=con))


def didv_traces(scale=1.0):
    p = dict(rsh=5e-3, rp=6e-3, r0=0.0756, beta=2, l=0.5, L=1e-7, tau0=5e-4)
    y = D.response(p, 5000, 2, FS, FS / 2500, 4.7e-7, 0.5, 2)
    return D.traces(y, 1e-3 * np.max(np.abs(y)), 3, 4e-6) * scale


def didv(x, m, gain=1.0, priors=False):
    o = (qp.DIDVPriors if priors else qp.DIDV)(x, FS, FS / 2500, 4.7e-7, 5e-3, tracegain=gain, dt0=2.2 / FS, **({} if priors else dict(r0=0.0756, rp=6e-3)))
    if priors:
        pri, cov = np.zeros(8), np.zeros((8, 8))
        pri[:3] = 5e-3, 6e-3, 0.0756
        cov[[0, 1, 2], [0, 1, 2]] = (0.02 * pri[:3]) ** 2
        o.dofit(2, pri, cov)
        q = o.fitresult(2)
        return [q["params"][k] for k in ("rsh", "rp", "r0")]
    o.dofit(m)
    q = o.fitresult(m)
    return {k: v for k, v in q["params"].items()}


def tes(f):
    o = SIM.TESnoise(freqs=f)
    return [getattr(o, k)() for k in ("dIdV", "dIdP", "s_itot", "s_ptot", "s_itotnormal", "s_itotsc", "dIdVsc", "dIdVnormal", "s_itfn")] + [o.s_itot(f * 2)]


def slow_noise(p, n):
    return qp.gen_noise(p, fs=FS, ntraces=n)


N = 24
# name -> (arrays, call, argument numbers that may be integers, relative tolerance, draws random numbers)
OPS = {}


def op(name, arrays, fn, ints=(), tol=1e-8, rand=False, slow=False):
    OPS[name] = dict(arrays=arrays, fn=fn, ints=ints, tol=tol, rand=rand, slow=slow)


def build_ops():
    if OPS:
        return OPS
    s, t, p = trs(1, N)[0], tmpl(N), psd(N)
    t3 = trs(12, 64).reshape(6, 2, 64)
    many = trs(24, 64, 5)
    many[3] += 90
    many[7, ::3] += 70
    many[11] += np.round(np.arange(64) * 1.5)
    op("OptimumFilter", lambda: [s, t, p], of_calls, (0,))
    op("OptimumFilter batch", lambda: [trs(3, N), t, p], lambda a, b, c: [qp.OptimumFilter(x, b, c, FS).ofamp_withdelay() for x in a], (0,))
    for cp in ("AC", "DC"):
        op(f"ofamp {cp}", lambda: [s, t, p], lambda a, b, c, cp=cp: qp.ofamp(a, b, c, FS, coupling=cp, lgcsigma=True, nconstrain=10), (0,))
        op(f"ofamp batch {cp}", lambda: [trs(3, N), t, p], lambda a, b, c, cp=cp: qp.ofamp(a, b, c, FS, coupling=cp), (0,))
        op(f"ofamp_pileup {cp}", lambda: [s, t, p], lambda a, b, c, cp=cp: qp.ofamp_pileup(a, b, c, FS, coupling=cp), (0,))
        op(f"ofamp_pileup_stationary {cp}", lambda: [s, t, p], lambda a, b, c, cp=cp: qp.ofamp_pileup_stationary(a, b, c, FS, coupling=cp), (0,))
        op(f"chi2lowfreq {cp}", lambda: [s, t, p], lambda a, b, c, cp=cp: qp.chi2lowfreq(a, b, 3.0, 1 / FS, c, FS, fcutoff=1e5, coupling=cp), (0,))
        op(f"chi2_nopulse {cp}", lambda: [s, p], lambda a, c, cp=cp: qp.chi2_nopulse(a, c, FS, coupling=cp), (0,))
    op("ofamp nodelay", lambda: [s, t, p], lambda a, b, c: qp.ofamp(a, b, c, FS, withdelay=False, integralnorm=True), (0,))
    pulse = np.round(2000 * (np.exp(-np.arange(64) / 12.0) - np.exp(-np.arange(64) / 1.5)))
    pulse = np.concatenate([np.zeros(32), pulse[:32]]) + np.round(R.lcg(64, 9) / 4)
    op("OFnonlin 1", lambda: [pulse, psd(64)], lambda a, b: nonlin(a, b, 1), (0,), 1e-4, slow=True)
    op("OFnonlin 2", lambda: [pulse, psd(64)], lambda a, b: nonlin(a, b, 2), (0,), 1e-4, slow=True)
    tail = np.round(4000 * np.exp(-np.arange(64) / 40.0))
    op("MuonTailFit", lambda: [tail, psd(64)], lambda a, b: qp.MuonTailFit(b, FS).fitmuontail(a, lgcfullrtn=True), (0,), 1e-4, slow=True)
    for n in (8, 9):
        op(f"foldpsd {n}", lambda n=n: [psd(n)], lambda a: qp.foldpsd(a, 10.0))
        op(f"smooth_psd {n}", lambda n=n: [psd(n, 2)], qp.smooth_psd)
        op(f"gen_noise {n}", lambda n=n: [psd(n)], lambda a: qp.gen_noise(a, fs=3.0, ntraces=3), rand=True)
    for sh in ((12,), (5, 11), (3, 2, 8)):
        op(f"calc_psd {sh}", lambda sh=sh: [R.lcg(int(np.prod(sh)), 4).reshape(sh)], lambda a: [qp.calc_psd(a, fs=2.0), qp.calc_psd(a, fs=2.0, folded_over=False)], (0,))
    op("Noise", lambda: [t3], noise_calls, (0,))
    op("Noise slope", lambda: [t3], noise_slope, (0,))
    op("Noise name", lambda: [t3, np.arange(64) / 1e3], lambda a, b: attrs(qp.Noise(a, 1e3, ["a", "b"], tracegain=2.0, name="x", time=b), ("traces", "time", "fs")), (0,))
    op("IV", lambda: list(ivdata()), lambda a, b, c, d: [attrs(o, IVN) for o in [qp.IV(a, b, c, d, 0.02, 1e-3, ["a", "b"], normalinds=range(0, 5))] for _ in (o.calc_iv(),)])
    op("IV auto", lambda: list(ivdata()) + [np.full(2, 0.02), np.full(2, 1e-3)], lambda a, b, c, d, e, f: [attrs(o, IVN) for o in [qp.IV(a, b, c, d, e, f, ["a", "b"])] for _ in (o.calc_iv(),)])
    op("IBIS", lambda: list(ibisdata()), lambda a, b, c, d: [attrs(o, IBN) for o in [qp.IBIS(a, b, c, d, 5e-3, 3e-4, range(0, 5), rp_guess=6e-3, rp_err_guess=4e-4, chan_names=["a", "b"], fitsc=True, scinds=range(9, 12))] for _ in (o.analyze(),)])
    op("IBIS counts", lambda: [np.round(v * 1e9) for v in ibisdata()], lambda a, b, c, d: [attrs(o, IBN) for o in [qp.IBIS(a, b, c, d, 5e-3, 3e-4, range(0, 5), rp_guess=6e-3, rp_err_guess=4e-4, chan_names=["a", "b"], fitsc=True, scinds=range(9, 12))] for _ in (o.analyze(),)], (0, 1, 2, 3))
    op("IV counts", lambda: [np.round(v * 1e9) for v in ivdata()], lambda a, b, c, d: [attrs(o, IVN) for o in [qp.IV(a, b, c, d, 0.02, 1e-3, ["a", "b"], normalinds=range(0, 5))] for _ in (o.calc_iv(),)], (0, 1, 2, 3))
    op("IBIS guess", lambda: list(ibisdata()) + [np.full(2, 6e-3), np.full(2, 4e-4)], lambda a, b, c, d, e, f: [attrs(o, IBN) for o in [qp.IBIS(a, b, c, d, 5e-3, 3e-4, range(0, 5), rp_guess=e, rp_err_guess=f, chan_names=["a", "b"], fitsc=False)] for _ in (o.analyze(),)])
    for al in ("removeoutliers", "iterstat"):
        for dd in (False, True):
            op(f"autocuts {al} {dd}", lambda: [many], lambda a, al=al, dd=dd: CUT.autocuts(a, fs=FS, is_didv=dd, sgfreq=FS / 32, outlieralgo=al), (0,), rand=False, slow=al == "removeoutliers")
    op("autocuts symmetrize", lambda: [many], lambda a: CUT.autocuts(a, fs=FS, symmetrizeflag=True, outlieralgo="iterstat"), (0,), rand=True)
    vals = np.append(R.lcg(15, 8), [60.0, 75.0])
    op("removeoutliers", lambda: [vals], CUT.removeoutliers, (0,)) if hasattr(CUT, "removeoutliers") else None
    op("iterstat", lambda: [vals], lambda a: CUT.iterstat(a, cut=2), (0,)) if hasattr(CUT, "iterstat") else None
    op("iterstat unbiased", lambda: [vals], lambda a: CUT.iterstat(a, cut=2, return_unbiased_estimates=True), (0,), 1e-6) if hasattr(CUT, "iterstat") else None
    op("itercov", lambda: [vals, R.lcg(17, 12)], CUT.itercov, (0, 1)) if hasattr(CUT, "itercov") else None
    op("get_muon_cut", lambda: [np.minimum(many * 5, 150.0)], lambda a: CUT.get_muon_cut(a, nsatbins=4), (0,)) if hasattr(CUT, "get_muon_cut") else None
    for k in (0, 1, -2, 0.5, -1.25):
        op(f"shift {k}", lambda: [R.lcg(9, 2)], lambda a, k=k: UT.shift(a, k), (0,))
    op("shift 2d", lambda: [R.lcg(12, 2).reshape(6, 2)], lambda a: UT.shift(a, 1.5, fill_value=2), (0,))
    op("resample_data", lambda: [trs(2, 60)], lambda a: UT.resample_data(a, 600.0, 70.0), (0,)) if hasattr(UT, "resample_data") else None
    op("resample_data same", lambda: [trs(2, 60)], lambda a: UT.resample_data(a, 600.0, 60.0), (0,)) if hasattr(UT, "resample_data") else None
    op("make_template", lambda: [np.arange(50) / FS], lambda a: [UT.make_template(a, 2e-6, 2e-5), UT.make_template(a, 2e-6, 2e-5, offset=3)])
    op("make_decreasing", lambda: [R.lcg(9, 5), np.arange(9.0) ** 1.2], lambda a, b: [UT.make_decreasing(a), UT.make_decreasing(a, x=b)], (0,))
    op("fill_negatives", lambda: [R.lcg(11, 5)], lambda a: UT.fill_negatives(a.copy()))      # documented to work in place
    op("slope", lambda: [np.arange(8.0), R.lcg(8, 5)], lambda a, b: [UT.slope(a, b), UT.slope(a, b, removemeans=False)], (0, 1))
    op("calc_offset", lambda: [trs(4, 90)], lambda a: [UT.calc_offset(a, fs=100.0, sgfreq=5.0), UT.calc_offset(a, fs=100.0, sgfreq=5.0, is_didv=True)], (0,))
    for sh in ((40,), (3, 40), (2, 3, 40)):
        op(f"lowpassfilter {sh}", lambda sh=sh: [R.lcg(int(np.prod(sh)), 6).reshape(sh)], lambda a: UT.lowpassfilter(a, cut_off_freq=1e5, order=2), (0,))
    op("align_traces", lambda: [trs(4, 128, 3, 200)], lambda a: UT.align_traces(a, n_cut=128, cut_off_freq=1e5, fs=FS), (0,))
    op("align_traces shifts", lambda: [trs(4, 128, 3, 200)], lambda a: UT.align_traces(a, lgcjustshifts=True, n_cut=128, cut_off_freq=1e5, fs=FS), (0,))
    op("get_offset_from_muon", lambda: [np.concatenate([np.full(30, 2e-6), np.full(200, 1e-5), np.linspace(1e-5, 2e-6, 100)])], lambda a: UT.get_offset_from_muon(a, 1e-4, 0.3, 0.012, lgcfullrtn=True))
    for sh in ((30,), (2, 30), (2, 3, 30)):
        op(f"powertrace {sh}", lambda sh=sh: [R.lcg(int(np.prod(sh)), 7).reshape(sh) * 1e-7], lambda a: UT.powertrace_simple(a, 1e-6, 1e-4, 0.012, 5e-3))
        op(f"energy_absorbed {sh}", lambda sh=sh: [R.lcg(int(np.prod(sh)), 7).reshape(sh) * 1e-7], lambda a: UT.energy_absorbed(a, 1e-6, 1e-4, 0.012, 5e-3, fs=FS, indbasepre=10))
    op("energy_absorbed time", lambda: [R.lcg(30, 7) * 1e-7, np.arange(30) / FS], lambda a, b: UT.energy_absorbed(a, 1e-6, 1e-4, 0.012, 5e-3, time=b, indbasepre=5, indbasepost=25))
    op("estimate_g", lambda: [np.diag([1e-28, 1e-6, 1e-6])], lambda c: UT.estimate_g(3e-12, 0.06, 0.02, cov=c))
    f = np.logspace(0, 5, 30)
    op("energy_res_estimate", lambda: [f, 1e-35 * (1 + f / 1e3)], lambda a, b: SIM.energy_res_estimate(a, 2e-5, b, 0.2))
    op("TESnoise", lambda: [f], tes)
    op("impedance", lambda: [f], lambda a: [qp.compleximpedance(a, rsh=5e-3, rp=6e-3, r0=0.07, beta=1, l=10, L=1e-7, tau0=5e-4), qp.complexadmittance(a, rsh=5e-3, rp=6e-3, L=1e-7)])
    op("stdcomplex", lambda: [R.lcg(12, 5).reshape(4, 3), R.lcg(12, 6).reshape(4, 3)], lambda a, b: qp.stdcomplex(a + 1j * b, axis=0), (0, 1))
    op("squarewaveresponse", lambda: [np.arange(100) / 1e5], lambda a: qp.squarewaveresponse(a, 1e-6, 1e3, rsh=5e-3, rp=6e-3, L=1e-7))
    adc = np.round(didv_traces(3e9))
    op("DIDV 1", lambda: [didv_traces()], lambda a: didv(a, 1), tol=1e-3, slow=True)
    op("DIDV 2", lambda: [didv_traces()], lambda a: didv(a, 2), tol=1e-3, slow=True)
    op("DIDV counts", lambda: [adc], lambda a: didv(a, 2, gain=3e9), (0,), tol=1e-3, slow=True)
    op("DIDVPriors", lambda: [didv_traces()], lambda a: didv(a, 2, priors=True), tol=1e-2, slow=True)
    nt = 12
    s12 = np.where(np.arange(nt) >= 6, np.exp(-(np.arange(nt) - 6) / 2.0), 0)
    b12 = np.stack([np.roll(s12, -4) * (np.arange(nt) >= 2), np.arange(nt) / nt, np.ones(nt)], axis=1)
    op("nsmb", lambda: [R.lcg(nt, 31) + np.round(9 * np.roll(s12, 2)), s12, b12, psd(nt), np.array([1.0, 0, 0])], nsmb, (0,))
    op("nsmb templates", lambda: [s12], lambda a: [qp.maketemplate_ttlfit_nsmb(a, 12.0, 3.0, True, False, 1), qp.get_slope_dc_template_nsmb(7)])
    op("nsmb ffttemplate", lambda: [s12[:, None], b12], qp.of_nsmb_ffttemplate)
    return OPS


def seed():
    np.random.seed(12345)


def flat(x, out):
    if isinstance(x, dict):
        for k in sorted(x):
            flat(x[k], out)
    elif isinstance(x, (list, tuple)):
        for v in x:
            flat(v, out)
    elif x is None or isinstance(x, str):
        out.append(np.zeros(0))
    else:
        out.append(np.asarray(x))
    return out


def differ(a, b, tol):
    a, b = flat(a, []), flat(b, [])
    if len(a) != len(b):
        return f"{len(a)} results instead of {len(b)}"
    for i, (x, y) in enumerate(zip(a, b)):
        if x.shape != y.shape:
            return f"result {i}: shape {x.shape} instead of {y.shape}"
        if x.dtype == object or y.dtype == object:
            continue
        if x.dtype == bool or y.dtype == bool:
            if not np.array_equal(x, y):
                return f"result {i}: {x} instead of {y}"
            continue
        x, y = x.astype(complex), y.astype(complex)
        fin = np.isfinite(y)
        sc = np.max(np.abs(y[fin])) if fin.any() else 0.0
        if not np.array_equal(np.isfinite(x), fin) or not np.all(np.abs(x[fin] - y[fin]) <= tol * (sc + 1e-300)):
            j = np.flatnonzero(~(np.abs(x - y) <= tol * (sc + 1e-300)))[:1]
            return f"result {i}: {x.ravel()[j]} instead of {y.ravel()[j]} at {j}"
    return None


def represent(kind, a):
    """The same values stored differently; returns (array, base to watch) or None."""
    if kind == "list":
        return a.tolist(), a
    if kind == "readonly":
        b = a.copy()
        b.setflags(write=False)
        return b, b
    if kind == "strided":
        base = np.full(a.shape[:-1] + (2 * a.shape[-1] + 1,), 777.0, dtype=a.dtype)
        v = base[..., 1::2]
        v[...] = a
        return v, base
    if kind == "reversed":
        base = a[..., ::-1].copy()
        return base[..., ::-1], base
    if kind == "fortran":
        if a.ndim < 2:
            return None
        b = np.asfortranarray(a)
        b = b.copy(order="F")
        return b, b
    if kind == "swapped":
        b = a.astype(a.dtype.newbyteorder())
        return b, b
    if kind == "broadcast-axis":
        base = np.full((3,) + a.shape, -5.0, dtype=a.dtype)
        base[1] = a
        return base[1], base
    if kind in ("int64", "int32", "int16"):
        if not np.all(np.isfinite(a)) or np.any(a != np.round(a)) or np.max(np.abs(a)) > (30000 if kind == "int16" else 2e9):
            return None
        b = a.astype(kind)
        return b, b
    raise KeyError(kind)


# documented as array_like: nested lists are as good as arrays
LISTS = {"calc_psd": (0,), "slope": (0, 1), "shift": (0,), "itercov": None, "resample": (0,), "lowpass": (0,)}

KINDS = ("list", "readonly", "strided", "reversed", "fortran", "swapped", "broadcast-axis", "int64", "int32", "int16")


def world(rand):
    st = np.random.get_state()
    w = [np.geterr(), os.getcwd(), dict(os.environ), len(warnings.filters), sorted(os.listdir(".")), np.get_printoptions()]
    if not rand:
        w.append((st[0], st[1].tobytes(), st[2:]))
    import sys
    if "matplotlib.pyplot" in sys.modules:
        plt = sys.modules["matplotlib.pyplot"]
        w.append(plt.get_fignums())
        w.append({k: str(v) for k, v in plt.rcParams.items()} if len(plt.rcParams) else None)
    return w


def call(name, arrays):
    q = OPS[name]
    seed()
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        return attempt(q["fn"], *arrays)


def plain(name):
    return [np.array(a, dtype=float) for a in OPS[name]["arrays"]()]


# ------------------------------------------------------------------ results kept during the life of an object
NON = ("psd", "real_psd", "imag_psd", "freqs", "corrcoeff", "csd", "real_csd", "imag_csd", "real_csd_std", "imag_csd_std", "uncorrnoise", "corrnoise")


def noise_life(v=0):
    t3 = trs(12, 64).reshape(6, 2, 64) if v != 1 else trs(15, 48, 3).reshape(5, 3, 48)
    o = qp.Noise(t3.copy(), 1e3 * (1 + v), ["a", "b", "c"][:2 + (v == 1)])
    t3 = t3 + v

    def new(f):
        o.traces = t3 * f + 3
        o.calculate_psd()
    acts = {k: getattr(o, k) for k in ("calculate_psd", "calculate_corrcoeff", "calculate_csd", "remove_trace_slope")}
    acts["calculate_uncorr_noise"] = lambda: (o.calculate_corrcoeff(), o.calculate_psd(), o.calculate_csd(), o.calculate_uncorr_noise())[:0]
    acts["other traces"] = lambda: new(2.0)
    return acts, lambda: attrs(o, NON)


def iv_life(v=0):
    a = [x * (1 + 0.5 * v) for x in ivdata()]
    o = qp.IV(*a, 0.02 + 0.01 * v, 1e-3, ["a", "b"] if not v else ["c", "d"], normalinds=range(0, 5 - (v == 1)))

    def inds(r):
        o.normalinds = r
        o.calc_iv()
    return {"calc_iv": o.calc_iv, "calc_iv 4": lambda: inds(range(0, 4)), "calc_iv 3": lambda: inds([0, 1, 2])}, lambda: attrs(o, IVN)


def ibis_life(v=0):
    o = qp.IBIS(*[x * (1 + 0.5 * v) for x in ibisdata()], 5e-3 * (1 + v), 3e-4, range(0, 5 - (v == 1)), rp_guess=6e-3, rp_err_guess=4e-4, chan_names=["a", "b"], fitsc=v != 1, scinds=range(9, 12))
    return {"analyze": o.analyze, "analyze y": lambda: o.analyze(yoff=1e-6, yoff_err=1e-8), "analyze x": lambda: o.analyze(xoff=2e-6, xoff_err=1e-8),
            "analyze xy": lambda: o.analyze(xoff=2e-6, xoff_err=1e-8, yoff=1e-6, yoff_err=1e-8)}, lambda: attrs(o, IBN + ("ibias_true", "ibias_off_err", "vb_err", "ites_err"))


def didv_life(cls, v=0):
    x = didv_traces(1 + v)
    o = getattr(qp, cls)(x, FS * (1 + v), FS * (1 + v) / 2500, 4.7e-7 * (1 + v), 5e-3, dt0=2.2 / FS / (1 + v), **({} if cls == "DIDVPriors" else dict(r0=0.0756, rp=6e-3 + v * 1e-3)))
    o.processtraces()
    pri, cov = np.zeros(8), np.zeros((8, 8))
    pri[:3] = 5e-3, 6e-3, 0.0756
    cov[[0, 1, 2], [0, 1, 2]] = (0.02 * pri[:3]) ** 2
    def fit(k, f=1.0, c=np.inf):
        o.dofit(k, **(dict(priors=pri * f, priorscov=cov) if cls == "DIDVPriors" else {}), fcutoff=c)
        return o.fitresult(k)
    acts = {"processtraces": o.processtraces, "dofit 2": lambda: fit(2), "dofit 2 cutoff": lambda: fit(2, 1.01, 2e4), "dofit 1": lambda: fit(1)} if cls == "DIDV" else {"processtraces": o.processtraces, "dofit 2": lambda: fit(2), "dofit 2 cutoff": lambda: fit(2, 1.01, 2e4)}
    return acts, lambda: []


def of_life(v=0):
    n = N - 5 * (v == 1)
    s, t, p = trs(1, n, 1 + v)[0], tmpl(n), psd(n) * (1 + v)
    o = qp.OptimumFilter(s.copy(), t.copy(), p.copy(), FS * (1 + v), coupling="DC" if v == 1 else "AC")
    acts = {k: (lambda k=k: getattr(o, k)()) for k in ("ofamp_nodelay", "ofamp_withdelay", "ofamp_baseline", "ofamp_pileup_stationary", "chi2_nopulse", "energy_resolution")}
    acts["update_signal"] = lambda: o.update_signal(s * 2)
    acts["pileup"] = lambda: o.ofamp_pileup_iterative(3.0, 1 / FS)
    acts["time_resolution"] = lambda: o.time_resolution(2.0)
    acts["chi2_lowfreq"] = lambda: o.chi2_lowfreq(1.0, 2 / FS, fcutoff=1e5)
    acts["window"] = lambda: o.ofamp_nodelay(windowcenter=2)
    return acts, lambda: []


def nonlin_life(v=0):
    pulse = np.round(2000 * (np.exp(-np.arange(64) / 12.0) - np.exp(-np.arange(64) / 1.5)))
    pulse = np.concatenate([np.zeros(32), pulse[:32]]) + np.round(R.lcg(64, 9) / 4)
    pulse = pulse[:64 - 4 * (v == 1)] * (1 + v)
    o = qp.OFnonlin(psd(64 - 4 * (v == 1)), FS * (1 + 0.1 * v))
    g = [2000.0, 2.4e-6, 1.9e-5, 32 / FS]
    return {"fit": lambda: o.fit_falltimes(pulse, npolefit=2, guess=g, lgcfullrtn=True), "fit 1": lambda: o.fit_falltimes(pulse, npolefit=1, guess=[2000.0, 1.9e-5, 32 / FS], taurise=2.4e-6, lgcfullrtn=True),
            "fit other": lambda: o.fit_falltimes(pulse * 3, npolefit=2, guess=g, lgcfullrtn=True)}, lambda: []


def muon_life(v=0):
    tail = np.round(4000 * np.exp(-np.arange(64 - 9 * (v == 1)) / 40.0)) * (1 + v)
    o = qp.MuonTailFit(psd(64 - 9 * (v == 1)), FS * (1 + v))
    return {"fit": lambda: o.fitmuontail(tail, lgcfullrtn=True), "fit other": lambda: o.fitmuontail(tail * 2 + 5, lgcfullrtn=True)}, lambda: []


def tes_life(v=0):
    f = np.linspace(10.0, 1e4 * (1 + v), 9 + (v == 1))
    o = SIM.TESnoise(freqs=f, **(dict(rload=0.02 + 0.01 * v, r0=0.15, tload=0.05, tc=0.05, loopgain=4.0) if v else {}))
    acts = {k: getattr(o, k) for k in ("dIdV", "dIdP", "s_itot", "s_ptot", "s_itotnormal", "s_itotsc", "s_itfn")}
    acts["s_itot(f)"] = lambda: o.s_itot(f * 2)
    return acts, lambda: []


LIVES = dict(Noise=noise_life, IV=iv_life, IBIS=ibis_life, DIDV=lambda v=0: didv_life("DIDV", v), DIDVPriors=lambda v=0: didv_life("DIDVPriors", v), OptimumFilter=of_life, OFnonlin=nonlin_life, MuonTailFit=muon_life, TESnoise=tes_life)


def same_value(a, b):
    a, b = flat(a, []), flat(b, [])
    return len(a) == len(b) and all(x.shape == y.shape and (x.dtype == object or np.array_equal(x, y, equal_nan=x.dtype.kind in "fc")) for x, y in zip(a, b))


def run_life(case, rec):
    """What an object has answered is not altered by what is asked later (its answers are copied when given, compared at the end)."""
    make = LIVES[case["name"]]
    names = list(make()[0])
    depth = case["depth"]
    hists = list(itertools.product(names, repeat=depth))
    for h in hists:
        acts, look = make()
        got = []
        for k in h:
            with warnings.catch_warnings(), np.errstate(all="ignore"):
                warnings.simplefilter("ignore")
                r = attempt(acts[k])
            rec.step()
            if isinstance(r, Raised):
                rec.fail("life", f"{case['name']} {h}: {k}: {r!r}")
                return
            for v in (r, look()):
                got.append((k, v, copy.deepcopy(v)))
        rec.state(case["name"], h)
        for k, v, c in got:
            rec.true("results-kept", same_value(v, c), f"{case['name']}: the results of {k} changed during {' -> '.join(h)}")
    rec.trace()


def run_twins(case, rec):
    """What one object answers does not depend on what another object of its class is asked in between."""
    make = LIVES[case["name"]]
    names = list(make()[0])
    slow = case["name"].startswith("DIDV") and not case["deep"]

    for va, vb in ((0, 1), (1, 0), (0, 2), (2, 0)):
        alone = fresh(case["name"], va)
        for i, ((k1, k2), kb) in enumerate(itertools.product(alone, names)):
            if i % 3 and not case["deep"] and len(names) > 4 and case["name"] == "Noise" or slow and (k1 not in names[:2] or kb == names[0]):
                continue
            acts, look = make(va)
            actb, lookb = make(vb)
            g = [ask(acts, look, k1)]
            ask(actb, lookb, kb)
            g.append(ask(acts, look, k2))
            rec.step(3)
            rec.state(case["name"], va, k1, kb, k2)
            for k, x, y in zip((k1, k2), g, alone[k1, k2]):
                if isinstance(x, str) or isinstance(y, str):
                    rec.fail("life", f"{case['name']} (object {va}) {k}: {x if isinstance(x, str) else y}"[:400])
                    return
                msg = differ(x, y, dict(DIDV=1e-3, DIDVPriors=1e-2, OFnonlin=1e-4, MuonTailFit=1e-4).get(case["name"], 1e-8))
                if msg:
                    rec.fail("twins", f"{case['name']} (object {va}): {k} answers differently when another object is made and asked {kb} in between ({k1}, {k2}): {msg}")
    rec.trace()


def ask(acts, look, k):
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        r = attempt(acts[k])
    return repr(r) if isinstance(r, Raised) else copy.deepcopy((r, look()))


def fresh(name, v):
    """Answers of one object to all pairs of questions in a process of its own, where nothing else was ever computed."""
    with tempfile.NamedTemporaryFile() as fh:
        env = dict(os.environ, PYTHONPATH=os.pathsep.join(sys.path))
        code = f"import mc.checks.C28 as m; m.alone({name!r}, {v!r}, {fh.name!r})"
        r = subprocess.run([sys.executable, "-W", "ignore", "-c", code], env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
        if r.returncode:
            raise RuntimeError(r.stderr.decode()[-500:])
        return pickle.loads(fh.read())


def alone(name, v, path):
    make, res = LIVES[name], {}
    for k1, k2 in itertools.product(list(make(v)[0]), repeat=2):
        acts, look = make(v)
        res[k1, k2] = [ask(acts, look, k1), ask(acts, look, k2)]
    with open(path, "wb") as fh:
        pickle.dump(res, fh)


def cases(tier):
    deep = tier != "quick"
    build_ops()
    for name in LIVES:
        yield dict(kind="twins", name=name, deep=deep)
        yield dict(kind="life", name=name, depth=2)
        if deep and not name.startswith("DIDV"):
            yield dict(kind="life", name=name, depth=3)
    for name in OPS:
        yield dict(kind="repr", name=name)
    names = list(OPS)
    for name in names:
        if deep or not OPS[name]["slow"]:
            yield dict(kind="pairs", name=name, deep=deep)


def run(case, rec):
    build_ops()
    here = os.getcwd()
    with tempfile.TemporaryDirectory() as d:
        os.chdir(d)
        try:
            dict(repr=run_repr, pairs=run_pairs, life=run_life, twins=run_twins)[case["kind"]](case, rec)
        finally:
            os.chdir(here)


def run_repr(case, rec):
    name = case["name"]
    q = OPS[name]
    ref = call(name, plain(name))
    if isinstance(ref, Raised):
        return rec.fail("plain", f"{name}: {ref!r}")
    base = plain(name)
    sets = [(i,) for i in range(len(base))] + ([tuple(range(len(base)))] if len(base) > 1 else [])
    for kind in KINDS:
        for which in sets:
            args, watch = plain(name), []
            done = False
            for i in which:
                if kind.startswith("int") and i not in q["ints"]:
                    continue
                if kind == "list":
                    pos = next((v for k, v in LISTS.items() if name.split(" ")[0].startswith(k)), ())
                    if pos is not None and i not in pos:
                        continue
                r = represent(kind, args[i])
                if r is None:
                    continue
                args[i], b = r
                watch.append((i, b, b.copy()))
                done = True
            if not done:
                continue
            others = [(i, a, a.copy()) for i, a in enumerate(args) if i not in [w[0] for w in watch]]
            before = world(q["rand"])
            got = call_world(name, args)
            rec.step()
            ctx = f"{name}, argument {which if len(which) > 1 else which[0]} given as {kind}"
            if isinstance(got, Raised):
                rec.fail("representation", f"{ctx}: {got!r}")
            else:
                msg = differ(got, ref, q["tol"])
                if msg:
                    rec.fail("representation", f"{ctx}: {msg}")
            for i, b, c in watch + others:
                rec.true("purity", b.tobytes() == c.tobytes(), f"{ctx}: argument {i} (or the memory around it) was changed")
            after = world(q["rand"])
            for x, y in zip(before, after):
                rec.true("global-state", x == y, f"{ctx}: global state changed: {str(x)[:80]} -> {str(y)[:80]}")
            rec.state(name, kind, which)
    # the state of the process does not matter: other error handling, print options, seed
    args = plain(name)
    old = np.geterr()
    try:
        np.seterr(all="ignore", under="warn")
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            seed()
            if not q["rand"]:
                np.random.rand(7)
            got = attempt(q["fn"], *args)
    finally:
        np.seterr(**old)
    msg = repr(got) if isinstance(got, Raised) else differ(got, ref, q["tol"])
    if msg:
        rec.fail("process-state", f"{name} with another numpy error state or generator state: {msg}")
    rec.trace()


def call_world(name, args):
    """call without touching numpy's generator when the call is not supposed to draw from it"""
    q = OPS[name]
    if q["rand"]:
        return call(name, args)
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        return attempt(q["fn"], *args)


def run_pairs(case, rec):
    """Every call answers the same after any other call, and when repeated."""
    first = case["name"]
    refs = {}
    for second in OPS:
        if OPS[second]["slow"] and not (case["deep"] or second == first):
            continue
        if second not in refs:
            refs[second] = call(second, plain(second))
        a = call(first, plain(first))
        b = call(second, plain(second))
        rec.step(2)
        if isinstance(a, Raised) or isinstance(b, Raised):
            rec.fail("pairs", f"{first} then {second}: {a!r} {b!r}"[:400])
            return
        msg = differ(b, refs[second], OPS[second]["tol"])
        if msg:
            rec.fail("pairs", f"{second} answers differently after {first}: {msg}")
        rec.state(first, second)
        # what was returned before is not altered by later calls
        keep = [x.copy() for x in flat(a, [])]
        call(first, plain(first))
        rec.true("results-kept", all(np.array_equal(x, y, equal_nan=x.dtype.kind in "fc") for x, y in zip(flat(a, []), keep)), f"{first}: an earlier result changed when called again")
    rec.trace()
