"""C29: optional arguments: leaving one out means its documented default, by name or by position."""
import contextlib
import io
import itertools
import os
import warnings
import numpy as np
import qetpy as qp
import qetpy.cut as CUT
import qetpy.sim as SIM
import qetpy.utils as UT
import qetpy.core.didv as DV
from mc import ref_of as R, ref_didv as D
from mc.core import attempt, Raised
from mc.checks import C28

ID = "C29"
LEVEL = "model_checking"
CASE_CPU_S = 600
BOUNDS = ("55 calls of the public computing functions, constructors and methods (118 optional arguments) x every setting of at most one (thorough: "
          "two) of the optional arguments to another value x every way to write the call: all by name, all by position, every positional prefix, "
          "every single argument left out, all left out; required arguments also by name; every "
          "number, flag and index list given with another type of the same value (int, float, numpy scalars, tuple, array)")
RULE = ("complete enumeration of call forms on the real functions; oracle: the call with every argument written out by name with the documented "
        "default; state = (function, assignment, call form, answer)")
ASSUMPTIONS = ["the documented defaults are those of the docstrings and signatures of the pinned commit; inputs are chosen so that another default changes the answer"]
FS = 625e3
INF = np.inf
OPS = {}


def op(name, make, req, opt, pos=None, tol=1e-12, slow=False, fixed=()):
    """make() -> callable; req: {name: value builder}; opt: {name: (default, other)} in positional order; pos: number of optional
    arguments that may be positional (None: all); fixed: always set to the other value"""
    OPS[name] = dict(make=make, req=req, opt=opt, pos=len(opt) if pos is None else pos, tol=tol, slow=slow, fixed=fixed)


def quiet(fn):
    def f(*a, **k):
        with contextlib.redirect_stdout(io.StringIO()):
            return fn(*a, **k)
    return f


def obj(cls, names, then=None):
    def f(*a, **k):
        o = cls(*a, **k)
        if then:
            then(o)
        return {x: np.array(v) if isinstance(v, (list, range)) else v for x in names if hasattr(o, x) for v in (getattr(o, x),)}
    return f


def didv_then(o):
    o.processtraces() if hasattr(o, "processtraces") else None


def didv_full(cls):
    def f(*a, **k):
        o = cls(*a, **k)
        if cls is qp.DIDV:
            o.dofit(1)
            o.dofit(2)
            r = [o.fitresult(1), o.fitresult(2)]
        else:
            pri, cov = C_PRIOR
            o.dofit(2, pri, cov)
            r = [o.fitresult(2)]
        return [numbers(x) for x in r] + [o._tmean, o._didvmean, o._didvstd, o._offset, o._dt0, o._dutycycle, o._tracegain]
    return f


def numbers(x):
    if isinstance(x, dict):
        return {str(k): numbers(v) for k, v in x.items()}
    return x


PRI, PCOV = np.zeros(8), np.zeros((8, 8))
PRI[:3] = 5e-3, 6e-3, 0.0756
PCOV[[0, 1, 2], [0, 1, 2]] = (0.02 * PRI[:3]) ** 2
C_PRIOR = PRI, PCOV


def didv_obj(fits=()):
    o = qp.DIDV(C28.didv_traces(), FS, FS / 2500, 4.7e-7, 5e-3, r0=0.0756, rp=6e-3, dt0=2.2 / FS)
    for m in fits:
        o.dofit(m)
    return o


def fit_then(o, args):
    def f(*a, **k):
        o.dofit(*a, **k)
        return numbers(o.fitresult(args))
    return f


def build():
    if OPS:
        return OPS
    n = 500                                     # bins of 1250 Hz: the default cut-off of 10 kHz is a bin
    S, T, P = C28.trs(1, n)[0], C28.tmpl(n), C28.psd(n)
    s, t, p = C28.trs(1, 24)[0], C28.tmpl(24), C28.psd(24)
    late = np.roll(s, 9) - 18.0 * np.roll(t, 3) + 30.0 * np.roll(t, -8)
    req = dict(signal=lambda: late.copy(), template=lambda: t.copy(), inputpsd=lambda: p.copy(), fs=lambda: FS)
    op("ofamp", lambda: qp.ofamp, req, dict(withdelay=(True, False), coupling=("AC", "DC"), lgcsigma=(False, True), nconstrain=(None, 7),
                                            lgcoutsidewindow=(False, True), integralnorm=(False, True)))
    op("ofamp_pileup", lambda: qp.ofamp_pileup, req, dict(a1=(None, 5.0), t1=(None, 2 / FS), coupling=("AC", "DC"), nconstrain1=(None, 9), nconstrain2=(None, 7), lgcoutsidewindow=(True, False)))
    op("ofamp_pileup_stationary", lambda: qp.ofamp_pileup_stationary, req, dict(coupling=("AC", "DC"), nconstrain=(None, 7), lgcoutsidewindow=(False, True)))
    op("chi2lowfreq", lambda: qp.chi2lowfreq, dict(signal=lambda: S.copy(), template=lambda: T.copy(), amp=lambda: 3.0, t0=lambda: 2 / FS, inputpsd=lambda: P.copy(), fs=lambda: FS),
       dict(fcutoff=(10000, 30e3), coupling=("AC", "DC")))
    op("chi2_nopulse", lambda: qp.chi2_nopulse, dict(signal=lambda: s.copy(), inputpsd=lambda: p.copy(), fs=lambda: FS), dict(coupling=("AC", "DC")))
    res = lambda o: [o.ofamp_nodelay(), o.ofamp_withdelay(), o.chi2_nopulse(), o.energy_resolution(), o.time_resolution(2.0)]
    op("OptimumFilter", lambda: lambda *a, **k: res(qp.OptimumFilter(*a, **k)), dict(signal=lambda: late.copy(), template=lambda: t.copy(), psd=lambda: p.copy(), fs=lambda: FS),
       dict(coupling=("AC", "DC"), integralnorm=(False, True)))
    sigs = [late, np.roll(late, -5) + 3 * np.roll(t, 1), s - 9 * np.roll(t, 2) + 12 * np.roll(t, 5), -late] + [R.lcg(24, 40 + i) + 25 * np.roll(t, i) for i in range(-7, 8)]

    class of:
        """the method asked of one filter per signal"""

        def __getattr__(self, m):
            return lambda *a, **k: [getattr(qp.OptimumFilter(x, t, p, FS), m)(*a, **k) for x in sigs]
    op("OptimumFilter.chi2_lowfreq", lambda: qp.OptimumFilter(S, T, P, FS).chi2_lowfreq, dict(amp=lambda: 3.0, t0=lambda: 2 / FS), dict(fcutoff=(10000, 30e3)))
    op("OptimumFilter.ofamp_nodelay", lambda: of().ofamp_nodelay, {}, dict(windowcenter=(0, 3)))
    op("OptimumFilter.ofamp_withdelay", lambda: of().ofamp_withdelay, {}, dict(nconstrain=(None, 7), lgcoutsidewindow=(False, True), pulse_direction_constraint=(0, -1), windowcenter=(0, 4), interpolate_t0=(False, True)))
    op("OptimumFilter.ofamp_baseline", lambda: of().ofamp_baseline, {}, dict(nconstrain=(None, 7), lgcoutsidewindow=(False, True), pulse_direction_constraint=(0, -1), windowcenter=(0, 4), interpolate_t0=(False, True)))
    op("OptimumFilter.ofamp_pileup_iterative", lambda: of().ofamp_pileup_iterative, dict(a1=lambda: 4.0, t1=lambda: 3 / FS),
       dict(nconstrain=(None, 7), lgcoutsidewindow=(True, False), pulse_direction_constraint=(0, -1), windowcenter=(0, 4), interpolate_t0=(False, True)))
    op("OptimumFilter.ofamp_pileup_stationary", lambda: of().ofamp_pileup_stationary, {}, dict(nconstrain=(None, 7), lgcoutsidewindow=(True, False), windowcenter=(0, 4)))
    # non-linear fits
    pulse = np.round(2000 * (np.exp(-np.arange(64) / 12.0) - np.exp(-np.arange(64) / 1.5)))
    pulse = np.concatenate([np.zeros(32), pulse[:32]]) + np.round(R.lcg(64, 9) / 4)
    p64 = C28.psd(64)
    nl = lambda **kw: (lambda *a, **k: numbers(dict(enumerate(flatten(qp.OFnonlin(p64, FS, **kw).fit_falltimes(*a, **k))))))
    op("OFnonlin.fit_falltimes", lambda: nl(), dict(pulse=lambda: pulse.copy()),
       dict(npolefit=(1, 2), errscale=(1, 3.0), guess=(None, [1800.0, 2e-5, 32 / FS]), bounds=(None, [(0, 1e5), (1e-7, 1e-3), (30 / FS, 35 / FS)]), taurise=(None, 2.4e-6),
            scale_amplitude=(True, False), lgcfullrtn=(False, True), lgcplot=(False, False)), slow=True, tol=1e-9, fixed=("taurise",))
    tail = np.round(4000 * np.exp(-np.arange(64) / 40.0))
    op("MuonTailFit.fitmuontail", lambda: lambda *a, **k: flatten(qp.MuonTailFit(p64, FS).fitmuontail(*a, **k)), dict(signal=lambda: tail.copy()), dict(lgcfullrtn=(False, True), errscale=(1, 2.5)), tol=1e-9)
    op("OFnonlin", lambda: lambda *a, **k: attrs(qp.OFnonlin(*a, **k)), dict(psd=lambda: p64.copy(), fs=lambda: FS), dict(template=(None, C28.tmpl(64))))
    # spectra
    x = R.lcg(40, 4).reshape(5, 8)
    op("calc_psd", lambda: qp.calc_psd, dict(x=lambda: x.copy()), dict(fs=(1.0, 3.0), folded_over=(True, False)))
    op("gen_noise", lambda: seeded(qp.gen_noise), dict(psd=lambda: C28.psd(9)), dict(fs=(1.0, 3.0), ntraces=(1, 4)))
    op("Noise", lambda: lambda *a, **k: [plain(getattr(qp.Noise(*a, **k), y)) for y in ("traces", "fs", "tracegain", "name", "time", "channames")], dict(traces=lambda: C28.trs(12, 16).reshape(6, 2, 16), fs=lambda: 1e3, channames=lambda: ["a", "b"]),
       dict(tracegain=(1.0, 2.5), name=(None, "n"), time=(None, np.arange(16.0))))
    # impedance
    f = np.array([0.0, 10.0, 3e3, 1e5])
    op("stdcomplex", lambda: qp.stdcomplex, dict(x=lambda: R.lcg(12, 5).reshape(4, 3) + 1j * R.lcg(12, 6).reshape(4, 3)), dict(axis=(0, 1)))
    op("squarewaveresponse", lambda: lambda *a, **k: qp.squarewaveresponse(*a, rsh=5e-3, rp=6e-3, r0=0.07, beta=1, l=10, L=1e-7, tau0=5e-4, **k),
       dict(t=lambda: np.arange(100) / 1e5, sgamp=lambda: 1e-6, sgfreq=lambda: 1e3), dict(dutycycle=(0.5, 0.3)))
    # IV and IBIS
    iv = C28.ivdata()
    op("IV", lambda: obj(qp.IV, C28.IVN + ("normalinds",), lambda o: o.calc_iv()), dict(dites=lambda: iv[0].copy(), dites_err=lambda: iv[1].copy(), vb=lambda: iv[2].copy(), vb_err=lambda: iv[3].copy(), rload=lambda: 0.02,
       rload_err=lambda: 1e-3, chan_names=lambda: ["a", "b"]), dict(normalinds=(None, range(0, 5))))
    ib = C28.ibisdata()
    op("IBIS", lambda: obj(qp.IBIS, C28.IBN, lambda o: o.analyze()), dict(dites=lambda: ib[0].copy(), dites_err=lambda: ib[1].copy(), ibias=lambda: ib[2].copy(), ibias_err=lambda: ib[3].copy(), rsh=lambda: 5e-3,
       rsh_err=lambda: 3e-4, normalinds=lambda: range(0, 5)), dict(rp_guess=(5e-3, 7e-3), rp_err_guess=(0, 1e-4), chan_names=("", ["u", "v"]), fitsc=(False, True), scinds=(None, range(9, 12))), fixed=("chan_names",))
    ibo = lambda: qp.IBIS(*ib, 5e-3, 3e-4, range(0, 5), rp_guess=6e-3, rp_err_guess=4e-4, chan_names=["a", "b"])

    def analyze():
        o = ibo()

        def g(*a, **k):
            o.analyze(*a, **k)
            return {y: getattr(o, y) for y in C28.IBN}
        return g
    op("IBIS.analyze", analyze, {}, dict(yoff=(None, 1e-6), yoff_err=(None, 1e-8), xoff=(None, 2e-6), xoff_err=(None, 3e-8)))
    # dIdV
    tr = C28.didv_traces()
    dreq = dict(rawtraces=lambda: tr.copy(), fs=lambda: FS, sgfreq=lambda: FS / 2500, sgamp=lambda: 4.7e-7, rsh=lambda: 5e-3)
    op("DIDV", lambda: didv_full(qp.DIDV), dreq, dict(tracegain=(1.0, 4.0), r0=(0.3, 0.0756), rp=(0.005, 6e-3), dutycycle=(0.5, 0.4), add180phase=(False, True), dt0=(10e-6, 2e-6), autoresample=(False, True)), slow=True)
    op("DIDVPriors", lambda: didv_full(qp.DIDVPriors), dreq, dict(tracegain=(1.0, 4.0), dutycycle=(0.5, 0.4), add180phase=(False, True), dt0=(10e-6, 2e-6), autoresample=(False, True)), slow=True)
    roff = dict(dreq, sgfreq=lambda: 240)                  # no whole number of samples per period
    op("DIDV resampled", lambda: obj(qp.DIDV, ("_rawtraces", "_fs")), roff, dict(OPS["DIDV"]["opt"]))
    op("DIDVPriors resampled", lambda: obj(qp.DIDVPriors, ("_rawtraces", "_fs")), roff, dict(OPS["DIDVPriors"]["opt"]))
    for m in (1, 2):
        op(f"DIDV.dofit {m}", lambda m=m: fit_then(didv_obj(), m), dict(poles=lambda m=m: m), dict(fcutoff=(INF, 2e4)), slow=True)
    op("DIDVPriors.dofit", lambda: fit_then(qp.DIDVPriors(tr, FS, FS / 2500, 4.7e-7, 5e-3, dt0=2.2 / FS), 2), dict(poles=lambda: 2, priors=lambda: PRI.copy(), priorscov=lambda: PCOV.copy()), dict(fcutoff=(INF, 2e4)), slow=True)

    def initfrom(*a, **k):
        o = qp.didvinitfromdata(*a, **k)
        o.dofit(1)
        o.dofit(2)
        return [numbers(o.fitresult(1)), numbers(o.fitresult(2)), o._tmean, o._dt0]
    if hasattr(qp, "didvinitfromdata"):
        src = {}

        def g(key):
            def h():
                if not src:
                    o = didv_obj()
                    o.processtraces()
                    src["o"] = o
                return np.array(getattr(src["o"], key))
            return h
        op("didvinitfromdata", lambda: initfrom, dict(tmean=g("_tmean"), didvmean=g("_didvmean"), didvstd=g("_didvstd"), offset=g("_offset"), offset_err=g("_offset_err"), fs=lambda: FS, sgfreq=lambda: FS / 2500,
           sgamp=lambda: 4.7e-7, rsh=lambda: 5e-3), dict(r0=(0.3, 0.0756), rp=(0.005, 6e-3), add180phase=(False, True), dt0=(10e-6, 2e-6)), slow=True)
    # nSmB
    nt = 1250
    s12 = np.where(np.arange(nt) >= 600, np.exp(-(np.arange(nt) - 600) / 40.0), 0)
    b12 = np.stack([np.roll(s12, -400) * (np.arange(nt) >= 200), np.arange(nt) / nt, np.ones(nt)], axis=1)
    y12 = R.lcg(nt, 31) + np.round(9 * np.roll(s12, 2)) - 4 * b12[:, 0] - 2.0
    if hasattr(qp, "of_nsmb_setup"):
        setup = {}

        def z(i):
            def h():
                if not setup:
                    psddnu, phi, Pfs, Pm, sbf, sbt, iB, B, ns, nb, bc, lf = qp.of_nsmb_setup(s12, b12, C28.psd(nt), FS)
                    setup.update(phi=phi, Pfs=Pfs, P=Pm, sbtemplatef=sbf.T, sbtemplate=sbt, iB=iB, B=B, psddnu=psddnu.T, ns=ns, nb=nb, bitcomb=bc, iPt=qp.of_nsmb_getiP(Pm))
                v = setup[i]
                return v.copy() if isinstance(v, np.ndarray) else v
            return h
        common = lambda *names: {**dict(pulset=lambda: y12.copy()), **{i: z(i) for i in names}}
        win = lambda: [np.arange(-4, 6)[None, :] % nt]
        win2 = lambda: [np.arange(-4, 6)[None, :] % nt, np.arange(0, 8)]
        rest = dict(lfindex=(500, 20), background_templates_shifts=(None, np.full(3, np.nan)))
        last = dict(lgcplot=(False, False), lgcsaveplots=(False, False))
        pol = dict(bkgpolarityconstraint=(None, np.array([1.0, 0, 0])), sigpolarityconstraint=(None, np.array([-1.0])))
        r = common("phi", "sbtemplatef", "sbtemplate", "iPt", "psddnu")
        r.update(fs=lambda: FS, indwindow_nsmb=win, ns=z("ns"), nb=z("nb"), bitcomb=z("bitcomb"))
        op("of_nsmb", lambda: quiet(qp.of_nsmb), r, {**rest, **last}, slow=True)
        r = common("phi", "Pfs", "P", "sbtemplatef", "sbtemplate", "psddnu")
        r.update(fs=lambda: FS, indwindow_nsmb=win2, ns=z("ns"), nb=z("nb"), bitcomb=z("bitcomb"))
        op("of_nsmb_con", lambda: quiet(qp.of_nsmb_con), r, {**rest, **pol, **last}, slow=True)
        r = common("phi", "sbtemplatef", "sbtemplate", "iB", "B", "psddnu")
        r.update(fs=lambda: FS, ns=z("ns"), nb=z("nb"))
        op("of_mb", lambda: quiet(qp.of_mb), r, {**rest, **pol, **last}, slow=True)
    op("maketemplate_ttlfit_nsmb", lambda: qp.maketemplate_ttlfit_nsmb, dict(template=lambda: C28.tmpl(40), fs=lambda: 40.0, ttlrate=lambda: 4.0),
       dict(lgcconstrainpolarity=(False, True), lgcpositivepolarity=(True, False), notch_window_size=(0, 2)))
    # cuts
    many = C28.trs(48, 64, 5)
    many = np.vstack([many, np.round(many * 0.8) + 1])
    many[3] += 90
    many[7, ::3] += 70
    many[11] += np.round(np.arange(64) * 1.5)
    many[20:40] += np.round(np.outer(np.arange(20) - 10, np.arange(64)) / 60)
    many[50:80] += np.round((np.arange(30) - 15) ** 3 / 800.0)[:, None]
    ad = dict(fs=(625e3, 1e6), is_didv=(False, True), sgfreq=(200.0, FS / 16), symmetrizeflag=(False, True), outlieralgo=("removeoutliers", "iterstat"), lgcpileup1=(True, False), lgcslope=(True, False),
              lgcbaseline=(True, False), lgcpileup2=(True, False), lgcchi2=(True, False), nsigpileup1=(2, 1.2), nsigslope=(2, 1.2), nsigbaseline=(2, 1.2), nsigpileup2=(2, 1.2), nsigchi2=(3, 1.2))
    for nm, fx in (("autocuts", ()), ("autocuts iterstat", ("outlieralgo",)), ("autocuts didv", ("is_didv", "sgfreq")), ("autocuts didv iterstat", ("is_didv", "sgfreq", "outlieralgo"))):
        op(nm, lambda: seeded(CUT.autocuts), dict(traces=lambda: many.copy()), ad, slow=True, fixed=fx)
    # the default signal frequency needs a trace of several of its periods
    lng = R.lcg(12 * 6400, 17).reshape(12, 6400) + np.outer(np.arange(12) % 5, np.arange(6400) >= 6250) * 40
    op("autocuts long", lambda: CUT.autocuts, dict(traces=lambda: lng.copy()), ad, slow=True,
       fixed=("is_didv", "outlieralgo", "lgcpileup1", "lgcslope", "lgcpileup2", "lgcchi2"))
    side = 1.12 ** np.arange(60)
    both = np.append(1.3 ** np.arange(70) * (-1) ** np.arange(70), R.lcg(30, 8))
    op("removeoutliers", lambda: CUT.removeoutliers, dict(x=lambda: side.copy()), dict(maxiter=(20, 1), skewtarget=(0.05, 0.6)))
    op("iterstat", lambda: CUT.iterstat, dict(data=lambda: both.copy()), dict(cut=(3, 2), precision=(1000.0, 5.0), return_unbiased_estimates=(False, True)))
    op("itercov", lambda: lambda *a, **k: CUT.itercov(both, both[::-1] * 0 + R.lcg(100, 12), *a, **k), {}, dict(nsigma=(2.75, 1.5), threshold=(None, 1.4), maxiter=(15, 1), frac_err=(1e-3, 0.3)), pos=0)
    sat = np.array([[min(k, 2 * (i - 200)) if i > 200 else 0 for i in range(1400)] for k in (700.0, 650.0, 20.0)])
    sat = np.vstack([sat] + [np.where((np.arange(1400) > 200) & (np.arange(1400) < 200 + w), 700.0, 0) for w in range(598, 604)])
    sat = np.vstack([sat] + [np.where((np.arange(1400) >= 200) & (np.arange(1400) < 900), 1000.0 * q, 0) + 1000.0 * (np.arange(1400) == 200) * (1 - q) for q in (0.945, 0.952, 0.8)])
    op("get_muon_cut", lambda: CUT.get_muon_cut, dict(traces=lambda: sat.copy()), dict(thresh_pct=(0.95, 0.7), nsatbins=(600, 100)))
    # helpers
    op("shift", lambda: UT.shift, dict(arr=lambda: R.lcg(9, 2), num=lambda: 2.5), dict(fill_value=(0, 7.0)))
    op("make_template", lambda: UT.make_template, dict(t=lambda: np.arange(50) / FS, tau_r=lambda: 2e-6, tau_f=lambda: 2e-5), dict(offset=(0, 4)))
    op("make_decreasing", lambda: UT.make_decreasing, dict(y=lambda: R.lcg(9, 5)), dict(x=(None, np.arange(9.0) ** 1.3)))
    op("calc_offset", lambda: UT.calc_offset, dict(x=lambda: R.lcg(4 * 90, 3).reshape(4, 90)), dict(fs=(1.0, 40.0), sgfreq=(100.0, 0.06), is_didv=(False, True)))
    op("slope", lambda: UT.slope, dict(x=lambda: np.arange(8.0), y=lambda: R.lcg(8, 5) + 3), dict(removemeans=(True, False)))
    op("lowpassfilter", lambda: UT.lowpassfilter, dict(traces=lambda: C28.trs(3, 40)), dict(cut_off_freq=(100000, 3e4), fs=(625e3, 1e6), order=(1, 2)))
    # the sample at index n_cut is not used (a spike there), the one before is
    xx = np.arange(5600)
    al = np.array([(xx - c) / 15.0 * np.exp(-0.5 * ((xx - c) / 15.0) ** 2) * 1000 for c in (250, 262, 262)])
    al[1, 5000:5060] += 4e5 * np.sin(np.arange(60) / 4)
    al[0, 5000] += 5e6
    al[2, 4999] += 5e6
    op("align_traces", lambda: UT.align_traces, dict(traces=lambda: al.copy()), dict(lgcjustshifts=(False, True), n_cut=(5000, 5400), cut_off_freq=(5000.0, 2e4), fs=(625e3, 1e6)))
    mu = np.concatenate([np.full(5990, 2e-6), np.linspace(2e-6, 3e-6, 40), np.full(300, 1e-5), np.linspace(1e-5, 2e-6, 100)])
    op("get_offset_from_muon", lambda: UT.get_offset_from_muon, dict(avemuon=lambda: mu.copy(), qetbias=lambda: 1e-4, rn=lambda: 0.3, rload=lambda: 0.012), dict(rsh=(5e-3, 7e-3), nbaseline=(6000, 6020), lgcfullrtn=(True, False)))
    op("energy_absorbed", lambda: UT.energy_absorbed, dict(trace=lambda: R.lcg(30, 7).reshape(1, 30) * 1e-7, ioffset=lambda: 1e-6, qetbias=lambda: 1e-4, rload=lambda: 0.012, rsh=lambda: 5e-3),
       dict(fs=(None, FS), baseline=(None, np.full((1, 1), 2e-7)), time=(None, np.arange(30.0) ** 1.1), indbasepre=(None, 6), indbasepost=(None, 25)), fixed=("indbasepre", "fs"))
    op("energy_absorbed baseline", lambda: UT.energy_absorbed, OPS["energy_absorbed"]["req"], OPS["energy_absorbed"]["opt"], fixed=("baseline", "time"))
    op("estimate_g", lambda: UT.estimate_g, dict(p0=lambda: 3e-12, tc=lambda: 0.06, tbath=lambda: 0.03), dict(p0_err=(0, 1e-13), cov=(None, np.diag([1e-28, 1e-6, 1e-6])), n=(5, 4)))
    # noise model
    TD = dict(freqs=(None, np.array([0.0, 10.0, 1e4])), rload=(0.012, 0.02), r0=(0.15, 0.1), rshunt=(5e-3, 7e-3), beta=(1.0, 0.3), loopgain=(10.0, 4.0), inductance=(400e-9, 1e-7), tau0=(500e-6, 1e-4), G=(5e-10, 1e-10),
              qetbias=(160e-6, 1e-4), tc=(0.040, 0.06), tload=(0.9, 0.1), tbath=(0.020, 0.01), n=(5.0, 4.0), lgcb=(True, False), squiddc=(2.5e-12, 4e-12), squidpole=(0.0, 300.0), squidn=(1.0, 1.3))

    def tes(*a, **k):
        o = SIM.TESnoise(*a, **k)
        return [o.freqs] + [getattr(o, q)() for q in ("dIdV", "dIdP", "s_itot", "s_ptot", "s_itotnormal", "s_itotsc", "dIdVsc", "dIdVnormal", "s_itfn", "s_isquid")]
    op("TESnoise", lambda: tes, {}, TD)
    for q in ("dIdP", "dIdV", "dIdVnormal", "dIdVsc", "s_iload", "s_iloadnormal", "s_iloadsc", "s_isquid", "s_ites", "s_itesnormal", "s_itfn", "s_itot", "s_itotnormal", "s_itotsc", "s_pload", "s_psquid",
              "s_ptes", "s_ptfn", "s_ptot", "s_vload", "s_vtes", "s_vtesnormal"):
        op(f"TESnoise.{q}", lambda q=q: getattr(SIM.TESnoise(freqs=np.array([3.0, 500.0, 2e4])), q), {}, dict(freqs=(np.array([3.0, 500.0, 2e4]), np.array([1.0, 70.0]))))
    LD = {k: TD[k] for k in ("G", "qetbias", "tc", "tload", "tbath", "squiddc", "squidpole", "squidn")}

    def load(*a, **k):
        o = SIM.loadfromdidv(*a, **k)
        ff = np.array([3.0, 500.0, 2e4])
        return [o.s_itot(ff), o.s_itotsc(ff), o.s_itotnormal(ff), [getattr(o, z) for z in ("rload", "r0", "rshunt", "beta", "loopgain", "inductance", "tau0")]]
    fitted = {}

    def dobj():
        if not fitted:
            fitted["o"] = didv_obj((1, 2))
        return fitted["o"]
    op("loadfromdidv", lambda: load, dict(DIDVobj=dobj), {**LD, "rnormal": (None, 0.3), "noisetype": ("transition", "superconducting")}, slow=True)
    return OPS


def seeded(fn):
    def f(*a, **k):
        np.random.seed(77)
        return fn(*a, **k)
    return f


def plain(v):
    return np.frombuffer(str(v).encode(), np.uint8) if v is None or isinstance(v, (str, list)) else np.asarray(v, dtype=float)


def flatten(x):
    out = []
    C28.flat(x, out)
    return out


def attrs(o):
    return {k: v for k, v in vars(o).items() if isinstance(v, (int, float, np.number, np.ndarray))}


def val(v):
    return v.copy() if isinstance(v, np.ndarray) else v


def cases(tier):
    deep = tier != "quick"
    build()
    for name, q in OPS.items():
        names = [x for x in q["opt"] if x not in q["fixed"]]
        yield dict(name=name, alt=list(q["fixed"]))
        yield dict(name=name, alt=list(q["fixed"]), types="default")
        if not q["slow"] or deep:
            yield dict(name=name, alt=names + list(q["fixed"]), types="other")
        for k in range(1, 3 if deep else 2):
            for alt in itertools.combinations(names, k):
                if k == 2 and q["slow"] and len(names) > 6:
                    continue
                yield dict(name=name, alt=list(q["fixed"]) + list(alt))


def call(q, a, k):
    with warnings.catch_warnings(), np.errstate(all="ignore"), contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter("ignore")
        return attempt(q["make"](), *a, **k)


def retype(v):
    """the same number (or flag, or sequence) written with another type"""
    if isinstance(v, (bool, np.bool_)):
        return [("numpy flag", np.bool_(v)), ("0/1", int(v))]
    if isinstance(v, (int, np.integer)):
        return [("numpy int64", np.int64(v)), ("numpy int32", np.int32(v))]
    if isinstance(v, (float, np.floating)):
        out = [("numpy float", np.float64(v))]
        if np.isfinite(v) and v == int(v) and abs(v) < 2 ** 31:
            out += [("int", int(v)), ("numpy int64", np.int64(v)), ("numpy int32", np.int32(v))]
        return out
    if isinstance(v, list) and not any(isinstance(x, (np.ndarray, list, str)) for x in v):
        return [("tuple", tuple(v)), ("array", np.array(v))]
    if isinstance(v, range):
        return [("list", list(v)), ("array", np.arange(v.start, v.stop))]
    return []


def run_types(case, rec):
    q = OPS[case["name"]]
    vals = {n: b for n, b in q["req"].items()}
    vals.update({n: (lambda n=n: val(q["opt"][n][1 if n in case["alt"] else 0])) for n in q["opt"]})
    split = lambda skip, v: ([v if n == skip else b() for n, b in vals.items() if n in q["req"]], {n: v if n == skip else vals[n]() for n in q["opt"]})
    a, k = split(None, None)
    ref = call(q, a, k)
    if isinstance(ref, Raised):
        return
    for n in vals:
        for what, v in retype(vals[n]()):
            a, k = split(n, v)
            got = call(q, a, k)
            rec.step()
            rec.state(case, n, what)
            ctx = f"{case['name']}{'' if case['types'] == 'default' else ' (other values)'} with {n}={v!r} ({what})"
            if isinstance(got, Raised):
                rec.fail("types", f"{ctx}: {str(got)[:150]!r}")
                continue
            m = C28.differ(got, ref, max(q["tol"], 1e-9))
            if m:
                rec.fail("types", f"{ctx}: {m}")
    rec.trace()


def run(case, rec):
    build()
    if "types" in case:
        return run_types(case, rec)
    q = OPS[case["name"]]
    val_of = {n: (q["opt"][n][1] if n in case["alt"] else q["opt"][n][0]) for n in q["opt"]}
    free = [n for n in q["opt"] if n not in case["alt"]]
    ctx0 = f"{case['name']}" + (f" with {', '.join(case['alt'])} set" if case["alt"] else "")
    rq = lambda: [b() for b in q["req"].values()]
    full = lambda skip=(): {n: val(v) for n, v in val_of.items() if n not in skip}
    ref = call(q, rq(), full())
    if not case["alt"] and "resampled" not in case["name"]:      # (its data need autoresample)
        rec.true("defaults", not isinstance(ref, Raised), f"{ctx0}, documented defaults written out: {str(ref)[:150]!r}")
    forms = []
    forms.append(("all left out", rq(), full(free)))
    for n in free:
        forms.append((f"{n} left out", rq(), full((n,))))
        forms.append((f"only {n} given", rq(), full([x for x in free if x != n])))
    order = list(q["opt"])
    for k in range(1, q["pos"] + 1):
        forms.append((f"{order[:k]} by position", rq() + [val(val_of[n]) for n in order[:k]], full(order[:k])))
        forms.append((f"{order[:k]} by position, others left out", rq() + [val(val_of[n]) for n in order[:k]], full(order[:k] + free)))
    if q["req"]:
        forms.append(("required arguments by name", [], {**{n: b() for n, b in q["req"].items()}, **full()}))
    seen = set()
    for what, a, k in forms:
        key = (len(a), tuple(k))
        if key in seen:
            continue
        seen.add(key)
        got = call(q, a, k)
        rec.step()
        rec.state(case, what)
        ctx = f"{ctx0}, {what}"
        if isinstance(ref, Raised) or isinstance(got, Raised):
            same = isinstance(ref, Raised) and isinstance(got, Raised) and type(ref.exc) is type(got.exc)
            rec.true("defaults", same, f"{ctx}: {str(got)[:150]!r}, all written out by name: {str(ref)[:150]!r}")
            continue
        m = C28.differ(got, ref, q["tol"])
        if m:
            rec.fail("defaults", f"{ctx}: {m} (all arguments written out by name with the documented defaults)")
    rec.trace()
