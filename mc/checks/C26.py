"""C26: the noise model loaded from a dIdV fit is that of the fitted circuit."""
import copy
import itertools
import warnings
import numpy as np
import qetpy as qp
import qetpy.sim as S
from mc import ref_didv as D
from mc.core import must, attempt, Raised

ID = "C26"
LEVEL = "model_checking"
CASE_CPU_S = 120
BOUNDS = ("2-pole circuits r0 x beta x loop gain (either side of one) x tau0 and 1-pole circuits (superconducting, normal), fitted with DIDV and "
          "DIDVPriors, x all orders of one- and two-pole fits (refits with a cut-off included) to length 3 x 3 noise types x sets of the other "
          "eight parameters, by name and by position")
RULE = ("complete enumeration on the real fit objects and loader; oracle: the documented impedance of the latest fit of the model for the noise "
        "type, and a TESnoise object written out parameter by parameter; state = (circuit, fit history, noise type, answers)")
ASSUMPTIONS = ["circuits within reach of the fit's starting values (see C18)"]
AMP, RSH, FS = 4.7e-7, 5e-3, 625e3
F = np.array([1.0, 30.0, 300.0, 1e3, 5e3, 2e4, 1e5])
TERMS = {"transition": ("dIdV", "dIdP", "s_iload", "s_ites", "s_itfn", "s_isquid", "s_itot", "s_pload", "s_ptes", "s_ptfn", "s_psquid", "s_ptot"),
         "superconducting": ("dIdVsc", "s_iloadsc", "s_isquid", "s_itotsc"),
         "normal": ("dIdVnormal", "s_iloadnormal", "s_itesnormal", "s_isquid", "s_itotnormal")}
ATTRS = ("rload", "r0", "rshunt", "beta", "loopgain", "inductance", "tau0", "G", "qetbias", "tc", "tload", "tbath", "squiddc", "squidpole", "squidn")
DEFAULT = dict(G=5.0e-10, qetbias=160e-6, tc=0.040, tload=0.9, tbath=0.020, squiddc=2.5e-12, squidpole=0.0, squidn=1.0)
OTHER = dict(G=1.5e-10, qetbias=-30e-6, tc=0.061, tload=0.05, tbath=0.011, squiddc=4e-12, squidpole=150.0, squidn=1.4)


def cases(tier):
    deep = tier != "quick"
    for r0, beta, (l, tau0) in itertools.product((0.0756, 0.2), (0.1, 2), ((0.3, 5e-4), (0.5, 2e-4), (10, 5e-4), (20, 2e-4)) if deep else ((0.5, 5e-4), (10, 5e-4))):
        yield dict(kind="two", p=dict(rsh=RSH, rp=6e-3, r0=r0, beta=beta, l=l, L=1e-7, tau0=tau0))
    for rp, L in itertools.product((6e-3, 0.03, 0.1), (3e-8, 1e-7)):
        yield dict(kind="one", p=dict(rsh=RSH, rp=rp, L=L))
    yield dict(kind="bad")


def run(case, rec):
    globals()["run_" + case["kind"]](case, rec)


def measured(p, priors=False):
    bins, per = 2500, 2
    y = D.response(p, bins * per, per, FS, FS / bins, AMP, 0.5, 2)
    tr = D.traces(y, 1e-3 * np.max(np.abs(y)), 3, 4e-6)
    if priors:
        return qp.DIDVPriors(tr, FS, FS / bins, AMP, RSH, dt0=2.2 / FS)
    return qp.DIDV(tr, FS, FS / bins, AMP, RSH, r0=p.get("r0", 0.3), rp=p["rp"], dt0=2.2 / FS)


def dofit(o, op, p):
    kw = dict(fcutoff=9e4) if op.endswith("cut") else {}
    m = int(op[0])
    if isinstance(o, qp.DIDVPriors):
        names = ("rsh", "rp", "L", "dt") if m == 1 else ("rsh", "rp", "r0", "beta", "l", "L", "tau0", "dt")
        pri, cov = np.zeros(len(names)), np.zeros((len(names),) * 2)
        for j, k in enumerate(names[:2 if m == 1 else 3]):
            pri[j] = p.get(k, 0.1)
            cov[j, j] = (0.02 * pri[j]) ** 2
        return attempt(o.dofit, m, pri, cov, **kw)
    return attempt(o.dofit, m, **kw)


def circuit(fit):
    return dict(fit["smallsignalparams"] if "smallsignalparams" in fit else fit["params"])


def judge(rec, ctx, o, kind, other, rnormal, positional):
    m = 2 if kind == "transition" else 1
    fit = o.fitresult(m)
    keep = copy.deepcopy(fit)
    q = circuit(fit)
    kw = dict(DEFAULT, **(other or {}))
    name = "".join(list(kind))      # equal, not identical, string
    if positional:
        t = attempt(S.loadfromdidv, o, *[kw[k] for k in ("G", "qetbias", "tc", "tload", "tbath", "squiddc", "squidpole", "squidn")], rnormal, name)
    elif kind == "transition" and not other:
        t = attempt(S.loadfromdidv, o)
    else:
        t = attempt(S.loadfromdidv, o, noisetype=name, rnormal=rnormal, **(other or {}))
    rec.step()
    if isinstance(t, Raised):
        return rec.fail("load", f"{ctx}: {t!r}")
    rec.true("purity", repr(o.fitresult(m)) == repr(keep), f"{ctx}: the fit result changed")
    want = dict(kw, rshunt=q["rsh"], inductance=q["L"], r0=0, beta=0, loopgain=0, tau0=0, rload=q["rsh"] + q["rp"])
    if kind == "transition":
        want.update(r0=q["r0"], beta=q["beta"], loopgain=q["l"], tau0=q["tau0"])
    else:
        want["G"] = 0
        if kind == "normal":
            want.update(r0=rnormal, rload=q["rsh"] + q["rp"] - rnormal)
    ref = S.TESnoise(**want)
    for term in TERMS[kind]:
        a, b = attempt(getattr(t, term), F), attempt(getattr(ref, term), F)
        if isinstance(a, Raised) or isinstance(b, Raised):
            rec.fail("terms", f"{ctx}: {term}: {a!r} / {b!r}")
            continue
        rec.true("terms", np.allclose(a, b, rtol=1e-9, atol=0), f"{ctx}: {term} is not that of the fitted circuit: {np.asarray(a)[:3]} instead of {np.asarray(b)[:3]}")
    # cross-module: the response of the noise model is the admittance of the fit
    zz = {k: v for k, v in q.items() if k != "dt"}
    resp = getattr(t, TERMS[kind][0])(F)
    rec.true("admittance", np.allclose(resp, 1 / D.z(F, zz), rtol=1e-7), f"{ctx}: dIdV of the noise model {resp[:2]} is not the admittance of the fit {1 / D.z(F, zz)[:2]}")
    for a in ATTRS:
        if hasattr(t, a):
            rec.true("parameters", np.isclose(getattr(t, a), want[a], rtol=1e-12, atol=0), f"{ctx}: {a} = {getattr(t, a)!r} instead of {want[a]!r}")
    rec.state(ctx, kind, np.round(np.abs(resp), 6))


def histories(ops):
    for n in (1, 2, 3):
        yield from itertools.product(ops, repeat=n)


def run_two(case, rec):
    p = case["p"]
    for priors in (False, True):
        for j, h in enumerate([("2",), ("2", "1"), ("1", "2"), ("2", "2cut"), ("2cut", "2"), ("2", "1", "2cut"), ("1", "2cut", "1")][: 7 if not priors else 4]):
            o = measured(p, priors)
            for op in h:
                r = dofit(o, op, p)
                if isinstance(r, Raised) and op[0] == "2":
                    return rec.fail("fit", f"{p} {h}: {r!r}")
            ctx = f"loadfromdidv after fits {h} priors {priors} of {p}"
            judge(rec, ctx, o, "transition", (None, OTHER)[j % 2], None, False)
            judge(rec, ctx + " positional", o, "transition", OTHER, None, True)
            got = S.loadfromdidv(o).dIdV(F)
            rec.true("truth", np.allclose(got, 1 / D.z(F, p), rtol=2e-2 if priors else 2e-3), f"{ctx}: dIdV of the noise model differs from the true circuit: {got[:3]} {1 / D.z(F, p)[:3]}")
            for k in DEFAULT:
                judge(rec, f"{ctx}, only {k}", o, "transition", {k: OTHER[k]}, None, False)
            if rec.problems:
                return
    rec.trace()


def run_one(case, rec):
    p = case["p"]
    for priors in (False, True):
        for h in (("1",), ("1cut", "1"), ("1", "1cut")):
            o = measured(p, priors)
            for op in h:
                r = dofit(o, op, p)
                if isinstance(r, Raised):
                    return rec.fail("fit", f"{p} {h}: {r!r}")
            ctx = f"loadfromdidv after fits {h} priors {priors} of {p}"
            for other in (None, OTHER):
                for pos in (False, True):
                    judge(rec, f"{ctx} superconducting {pos}", o, "superconducting", other, None, pos)
                    for rn in (0.5 * p["rp"], 0.02):
                        judge(rec, f"{ctx} normal rnormal={rn} {pos}", o, "normal", other, rn, pos)
            rec.true("ignored", np.array_equal(S.loadfromdidv(o, noisetype="superconducting", rnormal=0.3).s_itotsc(F), S.loadfromdidv(o, noisetype="superconducting").s_itotsc(F)), f"{ctx}: rnormal used in the superconducting model")
            if rec.problems:
                return
    rec.trace()


def run_bad(case, rec):
    p = dict(rsh=RSH, rp=0.03, L=1e-7)
    o = measured(p)
    o.dofit(1)
    r = attempt(S.loadfromdidv, o, noisetype="normal")
    rec.true("refused", isinstance(r, Raised) and isinstance(r.exc, ValueError), f"normal noise without rnormal: {r!r}")
    for bad in ("Transition", "sc", "", "normal ", None, "supercond"):
        r = attempt(S.loadfromdidv, o, noisetype=bad, rnormal=0.1)
        rec.true("refused", isinstance(r, Raised) and isinstance(r.exc, ValueError), f"noise type {bad!r}: {r!r}")
        rec.step()
    for kind in ("transition",):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            r = attempt(S.loadfromdidv, o, noisetype=kind)
        rec.true("refused", isinstance(r, Raised), f"transition noise without a two-pole fit: {r!r}")
    rec.state("bad")
    rec.trace()
