"""C24: TES noise model and energy-resolution estimate."""
import itertools
import numpy as np
from scipy import constants as K
import qetpy.sim as S
from mc.core import must, attempt, Raised
from mc import ref_of as R

ID = "C24"
LEVEL = "model_checking"
BOUNDS = ("all combinations of rload, r0, beta, loopgain, L, tau0, G, Tc, Tbath, n, ballistic/diffusive over 2-3 values each, at "
          "11 frequencies (array, scalar, default and two-sided), in and out of transition; energy_res_estimate over 3 PSDs x 4 "
          "collection times x 3 efficiencies")
RULE = ("complete enumeration of the parameter grid on the real class; the oracle solves the linearised electro-thermal 2x2 system "
        "(circuit and heat-balance equations) numerically for every frequency")
ASSUMPTIONS = ["energy_res_estimate is judged for one-sided spectra"]


# one operating parameter far from the usual, the others as usual
EXTREMES = [dict(tbath=0.05), dict(tbath=0.039), dict(tbath=0.001), dict(loopgain=0.99), dict(loopgain=1.01), dict(loopgain=1e4), dict(loopgain=1e-3),
            dict(loopgain=-1e3), dict(beta=15.0), dict(beta=-0.5), dict(inductance=1e-9), dict(inductance=5e-6), dict(tau0=1e-7), dict(tau0=0.2),
            dict(G=1e-13), dict(G=1e-6), dict(n=1.0), dict(n=2.0), dict(n=6.0), dict(n=4.5), dict(squidpole=3e4, squidn=2.0), dict(squidn=0.5), dict(squiddc=1e-10),
            dict(qetbias=-1e-4), dict(qetbias=5e-3), dict(tload=0.0), dict(tload=4.2), dict(rshunt=0.02), dict(rshunt=1e-4), dict(tc=1.2, tbath=0.3),
            dict(r0=1e-3), dict(r0=2.0), dict(rload=0.5), dict(n=5, loopgain=10, beta=1, tau0=1)]


def cases(tier):
    q = tier == "quick"
    for rl, r0, lg, cb in itertools.product((0.012, 0.004), (0.15, 0.03), (10.0, 0.4, 2.0, -3.0), (True, False)):
        yield dict(kind="tes", rload=rl, r0=r0, loopgain=lg, lgcb=cb, full=not q)
    yield dict(kind="eres")


def run(case, rec):
    if case["kind"] == "eres":
        grids = [np.concatenate(([0.0], np.logspace(0, 6, 4000))), np.fft.rfftfreq(32501, 1 / 625e3)[1:], np.array([0.0, 10.0, 300.0, 1e3, 5e3, 3e4]),
                 np.fft.rfftfreq(200003, 1 / 1.25e6)]
        for f, tau, sp, ce in itertools.product(grids, (1e-5, 1e-4, 5e-4, 0.0, 1.0, 1e-8), (0, 1, 2), (1.0, 0.3, 0.05)):
            w = 2 * np.pi * f
            Sp = [1e-35 * np.ones_like(f), 1e-35 * (1 + f / 1e3), 1e-36 * (1 + (f / 2e4) ** 2)][sp]
            ctx = f"energy_res_estimate({len(f)} frequencies, tau={tau}, psd {sp}, eff={ce})"
            g = must(rec, "eres", ctx, S.energy_res_estimate, f, tau, Sp, ce)
            if g is None:
                continue
            y = 4 * ce ** 2 / (1 + (w * tau) ** 2) / Sp
            want = 1 / np.sqrt(np.sum((y[1:] + y[:-1]) / 2 * np.diff(f))) / K.e
            rec.close("eres", g, want, rtol=1e-6, ctx=ctx)
            rec.state(ctx)
        rec.trace()
        return
    freqs = np.array([1e-2, 1.0, 33.0, 100.0, 330.0, 1e3, 3.3e3, 1e4, 5e4, 2e5, 1e6])
    grid = itertools.product((1.0, 0.0, 0.2), (400e-9, 1e-7), (500e-6, 40e-6), (5e-10, 1e-9), (0.04, 0.06), (0.02, 1e-3), (5.0, 4.0), ((2.5e-12, 0.0, 1.0), (3e-12, 200.0, 1.3)))
    few = freqs
    mid = dict(beta=1.0, inductance=400e-9, tau0=500e-6, G=5e-10, tc=0.04, tbath=0.02, n=5.0, squiddc=2.5e-12, squidpole=50.0, squidn=1.0,
               qetbias=1.6e-4, tload=0.9)
    plist = []
    if case["r0"] == 0.15:
        for ov in EXTREMES:
            plist.append(dict(mid, **ov))
    for i, (be, L, t0, G, tc, tb, nn, sq) in enumerate(grid):
        if not case["full"] and (i * 7 + int(case["loopgain"])) % 2:
            continue
        p = dict(rload=case["rload"], r0=case["r0"], rshunt=0.005, beta=be, loopgain=case["loopgain"], inductance=L, tau0=t0, G=G, qetbias=1.6e-4 if i % 3 else 4e-5,
                 tc=tc, tload=0.9 if i % 2 else 0.03, tbath=tb, n=nn, lgcb=case["lgcb"], squiddc=sq[0], squidpole=sq[1], squidn=sq[2])
        plist.append(p)
    for i, p in enumerate(plist):
        p = dict(dict(rload=case["rload"], r0=case["r0"], rshunt=0.005, loopgain=case["loopgain"], lgcb=case["lgcb"]), **p)
        be, L, t0, G, tc, tb, nn = (p[k] for k in ("beta", "inductance", "tau0", "G", "tc", "tbath", "n"))
        sq = p["squiddc"], p["squidpole"], p["squidn"]
        # as many frequencies as a detector spectrum has, once per case
        freqs = np.fft.rfftfreq(200003, 1 / 625e3)[1:] if i < 2 else few
        ctx = f"TESnoise({len(freqs)} frequencies, {p})"
        s = must(rec, "build", ctx, S.TESnoise, freqs=freqs, **p)
        if s is None:
            continue
        lg = p["loopgain"]
        i0 = p["qetbias"] * p["rshunt"] / (p["r0"] + p["rload"])
        w = 2 * np.pi * freqs
        # L d(dI)/dt = dV - (RL + R0(1+b)) dI - (lg G/I0) dT ;  C d(dT)/dt = dP - (1-lg) G dT + I0 R0 (2+b) dI ; C = tau0 G
        A = np.empty((len(w), 2, 2), complex)
        A[:, 0, 0] = p["rload"] + p["r0"] * (1 + be) + 1j * w * L
        A[:, 0, 1] = lg * G / i0
        A[:, 1, 0] = -i0 * p["r0"] * (2 + be)
        A[:, 1, 1] = G * (1 - lg) + 1j * w * t0 * G
        det = A[:, 0, 0] * A[:, 1, 1] - A[:, 0, 1] * A[:, 1, 0]
        dIdV = A[:, 1, 1] / det
        dIdP = -A[:, 0, 1] / det
        gI = must(rec, "response", ctx, s.dIdV)
        gP = must(rec, "response", ctx, s.dIdP)
        if gI is None or gP is None:
            continue
        if np.max(np.abs(gI - dIdV) / np.abs(dIdV)) > 1e-7:
            rec.fail("response", f"{ctx}: dIdV differs from the electro-thermal equations")
        flip = attempt(lambda: S.TESnoise(freqs=freqs, **dict(p, qetbias=-p["qetbias"])).dIdP()) if len(freqs) < 100 else -gP
        if isinstance(flip, Raised) or not np.allclose(flip, -gP, rtol=1e-9, atol=0):
            rec.fail("response", f"{ctx}: dIdP does not change sign with the bias current")
        # sign of the power response is a convention (a pulse lowers the current); magnitude and phase are not
        if min(np.max(np.abs(gP - dIdP) / np.abs(dIdP)), np.max(np.abs(gP + dIdP) / np.abs(dIdP))) > 1e-7:
            rec.fail("response", f"{ctx}: dIdP differs from the electro-thermal equations")
        kb4 = 4 * K.k
        r = tb / tc
        ftfn = (r ** (nn + 1) + 1) / 2 if case["lgcb"] else nn / (2 * nn + 1) * (r ** (2 * nn + 1) - 1) / (r ** nn - 1)
        P2 = np.abs(dIdP) ** 2
        vl = kb4 * p["tload"] * p["rload"] * np.ones_like(w)
        vt = kb4 * tc * p["r0"] * (1 + be) ** 2 * np.ones_like(w)
        pt = kb4 * tc ** 2 * G * ftfn * np.ones_like(w)
        dn = np.abs(1 / (p["rload"] + p["r0"] + 1j * w * L)) ** 2
        ds = np.abs(1 / (p["rload"] + 1j * w * L)) ** 2
        # TES voltage noise drives the circuit by V and the thermal equation by -I0 V: one solve with both sources
        it = vt * np.abs((A[:, 1, 1] * 1 - A[:, 0, 1] * (-i0)) / det) ** 2
        sqd = (sq[0] * (1 + (sq[1] / freqs) ** sq[2])) ** 2
        vn = kb4 * tc * p["r0"] * np.ones_like(w)
        want = dict(s_vload=vl, s_iload=vl * np.abs(dIdV) ** 2, s_pload=vl * np.abs(dIdV) ** 2 / P2, s_vtes=vt, s_ites=it, s_ptes=it / P2,
                    s_ptfn=pt, s_itfn=pt * P2, s_isquid=sqd, s_psquid=sqd / P2, s_vtesnormal=vn, s_iloadnormal=vl * dn, s_itesnormal=vn * dn,
                    s_iloadsc=vl * ds)
        want["s_itot"] = want["s_iload"] + it + want["s_itfn"] + sqd
        want["s_ptot"] = want["s_itot"] / P2
        want["s_itotnormal"] = vl * dn + vn * dn + sqd
        want["s_itotsc"] = vl * ds + sqd
        for nm, wv in want.items():
            g = must(rec, nm, ctx, getattr(s, nm))
            if g is None:
                continue
            g = np.asarray(g)
            ok = g.shape == wv.shape and np.all(np.abs(g - wv) <= 1e-6 * np.abs(wv) + (1e-9 * np.max(vt) * np.abs(dIdV) ** 2 if nm in ("s_ites",) else 0) + (1e-9 * np.max(vt) * np.abs(dIdV) ** 2 / P2 if nm == "s_ptes" else 0))
            if not ok:
                j = int(np.argmax(np.abs(g - wv) / np.abs(wv))) if g.shape == wv.shape else -1
                rec.fail(nm, f"{ctx}: {nm} at {freqs[j]} Hz is {g[j] if g.shape == wv.shape else g.shape}, expected {wv[j]}")
        rec.state(ctx, gI, gP)
        if i % 16 == 0:
            for nm in list(want) + ["dIdV", "dIdP", "dIdVnormal", "dIdVsc"]:
                fn = getattr(s, nm)
                full = np.asarray(fn())
                rec.step(3)
                part = np.asarray(fn(freqs[3:7]))
                if not np.allclose(part, full[3:7], rtol=1e-9, atol=0):
                    rec.fail("freqs", f"{ctx}: {nm}(given frequencies) differs from the values at the object's frequencies")
                sc = np.asarray(fn(float(freqs[4])))
                if not np.allclose(sc, full[4], rtol=1e-9, atol=0):
                    rec.fail("freqs", f"{ctx}: {nm}(scalar) {sc} != {full[4]}")
                if nm[0] == "d":
                    ng = np.asarray(fn(-freqs))
                    if not np.allclose(ng, np.conj(full), rtol=1e-9, atol=0):
                        rec.fail("freqs", f"{ctx}: {nm}(-f) is not the complex conjugate of {nm}(f)")
            if not np.array_equal(s.freqs, freqs):
                rec.fail("freqs", f"{ctx}: the frequencies of the object changed")
            own = must(rec, "freqs", f"{ctx} without frequencies", S.TESnoise, **p)
            if own is None:
                return
            fo = np.asarray(own.freqs)
            if fo.ndim != 1 or fo.dtype.kind != "f" or len(fo) < 2 or not (np.all(np.isfinite(fo)) and fo[0] > 0 and np.all(np.diff(fo) > 0)):
                rec.fail("freqs", f"{ctx}: frequencies of an object built without are {fo!r}")
                return
            again = S.TESnoise(freqs=fo, **p)
            for nm in list(want) + ["dIdV", "dIdP", "dIdVnormal", "dIdVsc"]:
                a, b = attempt(getattr(own, nm)), attempt(getattr(again, nm))
                rec.step()
                if isinstance(a, Raised) or np.shape(a) != fo.shape or not np.array_equal(a, b):
                    rec.fail("freqs", f"{ctx}: {nm} of an object built without frequencies is not that at its own frequencies")
    rec.trace()
