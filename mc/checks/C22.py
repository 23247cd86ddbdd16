"""C22: time-series helpers: calc_offset, lowpassfilter, align_traces."""
import itertools
import numpy as np
import qetpy.utils as U
from mc.core import must
from mc import ref_of as R

ID = "C22"
LEVEL = "model_checking"
BOUNDS = ("calc_offset: every (samples per period 2..40, whole periods 1..6, remainder class) x 7 sample rates, 2- and 3-dim input; "
          "lowpassfilter: orders 1-3, 4 cut-offs, 2 sample rates, 1/2/3-dim; align_traces: every relative circular start "
          "-12..12 of two/three traces x {float,int} x 4 filter settings; batches of up to 1031-2053 traces, traces to 100003 samples")
RULE = "complete enumeration of the parameter grid on the real functions against bin-exact definitions; state = (function, input, output)"
ASSUMPTIONS = ["scipy.signal filters are trusted; alignment is judged on a pulse that is unambiguous within the correlation length"]


def cases(tier):
    q = tier == "quick"
    for per in range(2, 41 if q else 120):
        yield dict(kind="offset", per=per)
    for order in (1, 2, 3):
        for fc in (0.02, 0.1, 0.3, 0.45):
            for fs in (1.0, 625e3):
                yield dict(kind="lowpass", order=order, fc=fc, fs=fs)
    for dt in ("float", "int"):
        for fc, fs in ((5000.0, 625e3), (30000.0, 625e3), (0.1, 1.0), (40000.0, 1.25e6)):
            for sh in range(-12, 13):
                yield dict(kind="align", dt=dt, fc=fc, fs=fs, sh=sh)
    for nt in (64, 257, 1031) if q else (64, 257, 1031, 4099):
        yield dict(kind="alignmany", nt=nt)
    for shape in ((1031, 43), (2053, 3, 40), (5, 100003), (3, 2, 32500)):
        yield dict(kind="offsetbig", shape=shape)


def run(case, rec):
    k = case["kind"]
    if k == "offset":
        per = case["per"]
        for fs in (1.0, 10.0, 7.0, 1e3, 52100.0, 625e3, 1.25e6):
            sg = fs / per
            for np_ in range(1, 7):
                for extra in sorted({0, 1, per // 2, per - 1}):
                    n = per * np_ + extra
                    for shape in ((4, n), (3, 2, n)):
                        x = R.lcg(int(np.prod(shape)), per).reshape(shape) + 1.0
                        ctx = f"calc_offset(shape {shape}, fs={fs}, sgfreq=fs/{per}, is_didv=True)"
                        g = must(rec, "offset", ctx, U.calc_offset, x, fs=fs, sgfreq=sg, is_didv=True)
                        if g is not None:
                            y = x[..., : per * np_].mean(axis=-1)
                            rec.close("offset", g[0], y.mean(axis=0), rtol=1e-9, scale=float(np.max(np.abs(x))), ctx=ctx)
                            rec.close("offset", g[1], y.std(axis=0) / np.sqrt(shape[0]), rtol=1e-7, scale=float(np.max(np.abs(x))), ctx=ctx + " std")
                            rec.state(ctx)
                        g = must(rec, "offset", ctx, U.calc_offset, x, fs=fs, sgfreq=sg)
                        if g is not None:
                            y = x.mean(axis=-1)
                            rec.close("offset", g[0], y.mean(axis=0), rtol=1e-9, scale=float(np.max(np.abs(x))), ctx=ctx + " not didv")
                            rec.close("offset", g[1], y.std(axis=0) / np.sqrt(shape[0]), rtol=1e-7, scale=float(np.max(np.abs(x))), ctx=ctx + " not didv std")
        rec.trace()
    elif k == "offsetbig":          # many traces, long traces
        shape = tuple(case["shape"])
        n = shape[-1]
        for per in (7, 40) if n < 100 else (625, 31250, 6250):
            for fs in (1.0, 625e3):
                x = R.lcg(int(np.prod(shape)), per).reshape(shape) * 1e-9 + 2e-6 * (1 + np.arange(shape[0]).reshape((-1,) + (1,) * (len(shape) - 1)) % 5)
                x[-1] *= 3
                sc = float(np.max(np.abs(x)))
                for didv in (True, False):
                    ctx = f"calc_offset(shape {shape}, fs={fs}, sgfreq=fs/{per}, is_didv={didv})"
                    g = must(rec, "offset", ctx, U.calc_offset, x, fs=fs, sgfreq=fs / per, is_didv=didv)
                    if g is not None:
                        y = x[..., : n // per * per if didv else n].mean(axis=-1)
                        rec.state(ctx, np.asarray(g[0]))
                        rec.close("offset", g[0], y.mean(axis=0), rtol=1e-9, scale=sc, ctx=ctx)
                        rec.close("offset", g[1], y.std(axis=0) / np.sqrt(shape[0]), rtol=1e-7, scale=sc, ctx=ctx + " std")
        rec.trace()
    elif k == "alignmany":
        n, nt = 200, case["nt"]
        x = np.arange(n)
        want = np.array([0] + [(7 * i) % 25 - 12 for i in range(1, nt)])
        tr = np.array([(1 + 0.3 * (i % 4)) * (x - 90 + w) / 9.0 * np.exp(-0.5 * ((x - 90 + w) / 9.0) ** 2) + i % 3 for i, w in enumerate(want)])
        ctx = f"align_traces({nt} traces)"
        g = must(rec, "align", ctx, U.align_traces, tr.copy(), cut_off_freq=0.2, fs=1.0)
        if g is None:
            return
        rec.state(case, np.asarray(g[0]))
        if not np.array_equal(np.asarray(g[0]), want):
            i = int(np.flatnonzero(np.asarray(g[0]) != want)[0]) if np.shape(g[0]) == want.shape else -1
            rec.fail("align", f"{ctx}: shift of trace {i} is {np.asarray(g[0])[i]}, expected {want[i]}")
        else:
            for i in range(nt):
                m = np.zeros(n, bool)
                m[:max(want[i], 0)] = True
                m[n + min(want[i], 0):] = True
                if not np.array_equal(np.ma.getmaskarray(g[1][i]), m) or np.max(np.abs(np.asarray(g[1][i].data) - np.roll(tr[i], want[i]))[~m]) > 1e-4:
                    rec.fail("align", f"{ctx}: trace {i} is not its original moved by {want[i]} bins")
                    break
        rec.trace()
    elif k == "lowpass":
        fs, order = case["fs"], case["order"]
        fc = case["fc"] * fs
        n = 400
        kw = dict(cut_off_freq=fc, fs=fs, order=order)
        ctx = f"lowpassfilter({kw})"
        x = R.lcg(n, 1)
        y = R.lcg(n, 2)
        x0 = x.copy()
        fx = must(rec, "lowpass", ctx, U.lowpassfilter, x, **kw)
        fy = must(rec, "lowpass", ctx, U.lowpassfilter, y, **kw)
        if fx is None or fy is None:
            return
        rec.state(case)
        if not np.array_equal(x, x0):
            rec.fail("lowpass", f"{ctx}: input modified")
        rec.close("lowpass", U.lowpassfilter(2 * x - 3 * y, **kw), 2 * fx - 3 * fy, rtol=1e-7, ctx=ctx + " linear")
        rec.close("lowpass", U.lowpassfilter(np.ones(n) * 4, **kw), np.ones(n) * 4, rtol=1e-7, ctx=ctx + " constant kept")
        rec.close("lowpass", U.lowpassfilter(np.array([x, y]), **kw), np.array([fx, fy]), rtol=1e-9, ctx=ctx + " 2-dim")
        big = R.lcg(1031 * 60, 3).reshape(1031, 60)
        gb = must(rec, "lowpass", ctx, U.lowpassfilter, big, **kw)
        if gb is not None:
            rec.close("lowpass", gb, np.array([U.lowpassfilter(b, **kw) for b in big]), rtol=1e-9, ctx=ctx + " 1031 traces at once")
        long = np.concatenate((np.zeros(35000), x, np.zeros(35000)))
        gl = must(rec, "lowpass", ctx, U.lowpassfilter, long, **kw)
        if gl is not None and order * case["fc"] > 0.05:        # the response has died out at the ends of a shorter trace
            gs = U.lowpassfilter(long[33000:-33000], **kw)
            rec.close("lowpass", gl[33000:-33000], gs, rtol=1e-7, ctx=ctx + " inside a long quiet trace")
        rec.close("lowpass", U.lowpassfilter(np.array([[x, y], [y, x]]), **kw), np.array([[fx, fy], [fy, fx]]), rtol=1e-9, ctx=ctx + " 3-dim")
        # zero phase and attenuation: tones on an integer number of periods, judged in the middle
        N = 4000
        tt = np.arange(N) / fs
        for fr in (0.25, 0.5, 1.0, 1.05):
            f = fr * fc
            z = np.cos(2 * np.pi * f * tt)
            w = U.lowpassfilter(z, **kw)
            mid = slice(1500, 2500)
            c = np.exp(-2j * np.pi * f * tt)[mid]
            win = np.hanning(1000)
            gain = np.sum(w[mid] * c * win) / np.sum(z[mid] * c * win)
            b = np.tan(np.pi * f / fs) / np.tan(np.pi * fc / fs)
            want = 1 / (1 + b ** (2 * order))     # |H|^2 : forward and backward pass
            rec.step()
            if abs(gain - want) > 0.02:
                rec.fail("lowpass", f"{ctx}: gain {gain} at {fr} x cut-off, Butterworth forward-backward gives {want:.4f}")
        rec.trace()
    else:
        n = 600
        fs, fc, sh = case["fs"], case["fc"], case["sh"]
        x = np.arange(n)
        base = lambda c: (x - c) / 15.0 * np.exp(-0.5 * ((x - c) / 15.0) ** 2)   # zero mean, ends at zero
        cs = [250, 250 - sh, 250 + 5]
        tr = np.array([(g * base(c) + o) * 1000 for c, g, o in zip(cs, (1, 0.7, 3), (0, 40, -25))])
        if case["dt"] == "int":
            tr = np.rint(tr).astype(int)
        t0 = tr.copy()
        ctx = f"align_traces(pulse centres {cs}, cut_off={fc}, fs={fs}, {case['dt']})"
        for nc in (5000, 450):
            g = must(rec, "align", ctx, U.align_traces, tr, n_cut=nc, cut_off_freq=fc, fs=fs)
            s = must(rec, "align", ctx, U.align_traces, tr, lgcjustshifts=True, n_cut=nc, cut_off_freq=fc, fs=fs)
            if g is None or s is None:
                continue
            want = np.array([0, sh, -5])
            rec.state(case, nc)
            if not np.array_equal(np.asarray(s), want) or not np.array_equal(np.asarray(g[0]), want):
                rec.fail("align", f"{ctx}: shifts {g[0]} / {s}, expected {want}")
                continue
            if not np.array_equal(tr, t0):
                rec.fail("align", f"{ctx}: input modified")
            al = g[1]
            for i in range(3):
                wantm = np.zeros(n, bool)
                d = int(want[i])
                wantm[:max(d, 0)] = True
                if d < 0:
                    wantm[d:] = True
                m = np.ma.getmaskarray(al[i])
                if not np.array_equal(m, wantm):
                    rec.fail("align", f"{ctx}: trace {i}: masked bins {np.flatnonzero(m)[:5]}.. expected {np.flatnonzero(wantm)[:5]}..")
                    continue
                rec.close("align", np.asarray(al[i].data)[~m], np.roll(tr[i], d)[~m].astype(float), rtol=1e-5, scale=1000.0, ctx=ctx + f" trace {i}")
        # only the first n_cut samples decide: a large pulse moved the other way lies beyond them
        t3 = np.array([1000 * base(200) + 9000 * base(500) + 7000, 800 * base(200 - sh) + 9000 * base(500 + sh) - 3000])
        for nc, w in ((400, sh), (600, -sh)):
            g1 = must(rec, "align", ctx, U.align_traces, t3, lgcjustshifts=True, n_cut=nc, cut_off_freq=fc, fs=fs)
            if g1 is not None and not np.array_equal(g1, [0, w]):
                rec.fail("align", f"align_traces with n_cut={nc}, cut_off={fc}, fs={fs} of a pulse moved {-sh} bins before and one moved {sh} bins after bin 400: shifts {g1}, expected [0 {w}]")
        # the filter settings decide which feature is aligned: a strong burst at fs/4 stays put, the slow pulse moves
        burst = np.where((x >= 80) & (x < 100), 3000.0 * np.cos(np.pi / 2 * x), 0.0)
        t2 = np.array([1000 * base(250) + burst, 1000 * base(250 - sh) + burst])
        for lo, w in ((0.02, sh), (0.45, 0)):
            g1 = must(rec, "align", ctx, U.align_traces, t2, lgcjustshifts=True, cut_off_freq=lo * fs, fs=fs)
            if g1 is not None and not np.array_equal(g1, [0, w]):
                rec.fail("align", f"align_traces of a slow pulse (moved {-sh} bins) with a fixed burst at fs/4, cut-off {lo}*fs, fs={fs}: shifts {g1}, expected [0 {w}]")
        rec.trace()
