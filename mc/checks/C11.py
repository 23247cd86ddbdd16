"""C11: Noise object: spectra, cross spectra, decorrelation; all operation histories."""
import itertools
import pickle
import os
import numpy as np
import qetpy as qp
from mc.core import must, attempt, Raised
from mc import bfs
from mc import ref_of as R

ID = "C11"
LEVEL = "model_checking"
BOUNDS = ("histories: BFS to the fixpoint (trace content included) over {calculate_psd, calculate_csd, calculate_corrcoeff, "
          "calculate_uncorr_noise, remove_trace_slope} plus all sequences to length 3 (thorough 4), for 4 configurations; spectra: "
          "lengths 4..17 (thorough 4..40) and 1000, 1625 (thorough to 32500), 4..2053 traces (thorough 20011) x 1..3 channels x 3 gains x 3 sample rates; constructor argument errors; save/load")
RULE = ("every operation is applied in every reachable object state; each answer is compared with a reference computed from the "
        "current traces by direct DFT sums (Hann window, mean removed, as documented for scipy.signal.csd)")
ASSUMPTIONS = ["number of traces larger than the number of channels (otherwise the cross spectrum is singular)"]
OPS = ["calculate_psd", "calculate_csd", "calculate_corrcoeff", "calculate_uncorr_noise", "remove_trace_slope"]
CFG = [dict(n=8, ch=2, nt=4, gain=1.0, fs=1.0), dict(n=9, ch=2, nt=4, gain=2.0, fs=625e3), dict(n=8, ch=3, nt=6, gain=-0.5, fs=7.0), dict(n=7, ch=1, nt=3, gain=3.0, fs=2.0)]


def cases(tier):
    q = tier == "quick"
    for i in range(4):
        yield dict(kind="bfs", cfg=i)
        yield dict(kind="seq", cfg=i, depth=3 if q else 4)
    for n in range(4, 18 if q else 41):
        for ch in (1, 2, 3):
            yield dict(kind="spectra", n=n, ch=ch)
    for n in (1000, 1625) if q else (1000, 1625, 3250, 4096, 32500):
        for ch in (1, 2, 3):
            yield dict(kind="spectra", n=n, ch=ch, unit=2e-9)
    if q:
        yield dict(kind="spectra", n=32500, ch=2, unit=2e-9)
    for n, nt in ((8, 1031), (9, 2053), (33, 257)) + (() if q else ((8, 20011), (1625, 300))):
        for ch in (1, 2, 3):
            yield dict(kind="spectra", n=n, ch=ch, nt=nt)
    yield dict(kind="args")
    yield dict(kind="save")


def traces(n, ch, nt):
    x = R.lcg(n * ch * nt, n + ch).reshape(nt, ch, n) + 0.5
    x += 0.4 * x[:, :1, :] + np.arange(n) * 0.2
    return x


def dft(x):
    n = x.shape[-1]
    if n > 400:
        return np.fft.rfft(x)
    return x @ np.exp(-2j * np.pi * np.outer(np.arange(n), np.arange(n // 2 + 1)) / n)


def fold(p, n):
    p = p * 2.0
    p[..., 0] /= 2
    if n % 2 == 0:
        p[..., -1] /= 2
    return p


def ref_psd(tr, fs):
    n = tr.shape[-1]
    F = dft(tr)
    return [fold(q.mean(axis=0) / (n * fs), n) for q in (np.abs(F) ** 2, F.real ** 2, F.imag ** 2)]


def ref_csd(tr, fs):
    n = tr.shape[-1]
    w = 0.5 - 0.5 * np.cos(2 * np.pi * np.arange(n) / n)
    F = dft((tr - tr.mean(axis=-1, keepdims=True)) * w)
    c = np.conj(F[:, :, None, :]) * F[:, None, :, :] / (fs * np.sum(w ** 2))
    return fold(c, n)


CSD = ("calculate_csd", "calculate_uncorr_noise")
QUANTITIES = dict(psd=("calculate_psd",), real_psd=("calculate_psd",), imag_psd=("calculate_psd",), corrcoeff=("calculate_corrcoeff",),
                  uncorrnoise=("calculate_uncorr_noise",), corrnoise=("calculate_uncorr_noise",), csd=CSD, real_csd=CSD, imag_csd=CSD,
                  real_csd_std=CSD, imag_csd_std=CSD)


def oracle(cfg):
    fs, ch = cfg["fs"], cfg["ch"]

    def f(hist, op, res, o):
        out, kept = [], []

        def cmp(nm, got, want, tol=1e-7):
            try:
                got = np.asarray(got)
                s = np.max(np.abs(want))
                if got.shape != want.shape or not np.all(np.abs(got - want) <= tol * s):
                    out.append((nm, f"{nm} does not match the current traces (shape {got.shape} vs {want.shape})"))
            except Exception as e:
                out.append((nm, f"{nm}: {e!r}"))
        if isinstance(res, Raised):
            if ch == 1 and op in ("calculate_csd", "calculate_corrcoeff", "calculate_uncorr_noise"):
                if not isinstance(res.exc, ValueError):
                    out.append(("error", f"raised {res}"))
                return out
            return [("error", f"raised {res}")]
        if ch == 1 and op in ("calculate_csd", "calculate_corrcoeff", "calculate_uncorr_noise"):
            return [("error", "single channel accepted")]
        tr = o.traces
        if ch == 1:     # the refused calls calculate nothing
            hist = [h for h in hist if h not in ("calculate_csd", "calculate_corrcoeff", "calculate_uncorr_noise")]
        # what has not been calculated yet is None, whatever else was
        for q, by in QUANTITIES.items():
            made = any(h in by for h in list(hist) + [op])
            if not made and getattr(o, q, None) is not None:
                out.append(("fresh", f"{q} is set although none of {by} was called"))
            seq = list(hist) + [op]
            if made and "remove_trace_slope" not in seq[max(i for i, h in enumerate(seq) if h in by):]:
                if getattr(o, q, None) is None:
                    out.append(("lost", f"{q} is None although it was calculated"))
                elif op not in by:
                    kept.append(q)      # still describes the current traces
        nrem = sum(1 for h in list(hist) + [op] if h == "remove_trace_slope")
        x = traces(cfg["n"], ch, cfg["nt"]) * cfg.get("unit", 1.0) / cfg["gain"]
        t = np.arange(cfg["n"]) / fs
        if nrem:
            s = np.sum((t - t.mean()) * (x - x.mean(axis=-1, keepdims=True)), axis=-1, keepdims=True) / np.sum((t - t.mean()) ** 2)
            x = x - s * t
        cmp("traces", tr, x, 1e-8)
        done = {op} | {"calculate_psd" if q.endswith("psd") else "calculate_corrcoeff" if q == "corrcoeff" else "calculate_uncorr_noise" if q.endswith("noise") else "calculate_csd" for q in kept}
        if "calculate_psd" in done:
            for nm, w in zip(("psd", "real_psd", "imag_psd"), ref_psd(x, fs)):
                cmp(nm, getattr(o, nm), w)
        if done & {"calculate_csd", "calculate_uncorr_noise"}:
            c = ref_csd(x, fs)
            cm = c.mean(axis=0)
            cmp("csd", o.csd, cm)
            cs = np.asarray(o.csd)
            if cs.shape == cm.shape and np.max(np.abs(cs - np.conj(np.swapaxes(cs, 0, 1)))) > 1e-9 * np.max(np.abs(cs)):
                out.append(("csd", "csd is not Hermitian"))
            for nm, w in (("real_csd", cm.real), ("imag_csd", cm.imag), ("real_csd_std", c.real.std(axis=0)), ("imag_csd_std", c.imag.std(axis=0))):
                g = np.asarray(getattr(o, nm))
                m = w > 1e-9 * np.max(np.abs(cm))
                if g.shape != w.shape or np.max(np.abs(g - w)[m], initial=0) > 1e-7 * np.max(np.abs(cm)):
                    out.append((nm, f"{nm} does not match the current traces"))
        if "calculate_corrcoeff" in done:
            F = np.abs(dft(x))
            w = np.zeros((ch, ch, F.shape[-1]))
            for i in range(F.shape[-1]):
                d = F[:, :, i] - F[:, :, i].mean(axis=0)
                cv = d.T @ d
                w[:, :, i] = cv / np.sqrt(np.outer(np.diag(cv), np.diag(cv)))
            cmp("corrcoeff", o.corrcoeff, w, 1e-6)
        if "calculate_uncorr_noise" in done:
            cm = ref_csd(x, fs).mean(axis=0)
            un = np.zeros((ch, cm.shape[-1]))
            for i in range(cm.shape[-1]):
                inv = np.linalg.inv(cm[:, :, i])
                un[:, i] = 1 / np.abs(np.diag(inv))
            cmp("uncorrnoise", o.uncorrnoise, un, 1e-5)
            dg = np.array([cm[i, i].real for i in range(ch)])
            cmp("corrnoise", o.corrnoise, dg - un, 1e-5)
            if np.any(np.asarray(o.uncorrnoise) > dg * (1 + 1e-6)):
                out.append(("uncorrnoise", "uncorrelated noise exceeds the total"))
        return out
    return f


def run(case, rec):
    k = case["kind"]
    if k in ("bfs", "seq"):
        cfg = CFG[case["cfg"]]
        build = lambda: qp.Noise(traces(cfg["n"], cfg["ch"], cfg["nt"]), cfg["fs"], [f"c{i}" for i in range(cfg["ch"])], tracegain=cfg["gain"])
        ap = lambda o, op: attempt(getattr(o, op))
        orc = oracle(cfg)
        if "hist" in case:
            bfs.replay(rec, case, build, case["hist"], ap, orc)
        elif k == "bfs":
            # repeated slope removal changes rounding for ever: bound the depth
            bfs.explore(rec, case, build, OPS, ap, orc, max_depth=5, max_states=3000)
        else:
            bfs.sequences(rec, case, build, OPS, ap, orc, case["depth"])
        rec.trace()
    elif k == "spectra":
        n, ch = case["n"], case["ch"]
        for fs in (1.0, 7.0, 625e3) if "nt" not in case else (7.0,):
            for gain in (1.0, -0.5, 3e4) if "nt" not in case else (-0.5,):
                for two in ((False, True) if ch == 1 else (False,)):
                    nt = case.get("nt", ch + 3)
                    x = traces(n, ch, nt) * case.get("unit", 1.0)
                    x0 = x.copy()
                    cfg = dict(n=n, ch=ch, nt=nt, gain=gain, fs=fs, unit=case.get("unit", 1.0))
                    names = [f"c{i}" for i in range(ch)]
                    xi = x[:, 0, :] if two else x
                    o = must(rec, "build", str(cfg), qp.Noise, xi, fs, names, tracegain=gain)
                    if o is None:
                        continue
                    rec.close("freqs", o.freqs, np.arange(n // 2 + 1) * fs / n, rtol=1e-9, ctx=f"{cfg} freqs")
                    rec.close("time", o.time, np.arange(n) / fs, rtol=1e-9, ctx=f"{cfg} time")
                    if o.chandict != {c: i for i, c in enumerate(names)}:
                        rec.fail("names", f"{cfg}: chandict {o.chandict}")
                    orc = oracle(cfg)
                    for op in OPS:
                        res = attempt(getattr(o, op))
                        rec.step()
                        for key, msg in orc(OPS[:OPS.index(op)], op, res, o):
                            rec.fail(key, f"{cfg}: {op}: {msg}")
                    rec.state(cfg, two, o)
                    if not np.array_equal(x, x0):
                        rec.fail("input", f"{cfg}: the caller's traces were modified")
                    if two is False and n >= 4:
                        g = qp.calc_psd(x / gain, fs=fs)[1]
                        o2 = qp.Noise(x, fs, names, tracegain=gain)
                        o2.calculate_psd()
                        rec.close("agree", o2.psd, g, rtol=1e-8, ctx=f"{cfg}: Noise.psd equals calc_psd")
        rec.trace()
    elif k == "args":
        for args, why in (((np.ones(5), 1.0, ["a"]), "one trace"), ((np.ones((3, 5)), 1.0, ["a", "b"]), "names"), ((np.ones((3, 2, 5)), 1.0, ["a"]), "names"), ((np.ones((3, 2, 5)), 1.0, []), "names")):
            r = attempt(qp.Noise, *args)
            rec.step()
            rec.state(why, args[2])
            if not (isinstance(r, Raised) and isinstance(r.exc, ValueError)):
                rec.fail("args", f"Noise({args[0].shape}, names {args[2]}): {r!r} instead of ValueError")
        t = np.array([0.0, 1, 3, 4, 8])
        x = np.array([[[2 * v + 1 for v in t], [5 - v for v in t]], [[v for v in t], [3.0 + 0 * v for v in t]]])
        o = qp.Noise(x, 1.0, ["a", "b"], time=t)
        o.remove_trace_slope()
        rec.close("slope", o.traces, np.array([[[1.0] * 5, [5.0] * 5], [[0.0] * 5, [3.0] * 5]]), rtol=1e-9, ctx="slope removal with the given uneven time axis")
        rec.trace()
    else:
        for ops in itertools.chain([()], itertools.permutations(["calculate_psd", "calculate_csd", "calculate_uncorr_noise"], 2)):
            for nm in ("n1", "run 3 pt on"):
                for sl in ("", "/"):
                    os.makedirs("d", exist_ok=True)
                    o = qp.Noise(traces(8, 2, 4), 1.0, ["a", "b"], name=nm)
                    for op in ops:
                        getattr(o, op)()
                    must(rec, "save", f"save {nm}", o.save, "d" + sl)
                    p = "d/" + nm.replace(" ", "_") + ".pkl"
                    try:
                        with open(p, "rb") as fh:
                            o2 = pickle.load(fh)
                    except Exception as e:
                        rec.fail("save", f"saved noise object {p} not readable: {e!r}")
                        continue
                    from mc.core import h64
                    rec.state(ops, nm)
                    if h64(vars(o)) != h64(vars(o2)):
                        rec.fail("save", f"saved and loaded object differ after {ops}")
        rec.trace()
