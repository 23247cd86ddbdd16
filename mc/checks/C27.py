"""C27: plots show the data they were asked for, write only the requested files and change nothing."""
import contextlib
import glob
import io
import itertools
import os
import shutil
import tempfile
import warnings
import numpy as np
import matplotlib
matplotlib.use("Agg", force=True)
import matplotlib.pyplot as plt
from matplotlib.figure import Figure
from matplotlib.collections import LineCollection, PathCollection
import qetpy as qp
from mc import ref_didv as D
from mc import ref_of as R
from mc.core import attempt, Raised, canon_bytes

ID = "C27"
LEVEL = "model_checking"
CASE_CPU_S = 300
BOUNDS = ("every public plot method of IV, IBIS, Noise, DIDV, DIDVPriors, TESnoise/compare_noise functions, the diagnostic plots of the "
          "nSmB fits and of the pulse fit x all documented argument forms (all / number / list / tuple / array subsets of temperatures, "
          "channels, poles) x saving on and off x all 8 sets of fits already made x 1 to 5 channels x calculated or not calculated spectra")
RULE = ("complete enumeration of plot calls on real objects in an empty scratch directory with a second figure open; monitored: curves "
        "in the new figures (also just before they are saved), the directory content, the object, the arguments, global matplotlib "
        "settings, the random generator and the other figure; state = (object, call, set of curves, files)")
ASSUMPTIONS = ["curves may carry any style; only their data and legend names count", "a figure saved or shown may be closed or left open"]


class Call:
    """Outcome of one monitored plot call."""

    render = False

    def __init__(self, fn, watch, home):
        self.bad = []
        for f in os.listdir(home):
            raise AssertionError(f"scratch directory not empty: {f}")
        plt.close("all")
        other, oax = plt.subplots(figsize=(2, 2))
        oax.plot([1, 2, 3], [4, 5, 6], label="other")
        before = [canon_bytes(w) for w in watch]
        rc = {k: v for k, v in matplotlib.rcParams.items() if k not in ("backend", "backend_fallback")}
        rng = canon_bytes(list(np.random.get_state()[1:3]))
        saved = []
        orig = Figure.savefig

        def spy(fig, fname, **k):
            saved.append((os.path.basename(str(fname)), curves(fig)))
            if not Call.render:
                # only the file matters here; matplotlib's rendering is exercised by the other calls
                with open(os.fspath(fname), "wb") as fh:
                    fh.write(b"\x89PNG")
                return None
            fig.set_size_inches(2.5, 2)
            k.pop("bbox_inches", None)
            return orig(fig, fname, dpi=20, **k)
        Figure.savefig = spy
        out = io.StringIO()
        try:
            with contextlib.redirect_stdout(out), warnings.catch_warnings(), np.errstate(all="ignore"):
                warnings.simplefilter("ignore")
                self.ret = attempt(fn)
        finally:
            Figure.savefig = orig
        self.out = out.getvalue()
        self.saved = saved
        self.files = sorted(os.path.relpath(os.path.join(d, f), home) for d, _, fs in os.walk(home) for f in fs)
        for f in self.files:
            with open(os.path.join(home, f), "rb") as fh:
                if fh.read(4) != b"\x89PNG":
                    self.bad.append(("file", f"{f} is not a PNG image"))
        self.figs = [plt.figure(n) for n in plt.get_fignums() if plt.figure(n) is not other]
        if other.number not in plt.get_fignums():
            self.bad.append(("other-figure", "the call closed a figure it did not make"))
        if len(other.axes) != 1 or len(oax.lines) != 1 or oax.get_legend() is not None or oax.get_title() or oax.get_xlabel():
            self.bad.append(("other-figure", "the call drew into a figure that was already open"))
        self.curves = [c for f in self.figs for c in curves(f)] if self.figs else [c for _, cs in saved for c in cs]
        self.bars = [b for f in self.figs for b in bars(f)]
        self.axtext = [(a.get_xlabel(), a.get_ylabel(), a.get_title(), [t.get_text() for t in (a.get_legend().get_texts() if a.get_legend() else [])]) for f in self.figs for a in f.axes]
        self.xlim = [a.get_xlim() for f in self.figs for a in f.axes]
        for w, b in zip(watch, before):
            if canon_bytes(w) != b:
                self.bad.append(("purity", f"the call changed {type(w).__name__} content"))
        if any(matplotlib.rcParams[k] != v for k, v in rc.items()):
            self.bad.append(("settings", "the call changed the matplotlib settings"))
        if canon_bytes(list(np.random.get_state()[1:3])) != rng:
            self.bad.append(("settings", "the call used the global random generator"))
        plt.close("all")
        for p in os.listdir(home):
            p = os.path.join(home, p)
            shutil.rmtree(p) if os.path.isdir(p) else os.unlink(p)


def curves(fig):
    res = []
    for ax in fig.axes:
        for ln in ax.lines:
            x, y = np.asarray(ln.get_xdata(), float), np.asarray(ln.get_ydata(), float)
            res.append((str(ln.get_label()), x.ravel(), y.ravel(), ax.get_title()))
        for c in ax.collections:
            if isinstance(c, PathCollection):
                o = np.ma.filled(np.ma.asarray(c.get_offsets(), float), np.nan)
                res.append((str(c.get_label()), o[:, 0], o[:, 1], ax.get_title()))
    return res


def bars(fig):
    """Straight error bars: (vertical?, along, centre across, half lengths) of each collection of segments."""
    res = []
    for ax in fig.axes:
        for c in ax.collections:
            if isinstance(c, LineCollection):
                sg = [np.asarray(q, float) for q in c.get_segments()]
                if sg and all(q.shape == (2, 2) for q in sg):
                    q = np.array(sg)
                    for up, a, b in ((True, 0, 1), (False, 1, 0)):
                        if np.all(q[:, 0, a] == q[:, 1, a]):
                            res.append((up, q[:, 0, a], (q[:, 0, b] + q[:, 1, b]) / 2, np.abs(q[:, 1, b] - q[:, 0, b]) / 2))
                            break
    return res


def same(c, x, y, tol=1e-9):
    x, y = np.asarray(x, float).ravel(), np.asarray(y, float).ravel()
    # a point that cannot be drawn may be left out
    ok, okc = np.isfinite(x) & np.isfinite(y), np.isfinite(c[1]) & np.isfinite(c[2])
    x, y, cx, cy = x[ok], y[ok], c[1][okc], c[2][okc]
    return len(cx) == len(x) and len(x) > 0 and np.all(np.abs(cx - x) <= tol * np.max(np.abs(x)) + 1e-300) and np.all(np.abs(cy - y) <= tol * np.max(np.abs(y)) + 1e-300)


def has(cs, x, y, label=None, title=None, tol=1e-9):
    return any(same(c, x, y, tol) and (label is None or c[0] == label) and (title is None or title in c[3]) for c in cs)


def expect(rec, c, ctx, files, shown, want=(), absent=(), saving=False, one_curve=None):
    """want/absent: (x, y, label or None, title or None)."""
    rec.step()
    rec.trace()
    rec.state(ctx, tuple(c.files), len(c.curves), sorted(x[0] for x in c.curves))
    rec.outcome(tuple(c.files), len(c.curves))
    if isinstance(c.ret, Raised):
        rec.fail("raise", f"{ctx}: {c.ret!r}")
        return
    for k, m in c.bad:
        rec.fail(k, f"{ctx}: {m}")
    if c.files != sorted(files):
        rec.fail("files", f"{ctx}: wrote {c.files} instead of {sorted(files)} (printed {c.out.strip()[:80]!r})")
    cs = c.curves if not saving else [x for _, v in c.saved for x in v] or c.curves
    if not shown:
        if cs:
            rec.fail("nothing", f"{ctx}: drew {len(cs)} curves although there is nothing to show")
        return
    if not cs:
        rec.fail("curves", f"{ctx}: no curve drawn")
        return
    for x, y, lab, ti in want:
        if not has(cs, x, y, lab, ti):
            rec.fail("curves", f"{ctx}: the data{' of ' + repr(lab) if lab else ''}{' under ' + repr(ti) if ti else ''} are not among the {len(cs)} plotted curves {sorted({q[0] for q in cs})}")
            break
    for x, y, lab, ti in absent:
        if has(cs, x, y):
            rec.fail("extra", f"{ctx}: shows data that were not requested ({lab})")
            break


@contextlib.contextmanager
def scratch():
    old = os.getcwd()
    d = tempfile.mkdtemp(prefix="c27_")
    os.chdir(d)
    try:
        yield d
    finally:
        os.chdir(old)
        plt.close("all")
        shutil.rmtree(d, ignore_errors=True)


# ------------------------------------------------------------------ cases
POLES = ["all", 1, 2, 3, [1], [1, 2], (2, 3), "arr13", "arr2", "npint3", []]
NMETH = ("plot_psd", "plot_reim_psd", "plot_corrcoeff", "plot_csd", "plot_decorrelatednoise")


def cases(tier):
    deep = tier != "quick"
    for cls in ("IV", "IBIS"):
        for nt, nch in ((1, 1), (2, 3), (3, 2)) if not deep else itertools.product((1, 2, 3), (1, 2, 3, 4)):
            for sign in (1, -1):
                yield dict(kind="iv", cls=cls, nt=nt, nch=nch, sign=sign, every=deep or sign > 0)
    for ch in (1, 2, 3, 4) + ((5, 6) if deep else ()):
        for meth in NMETH:
            yield dict(kind="noise", ch=ch, meth=meth)
    yield dict(kind="compare")
    for ty in ("current", "power", "sc", "normal"):
        yield dict(kind="sim", ty=ty)
    for i in (0, 1, 2):
        for meth in range(7):
            yield dict(kind="didv", i=i, meth=meth, deep=deep)
    yield dict(kind="didvp")
    yield dict(kind="nsmb")
    for npole in (1, 2, 3, 4):
        for pos in (0, 1):
            yield dict(kind="nonlin", npole=npole, pos=pos)


def run(case, rec):
    with scratch() as home:
        globals()["run_" + case["kind"]](case, rec, home)


SAVES = ((False, "", ""), (True, "", ""), (True, "sub/", "nm"))


# ------------------------------------------------------------------ IV and IBIS
def ivobj(case):
    nt, nch, sign = case["nt"], case["nch"], case["sign"]
    n = 12
    i = np.array([60., 50, 40, 30, 25, 20, 16, 13, 10, 4, 2, 1])
    y = np.zeros((nt, nch, n))
    x = np.zeros_like(y)
    for t in range(nt):
        for c in range(nch):
            x[t, c] = sign * i * 1e-6 * (1 + 0.1 * c + 0.03 * t)
            p = 8e-12 * (1 + 0.1 * t)
            rn = 0.3 + 0.02 * c
            for k in range(n):
                if case["cls"] == "IV":
                    v = x[t, c, k]
                    y[t, c, k] = v / (rn + 6e-3) if k < 5 else (v * 0.9 / (rn * (1 - 0.03 * k)) if k < 9 else v / 6e-3)
                else:
                    r = rn if k < 5 else (rn * (0.5 - 0.04 * k) if k < 9 else 0.0)
                    y[t, c, k] = 5e-3 * x[t, c, k] / (5e-3 + 6e-3 + r)
    err = 1e-9 * (1 + np.abs(R.lcg(y.size, 3)).reshape(y.shape))
    names = [f"ch{c}" for c in range(nch)]
    if case["cls"] == "IV":
        o = qp.IV(y + 2e-6, err, x, 2 * err, 6e-3, 1e-4, names, normalinds=range(0, 4))
        o.calc_iv()
    else:
        o = qp.IBIS(y + 2e-6, err, x, 2 * err, 5e-3, 1e-4, range(0, 4), rp_guess=6e-3, rp_err_guess=1e-4, chan_names=names, fitsc=True, scinds=range(9, 12))
        o.analyze()
    return o, names


def sels(k):
    yield "all", list(range(k))
    yield 0, [0]
    yield np.int64(k - 1), [k - 1]
    yield [k - 1], [k - 1]
    yield tuple(range(k)), list(range(k))
    yield np.array([0]), [0]
    if k > 1:
        yield np.array([k - 1, 0]), [k - 1, 0]
        yield np.arange(1, k), list(range(1, k))
        yield [0, k - 1], [0, k - 1]


def run_iv(case, rec, home):
    o, names = ivobj(case)
    nt, nch = case["nt"], case["nch"]
    Q = {"plot_iv": ("iv", o.ites, 1e6), "plot_rv": ("rv", o.r0, 1e3), "plot_pv": ("pv", o.ptes, 1e12)}
    E = {"plot_iv": o.ites_err, "plot_rv": o.r0_err, "plot_pv": o.ptes_err}

    def only(c, ms, pairs, ctx, fit):
        """Every curve drawn is one of the requested ones, or their fitted line, or the caps of their error bars."""
        cs = c.curves or [q for _, v in c.saved for q in v]
        for q in cs:
            if len(q[1]) < 3:
                continue
            ok = any(same(q, w[0] + dx, w[1] + dy) for m in ms for t, k in pairs for w in [curve(m, t, k)]
                     for e in [E[m][t, k] * Q[m][2]] for ex in [o.vb_err[t, k] * 1e6]
                     for dx, dy in ((0, 0), (0, e), (0, -e), (ex, 0), (-ex, 0)))
            ok = ok or fit and "plot_iv" in ms and any(np.allclose(q[2] * float(np.asarray(o.rfit)[t, k]), q[1], rtol=1e-6, atol=1e-9) for t, k in pairs)
            if not ok:
                rec.fail("stray", f"{ctx}: draws a curve (label {q[0]!r}, first points {q[1][:3]}, {q[2][:3]}) that is none of the requested data")
                break

    def errors(c, m, pairs, ctx):
        """The error bars of every requested curve span the value plus and minus its error."""
        for t, k in pairs:
            w, e, ex = curve(m, t, k), E[m][t, k] * Q[m][2], o.vb_err[t, k] * 1e6
            near = lambda a, b, s: len(a) == len(b) and np.all(np.abs(a - b) <= 1e-6 * np.max(np.abs(s)))
            up = [b for b in c.bars if b[0] and near(b[1], w[0], w[0]) and near(b[2], w[1], np.concatenate((w[1], e)))]
            if not any(near(b[3], e, np.concatenate((e, 1e-6 * w[1]))) for b in up):
                rec.fail("errors", f"{ctx}: no error bars {w[1][:2]} +- {e[:2]} for temperature {t}, channel {k} ({len(up)} bars at its points)")
                return
        for b in c.bars:
            ok = any(near(b[1], p[1 - b[0]], p[1 - b[0]]) and near(b[2], p[int(b[0])], np.concatenate((p[int(b[0])], e[1 - b[0]]))) and near(b[3], e[1 - b[0]], np.concatenate((e[1 - b[0]], 1e-6 * p[int(b[0])])))
                     for t, k in pairs for p in [curve(m, t, k)[:2]] for e in [(E[m][t, k] * Q[m][2], o.vb_err[t, k] * 1e6)])
            if not ok:
                rec.fail("errors", f"{ctx}: draws {'vertical' if b[0] else 'horizontal'} bars that are not the errors of the requested data")
                return

    def texts(c, want, ctx):
        for xl, yl, ti, leg in c.axtext:
            if not xl or not yl or not ti or [w[2] for w in want if w[2] not in leg]:
                rec.fail("text", f"{ctx}: axis labels {xl!r}, {yl!r}, title {ti!r}, legend {leg}")

    def curve(m, t, c):
        _, arr, sc = Q[m]
        lab = (f"Temp {t}, Channel {names[c]}" if nt > 1 else f"Channel {names[c]}")
        return (o.vb[t, c] * 1e6, arr[t, c] * sc, lab, None)
    for m in Q:
        for it, ((ts, tl), (cs, cl)) in enumerate(itertools.product(sels(nt), sels(nch))):
            if it % 5 and not case["every"]:
                continue
            c = Call(lambda: getattr(o, m)(temps=ts, chans=cs), [o, ts, cs], home)
            ctx = f"{case['cls']}({nt} temperatures, {nch} channels).{m}(temps={ts!r}, chans={cs!r})"
            want = [curve(m, t, k) for t in tl for k in cl]
            absent = [curve(m, t, k) for t in range(nt) for k in range(nch) if t not in tl or k not in cl]
            expect(rec, c, ctx, [], True, want, absent)
            if isinstance(c.ret, Raised):
                continue
            pairs = list(itertools.product(tl, cl))
            only(c, [m], pairs, ctx, True)
            errors(c, m, pairs, ctx)
            texts(c, want, ctx)
            if not (isinstance(c.ret, tuple) and len(c.ret) == 2 and isinstance(c.ret[0], Figure)):
                rec.fail("return", f"{ctx}: returned {c.ret!r} instead of figure and axes")
    for m in Q:
        for save, path, name in SAVES[1:]:
            fn = lambda: getattr(o, m)(temps=[nt - 1], chans=0, lgcsave=save, savepath=path, savename=name)
            c = in_sub(fn, [o], home, path) if path else Call(fn, [o], home)
            expect(rec, c, f"{case['cls']}.{m}(save to {path!r}, {name!r})", [f"{path}{Q[m][0]}_curve_{name}.png"], True, [curve(m, nt - 1, 0)], (), True)
            only(c, [m], [(nt - 1, 0)], f"{case['cls']}.{m}(saved)", True)
    for (ts, tl), (cs, cl) in ((("all", range(nt)), ("all", range(nch))), ((nt - 1, [nt - 1]), (np.array([0]), [0]))):
        for save in (False, True):
            for fit in (True, False):
                c = Call(lambda: o.plot_all_curves(temps=ts, chans=cs, showfit=fit, lgcsave=save, savename="x"), [o], home)
                expect(rec, c, f"{case['cls']}.plot_all_curves(temps={ts!r}, chans={cs!r}, save={save})",
                       [f"{q}_curve_x.png" for q in ("iv", "rv", "pv")] if save else [], True, [curve(m, t, k) for m in Q for t in tl for k in cl], (), save)
                only(c, list(Q), list(itertools.product(tl, cl)), f"{case['cls']}.plot_all_curves(showfit={fit})", fit)
    # the straight line of the normal state
    def fitline(c, t, k):
        v, rfit = o.vb[t, k] * 1e6, float(np.asarray(o.rfit)[t, k])
        lo, hi = (0, np.max(v)) if case["sign"] > 0 else (np.min(v), 0)
        return any(len(q[1]) > 1 and abs(np.min(q[1]) - lo) < 1e-4 and abs(np.max(q[1]) - hi) < 1e-4
                   and np.allclose(q[2] * rfit, q[1], rtol=1e-6, atol=1e-9) for q in c.curves)
    every = list(itertools.product(range(nt), range(nch)))
    for m in Q:
        c = Call(lambda: getattr(o, m)(), [o], home)
        expect(rec, c, f"{case['cls']}.{m}()", [], True, [curve(m, t, k) for t, k in every])
        if case["cls"] == "IV":
            c = Call(lambda: getattr(qp.plotting, m)(o), [o], home)
            expect(rec, c, f"qetpy.plotting.{m}(IV)", [], True, [curve(m, t, k) for t, k in every])
            if m == "plot_iv" and not all(fitline(c, t, k) for t, k in every):
                rec.fail("fit-line", "qetpy.plotting.plot_iv(IV): lines of the normal-state fit missing by default")
    c = Call(lambda: o.plot_all_curves(), [o], home)
    expect(rec, c, f"{case['cls']}.plot_all_curves()", [], True, [curve(m, t, k) for m in Q for t, k in every])
    c = Call(lambda: o.plot_iv(), [o], home)
    if not all(fitline(c, t, k) for t, k in every):
        rec.fail("fit-line", f"{case['cls']}.plot_iv(): lines of the normal-state fit missing by default")
    sets = [(0, nch - 1, [0], [nch - 1]), (nt - 1, 0, [nt - 1], [0]), ("all", "all", range(nt), range(nch))]
    for fit, (ts, cs, tl, cl) in itertools.product((True, False), sets):
        c = Call(lambda: o.plot_iv(temps=ts, chans=cs, showfit=fit), [o], home)
        for t, k in itertools.product(tl, cl):
            rec.step()
            if fitline(c, t, k) != fit:
                rec.fail("fit-line", f"{case['cls']}.plot_iv(temps={ts!r}, chans={cs!r}, showfit={fit}): line of the normal-state fit of temperature {t}, channel {k} {'missing' if fit else 'drawn'}")


# ------------------------------------------------------------------ Noise
def noiseobj(ch, name="my run 1", stage=9, seed=3):
    n, ntr = 64, 30
    com = R.lcg(ntr * n, seed + 50).reshape(ntr, 1, n)
    x = R.lcg(ntr * ch * n, seed).reshape(ntr, ch, n) + 0.4 * com * (1 + np.arange(ch))[None, :, None]
    o = qp.Noise(x * 1e-9, 1e3, [f"P{c}" for c in range(ch)], name=name)
    if stage >= 1:
        o.calculate_psd()
    if ch > 1 and stage >= 2:
        with contextlib.redirect_stdout(io.StringIO()):
            o.calculate_csd()
            o.calculate_corrcoeff()
            o.calculate_uncorr_noise()
    return o


def run_noise(case, rec, home):
    ch, m = case["ch"], case["meth"]
    f1 = slice(1, None)
    for stage in (0, 1, 2):
        if ch == 1 and stage == 2:
            continue
        for name in ("my run 1", "x"):
            o = noiseobj(ch, name, stage)
            nm = name.replace(" ", "_")
            f = None if o.freqs is None else o.freqs[f1]
            chans = [f"P{c}" for c in range(ch)]
            for save, path, _ in SAVES:
                kw = dict(lgcsave=save, savepath=path) if save else {}
                calls = []
                if m == "plot_psd":
                    for ov in (True, False):
                        calls.append((dict(lgcoverlay=ov), f"{nm}_PSD_{'overlay' if ov else 'subplot'}.png", stage >= 1,
                                      lambda ov=ov: [(f, np.sqrt(o.psd[c][f1]), chans[c] if ov else None, None if ov else chans[c]) for c in range(ch)], list))
                elif m == "plot_reim_psd":
                    calls.append((dict(), f"{nm}_ReIm_PSD.png", stage >= 1, lambda: [q for c in range(ch) for q in (
                        (f, np.sqrt(o.real_psd[c][f1]), "real", chans[c]), (f, np.sqrt(o.imag_psd[c][f1]), "imag", chans[c]))], list))
                elif m == "plot_corrcoeff":
                    for sm in (False, True):
                        for nw in (5, 7) if sm else (7,):
                            calls.append((dict(lgcsmooth=sm, nwindow=nw), f"{nm}_corrcoeff.png", stage >= 2, lambda sm=sm, nw=nw: [
                                (f, smooth(o.corrcoeff[a, b][f1], nw) if sm else o.corrcoeff[a, b][f1], f"{chans[a]} - {chans[b]}", None) for a in range(ch) for b in range(a)], list))
                elif m == "plot_csd":
                    pairs = [[f"{a}{b}"] for a in range(min(ch, 3)) for b in range(min(ch, 3))] + [["01", "10"], [f"{ch - 1}0", "00", "11"]]
                    for wh in pairs if ch > 1 else [["01"]]:
                        for re in (True, False):
                            def want(wh=wh, re=re):
                                src = o.real_csd if re else o.imag_csd
                                return [(f, src[int(p[0]), int(p[1])][f1], None, f"{'Re' if re else 'Im'}(CSD) for channels: {chans[int(p[0])]}-{chans[int(p[1])]}") for p in wh]
                            calls.append((dict(whichcsd=wh, lgcreal=re), [f"{nm}_csd{k}.png" for k in range(len(wh))], stage >= 2, want, list))
                else:
                    calls.append((dict(lgcoverlay=True), f"{nm}_deCorrNoise_overlay.png", stage >= 2,
                                  lambda: [(f, np.sqrt(o.uncorrnoise[c][f1]), chans[c], None) for c in range(ch)], list))
                    for fl in itertools.product((True, False), repeat=4):
                        k4 = dict(zip(("lgcdata", "lgcuncorrnoise", "lgccorrelated", "lgcsum"), fl))

                        def quant(which):
                            v = [(f, np.sqrt(o.real_csd[c, c][f1]), "Data", chans[c]) for c in range(ch)], \
                                [(f, np.sqrt(o.uncorrnoise[c][f1]), "Uncorrelated Noise", chans[c]) for c in range(ch)], \
                                [(f, np.sqrt(o.corrnoise[c][f1]), "Correlated Noise", chans[c]) for c in range(ch)], \
                                [(f, np.sqrt(o.corrnoise[c][f1] + o.uncorrnoise[c][f1]), "Total Noise", chans[c]) for c in range(ch)]
                            return [q for k in which for q in v[k]]
                        if not any(fl):
                            continue
                        calls.append((dict(lgcoverlay=False, **k4), f"{nm}_deCorrNoise_subplot.png", stage >= 2, lambda fl=fl: quant([k for k in range(4) if fl[k]]),
                                      lambda fl=fl: [] if fl[0] and fl[3] or ch == 1 else quant([k for k in range(4) if not fl[k] and not (k in (0, 3) and (fl[0] or fl[3]))])))
                for k, files, shown, want, absent in calls:
                    if save and len(calls) > 6 and m == "plot_decorrelatednoise" and list(k.values()).count(True) not in (1, 4):
                        continue
                    if name == "x" and (not save or path):
                        continue
                    if path and m == "plot_csd" and not k["lgcreal"]:
                        continue
                    watch = [o] + list(k.values())
                    c = Call(lambda: getattr(o, m)(**k, **kw), watch, home) if not path else in_sub(lambda: getattr(o, m)(**k, **kw), watch, home, path)
                    files_ = [files] if isinstance(files, str) else files
                    expect(rec, c, f"Noise({ch} channels, stage {stage}).{m}({k}, save={save} {path!r})", [path + q for q in files_] if save and shown else [], shown,
                           want() if shown else (), absent() if shown else (), save)


    o = noiseobj(ch)
    for bad in ("missing/", "missing/deep/x"):
        for k in (dict(),) if m in ("plot_reim_psd", "plot_corrcoeff") or (m == "plot_csd" and ch == 1) else (dict(lgcreal=False),) if m == "plot_csd" else (dict(lgcoverlay=True), dict(lgcoverlay=False)):
            c = Call(lambda: getattr(o, m)(**k, lgcsave=True, savepath=bad), [o], home)
            rec.step()
            if isinstance(c.ret, Raised) or c.files:
                rec.fail("bad-path", f"Noise({ch}).{m}({k}, savepath={bad!r}, which does not exist): {c.ret!r}, wrote {c.files}")


def in_sub(fn, watch, home, path):
    """Run with an existing but empty sub directory to save to."""
    shutil.rmtree(os.path.join(home, path), ignore_errors=True)

    def go():
        os.makedirs(os.path.join(home, path))
        return fn()
    Call.render = True
    try:
        return Call(go, watch, home)
    finally:
        Call.render = False


def smooth(y, nw):
    from scipy.signal import savgol_filter
    return savgol_filter(y, nw, 3, mode="nearest")


def run_compare(case, rec, home):
    from qetpy.plotting import compare_noise
    a, b, c1 = noiseobj(2, "A"), noiseobj(3, "B", seed=9), noiseobj(2, "C", 1, 17)
    for arr in ([a], [a, b], [b, a, c1]):
        for chans in (["P0"], ["P1", "P0"], np.array(["P0"]), ["P2"], ["nope"], ["P0", "nope"], []):
            for dec in (False, True):
                for save, path, _ in SAVES:
                    kw = dict(lgcsave=save, savepath=path) if save else {}
                    fn = lambda: compare_noise(arr, chans, lgcdecorrelatednoise=dec, **kw)
                    c = in_sub(fn, arr + [chans], home, path) if path else Call(fn, arr + [chans], home)
                    known = [q for q in chans if any(q in o.channames for o in arr)]
                    want = []
                    for q in known:
                        for o in arr:
                            if q in o.channames and (not dec or o.uncorrnoise is not None):
                                y = o.uncorrnoise if dec else o.psd
                                want.append((o.freqs[1:], np.sqrt(y[o.channames.index(q)][1:]), o.name + (" Decorrelated Noise" if dec else ""), q))
                    expect(rec, c, f"compare_noise({[o.name for o in arr]}, {chans!r}, decorrelated={dec}, save={save} {path!r})",
                           [f"{path}{q}_PSD_comparison.png" for q in known] if save else [], bool(known), want, (), save)


def run_sim(case, rec, home):
    from qetpy.plotting import plot_noise_sim
    from qetpy.sim import TESnoise
    ty = case["ty"]
    for fr in (None, np.array([3.0, 5.0])):
        s = TESnoise(freqs=fr) if fr is not None else TESnoise()
        for f in (np.linspace(0, 1e5, 40), np.linspace(0, 1e5, 41)):
            psd = 1e-22 * (1 + np.arange(len(f)))
            g = f[1:]
            q = {"current": [("TES Johnson Noise", s.s_ites), ("Load Noise", s.s_iload), ("TFN Noise", s.s_itfn), ("Total Noise", s.s_itot), ("Squid+Electronics Noise", s.s_isquid)],
                 "power": [("TES Johnson Noise", s.s_ptes), ("Load Noise", s.s_pload), ("TFN Noise", s.s_ptfn), ("Total Noise", s.s_ptot), ("Squid+Electronics Noise", s.s_psquid)],
                 "sc": [("Load Noise", s.s_iloadsc), ("Total Noise", s.s_itotsc), ("Squid+Electronics Noise", s.s_isquid)],
                 "normal": [("TES Johnson Noise", s.s_itesnormal), ("Load Noise", s.s_iloadnormal), ("Total Noise", s.s_itotnormal), ("Squid+Electronics Noise", s.s_isquid)]}[ty]
            want = [(g, np.sqrt(np.abs(fn(g) * np.ones(len(g)))), lab, None) for lab, fn in q]
            raw = psd[1:] / np.abs(s.dIdP(g)) ** 2 if ty == "power" else psd[1:]
            want.append((g, np.sqrt(raw), "Raw Data", None))
            for qb in (12.3456e-6, -3e-6):
                for xl, yl in ((None, None), ((10, 1e4), (1e-13, 1e-9))):
                    for save, path, _ in SAVES[:3 if xl else 2]:
                        # the type is compared by value
                        t = "".join(list(ty))
                        fn = lambda: plot_noise_sim(f, psd, s, t, qb, lgcsave=save, figsavepath=path, xlims=xl, ylims=yl)
                        c = in_sub(fn, [s, f, psd], home, path) if path else Call(fn, [s, f, psd], home)
                        stem = {"current": "current_", "power": "power_noise_", "sc": "SC_noise_", "normal": "normal_noise_"}[ty]
                        ctx = f"plot_noise_sim({ty}, {len(f)} bins, bias {qb}, save={save} {path!r}, limits {xl})"
                        expect(rec, c, ctx, [f"{path}{stem}qetbias{qb * 1e6:.3f}muA.png"] if save else [], True, want, (), save)
                        if not save and xl and c.xlim and tuple(c.xlim[0]) != xl:
                            rec.fail("limits", f"{ctx}: x axis {c.xlim[0]}")
                        if not save and not (isinstance(c.ret, tuple) and isinstance(c.ret[0], Figure)):
                            rec.fail("return", f"{ctx}: returned {c.ret!r}")


# ------------------------------------------------------------------ dIdV
AMP, RSH, FS = 4.7e-7, 5e-3, 625e3
CIRC = [dict(rsh=RSH, rp=6e-3, r0=0.0756, beta=0.1, l=10, L=1e-7, tau0=5e-4, gratio=0.2, tau3=1e-3),
        dict(rsh=RSH, rp=6e-3, r0=0.0756, beta=2, l=0.5, L=1e-7, tau0=5e-4),
        dict(rsh=RSH, rp=0.03, L=1e-7)]
EXACT = (3, 2, 1)
DM = (("plot_full_trace", ["full_trace_"]), ("plot_single_period_of_trace", ["trace_one_period_"]), ("plot_zoomed_in_trace", ["zoomed_in_trace_"]),
      ("plot_didv_flipped", ["flipped_trace_"]), ("plot_re_im_didv", ["didv_real_", "didv_imag_"]), ("plot_abs_phase_didv", ["didv_abs_", "didv_phase_"]),
      ("plot_re_vs_im_dvdi", ["dvdi_real_vs_imag_"]))


def didvobj(i, fits, phase=False, cls="DIDV"):
    p = CIRC[i]
    bins, per, off = 1250, 2, 4e-6
    sg = FS / bins
    y = D.response(p, bins * per, per, FS, sg, AMP, 0.5, 0.3)
    tr = D.traces(y, 1e-3 * np.max(np.abs(y)), 3, off)
    kw = dict(r0=p.get("r0", 0.3), rp=p["rp"], dt0=0.4 / FS) if cls == "DIDV" else dict(dt0=0.4 / FS)
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter("ignore")
        if cls == "DIDV":
            o = qp.DIDV(tr, FS, sg, AMP, RSH, **kw)
        else:
            o = qp.DIDVPriors(tr, FS, sg, AMP, RSH, **kw)
        o.processtraces()
        for k in fits:
            if cls == "DIDV":
                o.dofit(k)
            else:
                n = {1: 4, 2: 7, 3: 9}[k]
                names = ("rsh", "rp", "r0", "beta", "l", "L", "tau0", "gratio", "tau3") if k == 3 else (("rsh", "rp", "r0", "beta", "l", "L", "tau0") if k == 2 else ("rsh", "rp", "L"))
                pri = np.array([p.get(q, 0.0) for q in names] + [0.4 / FS])
                cov = np.diag(np.where(pri != 0, (0.1 * pri) ** 2, 1.0))[: len(pri), : len(pri)]
                cov[-1, -1] = (1e-6) ** 2
                o.dofit(k, pri, cov)
    return o


def polearg(p):
    return {"arr13": np.array([1, 3]), "arr2": np.array([2]), "npint3": np.int64(3)}.get(p, p) if isinstance(p, str) else p


def polelist(p):
    a = polearg(p)
    if isinstance(a, str):
        return [1, 2, 3]
    return [int(v) for v in np.atleast_1d(np.asarray(a, dtype=int))] if np.size(a) else []


def run_didv(case, rec, home):
    i, (m, stems) = case["i"], DM[case["meth"]]
    allowed = (1, 2, 3) if i == 0 else (1, 2) if i == 1 else (1,)
    for r in range(len(allowed) + 1):
        for fits in itertools.combinations(allowed, r):
            o = didvobj(i, fits)
            didv_calls(rec, home, o, i, fits, m, stems, POLES if case["deep"] or i == 0 else ("all", EXACT[i], "arr13"), "DIDV")


def didv_calls(rec, home, o, i, fits, m, stems, poles, cls):
    freq = case_freq(m)
    for pa in poles:
        for save, path, name in SAVES:
            if save and pa not in ("all", 2):
                continue
            a = polearg(pa)
            kw = dict(saveplot=save, savepath=path, savename=name) if save else {}
            fn = lambda: getattr(o, m)(poles=a, **kw)
            c = in_sub(fn, [o, a], home, path) if path else Call(fn, [o, a], home)
            ctx = f"{cls} (circuit {i}, fits {fits}).{m}(poles={a!r}, save={save} {path!r})"
            expect(rec, c, ctx, [f"{path}{s}{name}.png" for s in stems] if save else [], True, (), (), save)
            if isinstance(c.ret, Raised):
                return
            groups = [v for _, v in c.saved] if save else None
            cs = [x for v in groups for x in v] if save else c.curves
            for k in (1, 2, 3):
                nfit = sum(x[0] == f"{k}-Pole Fit" for x in cs)
                want = len(stems) if k in fits and k in polelist(pa) else 0
                if nfit != want:
                    rec.fail("poles", f"{ctx}: {nfit} curves '{k}-Pole Fit' instead of {want}")
            mean = [x for x in cs if x[0] == "Mean"]
            if len(mean) != len(stems):
                rec.fail("curves", f"{ctx}: {len(mean)} curves of the mean")
                continue
            best = [x for x in cs if x[0] == f"{EXACT[i]}-Pole Fit"]
            if freq:
                check_freq(rec, ctx, o, i, fits, m, mean, best)
                continue
            t = mean[0][1] * 1e-6
            tm = np.mean(o._rawtraces, axis=0)[: 2500]
            y = (tm - np.mean(tm)) * 1e6
            # times of the trace, offset removed
            if len(t) != 2500 or abs(t[0]) > 1 / FS or not np.allclose(np.diff(t), 1 / FS, atol=1e-6 / FS) or not np.allclose(mean[0][2], y, atol=3e-2 * np.max(np.abs(y))):
                rec.fail("curves", f"{ctx}: 'Mean' is not the offset-subtracted mean trace against time in us")
            for b in best:
                # the exact circuit's fit lies on the data
                gap = np.interp(t * 1e6, b[1], b[2], left=np.nan, right=np.nan) - y
                sc = np.max(np.abs(y))
                good = np.isfinite(gap)
                if good.sum() < 2000 or np.mean(np.abs(gap[good]) > 0.05 * sc) > 0.02 or np.mean(np.abs(gap[good])) > 0.01 * sc:
                    rec.fail("fit-curve", f"{ctx}: the fitted curve misses the data by {np.nanmean(np.abs(gap)) / sc:.3g} of their height on average")
            if not save:
                per = 1250 / FS * 1e6
                if m == "plot_full_trace":
                    w = (t[0] * 1e6, t[-1] * 1e6)
                elif m == "plot_single_period_of_trace":
                    w = (t[0] * 1e6, t[0] * 1e6 + per)
                else:
                    w = None
                if w and (len(c.xlim) != 1 or not np.allclose(c.xlim[0], w, atol=1e-6 * per)):
                    rec.fail("limits", f"{ctx}: x axis {c.xlim} instead of {w}")
                if m == "plot_zoomed_in_trace" and not fits and not np.allclose(c.xlim[0], (0.45 * per, 0.55 * per), atol=1e6 / FS):
                    rec.fail("limits", f"{ctx}: x axis {c.xlim} does not show the middle tenth of the period")
            if m == "plot_didv_flipped":
                fl = [x for x in cs if x[0] == "Flipped Data"]
                if len(fl) != 1:
                    rec.fail("curves", f"{ctx}: flipped data missing")
                else:
                    # a linear response is antisymmetric: the flipped data fall on the data
                    gap = np.interp(t * 1e6, fl[0][1], fl[0][2], left=np.nan, right=np.nan) - y
                    good = np.isfinite(gap)
                    if good.sum() < 1500 or np.mean(np.abs(gap[good])) > 0.01 * np.max(np.abs(y)):
                        rec.fail("flip", f"{ctx}: flipped data miss the data of a linear circuit")
    if m == "plot_zoomed_in_trace":
        per = 1250 / FS * 1e6
        for zf in (0.05, 0.3, 1.0):
            c = Call(lambda: o.plot_zoomed_in_trace(zoomfactor=zf), [o], home)
            expect(rec, c, f"{cls}.{m}(zoomfactor={zf})", [], True)
            if c.xlim and not abs((c.xlim[0][1] - c.xlim[0][0]) - zf * per) < 1e-6 * per:
                rec.fail("limits", f"{cls} (circuit {i}, fits {fits}).{m}(zoomfactor={zf}): shows {c.xlim[0]}, width not {zf} of the period")


def case_freq(m):
    return m in ("plot_re_im_didv", "plot_abs_phase_didv", "plot_re_vs_im_dvdi")


def check_freq(rec, ctx, o, i, fits, m, mean, best):
    fns = {"plot_re_im_didv": (np.real, np.imag), "plot_abs_phase_didv": (np.abs, np.angle)}.get(m)
    p = CIRC[i]
    delay = 0.3 / FS
    if fns is None:
        mm = mean[0]
        if EXACT[i] in fits:
            # the measured impedances are those of the circuit: every point of low frequency lies on the circuit's curve
            z = mm[1] + 1j * mm[2]
            f = np.fft.fftfreq(2500, 1 / FS)
            zt = D.z(f[f > 0], p)
            d = np.array([np.min(np.abs(zt - v)) for v in z])
            if np.median(d) > 0.02 * np.median(np.abs(z)):
                rec.fail("curves", f"{ctx}: the plotted impedances are not those of the measured circuit")
            for b in best:
                zb = b[1] + 1j * b[2]
                if len(zb) != len(zt) or np.max(np.abs(zb - zt)) > 0.05 * np.max(np.abs(zt)):
                    rec.fail("fit-curve", f"{ctx}: impedance curve of the fit is not that of the circuit")
        return
    for k, fn in enumerate(fns):
        x, y = mean[k][1], mean[k][2]
        if np.any(x <= 0):
            rec.fail("curves", f"{ctx}: frequencies not positive")
        if EXACT[i] in fits:
            ref = 1 / D.z(x, p)
            sc = np.max(np.abs(ref)) if fn is not np.angle else 1.0
            gap = np.abs(y - fn(ref))
            if np.median(gap) > 0.02 * sc or np.mean(gap > 0.1 * sc) > 0.1:
                rec.fail("curves", f"{ctx}: {fn.__name__} of the mean misses the circuit's admittance (median {np.median(gap) / sc:.3g})")
        if best:
            bx, by = best[k][1], best[k][2]
            ref = fn(1 / D.z(bx, p))
            if np.any(bx <= 0) or np.median(np.abs(by - ref)) > 0.02 * (np.max(np.abs(ref))):
                rec.fail("fit-curve", f"{ctx}: {fn.__name__} of the fit misses the circuit's admittance")


def run_didvp(case, rec, home):
    for i, fits in ((1, ()), (1, (2,))):
        o = didvobj(i, fits, cls="DIDVPriors")
        for m, stems in DM:
            didv_calls(rec, home, o, i, fits, m, stems, ("all", 2, [2], "arr2", 1), "DIDVPriors")


# ------------------------------------------------------------------ nSmB diagnostic plots
def run_nsmb(case, rec, home):
    nt, fs = 400, 625e3
    t = np.arange(nt)
    s = np.exp(-np.clip(t - 200, 0, None) / 20.0) - np.exp(-np.clip(t - 200, 0, None) / 5.0)
    s[t < 200] = 0
    s /= s.max()
    dc, sl = np.ones(nt), t / nt
    bk = np.stack([np.exp(-t / 900.0), np.roll(s, -120), sl, dc], 1)
    psd = np.abs(np.fft.fftfreq(nt)) * 0 + 1e-20
    pulse = 2e-6 * np.roll(s, 7) + 1e-6 * bk[:, 0] + 3e-7
    shifts = np.array([0, 80, np.nan, np.nan])
    psddnu, phi, Pfs, P, sbf, sbt, iB, B, ns, nb, bitcomb, lf = qp.of_nsmb_setup(s, bk, psd, fs)
    iP = qp.of_nsmb_getiP(P)
    win = np.arange(-20, 21)[None, :]
    for con in (np.zeros(5), np.array([1.0, 1, 1, 0, 0])):
        for sh in (None, shifts):
            kc = dict(bkgpolarityconstraint=con[1:].copy(), sigpolarityconstraint=con[:1].copy())
            fits = {"scFit": lambda **k: qp.of_nsmb(pulse, phi, sbf.T, sbt, iP, psddnu.T, fs, [win], ns, nb, bitcomb, 100, background_templates_shifts=sh, **k),
                    "ncFit": lambda **k: qp.of_nsmb_con(pulse, phi, Pfs, P, sbf.T, sbt, psddnu.T, fs, [win], ns, nb, bitcomb, 100, background_templates_shifts=sh, **kc, **k),
                    "bcFit": lambda **k: qp.of_mb(pulse, phi, sbf.T, sbt, iB, B, psddnu.T, fs, ns, nb, 100, background_templates_shifts=sh, **kc, **k)}
            for nm, fit in fits.items():
                plain = Call(lambda: fit(), [pulse], home)
                for save in (False, 7, 12):
                    watch = [pulse, phi, sbf, sbt, iP, psddnu, P, B, iB, win, kc, sh]
                    c = Call(lambda: fit(lgcplot=True, lgcsaveplots=save), watch, home)
                    ctx = f"fit with plot {nm} (polarity {con}, shifts {sh is not None}, save {save})"
                    expect(rec, c, ctx, c.files, True, [(t, pulse, "Data", None)], (), bool(save))
                    if len(c.files) != (1 if save else 0) or (save and not c.files[0].endswith(f"{save}.png")):
                        rec.fail("files", f"{ctx}: wrote {c.files}")
                    if not isinstance(c.ret, Raised) and canon_bytes(c.ret) != canon_bytes(plain.ret):
                        rec.fail("result", f"{ctx}: plotting changed the result")
                    tot = [x for _, v in c.saved for x in v if x[0].startswith("Total Fit")] if save else [x for x in c.curves if x[0].startswith("Total Fit")]
                    if nm != "bcFit" and (len(tot) != 1 or not np.allclose(tot[0][2], pulse, atol=1e-4 * 2e-6)):
                        rec.fail("fit-curve", f"{ctx}: the total fit of exact data misses the data")
                off = Call(lambda: fit(lgcplot=False, lgcsaveplots=3), [pulse], home)
                rec.step()
                if off.files or off.curves or isinstance(off.ret, Raised) or canon_bytes(off.ret) != canon_bytes(plain.ret):
                    rec.fail("nothing", f"fit {nm} without lgcplot: files {off.files}, {len(off.curves)} curves, {str(off.ret)[:80]}")
    from qetpy.plotting import plotnsmb
    f = np.fft.fft(pulse) / nt
    amin = np.array([[2e-6], [1e-6], [0.0], [0.0], [3e-7]])
    temps = np.stack([s] + list(bk.T))
    tf = np.fft.fft(temps, axis=1) / nt
    for flt in (None, 5e4):
        for sh in (None, shifts):
            for save in (False, 7):
                for path in ("", "sub/"):
                    if not save and path:
                        continue
                    for xl in (None, (10, 300)):
                        kw = dict(lpFiltFreq=flt, lgcsaveplots=save, xlim=xl, figPrefix="pre", background_templates_shifts=sh)
                        if path:
                            kw["savepath"] = path
                        args = (pulse[None, :], fs, 7 / fs, amin, tf, 1, 4, nt, psd[None, :])
                        fn = lambda: plotnsmb(*args, **kw)
                        watch = list(args) + [sh]
                        c = in_sub(fn, watch, home, path) if path else Call(fn, watch, home)
                        want = [(t, pulse, "Data", None)]
                        expect(rec, c, f"plotnsmb(filter {flt}, shifts {sh is not None}, save {save} {path!r}, xlim {xl})", [f"{path}pre7.png"] if save else [], True, want, (), bool(save))
                        cs = [x for _, v in c.saved for x in v] if save else c.curves
                        # amplitudes of the true model: total fit = data
                        tot = [x for x in cs if x[0].startswith("Total Fit")]
                        if len(tot) != 1 or not np.allclose(tot[0][2], pulse, atol=1e-4 * 2e-6):
                            rec.fail("fit-curve", "plotnsmb: the total fit is not the sum of the templates at the given delay and amplitudes")
                        if tot and abs(float(tot[0][0].split("=")[1])) > 0.1 + 1e-6:
                            rec.fail("fit-curve", f"plotnsmb: chi-square {tot[0][0]!r} of an exact fit")
                        sig = [x for x in cs if x[0] == "Signal Fit"]
                        if len(sig) != 1 or not np.allclose(sig[0][2], 2e-6 * np.roll(s, 7) + 3e-7, atol=1e-10):
                            rec.fail("fit-curve", "plotnsmb: signal curve is not the shifted signal template plus slope and dc")
                        bg = [x for x in cs if x[0] == "Background Fit"]
                        if len(bg) != 1 or not np.allclose(bg[0][2], 1e-6 * bk[:, 0] + 3e-7, atol=1e-10):
                            rec.fail("fit-curve", "plotnsmb: background curve is not the background template plus slope and dc")
                        if sh is not None and (not any(len(x[1]) == 2 and np.all(x[1] == 80) for x in cs)):
                            rec.fail("curves", "plotnsmb: background start time not marked")
                        if not save and xl and tuple(c.xlim[0]) != xl:
                            rec.fail("limits", f"plotnsmb: x axis {c.xlim[0]}")


# ------------------------------------------------------------------ pulse-fit plot
def run_nonlin(case, rec, home):
    from qetpy.plotting import plotnonlin
    npole, pos = case["npole"], case["pos"]
    n, fs = 12000, 625e3
    o = qp.OFnonlin(np.ones(n) * 1e-22, fs)
    t0 = (6000, 500)[pos] / fs
    par = {1: (2e-6, 60e-6, t0), 2: (2e-6, 20e-6, 60e-6, t0), 3: (2e-6, 1e-6, 20e-6, 60e-6, 200e-6, t0), 4: (2e-6, 1e-6, 5e-7, 20e-6, 60e-6, 200e-6, 600e-6, t0)}[npole]
    full = (par[0], 20e-6) + par[1:] if npole == 1 else par
    model = {1: o.twopoletime, 2: o.twopoletime, 3: o.threepoletime, 4: o.fourpoletime}[npole](*full)
    pulse = model + 5e-6
    kw = dict(npolefit=npole, lgcfullrtn=True)
    if npole == 1:
        kw["taurise"] = 20e-6
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        r0 = attempt(o.fit_falltimes, pulse, guess=par, **kw)
        c = Call(lambda: o.fit_falltimes(pulse, guess=par, lgcplot=True, **kw), [pulse], home)
    ctx = f"fit_falltimes({npole} poles, onset {'middle' if not pos else 'early'}, lgcplot)"
    if isinstance(r0, Raised):
        rec.fail("raise", f"{ctx} without plot: {r0!r}")
        return
    expect(rec, c, ctx, [], True)
    if isinstance(c.ret, Raised):
        return
    if canon_bytes(c.ret) != canon_bytes(r0):
        rec.fail("result", f"{ctx}: plotting changed the result of the fit")
    errs = tuple(1e-9 * (1 + k) for k in range(len(par)))
    c = Call(lambda: plotnonlin(o, pulse, par, errs), [o, pulse, par, errs], home)
    f = o.freqs[o.freqs > 0]
    fm = {1: o.twopole, 2: o.twopole, 3: o.threepole, 4: o.fourpole}[npole](*full)[o.freqs > 0]
    # the pulse sits on a base line, which the plot subtracts
    expect(rec, c, f"plotnonlin({npole} poles, {'early' if pos else 'middle'})", [], True,
           [(o.time * 1e3, model, None, "Full"), (f, np.abs(fm), None, "Frequency"), (f, o.error[o.freqs > 0], None, "Frequency"),
            (f, np.abs(o.data[o.freqs > 0]), None, "Frequency")])
    data = [x for x in c.curves if "Full" in x[3] and len(x[2]) == n and np.allclose(x[2] - x[2][-1], model, atol=1e-9)]
    if not data:
        rec.fail("curves", f"plotnonlin({npole} poles): the pulse is not plotted")
