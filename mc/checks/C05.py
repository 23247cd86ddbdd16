"""C05: OptimumFilter answers depend only on the current signal, never on the calls made before."""
import numpy as np
import qetpy as qp
from mc import ref_of as R
from mc import bfs
from mc.core import attempt, Raised

ID = "C05"
LEVEL = "model_checking"
BOUNDS = ("16 operations (3 signal updates, every fit with plain/constrained/interpolated options, every query) on trace "
          "lengths 6 and 7, AC/DC, integralnorm: breadth-first to the FIXPOINT of the reachable object states (histories "
          "of any length over the alphabet), plus every sequence up to length 3 (thorough 4) replayed on fresh objects "
          "and every interleaving up to length 3 (thorough 4) of two live filters; every sequence of up to 2 operations on detector-sized 1024-sample traces")
RULE = ("states identified by the full content of the filter object; each transition runs the real method and its answer "
        "is compared with a filter freshly built on the current signal and called once")
ASSUMPTIONS = ["deterministic library code", "the fresh filter itself is judged by C01-C04"]

N_SIG = 3


def _mk(n, k):
    if n > 1000:
        return R.real(n, (0, 1, 3)[k])[0]
    t = R.template(n, 0)
    return [np.roll(t, 1) * 2 + 0.1 * R.lcg(n, 1), R.lcg(n, 5), -np.roll(t, -2) + 0.3][k]


CALLS = {
    "nodelay": lambda o: o.ofamp_nodelay(),
    "nodelay_wc2": lambda o: o.ofamp_nodelay(windowcenter=2),
    "withdelay": lambda o: o.ofamp_withdelay(),
    "withdelay_out": lambda o: o.ofamp_withdelay(nconstrain=3, lgcoutsidewindow=True, windowcenter=1),
    "withdelay_none": lambda o: o.ofamp_withdelay(nconstrain=50, lgcoutsidewindow=True),
    "withdelay_dir": lambda o: o.ofamp_withdelay(pulse_direction_constraint=-1),
    "withdelay_interp": lambda o: o.ofamp_withdelay(interpolate_t0=True),
    "baseline": lambda o: o.ofamp_baseline(),
    "baseline_c": lambda o: o.ofamp_baseline(nconstrain=2, pulse_direction_constraint=1, interpolate_t0=True),
    "iterative": lambda o: o.ofamp_pileup_iterative(1.5, 1 / o.fs),
    "iterative_frac": lambda o: o.ofamp_pileup_iterative(-0.5, -1.3 / o.fs, nconstrain=3, interpolate_t0=True),
    "stationary": lambda o: o.ofamp_pileup_stationary(nconstrain=2),
    "nopulse": lambda o: o.chi2_nopulse(),
    "lowfreq": lambda o: o.chi2_lowfreq(1.2, 0.6 / o.fs, fcutoff=o.fs / 4),
    "sigma": lambda o: o.energy_resolution(),
    "tres": lambda o: o.time_resolution(2.0),
}
OPS = [f"update{k}" for k in range(N_SIG)] + list(CALLS)


def cases(tier):
    for n in (6, 7):
        for cp in ("AC", "DC"):
            for integ in (False, True):
                yield dict(kind="bfs", n=n, cp=cp, integ=integ, fs=625e3 if n == 6 else 3.0)
    for n in (6, 7):
        for first in OPS:
            yield dict(kind="seq", n=n, cp="AC", integ=False, fs=625e3 if n == 7 else 1.0, first=first,
                       depth=2 if tier == "quick" else 3)
    for first in OPS:
        for cp in ("AC", "DC"):
            yield dict(kind="seq", n=1024, cp=cp, integ=False, fs=625e3, first=first, depth=1 if tier == "quick" else 2)
    for first in range(10):
        yield dict(kind="pair", first=first, depth=2 if tier == "quick" else 3)


def _args(case, which=0):
    n = case["n"]
    if n > 1000:
        return n, *R.real(n, 0)[1:3]
    tm = R.template(n, which)
    psd = R.psd(n, 1 + which, 1e-2)
    return n, tm, psd


def _build(case, which=0, k=0):
    n, tm, psd = _args(case, which)
    sig = _mk(n, k)
    a = [sig.copy(), tm.copy(), psd.copy()]
    of = qp.OptimumFilter(a[0], a[1], a[2], case["fs"], coupling=case["cp"], integralnorm=case["integ"])
    for x in a:
        x[:] = 1e9          # what the caller does with its arrays afterwards is its own business
    return of


def _apply(obj, op, n):
    if op.startswith("update"):
        s = _mk(n, int(op[6:])).copy()
        r = attempt(obj.update_signal, s)
        s[:] = -1e9
        return r
    return attempt(CALLS[op], obj)


_cache = {}


def _fresh(case, which, k, op):
    key = (case["n"], case["cp"], case["integ"], case["fs"], which, k, op)
    if key not in _cache:
        _cache[key] = _apply(_build(case, which, k), op, case["n"])
    return _cache[key]


def _scales(case, which, k):
    """rounding level of amplitudes and of chi-squares of this filter"""
    key = ("scales", case["n"], case["cp"], case["integ"], case["fs"], which, k)
    if key not in _cache:
        r = [_fresh(case, which, k, o) for o in ("nodelay", "withdelay", "baseline")]
        c = [_fresh(case, which, k, "nopulse")]
        _cache[key] = (max([abs(x[0]) for x in r if isinstance(x, tuple)], default=0.0) * 1e-11,
                       max([abs(x) for x in c if isinstance(x, float)] + [abs(x[-1]) for x in r if isinstance(x, tuple)], default=0.0) * 1e-11)
    return _cache[key]


def _same(a, b, scales):
    if isinstance(a, Raised) or isinstance(b, Raised):
        return isinstance(a, Raised) and isinstance(b, Raised) and type(a.exc) is type(b.exc)
    if a is None or b is None:
        return a is b
    tup = isinstance(b, tuple)
    a, b = np.atleast_1d(np.array(a, complex)), np.atleast_1d(np.array(b, complex))
    atol = np.full(b.shape, scales[0])
    if tup:
        atol[-1] = scales[1]
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= 1e-9 * np.abs(b) + atol))


def run(case, rec):
    if case["kind"] == "pair":
        return _pair(case, rec)
    n = case["n"]

    def cur(hist):
        k = 0
        for h in hist:
            if h.startswith("update"):
                k = int(h[6:])
        return k

    def oracle(hist, op, res, obj):
        if op.startswith("update"):
            return [] if res is None or not isinstance(res, Raised) else [("update", f"raised {res!r}")]
        want = _fresh(case, 0, cur(hist), op)
        rec.outcome(op, cur(hist), not isinstance(want, Raised))
        if not _same(res, want, _scales(case, 0, cur(hist))):
            return [("history", f"answered {res!r}, a fresh filter on the same signal answers {want!r}")]
        return []

    build = lambda: _build(case)
    apply = lambda o, op: _apply(o, op, n)
    if "hist" in case:
        return bfs.replay(rec, case, build, case["hist"], apply, oracle)
    if case["kind"] == "bfs":
        return bfs.explore(rec, case, build, OPS, apply, oracle)
    import itertools
    for d in range(0, case["depth"] + 1):
        for tail in itertools.product(OPS, repeat=d):
            bfs.replay(rec, case, build, (case["first"],) + tail, apply, oracle, last_only=True)
            if len(rec.problems) > 10:
                return


PAIR_OPS = ["update1", "withdelay", "iterative", "stationary", "lowfreq"]


def _pair(case, rec):
    import itertools
    cs = [dict(n=6, cp="AC", integ=False, fs=1.0), dict(n=7, cp="DC", integ=False, fs=625e3)]
    alpha = [(w, op) for w in (0, 1) for op in PAIR_OPS]
    seqs = [case["hist"]] if "hist" in case else (
        (case["first"],) + t for d in range(case["depth"] + 1) for t in itertools.product(range(len(alpha)), repeat=d))
    for seq in seqs:
        objs = [_build(cs[0], 0), _build(cs[1], 1)]
        k = [0, 0]
        for j, a in enumerate(seq):
            w, op = alpha[a]
            res = _apply(objs[w], op, cs[w]["n"])
            rec.step()
            if op.startswith("update"):
                k[w] = int(op[6:])
                continue
            want = _fresh(cs[w], w, k[w], op)
            if j == len(seq) - 1 and not _same(res, want, _scales(cs[w], w, k[w])):
                rec.fail("two-filters", f"{[alpha[x] for x in seq]}: filter {w} answered {res!r}, alone it answers {want!r}",
                         replay_case=dict(case, hist=list(seq)))
        rec.state("pair", tuple(seq))
        rec.trace()
        if len(rec.problems) > 10:
            return
