"""C14: symmetrising a distribution and recognising saturated muons."""
import itertools
import math
import numpy as np
import qetpy as qp
import qetpy.cut as CUT
import qetpy.cut._cut as CC
from mc.core import must, attempt, Raised
from mc.ref_of import lcg

ID = "C14"
LEVEL = "model_checking"
BOUNDS = ("symmetrizedist: every multiset of 4-9 values of an 8-value alphabet and of 16 (thorough 25) values of 4-value alphabets, both signs, "
          "all random choices up to 60 (thorough 400) per bin; get_muon_cut: every trace of length 5-6 (thorough 7) over {0..3}/{0,8,9,10}, "
          "nsatbins 1..3(4), 3 thresholds, and flat-top pulses of every length at every position")
RULE = ("complete enumeration including the enumeration of the random choices (np.random.choice replaced by a scripted chooser); oracle: "
        "histogram counts of the kept values, definition of saturation; state = (input, choice, mask)")
ASSUMPTIONS = ["histogram of int(sqrt(n)) (made odd) bins symmetric about zero, as documented in the code",
               "traces that dip below the threshold between the peak and nsatbins later are left undecided"]

ALPH8 = (-5.31, -3.17, -1.23, -0.21, 0.43, 1.57, 2.93, 4.71)
ALPH4 = ((-3.1, -1.4, 0.3, 3.7), (-2.9, -0.2, 1.6, 2.3), (-6.3, -2.2, 0.1, 1.9))


def cases(tier):
    q = tier == "quick"
    for n in range(1, 8 if q else 10):
        for a in range(8):
            yield dict(kind="sym", n=n, first=a)
    for k, al in enumerate(ALPH4):
        for a in range(5):
            yield dict(kind="sym16", n=16 if q else 25, al=k, c0=a, lim=60 if q else 400)
    for L in ((5, 6) if q else (5, 6, 7)):
        for ns in ((1, 2, 3) if q else (1, 2, 3, 4)):
            for t in (0.5, 0.85, 0.95):
                yield dict(kind="muon", L=L, ns=ns, t=t)
    for n in (20, 33):
        yield dict(kind="flat", n=n)
    for n in (1300, 6501):
        yield dict(kind="flat", n=n)
    for n in (401, 1031, 10007) if q else (401, 1031, 2053, 10007, 100003):
        yield dict(kind="many", n=n)


class Chooser:
    """stand-in of np.random.choice: answers with the k-th combination"""
    def __init__(self):
        self.k = 0
        self.calls = []

    def __call__(self, a, size=None, replace=True, p=None):
        a = np.atleast_1d(np.arange(a) if np.ndim(a) == 0 else np.asarray(a))
        size = 1 if size is None else int(size)
        tot = math.comb(len(a), size)
        self.calls.append(tot)
        k = self.k % max(tot, 1)
        # unrank
        out, pos, rem = [], 0, size
        while rem:
            c = math.comb(len(a) - pos - 1, rem - 1)
            if k < c:
                out.append(a[pos])
                rem -= 1
            else:
                k -= c
            pos += 1
        return np.array(out, dtype=a.dtype)


def judge(rec, x, m, ctx):
    m = np.asarray(m)
    n = len(x)
    if m.dtype != bool or m.shape != (n,):
        rec.fail("sym", f"{ctx}: mask is {m!r}")
        return
    mu = qp.cut.iterstat(x, cut=2, precision=10000.0)[0]
    if abs(mu) < 1e-12:
        return
    u = -x if mu > 0 else x
    nb = int(np.sqrt(n))
    nb += 1 - nb % 2
    top = np.max(u)
    if top <= 0 or nb <= 2:
        if not m.all():
            rec.fail("sym", f"{ctx}: nothing to symmetrise, but {list(x[~m])} removed")
        return
    e = np.linspace(-top, top, nb + 1)
    if np.any(np.min(abs(u[u != top][:, None] - e[None]), axis=1, initial=9) < 1e-12):
        rec.note("edge_tie")
        return
    h = nb // 2
    up = u > e[h]
    if not m[up].all():
        rec.fail("sym", f"{ctx}: values {list(x[up & ~m])} removed on the side that has fewer values")
    for i in range(h):
        lo = (u >= e[h - 1 - i]) & (u < e[h - i])
        op = (u >= e[h + 1 + i]) & (u <= e[h + 2 + i])
        want = min(int(lo.sum()), int(op.sum()))
        if int(m[lo].sum()) != want:
            rec.fail("sym", f"{ctx}: {int(m[lo].sum())} values kept in the bin {i + 1} below the middle, {int(op.sum())} in the mirrored bin ({int(lo.sum())} before)")
    if m[u < e[0]].any():
        rec.fail("sym", f"{ctx}: values beyond the range of the other side kept: {list(x[m & (u < e[0])])}")


def explore(rec, x, lim):
    x = np.asarray(x, float)
    f = getattr(CC, "symmetrizedist", None)
    if f is None:
        rec.note("symmetrizedist_absent")
        return
    ch = Chooser()
    k = 0
    name = f"symmetrizedist({list(x) if len(x) < 60 else f'{len(x)} values'})"
    old = np.random.choice
    try:
        while True:
            ch.k, ch.calls = k, []
            np.random.choice = ch
            y = x.copy()
            m = must(rec, "sym", name, f, y)
            np.random.choice = old
            if m is None:
                return
            if not np.array_equal(x, y):
                rec.fail("sym", f"{name}: input modified")
            judge(rec, x, m, f"{name} (choice {k})")
            rec.state(x, m)
            rec.outcome(len(x), int(np.sum(m)))
            k += 1
            if k >= min(max(ch.calls or [1]), lim):
                break
    finally:
        np.random.choice = old


def muon_want(tr, t, ns):
    p = int(np.argmax(tr))
    if p + ns >= len(tr):
        return False
    seg = tr[p: p + ns + 1]
    if np.any(abs(seg - t * tr[p]) < 1e-9):
        return None
    if seg[-1] < t * tr[p]:
        return False
    return True if np.all(seg >= t * tr[p]) else None


def muons(rec, tr, t, ns, ctx):
    a = tr.copy()
    m = must(rec, "muon", ctx, qp.cut.get_muon_cut, a, thresh_pct=t, nsatbins=ns)
    if m is None:
        return
    if not np.array_equal(a, tr):
        rec.fail("muon", f"{ctx}: traces modified")
    m = np.asarray(m)
    if m.shape != (len(tr),) or m.dtype != bool:
        rec.fail("muon", f"{ctx}: returned {m.dtype} {m.shape}")
        return
    for i in range(len(tr)):
        w = muon_want(tr[i], t, ns)
        rec.state(tr[i], t, ns, bool(m[i]))
        rec.step()
        if w is None:
            rec.note("undecided")
        elif bool(m[i]) != w:
            rec.fail("muon", f"{ctx}: trace {list(tr[i]) if len(tr[i]) < 40 else i} is {'' if m[i] else 'not '}called a saturated muon")


def run(case, rec):
    k = case["kind"]
    if k == "sym":
        for t in itertools.combinations_with_replacement(range(case["first"], 8), case["n"] - 1):
            v = [ALPH8[i] for i in (case["first"],) + t]
            explore(rec, v, 1)
            explore(rec, [-a for a in v[::-1]], 1)
    elif k == "sym16":
        al = ALPH4[case["al"]]
        n = case["n"]
        for c1 in range(0, n + 1, 2):
            for c2 in range(0, n - c1 + 1):
                c0 = case["c0"]
                c3 = n - c0 - c1 - c2
                if c3 < 0:
                    continue
                v = [al[0]] * c0 + [al[1]] * c1 + [al[2]] * c2 + [al[3]] * c3
                v = [v[(i * 7) % n] + 1e-6 * i for i in range(n)] if n % 7 else v
                explore(rec, v, case["lim"] if c1 in (2, 4) else 2)
                explore(rec, [-a for a in v], 2)
    elif k == "muon":
        for al in ((0.0, 1.0, 2.0, 3.0), (0.0, 8.0, 9.0, 10.0)):
            tr = np.array([t for t in itertools.product(al, repeat=case["L"]) if max(t) > 0])
            muons(rec, tr, case["t"], case["ns"], f"get_muon_cut(all traces of length {case['L']} over {al}, thresh_pct={case['t']}, nsatbins={case['ns']})")
    elif k == "many":
        n = case["n"]
        for skew in (0.0, 0.3, -0.5, 1.5):
            x = lcg(n, 5 + int(10 * skew))
            x = x + 0.3 * x ** 3 + skew * (x > 0.2) * np.abs(lcg(n, 8))
            x[n // 2] = 2.9 if skew > 0 else -2.9
            x[-1] = -3.7 if skew > 0 else 3.7
            explore(rec, x, 1)
    else:
        n = case["n"]
        step = 1 if n < 100 else 97 if n < 5000 else 397
        for start in range(0, n, step):
            tr = []
            for ln in range(1, n - start + 1, step):
                v = np.full(n, 0.1)
                v[start:start + ln] = 5.0
                v[start] = 5.01
                v[start + ln:] = 5 * np.exp(-np.arange(1, n - start - ln + 1) * 0.3)
                tr.append(v)
            for ns in ((1, 4, 9) if n < 100 else (600, 5, 1 + n * 3 // 4)):
                muons(rec, np.array(tr), 0.95, ns, f"get_muon_cut(flat tops from bin {start}, n={n}, nsatbins={ns})")
            if n >= 100:
                a = attempt(qp.cut.get_muon_cut, np.array(tr))
                b = attempt(qp.cut.get_muon_cut, np.array(tr), 0.95, 600)
                if isinstance(a, Raised) or isinstance(b, Raised) or not np.array_equal(a, b):
                    rec.fail("muon", "get_muon_cut: defaults are not thresh_pct=0.95, nsatbins=600")
    rec.trace()
