"""P18: the numerical recipes bin, fit, smooth, interpolate and sample what they say they do."""
import math
import numpy as np
from hypothesis import strategies as st
from vt.core import Check, close, same, need, fail, arr
from vt import binning

check = Check("P18",
    rule="a case is a generated data set (distinct, repeated, clustered or negative values) with a number and kind of bins or "
         "the user's own edges; non-trivial = at least 3 non-empty bins of at least 2 different counts or with values left "
         "outside, or at least 5 points for the point recipes")


def data(s):
    rs = np.random.RandomState(s["seed"])
    n, k = s["n"], s["kind"]
    x = dict(unif=lambda: rs.uniform(1, 2, n), power=lambda: 0.1 * (1 - rs.uniform(0, 0.999, n)) ** -0.7,
             neg=lambda: rs.normal(0, 3, n), ties=lambda: rs.randint(1, 5 + n // 3, n).astype(float),
             heavy=lambda: np.where(rs.uniform(0, 1, n) < 0.4, 2.0, rs.uniform(1, 3, n)))[k]()
    x = x * s["scale"]
    return x


@st.composite
def dspec(draw, lo=3, hi=120, kinds=("unif", "power", "neg", "ties", "heavy")):
    return dict(seed=draw(st.integers(0, 2 ** 31)), n=draw(st.integers(lo, hi)), kind=draw(st.sampled_from(list(kinds))),
                scale=draw(st.sampled_from([1.0, 1.0, 1e-4, 3e5])), nb=draw(st.integers(1, 12)), ntot=draw(st.integers(2, 40)),
                aslist=draw(st.booleans()), nsum=draw(st.booleans()), f=draw(st.integers(0, 5)), opt=draw(st.integers(0, 3)),
                u=[draw(st.integers(0, 1000)) / 1000.0 for _ in range(6)])


def call(s, x, fn, *a, **k):
    """Call with the data as a list or an array; the caller's data stays as it was."""
    x = list(map(float, x)) if s["aslist"] and "roaming" not in fn.__name__ else x.copy()
    keep = list(x)
    got = fn(x, *a, **k)
    need(list(x) == keep, "%s changed its input" % fn.__name__)
    return got


@check.case("bins", dspec(), quick=6000, shards=4)
def bins(s, C):
    import clustertools as ct
    x = data(s)
    if len(np.unique(x)) < 2:
        return
    nb, f = s["nb"], s["f"]
    kw = dict(nsum=True) if s["nsum"] else {}
    if f in (0, 1):
        got = call(s, x, ct.nbinmaker, nb, **kw)
        lo, mid, up, cnt = binning.num_bins(x, nb)
        C.label("num")
    elif f in (2, 3):
        log = f == 3 and x.min() > 0
        got = call(s, x, ct.binmaker, nb, steptype="log" if log else "linear", **kw)
        lo, mid, up, cnt = binning.fix_bins(x, nb, log)
        C.label("log" if log else "linear")
    elif f == 4:
        nt = s["ntot"]
        got = call(s, x, ct.roaming_nbinmaker, nb, nt, **kw)
        xs, n = np.sort(x), len(x)
        C.label("roaming num")
        # windows of 1/nbin of the values, their starts equally spaced from the first to the last possible one
        lo = []
        for i in range(nt):
            a = i * (n - 1) * (nb - 1) / (nb * (nt - 1.0))
            b = a + (n - 1.0) / nb
            if min(abs(a - round(a)), abs(b - round(b))) < 1e-6 and 0 < i < nt - 1:
                a, b = a + 1e-5, b + 1e-5           # at a value: the code may come out on either side
                i = -1
            lo.append((xs[int(a + 1e-9)], xs[min(int(b + 1e-9), n - 1)], i == -1))
        if any(l[2] for l in lo):
            C.label("roaming num, on a value")
            lo = np.array(got[0]); up = np.array(got[2])
        else:
            lo, up = np.array([l[0] for l in lo if l[0] != l[1]]), np.array([l[1] for l in lo if l[0] != l[1]])
        if len(lo) == 0:
            return
        need(len(got[0]) == len(lo), "%d windows, expected %d" % (len(got[0]), len(lo)))
        ins = [(x >= a) & ((x < b) if i < len(lo) - 1 else (x <= b)) for i, (a, b) in enumerate(zip(lo, up))]
        cnt = np.array([w.sum() for w in ins])
        mid = np.array([x[w].mean() for w in ins])
        need(np.all(np.asarray(got[0])[1:] >= np.asarray(got[0])[:-1]), "windows out of order")
        need(got[0][0] == xs[0] or xs[int((n - 1.0) / nb)] == xs[0], "the first window starts at %r, not at the smallest value %r" % (got[0][0], xs[0]))
    else:
        nt = s["ntot"]
        log = s["opt"] % 2 == 1 and x.min() > 0
        got = call(s, x, ct.roaming_binmaker, nb, nt, steptype="log" if log else "linear", **kw)
        C.label("roaming log" if log else "roaming linear")
        l, h = (np.log10(x.min()), np.log10(x.max())) if log else (x.min(), x.max())
        w = (h - l) / nb
        e = l + (h - w - l) * np.arange(nt) / (nt - 1.0)
        lo, up, mid = (10 ** e, 10 ** (e + w), 10 ** (e + w / 2)) if log else (e, e + w, e + w / 2)
        cnt = None
    lo0, mid0, up0, cnt0 = [np.asarray(v, float) for v in got[:4]]
    sc = np.abs(x).max()
    close(lo0, lo, "lower edges", rtol=1e-9, atol=1e-9 * sc)
    close(up0, up, "upper edges", rtol=1e-9, atol=1e-9 * sc)
    close(mid0, mid, "bin centres", rtol=1e-9, atol=1e-9 * sc)
    # counts of the bins as returned: half-open, the last one closed
    ins = [(x >= a) & ((x < b) if i < len(lo0) - 1 else (x <= b)) for i, (a, b) in enumerate(zip(lo0, up0))]
    close(cnt0, [w.sum() for w in ins], "counts")
    if s["nsum"]:
        need(len(got) == 5, "%d results with nsum" % len(got))
        close(got[4], [x[w].sum() for w in ins], "sums", rtol=1e-9, atol=1e-9 * sc * len(x))
    else:
        need(len(got) == 4, "%d results" % len(got))
    if f < 4:
        need(cnt0.sum() == len(x), "%d values in the bins of %d" % (cnt0.sum(), len(x)))
        idx = np.asarray(ct.bin_index(x, lo0, up0))
        need(idx.shape == x.shape, "bin_index returns %d indices" % idx.size)
        for v, i in zip(x, idx):
            need(lo0[i] <= v and (v < up0[i] or (i == len(lo0) - 1 and v == up0[i])), "bin_index puts %r into [%r, %r)" % (v, lo0[i], up0[i]))
    C.nt(np.sum(cnt0 > 0) >= 3 and len(set(cnt0)) >= 2)


def edges(s, x):
    """The user's bins: edges inside, across or beyond the data, and the mean of each bin."""
    u = np.unique(s["u"])
    l, h = x.min(), x.max()
    if x.min() > 0:
        e = l * (h / l) ** (u * 1.2 - 0.1) * 1.0000123
    else:
        e = l + (h - l) * (u * 1.2 - 0.1) + 1.23e-6 * (h - l)
    return e[:-1], (e[:-1] + e[1:]) / 2, e[1:]


@check.case("distribution functions", dspec(20, 200, ("unif", "power", "ties", "heavy")), quick=4000, shards=4)
def dist(s, C):
    import clustertools as ct
    x = data(s)
    own = s["opt"] == 0
    kind = "fix" if s["opt"] == 1 else "num"
    nb = s["nb"] + 3
    kw = dict(nx=nb, bintype=kind)
    if own:
        lo, mid, up = edges(s, x)
        if len(lo) < 3:
            return
        kw = dict(x_lower=lo.copy(), x_mean=mid.copy(), x_upper=up.copy())
    else:
        lo, mid, up, _ = (binning.fix_bins if kind == "fix" else binning.num_bins)(x, nb)
        if kind == "fix" and s["kind"] in ("ties", "heavy"):
            return
    cnt = np.array([np.sum((x >= a) & ((x < b) if i < len(lo) - 1 else (x <= b))) for i, (a, b) in enumerate(zip(lo, up))], float)
    d = cnt / (up - lo)
    ok = d > 0
    f = s["f"]
    C.nt(ok.sum() >= 4 and (len(set(cnt)) >= 2 or own))
    C.label("own bins" if own else kind)
    if f == 5:
        if s["aslist"]:
            got = ct.x_hist(x.copy(), bins=True, **kw)
            need(len(got) == 4, "%d results" % len(got))
            close(got[0], lo, "lower edges", rtol=1e-9), close(got[2], up, "upper edges", rtol=1e-9)
            got = (got[1], got[3])
        else:
            got = ct.x_hist(x.copy(), **kw)
        C.label("x_hist")
        need(len(got) == 2, "%d results" % len(got))
        close(got[0], mid, "bin means", rtol=1e-9)
        close(got[1], cnt, "counts")
        return
    if ok.sum() < 4:
        return
    if f == 4:
        C.label("tapered")
        from vt.core import need as _n
        try:
            got = ct.tapered_dx_function(x.copy(), **kw)
        except (RuntimeError, ValueError) as e:
            if "ptimal parameters" in str(e) or "fewer than the number" in str(e) or "infs or NaNs" in str(e) or "not finite" in str(e):
                C.exclude("no tapered fit")
                return
            raise
        need(len(got) == 11, "%d results" % len(got))
        close(got[0], mid[ok], "bin means", rtol=1e-9)
        close(got[1], cnt[ok], "counts")
        close(got[2], d[ok], "dN/dx", rtol=1e-9)
        A, a, xc, b = got[3], got[5], got[7], got[9]
        need(A >= 0 and x.min() * (1 - 1e-9) <= xc <= x.max() * (1 + 1e-9), "A = %r, xc = %r outside the bounds" % (A, xc))
        return
    got = call(s, x, ct.dx_function, **kw)
    C.label("power law")
    need(len(got) == 7, "%d results" % len(got))
    close(got[0], mid[ok], "bin means", rtol=1e-9)
    close(got[1], cnt[ok], "counts")
    close(got[2], d[ok], "dN/dx", rtol=1e-9)
    a, y, ea, ey = binning.line(np.log10(mid[ok]), np.log10(d[ok]))
    sc = 1 + abs(a)
    for g, e, w in zip(got[3:], (a, ea, y, ey), ("slope", "its error", "intercept", "its error")):
        close(g, e, w, rtol=1e-6, atol=1e-7 * sc)


@check.case("mean profiles", dspec(4, 120), quick=5000, shards=4)
def means(s, C):
    import clustertools as ct
    x = data(s)
    if len(np.unique(x)) < 2:
        return
    rs = np.random.RandomState(s["seed"] ^ 9)
    y = rs.normal(0, 1, len(x)) + rs.uniform(-5, 5)
    med, nb = s["aslist"], s["nb"]
    kw = dict(median=True) if med else {}
    inside = np.ones(len(x), bool)
    f = s["f"]
    if f <= 2:
        own = s["opt"] == 0
        kind = "num" if s["opt"] != 1 else "fix"
        log = kind == "fix" and s["nsum"] and x.min() > 0
        if own:
            lo, mid, up = edges(s, x)
            if len(lo) < 1:
                return
            kw.update(x_lower=lo, x_mean=mid, x_upper=up)
            inside = (x >= lo[0]) & (x <= up[-1])
        else:
            lo, mid, up, _ = binning.fix_bins(x, nb, log) if kind == "fix" else binning.num_bins(x, nb)
            kw.update(nbin=nb, bintype=kind)
            if log:
                kw["steptype"] = "log"
        got = ct.mean_prof(x.copy(), y.copy(), **kw)
        C.label("mean_prof " + ("own" if own else kind + (" log" if log else "")))
        need(len(got) == 3, "%d results" % len(got))
    else:
        kind = "num" if s["opt"] != 1 else "fix"
        r = x.max() - x.min()
        dx = r / (nb + 0.3 + 0.5 * s["u"][0])
        got = ct.smooth(x.copy(), y.copy(), dx, bintype=kind, **kw)
        lo, mid, up, _ = binning.fix_bins(x, nb) if kind == "fix" else binning.num_bins(x, nb)
        C.label("smooth " + kind)
        need(len(got) == 5, "%d results" % len(got))
    if kind == "fix" and f > 2 or (f <= 2 and kind == "fix" and not own):
        if any(np.min(np.abs(x - e)) < 1e-9 * np.abs(x).max() for e in up[:-1]):
            return
    w = np.where(inside, binning.place(x, up), -1)
    B = [w == i for i in range(len(lo)) if (w == i).any()]
    mid = np.array([mid[i] for i in range(len(lo)) if (w == i).any()])
    close(got[0], mid, "bin positions", rtol=1e-9, atol=1e-9 * np.abs(x).max())
    q = np.median if med else np.mean
    close(got[1], [q(y[b]) for b in B], "median" if med else "mean", rtol=1e-9, atol=1e-12)
    close(got[2], [np.std(y[b]) for b in B], "dispersion", rtol=1e-7, atol=1e-9)
    if f > 2:
        close(got[3], [np.min(y[b]) for b in B], "minimum")
        close(got[4], [np.max(y[b]) for b in B], "maximum")
    C.nt(len(B) >= 3 and (len({b.sum() for b in B}) >= 2 or not inside.all()))


@check.case("points", dspec(2, 60), quick=2500, shards=2)
def points(s, C):
    import clustertools as ct
    rs = np.random.RandomState(s["seed"])
    if s["f"] == 0:
        (x1, y1), (x2, y2) = rs.normal(0, s["scale"], (2, 2))
        t = rs.uniform(-2, 3)
        if min(abs(x2 - x1), abs(y2 - y1)) < 1e-3 * s["scale"]:
            return
        x, y = x1 + t * (x2 - x1), y1 + t * (y2 - y1)
        if s["aslist"]:
            x, y = (0.0, y1 + (y2 - y1) * (0 - x1) / (x2 - x1)) if s["nsum"] else (x, y)
            got, e = ct.interpolate((x1, y1), (x2, y2), x=x), y
        else:
            x, y = (x1 + (x2 - x1) * (0 - y1) / (y2 - y1), 0.0) if s["nsum"] else (x, y)
            got, e = ct.interpolate((x1, y1), (x2, y2), y=y), x
        close(got, e, "interpolated value", rtol=1e-6, atol=1e-6 * s["scale"] * 1e3 * 0 + 1e-8 * (abs(e) + s["scale"] * 1e2))
        C.label("interpolate")
        C.nt(not 0 <= t <= 1 or s["nsum"])
        return
    p = rs.normal(0, s["scale"], (s["n"], 3)) + rs.uniform(-50, 50) * s["scale"]
    if s["opt"] == 0 and s["n"] > 2:
        p[1] = p[0]
    d = np.sqrt(((p[:, None] - p[None]) ** 2).sum(2))
    close(ct.distance(p[0], p[1]), d[0, 1], "distance", rtol=1e-9)
    np.fill_diagonal(d, np.inf)
    got = ct.minimum_distance(p.copy())
    close(np.asarray(got), d.min(1), "minimum distances", rtol=1e-9)
    C.label("minimum_distance")
    C.nt(s["n"] >= 5)


@st.composite
def pl(draw):
    return dict(seed=draw(st.integers(0, 2 ** 31)), n=draw(st.sampled_from([2000, 4000, 1])),
                a=draw(st.one_of(st.sampled_from([-2.35, -1.0, 0, 0.0, 1.0, -0.999, 2, -1]), st.integers(-400, 400).map(lambda v: v / 100.0))),
                lo=draw(st.integers(1, 100)) / 50.0, w=draw(st.sampled_from([0.0, 0.1, 1.0, 3.0, 20.0])))


@check.case("power-law samples", pl(), quick=600, shards=2)
def sample(s, C):
    """Kolmogorov-Smirnov distance between the sample and the power law; the bound is passed by chance in 1e-13 of cases."""
    import clustertools as ct
    np.random.seed(s["seed"] % (2 ** 32))
    a, lo, hi, n = s["a"], s["lo"], s["lo"] + s["w"], s["n"]
    x = np.asarray(ct.power_law_distribution_function(n, a, lo, hi), float)
    need(x.shape == (n,), "%s values of %d" % (x.shape, n))
    need(np.all((x >= lo * (1 - 1e-9)) & (x <= hi * (1 + 1e-9))), "values outside [%r, %r]" % (lo, hi))
    if hi == lo or n == 1:
        return
    x = np.sort(x)
    cdf = np.log(x / lo) / np.log(hi / lo) if a == -1 else np.expm1((a + 1) * np.log(x / lo)) / np.expm1((a + 1) * np.log(hi / lo))
    k = np.arange(n)
    D = max(np.max((k + 1.0) / n - cdf), np.max(cdf - k / float(n)))
    need(D < 3.95 / math.sqrt(n), "KS distance %g from x^%r on [%r, %r] with %d values" % (D, a, lo, hi, n))
    C.nt(hi > 1.5 * lo and abs(a) > 0.5)
    C.label("alpha=-1" if a == -1 else "alpha<0" if a < 0 else "alpha>=0")
