"""Clusters with every optional piece of data, selection criteria, and whole-state snapshots."""
import numpy as np
from hypothesis import strategies as st
from . import gen
from .core import need, same, close, fail


@st.composite
def specs(draw, min_n=1, max_n=60, units=None, origins=("cluster", "centre", "galaxy"), **kw):
    d = dict(stars=draw(gen.star_specs(min_n, max_n, **kw)), P=draw(gen.params()),
             units=draw(st.sampled_from(units or gen.UNITS)), origin=draw(st.sampled_from(list(origins))),
             c=[draw(gen.num(2)) for _ in range(12)], seed=draw(st.integers(0, 2 ** 31 - 1)),
             kw=draw(st.sampled_from(["none", "all0", "mixed", "mixed"])), npop=draw(st.booleans()),
             sort=draw(st.booleans()), proj=draw(st.integers(0, 4)) == 0, nolum=draw(st.integers(0, 3)) == 0,
             stale=draw(st.integers(0, 3)) == 0)
    return d


def build(s, centred=False, far=True, lum=True):
    """The cluster of a spec.  Star coordinates are relative to the requested origin; a cluster in the galaxy frame is
    built around its orbital position (when far=True) so that the frames mean what they should."""
    P = s["P"]
    e = gen.expand(s["stars"])
    units = s["units"]
    L, V, M, T = gen.factors(units, P)
    a, b, m = gen.scales(units, P)
    cl = gen.new_cluster(units, s["origin"], P, projected=bool(s["proj"]))
    c = s["c"]
    cen = [v * a * 0.3 for v in c[:3]] + [v * b * 0.3 for v in c[3:6]]
    orb = [(v + 5.0) * 1000.0 / L for v in c[6:9]] + [v * 80.0 / V for v in c[9:]]
    n = len(e["x"])
    pos = [e["x"] * a, e["y"] * a, e["z"] * a]
    vel = [e["vx"] * b, e["vy"] * b, e["vz"] * b]
    if s["origin"] == "galaxy":
        pos = [p + o for p, o in zip(pos, orb[:3])]
        vel = [p + o for p, o in zip(vel, orb[3:])]
    rs = np.random.RandomState(s["seed"])
    ids = rs.permutation(np.arange(1, n + 1)) * 3
    npop = rs.randint(1, 3, n) if s["npop"] else np.ones(n, int)
    m0 = e["m"] * m * rs.uniform(1, 2, n)
    stale = s.get("stale") and s["sort"]
    if stale:           # sorted with the stars elsewhere, then moved without sorting: the stored order is outdated
        real, perm = pos, rs.permutation(n)
        pos = [q[perm] for q in pos]
    cl.add_stars(pos[0], pos[1], pos[2], vel[0], vel[1], vel[2], e["m"] * m, ids, m0, npop, sortstars=s["sort"])
    cl.xc, cl.yc, cl.zc, cl.vxc, cl.vyc, cl.vzc = cen
    cl.add_orbit(*orb)
    if s["kw"] != "none":
        k = np.zeros(n, int) if s["kw"] == "all0" else rs.choice([0, 0, 1, 1, 2, 5, 11, 14, 15], n)
        if lum and not s.get("nolum"):
            cl.add_sse(k, rs.uniform(-3, 4, n), rs.uniform(-2, 2, n))
        else:
            cl.kw = k
    cl.analyze(sortstars=s["sort"])
    if stale:
        cl.x, cl.y, cl.z = [q.copy() for q in real]
        cl.analyze(sortstars=False)
    return cl


# ------------------------------------------------------------------ selections

@st.composite
def criteria(draw, energy=True, kw=True, tight=False):
    names = ["r", "m", "v"] + (["e"] if energy else []) + (["kw"] if kw else []) + ["npop", "indx"]
    active = draw(st.lists(st.sampled_from(names), min_size=draw(st.sampled_from([1, 1, 1, 1, 1, 2, 3, 0])), max_size=7 if draw(st.integers(0, 5)) == 0 else 3, unique=True))
    q = {k: [None, None] for k in names if k in "rmve"}
    q.update(kw=None, npop=None, indx=None)
    for k in active:
        if k in "rmve":
            side = draw(st.sampled_from(["lo", "hi", "both"]))
            lo, hi = [[draw(st.integers(0, 1000)) / 1000.0, draw(st.booleans())] for _ in range(2)]
            if lo[0] > hi[0] and draw(st.integers(0, 9)) > 0:
                lo, hi = hi, lo
            q[k] = [lo if side != "hi" else None, hi if side != "lo" else None]
        elif k == "kw":
            q[k] = draw(st.sampled_from([[0, 1], [0, 0], [1, 14], [2, 15]]))
        elif k == "npop":
            q[k] = draw(st.sampled_from([1, 1, 2]))
        else:
            q[k] = draw(st.integers(0, 10 ** 6))
    q["projected"] = draw(st.booleans())
    return q


def _bound(v, b, lower):
    if b is None or len(v) == 0:
        return None
    s = np.sort(v)
    i = int(round(b[0] * (len(s) - 1)))
    if b[1]:                                # exactly a star's value: bounds are inclusive
        return float(s[i])
    if i + 1 < len(s):
        return float(0.5 * (s[i] + s[i + 1]))
    return float(s[i] + abs(s[i]) * 0.1)


def resolve(cl, q, energy=True):
    """(kwargs for the package, boolean mask by brute force) of the criteria on the cluster as it is now."""
    x, y, z = [np.asarray(getattr(cl, k), float) for k in ("x", "y", "z")]
    vx, vy, vz = [np.asarray(getattr(cl, k), float) for k in ("vx", "vy", "vz")]
    p = q["projected"]
    r = np.sqrt(x ** 2 + y ** 2 + (0 if p else z ** 2))
    v = np.sqrt(vx ** 2 + vy ** 2 + (0 if p else vz ** 2))
    val = dict(r=np.asarray(cl.rpro if p else cl.r, float), v=np.asarray(cl.vpro if p else cl.v, float), m=np.asarray(cl.m, float))
    close(val["r"], r, "radii")
    close(val["v"], v, "speeds")
    if energy and len(cl.etot) == len(x):
        val["e"] = np.asarray(cl.etot, float)
    kw, mask = dict(projected=p), np.ones(len(x), bool)
    for k, a in val.items():
        lo, hi = q.get(k, [None, None])
        lo, hi = _bound(a, lo, True), _bound(a, hi, False)
        if lo is not None:
            kw[k + "min"] = lo
            mask &= a >= lo
        if hi is not None:
            kw[k + "max"] = hi
            mask &= a <= hi
    if q["kw"] is not None:
        kw["kwmin"], kw["kwmax"] = q["kw"]
        if len(cl.kw) > 0:
            k = np.asarray(cl.kw)
            mask &= (k >= q["kw"][0]) & (k <= q["kw"][1])
    if q["npop"] is not None:
        kw["npop"] = q["npop"]
        mask &= np.asarray(cl.npop) == q["npop"]
    if q["indx"] is not None:
        m = np.random.RandomState(q["indx"]).uniform(size=len(x)) < 0.7
        kw["indx"] = m
        mask &= m
    return kw, mask


# ------------------------------------------------------------------ whole-state snapshots

LAZY = ("rorder", "rproorder", "rorder_origin", "rproorder_origin", "rm", "r10", "rmpro", "r10pro", "rh", "rhpro", "rh10", "rh10pro")   # set once sorted
SKIP = ("indx", "units0", "origin0", "rorder0", "rorder_origin0")


def strip(v):
    """(numbers, unit) of an AMUSE quantity or array of quantities; None for anything else."""
    arr_ = isinstance(v, np.ndarray) and v.dtype == object and v.size and all(hasattr(t, "value_in") for t in v.ravel())
    if not arr_ and not hasattr(v, "value_in"):
        return None
    import amuse.units.units as u
    for name, unit in dict(pc=u.parsec, kms=u.kms, Msun=u.MSun, Myr=u.Myr, kms2=u.kms ** 2, E=u.MSun * u.kms ** 2, rho=u.MSun / u.parsec ** 3,
                           sigma=u.MSun / u.parsec ** 2, none=u.none, L=u.LSun).items():
        try:
            if arr_:
                return np.array([t.value_in(unit) for t in v.ravel()], float).reshape(v.shape), name
            return np.array(v.value_in(unit), float), name
        except Exception:
            pass
    return np.array(np.nan), "unknown unit"


def full(cl):
    d = {}
    for k, v in vars(cl).items():
        if k in SKIP:
            continue
        q = strip(v)
        if q is not None:
            d[k], d[k + "|unit"] = q
        elif isinstance(v, np.ndarray):
            d[k] = v.copy()
        elif isinstance(v, (int, float, str, bool, type(None), np.floating, np.integer)):
            d[k] = v
        elif isinstance(v, (list, tuple)):
            try:
                d[k] = np.array(v, float)
            except Exception:
                pass
    return d


def unchanged(cl, before, allowed, what, rtol=1e-9, scale=None):
    """Every attribute of the cluster is what it was (to the rounding of a frame round trip) but for `allowed`."""
    now = full(cl)
    L = max([np.max(np.abs(before[k]), initial=0) for k in ("x", "y", "z")] + [abs(before[k]) for k in ("xgc", "ygc", "zgc", "xc", "yc", "zc")])
    W = max([np.max(np.abs(before[k]), initial=0) for k in ("vx", "vy", "vz")] + [abs(before[k]) for k in ("vxgc", "vygc", "vzgc", "vxc", "vyc", "vzc")])
    ro, r0 = before.get("rorder"), np.asarray(before.get("r"), float)
    stale = ro is not None and np.size(ro) == np.size(r0) and np.size(ro) > 0 and np.any(np.diff(r0[ro]) < 0)   # an outdated order may be renewed
    for k, b in before.items():
        if stale and k in LAZY:
            continue
        if k in allowed or (k in LAZY and (b is None or np.size(b) == 0)):
            continue
        need(k in now, "%s removed the attribute %s" % (what, k))
        a = now[k]
        if isinstance(b, (str, bool, type(None))) or isinstance(a, (str, bool, type(None))):
            need(a == b if not isinstance(a, np.ndarray) else False, "%s changed %s from %r to %r" % (what, k, b, a))
            continue
        if k in ("rorder", "rproorder") and np.shape(a) == np.shape(b) and not np.array_equal(a, b):
            # stars at equal radii (to rounding) may come in either order
            r = np.asarray(before["r" if k == "rorder" else "rpro"], float)
            if np.size(r) == np.size(b) and np.array_equal(np.sort(a), np.sort(b)) and np.all(np.abs(r[a] - r[b]) <= rtol * L):
                continue
        if np.asarray(b).dtype.kind in "iub":
            same(a, b, "%s after %s" % (k, what))
        else:
            atol = 0.0
            if k in ("x", "y", "z", "r", "rpro", "xc", "yc", "zc", "xgc", "ygc", "zgc", "rmean", "rmax", "rm", "r10", "rmpro", "r10pro",
                     "rmeanpro", "rmaxpro", "rh", "rhpro", "rh10", "rh10pro"):
                atol = rtol * L
            elif k in ("vx", "vy", "vz", "v", "vpro", "vxc", "vyc", "vzc", "vxgc", "vygc", "vzgc"):
                atol = rtol * W
            if k in HALF and np.size(a) == 1 and not np.isclose(float(a), float(b), rtol=rtol, atol=atol) and _tie(before, k, float(a), rtol * L):
                continue
            close(a, b, "%s after %s" % (k, what), rtol=rtol, atol=atol)


HALF = dict(rm=("r", "m", 0.5), r10=("r", "m", 0.1), rmpro=("rpro", "m", 0.5), r10pro=("rpro", "m", 0.1), rh=("r", "lum", 0.5), rh10=("r", "lum", 0.1), rhpro=("rpro", "lum", 0.5), rh10pro=("rpro", "lum", 0.1))


def _tie(before, k, a, tol):
    """Whether stars hold exactly that part of the mass (light), so that rounding decides between two neighbours, and `a` is one of them."""
    r, w, f = HALF[k]
    r, w = np.asarray(before[r], float), np.asarray(before[w], float)
    o = np.argsort(r)
    c = np.cumsum(w[o]) / np.sum(w)
    i = np.flatnonzero(np.abs(c - f) < 1e-9)
    return bool(np.any([np.any(np.abs(r[o][j:j + 2] - a) <= tol) for j in i]))


# ------------------------------------------------------------------ frames and units of analysis results

def plain(v, unit="pc"):
    """Number(s) of a result; AMUSE quantities must have the given dimension (pc, kms, Msun, Myr, ...)."""
    q = strip(v)
    if q is None:
        return v
    need(q[1] == unit, "result in %s where %s is expected" % (q[1], unit))
    return q[0]


def unplain(v, cl, unit="pc"):
    """The number as an AMUSE quantity when the cluster is in AMUSE units."""
    if cl.units == "amuse":
        import amuse.units.units as u
        return v | dict(pc=u.parsec, kms=u.kms)[unit]
    return v


def about(cl):
    """(positions, velocities, masses) in the cluster's units about the point analyses refer to: the current origin in the
    cluster and centre frames, the centre when the cluster is in the galaxy frame."""
    from checks.p01 import values
    raw = values(cl)
    X, V = np.array([raw[k] for k in ("x", "y", "z")], float), np.array([raw[k] for k in ("vx", "vy", "vz")], float)
    if cl.origin == "galaxy":
        X = X - np.array([raw[k + "gc"] + raw[k + "c"] for k in "xyz"], float)[:, None]
        V = V - np.array([raw["v" + k + "gc"] + raw["v" + k + "c"] for k in "xyz"], float)[:, None]
    return X, V, np.array(raw["m"], float)


def reach(full_):
    """Largest length in the snapshot: what rounding errors of a frame change scale with."""
    return max([float(np.max(np.abs(np.asarray(full_[k], float)), initial=0)) for k in ("x", "y", "z", "xgc", "ygc", "zgc", "xc", "yc", "zc") if k in full_] + [0.0])
