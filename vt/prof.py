"""Reference setup shared by the profile checks: selected stars about the centre, radial bins."""
import types
import numpy as np
from hypothesis import strategies as st
from . import gen, rich, binning
from .core import need, same, close, fail

COORDS = [None, None, "r", "vr", "phi", "vp", "vphi", "theta", "vt", "vtheta", "x", "vx", "y", "vy", "z", "vz", "v"]


@st.composite
def spec(draw, fns, lo=12, hi=120, masses=("equal", "power", "mixed"), coord=False):
    d = dict(cl=draw(rich.specs(lo, hi, lists=False, masses=masses)), q=draw(rich.criteria(energy=True)),
             sel=draw(st.integers(0, 2)) > 0, nrad=draw(st.sampled_from([4, 5, 3, 8, 12, 20, None])),
             bins=draw(st.sampled_from(["num", "num", "fix", "user", "user"])), ub=[draw(st.integers(0, 1000)) / 1000.0 for _ in range(8)],
             gaps=draw(st.integers(0, 3)) == 0, norm=draw(st.integers(0, 2)) == 0, fn=draw(st.sampled_from(list(fns))),
             amuse=draw(st.integers(0, 7)) == 0, plot=draw(st.integers(0, 59)) == 0)
    if coord:
        d["coord"] = draw(st.sampled_from(COORDS))
    return d


def exact(x, y, z, proj):
    return np.sqrt(x ** 2 + y ** 2 + (0.0 if proj else z ** 2))


def setup(s, C, nrad_none=False):
    """The cluster, keyword arguments and expected bins of a profile case; None for examples undecidable to rounding."""
    p = types.SimpleNamespace()
    cl = rich.build(s["cl"])
    n = len(cl.x)
    U = s["cl"]["units"]
    p.amuse = s["amuse"]
    if not p.amuse:
        rs = np.random.RandomState(s["cl"]["seed"] ^ 77)
        cl.add_energies(rs.uniform(0, 1, n), rs.uniform(-3, 0, n))
    X, V, M = rich.about(cl)
    L, W, Mu, T = gen.factors(U, s["cl"]["P"]) if p.amuse else (1, 1, 1, 1)
    X, V, M = X * L, V * W, M * Mu
    p.X, p.V, p.M = X, V, M
    p.loose = p.amuse or s["cl"]["origin"] == "galaxy"
    full = rich.full(cl)
    p.reach = rich.reach(full) * L + np.abs(X).max()
    p.vreach = max([np.max(np.abs(np.asarray(full[k], float)), initial=0) for k in ("vx", "vy", "vz", "vxgc", "vygc", "vzgc", "vxc", "vyc", "vzc")]) * W
    q = s["q"] if s["sel"] else dict({k: [None, None] for k in "rmve"}, kw=None, npop=None, indx=None, projected=s["q"]["projected"])
    if p.loose:     # bounds exactly at a star's value are decided by rounding after a change of frame
        q = dict(q)
        for k in "rmv":
            if q.get(k):
                q[k] = [None if b is None else [b[0], False] for b in q[k]]
    ref = types.SimpleNamespace(x=X[0], y=X[1], z=X[2], vx=V[0], vy=V[1], vz=V[2], m=M, kw=cl.kw, npop=cl.npop, etot=cl.etot)
    ref.r, ref.rpro = exact(*X, False), exact(*X, True)
    ref.v, ref.vpro = exact(*V, False), exact(*V, True)
    p.kw, p.mask = rich.resolve(ref, q, energy=not p.amuse)
    p.qkw = q["kw"]
    p.proj = bool(p.kw["projected"])
    p.R = ref.rpro if p.proj else ref.r
    p.S = ref.vpro if p.proj else ref.v
    p.r3 = ref.r
    p.norm = s["norm"]
    if p.norm:
        p.kw["normalize"] = True
    if p.loose:
        for k, a, e in (("rmin", p.R, p.reach), ("rmax", p.R, p.reach), ("vmin", p.S, p.vreach), ("vmax", p.S, p.vreach),
                        ("mmin", M, M.max()), ("mmax", M, M.max())):
            if k in p.kw and np.min(np.abs(a - p.kw[k])) <= 1e-9 * e:
                return None
    sel = p.R[p.mask]
    if len(sel) == 0:
        C.exclude("empty selection")
        return None
    p.near_ties = lambda v: bool(np.any(np.diff(np.sort(v)) < 1e-9 * p.reach))
    if p.near_ties(p.R):
        return None
    nrad = s["nrad"]
    if nrad is None and not nrad_none:
        nrad = 6
    p.bins = None
    if s["bins"] == "user":
        top = np.sort(p.R)
        e = sorted(set(round(float(u), 3) for u in s["ub"]))
        if len(e) < 3:
            return None
        e = np.interp(e, [0, 1], [0.0, top[-1] * 1.05 + 1e-300])
        lo, up = e[:-1].copy(), e[1:].copy()
        if s["gaps"] and len(lo) > 3:
            keep = np.arange(len(lo)) % 3 != 1
            lo, up = lo[keep], up[keep]
        if any(np.min(np.abs(p.R - v)) < 1e-8 * p.reach for v in np.r_[lo, up] if v > 0):
            return None
        if np.any(up - lo < 1e-6 * up[-1]):
            return None
        p.bins = (lo, (lo + up) / 2, up)
        p.kw["bins"] = tuple(np.copy(b) for b in p.bins)
        p.lo, p.mid, p.up = p.bins
    elif nrad is None:
        p.kw["nrad"] = None
        p.lo = p.mid = p.up = np.array([])
    else:
        if len(sel) < 2:
            return None
        p.kw["nrad"] = nrad
        if s["bins"] == "fix":
            p.kw["bintype"] = "fix"
            p.lo, p.mid, p.up, cnt = binning.fix_bins(sel, nrad)
            if any(np.min(np.abs(p.R - v)) < 1e-8 * p.reach for v in p.up[:-1]):
                return None
        else:
            p.lo, p.mid, p.up, cnt = binning.num_bins(sel, nrad)
    if len(p.lo):
        p.place = binning.place(p.R, p.up)
        inside = (p.R >= p.lo[p.place] - (1e-12 * p.reach if p.bins is None else 0)) & (p.R <= p.up[-1] + (1e-12 * p.reach if p.bins is None else 0))
        p.which = np.where(p.mask & inside, p.place, -1)
    if s["plot"]:
        p.kw["plot"] = True
        C.label("plot")
    if p.amuse:
        cl.to_amuse()
    p.cl = cl

    def rm(proj):
        """Half-mass radius of all stars about the centre."""
        R = ref.rpro if proj else ref.r
        o = np.argsort(R)
        c = np.cumsum(M[o])
        i, j = int(np.argmax(c >= 0.5 * c[-1] * (1 - 1e-12))), int(np.argmax(c >= 0.5 * c[-1] * (1 + 1e-12)))
        return R[o][i] if i == j else (R[o][i], R[o][j])
    p.rm = lambda proj: rm(proj) if not isinstance(rm(proj), tuple) else rm(proj)[0]
    if p.norm and (isinstance(rm(True), tuple) or isinstance(rm(False), tuple)):
        return None

    def common(cl, before, kw, bins0, what):
        rich.unchanged(cl, before, (), what)
        if "indx" in kw:
            same(kw["indx"], np.random.RandomState(q["indx"]).uniform(size=n) < 0.7, "the caller's mask")
        if bins0 is not None:
            for a, b in zip(kw["bins"], bins0):
                same(a, b, "the caller's bins")
    p.common = common

    def radii(got, mid, rm_, what):
        if p.norm:
            close(got, mid / rm_, what + " (normalised)", rtol=1e-8, atol=1e-9 * p.reach / rm_)
        else:
            need(rich.strip(got) is not None or not p.amuse, "radii of an AMUSE cluster are not lengths")
            close(rich.plain(got, "pc"), mid, what, rtol=1e-8, atol=1e-9 * p.reach)
    p.radii = radii
    return p
