"""P26: tidal, limiting and core radii are what their definitions say, in the cluster's units."""
import numpy as np
from hypothesis import strategies as st
from vt.core import Check, close, same, need, fail, arr
from vt import gen, rich, binning
from checks.p11 import density
from checks.p01 import values

check = Check("P26",
    rule="a case is a generated cluster (any units/origin, AMUSE too) with an orbital position, a potential, and options; "
         "non-trivial = at least 2 iterations of the tidal radius or a proper subset; a limiting radius strictly inside the "
         "profile; at least 10 stars for a core radius")

G = 4.302e-3


def potentials():
    from galpy import potential as p
    return dict(mw=p.MWPotential2014, log=p.LogarithmicHaloPotential(normalize=1.0, q=0.9), kepler=p.KeplerPotential(normalize=1.0),
                nfw=[p.NFWPotential(a=2.0, normalize=0.6), p.MiyamotoNagaiPotential(a=0.5, b=0.05, normalize=0.4)])


@st.composite
def spec(draw, lo=1, hi=80):
    return dict(cl=draw(rich.specs(lo, hi, lists=False)), amuse=draw(st.integers(0, 6)) == 0, pot=draw(st.sampled_from(["mw", "mw", "log", "nfw", "kepler"])),
                func=draw(st.booleans()), cen=draw(st.integers(0, 2)) == 0, at=draw(st.sampled_from([None, None, None, "both", "rgc"])),
                rgc=draw(st.integers(5, 300)) / 10.0, zgc=draw(st.integers(-80, 80)) / 10.0, it=draw(st.sampled_from([0, 0, 1, 2, 5, 20])),
                conv=draw(st.sampled_from([None, 0.9, 0.99, 0.5, 1.0])), mask=draw(st.sampled_from([None, None, 0.7, 0.3])), nrad=draw(st.sampled_from([None, 20, 3, 5, 8, 1])),
                proj=draw(st.sampled_from([None, True, False])), big=draw(st.sampled_from([0, 0, 1, 2])), nn=draw(st.sampled_from([None, 6, 3, 10, 2])),
                mfrac=draw(st.sampled_from([None, 0.1, 0.2, 0.35, 0.5])), method=draw(st.sampled_from(["casertano", "casertano", "isothermal"])), known=draw(st.integers(0, 3)) > 0)


def setup(s):
    cl = rich.build(s["cl"], lum=False)
    if s["cl"]["origin"] == "galaxy":
        pass
    U = s["cl"]["units"]
    if s["amuse"]:
        cl.to_amuse()
        U = "amuse"
    raw = values(cl)
    L, V, M, T = gen.factors(U, s["cl"]["P"])
    x = np.array([raw[k] for k in "xyz"], float) * L
    c = np.array([raw[k + "c"] for k in "xyz"], float) * L
    g = np.array([raw[k + "gc"] for k in "xyz"], float) * L
    return cl, U, L, raw, x, c, g, np.array(raw["m"], float) * M


def place(s, kw, c, g):
    """Galactocentric (R, z) in kpc at which the host is evaluated."""
    h = (g + c if s["cen"] else g) / 1000.0
    R, z = np.hypot(h[0], h[1]), h[2]
    if s["cen"]:
        kw["from_centre"] = True
    if s["at"] == "both":
        kw["rgc"], kw["zgc"] = s["rgc"], s["zgc"]
        R, z = s["rgc"], s["zgc"]
    elif s["at"] == "rgc" and abs(z) < 1e-12:
        kw["rgc"] = R = s["rgc"]
    return R, z


@check.case("tidal radius", spec(), quick=2500, shards=4)
def tidal(s, C):
    import clustertools as ct
    from galpy.potential import rtide
    from galpy.util import conversion
    cl, U, L, raw, x, c, g, m = setup(s)
    if s["at"] == "rgc":
        cl.zgc = cl.zgc * 0.0
        if cl.origin == "galaxy":
            return
        g[2] = 0.0
    kw = {}
    R, z = place(s, kw, c, g)
    P = s["cl"]["P"]
    pot = potentials()[s["pot"]]
    y = x - (g + c)[:, None] if s["cl"]["origin"] == "galaxy" else x
    r = np.sqrt((y ** 2).sum(0))
    n = len(m)
    ind = np.ones(n, bool)
    if s["mask"] is not None:
        ind = np.random.RandomState(s["cl"]["seed"] ^ 3).uniform(size=n) < s["mask"]
        if not ind.any():
            return
        kw["indx"] = ind.copy()
    if s["it"]:
        kw["rtiterate"] = s["it"]
    if s["conv"]:
        kw["rtconverge"] = s["conv"]
    mo = conversion.mass_in_msol(ro=P["ro"], vo=P["vo"])
    f = lambda M: float(rtide(pot, R / P["ro"], z / P["ro"], M=M / mo, use_physical=False)) * P["ro"] * 1000.0
    tol = 1e-9 * (rich.reach({k: v * L for k, v in raw.items() if k in ("x", "y", "z", "xgc", "ygc", "zgc")}) + r.max())
    with np.errstate(all="ignore"):
        rt, sel, its, left = f(m[ind].sum()), ind.copy(), 0, False
        for _ in range(s["it"]):
            if np.any(np.abs(r - rt) < tol + 1e-7 * rt):
                C.exclude("a star at the tidal radius")
                return
            sel = sel & (r < rt)
            new = f(m[sel].sum())
            its += 1
            if new == 0.0:
                rt = 0.0
                break
            q = new / rt
            if abs(q - (s["conv"] or 0.9)) < 1e-6 and q < 1:
                C.exclude("ratio at the convergence limit")
                return
            if q >= (s["conv"] or 0.9) - (1e-9 if q > 1 - 1e-9 else 0):
                break
            rt = new
    if s["conv"] == 1.0 and its and rt:       # converged exactly up to rounding: either iterate is the same radius
        pass
    before, mask0 = rich.full(cl), ind.copy()
    got = (ct.rtidal(cl, pot, **kw) if s["func"] else cl.rtidal(pot, **kw))
    if not s["func"]:
        need(cl.rt is got, "rtidal does not store what it returns")
    if not np.isfinite(rt):
        C.exclude("no tidal radius")
        return
    close(rich.plain(got, "pc") if rt else arr(rich.plain(got, "pc"), "rt"), rt / L, "rtidal(%s)" % {k: v for k, v in kw.items() if k != "indx"}, rtol=1e-6)
    if "indx" in kw:
        same(kw["indx"], mask0, "the caller's mask")
    rich.unchanged(cl, before, ("rt",), "rtidal")
    C.nt(its >= 2 or not ind.all())
    C.label("iterations %d" % min(its, 3))


@check.case("limiting radius", spec(8, 150), quick=2500, shards=4)
def limiting(s, C):
    import clustertools as ct
    from galpy.potential import evaluateDensities
    from galpy.util import conversion
    if s["pot"] == "kepler":
        return
    # denser or sparser clusters, so that the profile crosses the background at different places
    cl, U, L, raw, x, c, g, m = setup(s)
    if s["at"] == "rgc":
        return
    kw = {}
    R, z = place(s, kw, c, g)
    P = s["cl"]["P"]
    pot = potentials()[s["pot"]]
    proj = (bool(cl.projected) if not s["func"] else False) if s["proj"] is None else s["proj"]
    if s["proj"] is not None:
        kw["projected"] = s["proj"]
    elif not s["func"]:
        proj = False
    if s["nrad"]:
        kw["nrad"] = s["nrad"]
    y = x - (g + c)[:, None] if s["cl"]["origin"] == "galaxy" else x
    r = np.sqrt((y[:2 if proj else 3] ** 2).sum(0))
    lo, mid, up, cnt = binning.num_bins(r, s["nrad"] or 20)
    tol = 1e-9 * (r.max() + rich.reach({k: v * L for k, v in raw.items() if k in ("x", "y", "z", "xgc", "ygc", "zgc")}))
    if len(lo) == 0 or np.any(np.diff(np.sort(r)) < 3 * tol) or np.any(np.diff(up) < 10 * tol):
        C.exclude("ties")
        return
    w = binning.place(r, up)
    vol = np.pi * (up ** 2 - lo ** 2) if proj else 4 * np.pi / 3 * (up ** 3 - lo ** 3)
    p = np.array([m[w == i].sum() for i in range(len(lo))]) / vol
    loc = float(evaluateDensities(pot, R / P["ro"], z / P["ro"], use_physical=False)) * conversion.dens_in_msolpc3(ro=P["ro"], vo=P["vo"])
    if proj:
        loc *= 4.0 * mid[-1] / 3.0          # the background along the depth of the cluster
    if np.any(np.abs(p - loc) < 1e-6 * loc):
        return
    if p[-1] > loc:
        exp = mid[-1]
        C.label("denser than the host")
    elif p[0] < loc:
        exp = 0.0
        C.label("sparser than the host")
    else:
        i = int(np.argmax(p < loc))
        exp = mid[i - 1] + (mid[i] - mid[i - 1]) * (loc - p[i - 1]) / (p[i] - p[i - 1])
        C.label("crossing")
        C.nt()
    before = rich.full(cl)
    got = ct.rlimiting(cl, pot, **kw) if s["func"] else cl.rlimiting(pot, **kw)
    if not s["func"]:
        need(cl.rl is got, "rlimiting does not store what it returns")
    close(rich.plain(got, "pc") if exp or s["amuse"] else got, exp / L, "rlimiting(%s)" % kw, rtol=1e-4, atol=1e-6 * mid[-1] / L)
    rich.unchanged(cl, before, ("rl",), "rlimiting")


@check.case("core radius", spec(2, 100), quick=2500, shards=4)
def core(s, C):
    import clustertools as ct
    cl, U, L, raw, x, c, g, m = setup(s)
    n = len(m)
    origin = s["cl"]["origin"]
    how = s["method"]
    if not s["known"] and how == "casertano" and origin == "cluster":
        cl.xc = cl.yc = cl.zc = cl.xc * 0.0
        c = np.zeros(3)
    allowed = ["rc"]
    kw = dict(method=how)
    if how == "casertano" and s["func"]:
        kw.pop("method")
    y = x if origin == "centre" else x - (c if origin == "cluster" else g + c)[:, None]
    if origin != "centre" and not np.any(c):
        if how != "casertano" or n < 6:
            return
        q = density(x if origin == "cluster" else x - g[:, None], np.zeros((3, n)), m, 6)[:3]
        if not np.all(np.isfinite(q)):
            return
        y = y - q[:, None]
        allowed += ["xc", "yc", "zc", "vxc", "vyc", "vzc"]
        C.label("centre found first")
    proj = False if s["proj"] is None else s["proj"]
    if s["proj"] is not None:
        kw["projected"] = s["proj"]
    k = 2 if proj else 3
    r = np.sqrt((y[:k] ** 2).sum(0))
    tol = 1e-9 * (r.max() + rich.reach({q: v * L for q, v in raw.items() if q in ("x", "y", "z", "xgc", "ygc", "zgc")}))
    if how == "casertano":
        nn = s["nn"] or 6
        if s["nn"]:
            kw["nneighbour"] = nn
        if n < nn:
            return
        d = np.sqrt(((y[:k, :, None] - y[:k, None, :]) ** 2).sum(0))
        o = np.argsort(d, axis=1)
        far = np.take_along_axis(d, o, 1)[:, nn - 1]
        if np.any(far < 1e4 * tol) or np.any(np.diff(np.sort(d, axis=1), axis=1) < 2 * tol):
            C.exclude("coincident stars")
            return
        rho = m[o[:, :nn - 1]].sum(1) / far ** k
        exp = np.sqrt(np.sum(rho ** 2 * r ** 2) / np.sum(rho ** 2))
    else:
        mf = s["mfrac"] or 0.1
        if s["mfrac"]:
            kw["mfrac"] = mf
        nb = int(np.ceil(1.0 / mf))
        lo, mid, up, cnt = binning.num_bins(r, nb)
        if len(lo) < 2 or np.any(np.diff(np.sort(r)) < 3 * tol):
            return
        w = binning.place(r, up)
        vol = np.pi * (up ** 2 - lo ** 2) if proj else 4 * np.pi / 3 * (up ** 3 - lo ** 3)
        p = np.array([m[w == i].sum() for i in range(len(lo))]) / vol
        t = p[0] / (2.0 if proj else 3.0)
        if np.all(p >= t) or np.any(np.abs(p - t) < 1e-6 * t):
            C.exclude("the density does not drop that far")
            return
        i = int(np.argmax(p < t))
        exp = mid[i - 1] + (mid[i] - mid[i - 1]) * (t - p[i - 1]) / (p[i] - p[i - 1])
        if np.any(np.diff(p) > 0):
            C.label("profile not monotonic")
    before = rich.full(cl)
    got = ct.rcore(cl, **kw) if s["func"] else cl.rcore(**kw)
    if not s["func"]:
        need(cl.rc is got, "rcore does not store what it returns")
    C.label(how)
    close(rich.plain(got, "pc"), exp / L, "rcore(%s)" % kw, rtol=1e-5, atol=1e-9 * r.max() / L)
    rich.unchanged(cl, before, tuple(allowed), "rcore")
    C.nt(n >= 10)
