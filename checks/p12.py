"""P12: Lagrange radii and virial radii are what their definitions say for the stars about the cluster's centre."""
import numpy as np
from hypothesis import strategies as st
from vt.core import Check, close, same, need, fail, arr
from vt import gen, rich

check = Check("P12",
    rule="a case is a generated cluster (any units/origin, AMUSE too, 3D or projected) and the number of Lagrange radii, a mass "
         "fraction, or the virial radius options; non-trivial = at least 3 stars at distinct radii (Lagrange), at least 3 "
         "stars (inverse distance), or the mean density crosses the threshold between two stars (critical density)")


@st.composite
def lspec(draw):
    return dict(cl=draw(rich.specs(1, 80)), n=draw(st.sampled_from([10, 10, 1, 2, 3, 4, 7, 20, 50])),
                mfrac=draw(st.sampled_from([None, None, 0.0, 0.5, 1.0, "r", "r"])), f=draw(st.integers(0, 1000)) ,
                proj=draw(st.sampled_from([None, True, False])), func=draw(st.booleans()), amuse=draw(st.integers(0, 7)) == 0)


@check.case("lagrange", lspec(), quick=2500, shards=4)
def lagrange(s, C):
    import clustertools as ct
    cl = rich.build(s["cl"], lum=False)
    if s["amuse"]:
        cl.to_amuse()
    X, V, M = rich.about(cl)
    before = rich.full(cl)
    func = s["func"] or s["mfrac"] is not None
    proj = s["proj"]
    if func:
        proj = bool(proj)
        mf = s["f"] / 1000.0 if s["mfrac"] == "r" else s["mfrac"]
        got = ct.rlagrange(cl, nlagrange=s["n"], mfrac=mf, projected=proj)
    else:
        mf = None
        got = cl.rlagrange(nlagrange=s["n"], projected=proj)
        proj = cl.projected if proj is None else proj
        need(got is cl.rn or np.all(np.asarray(rich.plain(got, "pc")) == np.asarray(rich.plain(cl.rn, "pc"))), "rlagrange does not store what it returns")
    R = np.sqrt((X[:2 if proj else 3] ** 2).sum(0))
    C.nt(len(set(np.round(R / (R.max() + 1e-300), 12))) >= 3)
    C.label("mfrac" if mf is not None else "list")
    fr = [mf] if mf is not None else [(i + 1.0) / s["n"] for i in range(s["n"])]
    got = np.atleast_1d(arr(rich.plain(got, "pc"), "Lagrange radii"))
    need(got.shape == (len(fr),), "%d Lagrange radii, expected %d" % (got.size, len(fr)))
    tot = np.sum(M)
    tol = 1e-9 * (np.max(np.abs(X)) + rich.reach(before))
    for q, f in zip(got, fr):
        # smallest star radius enclosing the fraction, to rounding of the enclosed mass
        o = np.sort(R)
        ms = np.array([np.sum(M[R <= t * (1 + 1e-12)]) for t in o])
        lo = o[np.argmax(ms >= (f - 1e-9) * tot)]
        hi = o[np.argmax(ms >= min(f + 1e-9, 1 - 1e-13) * tot)] if f < 1 else o[-1]
        need(lo - tol <= q <= hi + tol, "radius enclosing a fraction %.4g of the mass is %r, expected %r" % (f, float(q), float(lo)))
        need(np.min(np.abs(R - q)) <= tol, "%r is not the radius of a star" % float(q))
    rich.unchanged(cl, before, ("rn",) , "rlagrange")


@st.composite
def vspec(draw):
    return dict(cl=draw(rich.specs(2, 60)), full=draw(st.booleans()), proj=draw(st.sampled_from([None, True, False])),
                call=draw(st.sampled_from(["method", "virial_radius", "inverse"])), amuse=draw(st.integers(0, 7)) == 0)


@check.case("inverse distance", vspec(), quick=2000, shards=4)
def inverse(s, C):
    import clustertools as ct
    cl = rich.build(s["cl"], lum=False)
    if s["amuse"]:
        cl.to_amuse()
    X, V, M = rich.about(cl)
    proj = bool(s["proj"]) if s["call"] != "method" or s["proj"] is not None else bool(cl.projected)
    P = X[:2 if proj else 3]
    d = np.sqrt(((P[:, :, None] - P[:, None, :]) ** 2).sum(0))
    i, j = np.triu_indices(len(M), 1)
    if np.any(d[i, j] <= 1e-7 * (rich.reach(rich.full(cl)) + np.max(np.abs(P)))):
        C.exclude("coincident stars")
        return
    C.nt(len(M) >= 3)
    exp = M.sum() ** 2 / (2 * np.sum(M[i] * M[j] / d[i, j]))
    before = rich.full(cl)
    kw = dict(full=s["full"], projected=s["proj"] if s["call"] == "method" else proj)
    if s["call"] == "method":
        got = cl.virial_radius(**kw)
    elif s["call"] == "virial_radius":
        got = ct.virial_radius(cl, method="inverse_distance", **kw)
    else:
        got = ct.virial_radius_inverse_distance(cl, **kw)
    close(rich.plain(got, "pc"), exp, "virial radius %s" % kw, rtol=1e-6)
    rich.unchanged(cl, before, ("rv",), "virial_radius")


@st.composite
def cspec(draw):
    return dict(n=draw(st.integers(3, 40)), seed=draw(st.integers(0, 2 ** 31 - 1)), P=draw(gen.params()), units=draw(st.sampled_from(gen.UNITS)),
                origin=draw(st.sampled_from(["cluster", "centre", "galaxy"])), c=[draw(gen.num(2)) for _ in range(12)],
                H=draw(st.sampled_from([70.0, 70.0, 50.0, 100.0])), over=draw(st.sampled_from([200.0, 200.0, 50.0, 1000.0])),
                where=draw(gen.num(1.2, -0.2)), proj=draw(st.sampled_from([None, True, False])),
                call=draw(st.sampled_from(["method", "virial_radius", "critical"])))


@check.case("critical density", cspec(), quick=1500, shards=2)
def critical(s, C):
    """Stars whose mean enclosed density falls monotonically outwards through H0's critical density times the overdensity."""
    import clustertools as ct
    rs = np.random.RandomState(s["seed"])
    n, P = s["n"], s["P"]
    proj = bool(s["proj"])
    # critical density 3H^2/(8 pi G) in Msun/pc^3
    crit = 3 * (s["H"] * 1e-6) ** 2 / (8 * np.pi * 4.300917270036279e-3) * s["over"]
    # enclosed mean densities, outwards, straddling the threshold
    k = int(round(s["where"] * n))
    f = np.sort(rs.uniform(0.05, 1.2, n))[::-1]
    lp = np.cumsum(-rs.uniform(0.05, 0.5, n))
    lp -= (lp[min(max(k, 0), n - 1)] + rs.uniform(0.02, 0.05)) if 0 <= k < n else (lp[0] + 0.3 if k < 0 else lp[-1] - 0.3)
    dens = crit * np.exp(lp)
    r = np.cumsum(rs.uniform(0.5, 1.0, n)) * 10.0 ** rs.uniform(0, 3)
    mc = dens * 4 / 3 * np.pi * r ** 3
    m = np.diff(np.r_[0.0, mc])
    if np.any(m <= 0):
        r = r * np.exp(np.cumsum(np.abs(np.diff(np.r_[lp[0], lp]))) )
        mc = dens * 4 / 3 * np.pi * r ** 3
        m = np.diff(np.r_[0.0, mc])
    if np.any(m <= 0):
        return
    u = rs.normal(size=(3, n))
    u /= np.sqrt((u[:2 if proj else 3] ** 2).sum(0))
    x = u * r
    L, W, Mu, T = gen.factors(s["units"], P)
    cl = gen.new_cluster(s["units"], s["origin"], P)
    cen = np.array(s["c"][:3]) * r.max() * 0.1
    orb = (np.array(s["c"][3:6]) + 4) * 1000.0
    o = rs.permutation(n)
    sh = (cen + orb)[:, None] if s["origin"] == "galaxy" else 0.0
    y = (x[:, o] + sh) / L
    v = rs.normal(size=(3, n)) / W
    cl.add_stars(*y, *v, m[o] / Mu)
    cl.xc, cl.yc, cl.zc = cen / L
    cl.add_orbit(*(list(orb / L) + [0., 0., 0.]))
    if s["origin"] == "galaxy" and r.min() < 1e-7 * np.abs(orb).max():
        return
    if n <= k or k <= 0:
        C.label("no crossing")
    kw = dict(H=s["H"], overdens=s["over"])
    if s["call"] != "critical":
        kw["method"] = "critical_density"
    before = rich.full(cl)
    if s["call"] == "method":
        got = cl.virial_radius(projected=s["proj"], **kw)
    else:
        got = (ct.virial_radius_critical_density if s["call"] == "critical" else ct.virial_radius)(cl, projected=proj, **kw)
    got = float(got) * L
    i = int(np.argmax(dens < crit)) if np.any(dens < crit) else n
    tol = 1e-6
    if i == 0:
        close(got, r[0], "no star inside the threshold density: innermost radius", rtol=tol)
    elif i == n:
        close(got, r[-1], "all stars inside the threshold density: outermost radius", rtol=tol)
    else:
        C.nt(True)
        exp = r[i - 1] + (crit - dens[i - 1]) / (dens[i] - dens[i - 1]) * (r[i] - r[i - 1])
        if i in (1, n - 1):
            # at either end of the profile the nearest star's radius is used when its density is the closest
            j = int(np.argmin(np.abs(dens - crit)))
            if j in (0, n - 1):
                exp = r[j]
        close(got, exp, "radius where the mean density crosses the threshold", rtol=1e-5)
    rich.unchanged(cl, before, ("rv",), "virial_radius")
