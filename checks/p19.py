"""P19: spherical, cylindrical and sky coordinates follow their definitions and invert each other."""
import numpy as np
from hypothesis import strategies as st
from vt.core import Check, close, same, need, fail, arr
from vt import gen, rich, sky

check = Check("P19",
    rule="a case is a set of phase-space points (any octant and scale, arrays or scalars) or a generated cluster (any units and "
         "origin, AMUSE and sky included); non-trivial = at least 3 points in at least 2 octants, or a cluster of 3 stars")

NAMES = ["spherical r", "phi", "theta", "v_r", "v_phi", "v_theta"]
CYL = ["cylindrical R", "phi", "z", "v_R", "v_phi", "v_z"]


def bases(x, y, z):
    """Unit vectors of the spherical and cylindrical coordinates from cross products, not from angles."""
    X = np.array([x, y, z], float)
    r = np.sqrt((X ** 2).sum(0))
    R = np.sqrt(x ** 2 + y ** 2)
    er = X / r
    ep = np.array([-y / R, x / R, 0 * z])
    eR = np.array([x / R, y / R, 0 * z])
    et = np.cross(ep, er, axis=0)               # towards increasing polar angle: e_phi x e_r
    return r, R, er, ep, et, eR


def reference(x, y, z, vx, vy, vz):
    r, R, er, ep, et, eR = bases(x, y, z)
    V = np.array([vx, vy, vz])
    dot = lambda e: (V * e).sum(0)
    phi = np.arctan2(y, x)
    th = np.arctan2(R, z)
    return ([r, phi, th, dot(er), dot(ep), dot(et)], [R, phi, z, dot(eR), dot(ep), vz])


def wrap(a):
    return (np.asarray(a) + np.pi) % (2 * np.pi) - np.pi


def compare(got, exp, names, L, W, rr, tol=1e-9):
    """rr = smallest distance to the axis: what the angles and tangential components are sensitive to."""
    need(len(got) == 6, "%d results" % len(got))
    for g, e, n in zip(got, exp, names):
        s = 1.0 if n in ("phi", "theta") else (W if n.startswith("v_") else L)
        d = L / rr
        t = tol * (d if n in ("phi", "theta") or n.startswith("v_") else 1)
        if n == "theta":
            t = max(t, 3e-8 * 1)           # arccos near the poles
        if n in ("phi",):
            close(wrap(arr(g, n) - e), 0 * np.asarray(e), n + " (difference)", atol=t)
        else:
            close(g, e, n, rtol=1e-9, atol=t * s)


@st.composite
def pts(draw):
    return dict(seed=draw(st.integers(0, 2 ** 31)), n=draw(st.sampled_from([1, 1, 2, 5, 30])), L=draw(st.sampled_from([1.0, 1e-3, 8.0, 1e4])),
                W=draw(st.sampled_from([1.0, 1e-4, 200.0])), flat=draw(st.sampled_from([None, None, None, "z", "x", "y"])), scalar=draw(st.booleans()),
                sky=draw(st.integers(0, 7)) == 0, P=draw(gen.params()), own=draw(st.booleans()))


@check.case("transforms", pts(), quick=4000, shards=4)
def transforms(s, C):
    import clustertools as ct
    rs = np.random.RandomState(s["seed"])
    n = s["n"]
    X, V = rs.normal(0, 1, (3, n)), rs.normal(0, 1, (3, n)) * s["W"]
    if s["flat"]:
        X["xyz".index(s["flat"])] = 0.0
    X *= s["L"]
    C.nt(n >= 5)
    R = np.sqrt(X[0] ** 2 + X[1] ** 2)
    r = np.sqrt((X ** 2).sum(0))
    if np.min(R / r) < 1e-3:
        return
    if s["sky"]:
        X[0] += s["L"] * 0
        P = s["P"] if s["own"] else gen.DEFAULTS
        kx = X / s["L"] * 5.0
        v = V / s["W"] * 150.0
        d = np.sqrt((kx[0] - P["ro"]) ** 2 + kx[1] ** 2 + (kx[2] - P["zo"]) ** 2)
        if np.min(d) < 0.05 or np.min(np.sqrt(kx[0] ** 2 + kx[1] ** 2)) < 1e-3:
            return
        kw = dict(ro=P["ro"], vo=P["vo"], zo=P["zo"], solarmotion=list(P["sm"])) if s["own"] else {}
        one = s["scalar"] and n == 1
        a = [float(q[0]) for q in list(kx) + list(v)] if one else [q.copy() for q in list(kx) + list(v)]
        got = ct.cart_to_sky(*a, **kw)
        exp = sky.to_sky(*(list(kx) + list(v)), P)
        names = ["ra", "dec", "distance", "pmra", "pmdec", "radial velocity"]
        need(len(got) == 6, "%d results" % len(got))
        for g, e, nm in zip(got, exp, names):
            g = np.atleast_1d(np.asarray(g, float))
            if nm == "ra":
                close((g - e + 180) % 360 - 180, 0 * e, "ra (difference)", atol=2e-3)
            else:
                close(g, e, nm, rtol=3e-4, atol=dict(dec=2e-3).get(nm, 1e-3))
        C.label("sky")
        return
    one = s["scalar"] and n == 1
    a = [float(q[0]) for q in list(X) + list(V)] if one else [q.copy() for q in list(X) + list(V)]
    C.label("scalars" if one else "arrays")
    keep = [np.copy(q) for q in a]
    es, ec = reference(*(list(X) + list(V)))
    if one:
        es, ec = [q[0] for q in es], [q[0] for q in ec]
    L, W, rr = r.max(), s["W"] * 5, R.min()
    gs = ct.cart_to_sphere(*a)
    compare(gs, es, NAMES, L, W, rr)
    gc = ct.cart_to_cyl(*a)
    compare(gc, ec, CYL, L, W, rr)
    for g in gc:
        for b in a:
            if isinstance(b, np.ndarray) and isinstance(g, np.ndarray):
                need(not np.shares_memory(g, b), "cart_to_cyl returns the caller's array")
    # the inverses, from the reference coordinates and from what the package returned
    for args, fn, nm in ((es, ct.sphere_to_cart, "sphere_to_cart"), (gs, ct.sphere_to_cart, "sphere_to_cart(cart_to_sphere)"),
                         (ec, ct.cyl_to_cart, "cyl_to_cart"), (gc, ct.cyl_to_cart, "cyl_to_cart(cart_to_cyl)")):
        args = [np.copy(q) if not one else float(q) for q in args]
        back = fn(*args)
        need(len(back) == 6, "%d results" % len(back))
        for g, e, k in zip(back, keep, ("x", "y", "z", "vx", "vy", "vz")):
            close(g, e, nm + " " + k, rtol=1e-7, atol=1e-7 * (W if k[0] == "v" else L) * (1 if "sphere" not in nm else 10))
    for q, k in zip(a, keep):
        same(q, k, "the caller's coordinates")


@st.composite
def cspec(draw):
    return dict(cl=draw(rich.specs(1, 30)), amuse=draw(st.integers(0, 7)) == 0, sky=draw(st.integers(0, 3)) == 0,
                fn=draw(st.sampled_from(["sphere", "cyl", "sky", "sky"])), own=draw(st.booleans()), P2=draw(gen.params()))


@check.case("clusters", cspec(), quick=1500, shards=6)
def clusters(s, C):
    import clustertools as ct
    from checks.p01 import values
    cl = rich.build(s["cl"], lum=False)
    U, P, f = s["cl"]["units"], s["cl"]["P"], s["fn"]
    L, W, M, T = gen.factors(U, P)
    unscaled = U == "nbody" and False
    raw = values(cl)
    X = np.array([raw[k] for k in ("x", "y", "z")], float)
    V = np.array([raw[k] for k in ("vx", "vy", "vz")], float)
    g = cl.origin
    sk = s["sky"] and f != "cyl"
    if f == "sky" or sk:          # galactocentric kpc and km/s
        off = np.zeros(6)
        if g in ("cluster", "centre"):
            off += [raw[k] for k in ("xgc", "ygc", "zgc", "vxgc", "vygc", "vzgc")]
        if g == "centre":
            off += [raw[k] for k in ("xc", "yc", "zc", "vxc", "vyc", "vzc")]
        GX, GV = (X + off[:3, None]) * L / 1000.0, (V + off[3:, None]) * W
        d = np.sqrt((GX[0] - P["ro"]) ** 2 + GX[1] ** 2 + (GX[2] - P["zo"]) ** 2)
        R = np.sqrt(GX[0] ** 2 + GX[1] ** 2)
        if np.min(d) < 0.3 or np.max(d) > 300 or np.min(R) < 0.05:
            return
    if sk:
        cl.to_sky()
        C.label("from the sky")
        if np.abs(GV).max() < 1.0:
            return
    elif s["amuse"]:
        cl.to_amuse()
        C.label("AMUSE")
    before = rich.full(cl)
    C.label(f)
    C.nt(X.shape[1] >= 3)
    if f == "sky":
        kw, Q = {}, P
        if s["own"]:
            Q = s["P2"]
            if np.min(np.sqrt((GX[0] - Q["ro"]) ** 2 + GX[1] ** 2 + (GX[2] - Q["zo"]) ** 2)) < 0.3:
                return
            kw = dict(ro=Q["ro"], vo=Q["vo"], zo=Q["zo"], solarmotion=list(Q["sm"]))
        got = ct.sky_coords(cl, **kw)
        exp = sky.to_sky(*(list(GX) + list(GV)), Q)
        need(len(got) == 6, "%d results" % len(got))
        for h, e, nm in zip(got, exp, ["ra", "dec", "distance", "pmra", "pmdec", "radial velocity"]):
            h = np.atleast_1d(arr(h, nm))
            need(h.shape == e.shape, "%s: %s values for %d stars" % (nm, h.shape, len(e)))
            if nm == "ra":
                close((h - e + 180) % 360 - 180, 0 * e, "ra (difference)", atol=3e-3 / np.maximum(np.cos(np.radians(exp[1])), 1e-3).min())
            else:
                close(h, e, nm, rtol=1e-3, atol=3e-3)
    else:
        if sk:
            X, V = GX, GV
        elif s["amuse"]:
            X, V = X * L, V * W
        if np.min(np.sqrt(X[0] ** 2 + X[1] ** 2)) <= 1e-3 * np.abs(X).max():
            return
        got = (ct.sphere_coords if f == "sphere" else ct.cyl_coords)(cl)
        es, ec = reference(*(list(X) + list(V)))
        fr = 1.0
        tol = 1e-4 if sk else (1e-7 if s["amuse"] else 1e-9)
        compare(got, es if f == "sphere" else ec, NAMES if f == "sphere" else CYL, rich.reach(before) if not (sk or s["amuse"]) else np.abs(X).max() + 1e-300,
                np.abs(V).max() + (np.max(np.abs(off[3:])) * W if sk else 0) + 1e-9 * (1 if sk else max(abs(raw[k]) for k in ("vxgc", "vygc", "vzgc", "vxc", "vyc", "vzc"))) + 1e-300,
                np.min(np.sqrt(X[0] ** 2 + X[1] ** 2)) if not sk else np.abs(X).max(), tol=tol)
    rich.unchanged(cl, before, (), f + "_coords", rtol=1e-7 if not sk else 1e-5)
