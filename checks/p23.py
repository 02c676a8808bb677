"""P23: orbits - whatever the units, origin and solar parameters, the orbit of a cluster or star is the one it physically has."""
import os, shutil
import numpy as np
from hypothesis import strategies as st
from vt.core import Check, close, same, need, fail, arr
from vt import gen, rich, sky
from checks.p01 import values

check = Check("P23",
    rule="a case is a generated cluster (any units, AMUSE and sky coordinates too, any origin, own or explicit solar parameters) with a "
         "generated orbit; orbits are compared with an independent numerical integration (DOP853) in analytic potentials; non-trivial = "
         "units other than kpckms, or solar parameters that are not the defaults, and a non-zero time for integrations")

ALL = gen.UNITS + ["amuse", "radec"]
SM = [[-11.1, 12.24, 7.25], [-10.0, 11.0, 7.0], [-14.0, 12.24, 7.25]]


@st.composite
def solar(draw):
    """Explicit solar parameters (None: the cluster's own)."""
    if draw(st.integers(0, 2)) > 0:
        return None
    return dict(ro=draw(st.sampled_from([8.0, 8.5, 7.5])), vo=draw(st.sampled_from([220.0, 240.0, 235.5])), zo=draw(st.sampled_from([0.0, 0.025])),
                sm=draw(st.sampled_from(SM)))


@st.composite
def orbit(draw):
    """A Galactocentric state in kpc and km/s that stays away from the centre."""
    R, f, z = draw(st.integers(30, 200)) / 10.0, draw(st.integers(0, 628)) / 100.0, draw(st.integers(-40, 40)) / 10.0
    vR, vT, vz = draw(st.integers(-100, 100)), draw(st.sampled_from([-1, 1])) * draw(st.integers(130, 260)), draw(st.integers(-80, 80))
    c, s = np.cos(f), np.sin(f)
    return [float("%.8g" % v) for v in (R * c, R * s, z, vR * c - vT * s, vR * s + vT * c, vz)]


def explicit(E):
    return {} if E is None else dict(ro=E["ro"], vo=E["vo"], zo=E["zo"], solarmotion=list(E["sm"]))


def natural(units, P):
    """(length in kpc, velocity in km/s, time in Gyr) of one unit."""
    L, V, M, T = gen.factors("pckms" if units == "amuse" else units, P)
    return L / 1000.0, V, T / 1000.0


def amuse_state(X, W):
    import amuse.units.units as u
    return [v * 1000.0 | u.parsec for v in X] + [v | u.kms for v in W]


def state(cl, units, P):
    """Orbital position and velocity of the cluster in kpc and km/s."""
    if units == "radec":
        s = [float(np.squeeze(getattr(cl, k))) for k in ("ra_gc", "dec_gc", "dist_gc", "pmra_gc", "pmdec_gc", "vlos_gc")]
        return [float(v[0]) for v in sky.from_sky(*s, P)]
    L, V, T = natural(units, P)
    return [float(rich.plain(getattr(cl, k + "gc"), "pc")) * L for k in "xyz"] + [float(rich.plain(getattr(cl, "v" + k + "gc"), "kms")) * V for k in "xyz"]


# ------------------------------------------------------------------ giving a cluster an orbit

@st.composite
def add_spec(draw):
    return dict(a=draw(st.sampled_from(ALL)), b=draw(st.sampled_from(ALL)), P=draw(gen.params()), X=draw(orbit()), t=draw(st.sampled_from([None, 0.0, 1.5, 12.0, 3.25])),
                origin=draw(st.sampled_from(["cluster", "centre", "galaxy"])), none=draw(st.booleans()), init=draw(st.integers(0, 3)) == 0, n=draw(st.sampled_from([0, 5])))


@check.case("add_orbit", add_spec(), quick=3000, shards=2, rule="the given orbit is in other units than the cluster")
def add(s, C):
    import amuse.units.units as u
    P, a, b = s["P"], s["a"], s["b"]
    cl = gen.new_cluster(b, "sky" if b == "radec" else s["origin"], P)
    if a == b and s["none"]:
        a_kw = {}
    else:
        a_kw = dict(ounits=a)
    if s["n"] and b not in ("radec", "amuse"):
        L, V, M = gen.scales(b, P)
        e = gen.expand(dict(kind="rand", n=s["n"], seed=3, shape="plummer", mass="equal", off=0.0))
        cl.add_stars(e["x"] * L, e["y"] * L, e["z"] * L, e["vx"] * V, e["vy"] * V, e["vz"] * V, e["m"] * M)
    X, W = s["X"][:3], s["X"][3:]
    if a == "amuse":
        o, t = amuse_state(X, W), None if s["t"] is None else s["t"] | u.Gyr
    elif a == "radec":
        o, t = [float(v[0]) for v in sky.to_sky(*s["X"], P)], s["t"]
    else:
        L, V, T = natural(a, P)
        o, t = [v / L for v in X] + [v / V for v in W], None if s["t"] is None else s["t"] / T
    keep = list(o)
    before = float(rich.plain(cl.tphys, "Myr"))
    old = {k: np.array(getattr(cl, k)) for k in ("x", "vy")} if s["n"] and b not in ("radec", "amuse") else {}
    if s["init"] and old:
        cl.add_orbit(*o, initialize=True, **a_kw, **({} if t is None else dict(tphys=t)))
    else:
        cl.add_orbit(*o, **a_kw, **({} if t is None else dict(tphys=t)))
    got = state(cl, b, P)
    # galpy's and astropy's equatorial axes differ by 1e-8 radians or so
    loose = "radec" in (a, b) and not (a == b == "radec")
    close(got[:3], X, "orbital position added in %s to a cluster in %s" % (a, b), rtol=1e-9, atol=1e-5 * 30 if loose else 1e-9 * 30)
    close(got[3:], W, "orbital velocity added in %s to a cluster in %s" % (a, b), rtol=1e-9, atol=0.03 if loose else 1e-9 * 300)
    if b != "radec":
        rg = float(rich.plain(cl.rgc, "pc")) * natural(b, P)[0]
        close(rg, np.linalg.norm(X), "rgc", rtol=1e-9, atol=3e-4 if loose else 0.0)
    T = 1.0 if b == "radec" else natural(b, P)[2]
    now = float(rich.plain(cl.tphys, "Myr"))
    if s["t"] is None:
        close(now, before, "tphys when no time is given")
    else:
        close(now * T, s["t"], "tphys given in %s to a cluster in %s" % (a, b), rtol=5e-5 if "amuse" in (a, b) else 1e-9)
    need(list(o) == keep if a != "amuse" else True, "add_orbit changed its arguments")
    for k, v in old.items():
        close(getattr(cl, k), v, "%s of the stars after add_orbit" % k, rtol=1e-9, atol=1e-8 * (np.abs(v).max() + (np.linalg.norm(X) / natural(b, P)[0] if k == "x" else np.linalg.norm(W) / natural(b, P)[1])))
    need(cl.units == b, "add_orbit changed the units to %r" % cl.units)
    need(cl.origin == ("sky" if b == "radec" else s["origin"]), "add_orbit changed the origin to %r" % cl.origin)
    if s["init"] and old:
        close([float(np.squeeze(getattr(cl.orbit, k)(use_physical=True, quantity=False))) for k in ("x", "y", "z", "vx", "vy", "vz")], list(X) + list(W), "cluster.orbit", rtol=1e-8, atol=3e-2 if loose else 1e-8)
    C.label("%s -> %s" % (a, b))
    C.nt(a != b)


# ------------------------------------------------------------------ clusters with an orbit

@st.composite
def cluster_spec(draw, units=None, origins=("cluster", "centre", "galaxy"), hi=12):
    return dict(cl=draw(rich.specs(1, hi, lists=False, origins=origins, units=gen.UNITS)), to=draw(st.sampled_from(units or [None, None, None, "amuse", "radec"])),
                X=draw(orbit()), E=draw(solar()), func=draw(st.booleans()))


def make(s, centre=False):
    """(cluster, units, parameters, Galactocentric state in kpc km/s, centre in kpc km/s, stars' coordinates in kpc km/s about the origin)."""
    sp = dict(s["cl"])
    P = sp["P"]
    L, V, T = natural(sp["units"], P)
    sp["c"] = list(sp["c"][:6]) + [v * 0.0 for v in sp["c"][6:]]
    X, W = s["X"][:3], s["X"][3:]
    # the orbital position is put in afterwards: rich.build's own one would have to be rewritten for a cluster in the galaxy frame
    cl = rich.build(dict(sp, origin="cluster"), lum=False)
    cl.add_orbit(*[v / L for v in X], *[v / V for v in W])
    if sp["origin"] != "cluster" or s["to"] == "radec":
        cl.to_origin("galaxy" if s["to"] == "radec" else sp["origin"])
    U = sp["units"]
    if s["to"] == "amuse":
        cl.to_amuse()
        U = "amuse"
    elif s["to"] == "radec":
        cl.to_radec()
        U = "radec"
    return cl, U, P


def about(s):
    """(positions, velocities) in kpc, km/s about the cluster's orbital position, and the centre's."""
    sp = s["cl"]
    e = gen.expand(sp["stars"])
    a, b, m = gen.scales(sp["units"], sp["P"])
    L, V, T = natural(sp["units"], sp["P"])
    x = np.array([e[k] for k in "xyz"]) * a * L
    v = np.array([e["v" + k] for k in "xyz"]) * b * V
    c, w = np.array(sp["c"][:3]) * a * 0.3 * L, np.array(sp["c"][3:6]) * b * 0.3 * V
    return x, v, c, w


def shifted(s, origin):
    x, v, c, w = about(s)
    if origin == "galaxy":
        return x + np.array(s["X"][:3])[:, None], v + np.array(s["X"][3:])[:, None]
    if origin == "centre":
        return x - c[:, None], v - w[:, None]
    return x, v


def solar_of(s):
    P = dict(s["cl"]["P"])
    if s["E"] is not None:
        P.update(s["E"])
    return P


def physical(o, t=None):
    a = () if t is None else (t,)
    return np.array([np.atleast_1d(getattr(o, k)(*a, use_physical=True, quantity=False)) for k in ("x", "y", "z", "vx", "vy", "vz")], float)


def heliocentric(o):
    return np.array([np.atleast_1d(getattr(o, k)(quantity=False)) for k in ("ra", "dec", "dist", "pmra", "pmdec", "vlos")], float)


def near_sky(got, X, P, what, rtol=1e-6):
    """Sky coordinates of the state: compared as positions and velocities, to be free of the poles of the sky."""
    want = np.array(sky.from_sky(*got, P))
    close(want[:3], X[:3], what + ": position on the sky", rtol=rtol, atol=2e-7 * (np.abs(X[:3]).max() + P["ro"]) + rtol)
    close(want[3:], X[3:], what + ": velocity on the sky", rtol=rtol, atol=3e-6 * (np.abs(X[3:]).max() + P["vo"]))


@st.composite
def init_spec(draw):
    return dict(draw(cluster_spec()), cen=draw(st.integers(0, 3)) == 0, both=draw(st.booleans()))


@check.case("initialize", init_spec(), quick=1600, shards=4)
def initialize(s, C):
    """galpy orbits made from a cluster or its stars start where the cluster or star is."""
    import clustertools as ct
    cl, U, P = make(s)
    Q = solar_of(s)
    x, v, c, w = about(s)
    X = np.array(s["X"])
    origin = "sky" if U == "radec" else s["cl"]["origin"]
    need(cl.origin == origin, "origin %r" % cl.origin)
    before = rich.full(cl)
    kw = explicit(s["E"])
    if s["cen"]:
        kw["from_centre"] = True
        X = X + np.concatenate([c, w])
    if U == "radec" and s["E"] is not None:      # what the solar parameters in the call make of the sky coordinates
        X = np.array(sky.from_sky(*sky.to_sky(*X, P), Q))[:, 0]
    if s["func"]:
        o = ct.initialize_orbit(cl, **kw)
    else:
        o = cl.initialize_orbit(**kw)
        need(cl.orbit is o, "initialize_orbit does not store the orbit")
    loose = 1e-5 if U == "radec" else 1e-9
    close(physical(o)[:3, 0], X[:3], "initial position", rtol=1e-9, atol=loose * 30)
    close(physical(o)[3:, 0], X[3:], "initial velocity", rtol=1e-9, atol=loose * 1000)
    close(o.R(use_physical=False), np.hypot(X[0], X[1]) / Q["ro"], "R in natural units", rtol=loose)
    near_sky(heliocentric(o), X[:, None], Q, "orbit seen from the Sun")
    kw.pop("from_centre", None)
    os_ = ct.initialize_orbits(cl, **kw) if s["func"] else cl.initialize_orbits(**kw)
    if not s["func"]:
        need(cl.orbits is os_, "initialize_orbits does not store the orbits")
    y, u_ = shifted(s, "galaxy" if U == "radec" else origin)
    S = np.concatenate([y, u_])
    if U == "radec" and s["E"] is not None:
        S = np.array(sky.from_sky(*sky.to_sky(*S, P), Q))
    got = physical(os_)
    if origin not in ("galaxy", "sky"):
        loose = 1e-9 / 30
        close(got[:3], S[:3], "initial positions of the stars", rtol=1e-9, atol=1e-9 * np.abs(np.array(s["X"][:3])).max())
        close(got[3:], S[3:], "initial velocities of the stars", rtol=1e-9, atol=1e-9 * 300)
    else:
        close(got[:3], S[:3], "initial positions of the stars", rtol=1e-9, atol=loose * 30)
        close(got[3:], S[3:], "initial velocities of the stars", rtol=1e-9, atol=loose * 1000)
        near_sky(heliocentric(os_), S, Q, "stars' orbits seen from the Sun")
    rich.unchanged(cl, before, ("orbit", "orbits"), "initialize_orbit(s)", rtol=1e-9 if U != "radec" else 1e-6)
    C.label(U)
    C.nt(U != "kpckms" or s["E"] is not None)


# ------------------------------------------------------------------ integration

def potential(name):
    from galpy import potential as p
    return dict(log=lambda: p.LogarithmicHaloPotential(normalize=1.0, q=0.9), mn=lambda: p.MiyamotoNagaiPotential(normalize=1.0, a=0.5, b=0.05),
                list=lambda: [p.LogarithmicHaloPotential(normalize=0.6, q=0.9), p.MiyamotoNagaiPotential(normalize=0.4, a=0.5, b=0.05)])[name]()


def acceleration(name, P):
    """(km/s)^2/kpc at a position in kpc."""
    ro, vo, q2 = P["ro"], P["vo"], 0.81
    A, B = 0.5 * ro, 0.05 * ro
    amp = vo ** 2 * ro ** -2 * (ro ** 2 + (A + B) ** 2) ** 1.5        # GM: the circular speed at ro is vo
    fl, fm = dict(log=(1.0, 0.0), mn=(0.0, 1.0), list=(0.6, 0.4))[name]

    def acc(x, y, z):
        a = np.zeros((3,) + np.shape(x))
        if fl:
            d = x * x + y * y + z * z / q2
            a -= fl * vo ** 2 * np.array([x, y, z / q2]) / d
        if fm:
            h = np.sqrt(z * z + B * B)
            d = (x * x + y * y + (A + h) ** 2) ** 1.5
            a -= fm * amp * np.array([x, y, z * (A + h) / h]) / d
        return a
    return acc


def integrate(acc, S, ts):
    """States (6, n, len(ts)) of n particles after the times ts [Gyr], from S (6, n) in kpc and km/s."""
    from scipy.integrate import solve_ivp
    n = S.shape[1]
    k = gen.KMS                     # kpc/Gyr per km/s

    def f(t, y):
        y = y.reshape(6, n)
        return np.concatenate([y[3:] * k, acc(*y[:3]) * k]).ravel()
    out = np.empty((6, n, len(ts)))
    ts = np.asarray(ts, float)
    for side in (1, -1):
        sel = np.argsort(side * ts)
        sel = sel[side * ts[sel] > 0]
        if len(sel):
            r = solve_ivp(f, (0.0, ts[sel[-1]]), S.ravel(), t_eval=ts[sel], method="DOP853", rtol=1e-9, atol=1e-9)
            out[:, :, sel] = r.y.reshape(6, n, -1)
    out[:, :, ts == 0] = S[:, :, None]
    return out


def tgive(t, U, P, cl):
    """The time in Gyr as given to the package: in the cluster's units."""
    if U == "amuse":
        import amuse.units.units as u
        return t | u.Gyr
    return t if U == "radec" else t / natural(U, P)[2]


def states(r, U, P):
    """Returned (x, y, z, vx, vy, vz) in kpc and km/s."""
    need(len(r) == 6, "%d results" % len(r))
    if U == "radec":
        return np.array(sky.from_sky(*[np.atleast_1d(v) for v in r], P))
    L, V, T = natural(U, P)
    return np.array([np.atleast_1d(arr(rich.plain(v, "pc"), "position")) * L for v in r[:3]] + [np.atleast_1d(arr(rich.plain(v, "kms"), "velocity")) * V for v in r[3:]])


def agree(got, want, what, tol=2e-4, R=None):
    close(got[:3], want[:3], what + ": position", rtol=0.0, atol=tol * (np.abs(want[:3]).max() if R is None else R[0]))
    close(got[3:], want[3:], what + ": velocity", rtol=0.0, atol=tol * (np.abs(want[3:]).max() if R is None else R[1]))


@st.composite
def interp_spec(draw):
    return dict(draw(cluster_spec(hi=6)), pot=draw(st.sampled_from(["log", "log", "mn", "list"])), t=draw(st.sampled_from([1, -1])) * draw(st.sampled_from([0.05, 0.3, 1.0, 2.0, 0.01, 12.0])),
                cen=draw(st.integers(0, 4)) == 0, legacy=draw(st.integers(0, 3)) == 0, nt=draw(st.sampled_from([None, 1000, 300, 2])))


def shared(s, U):
    """Options of an interpolation; natural units of explicit parameters are ambiguous for a cluster in natural units."""
    E = s["E"]
    if E is not None and U == "galpy":
        s["E"] = E = None
    kw = explicit(E)
    if s["nt"] is not None:
        kw["nt"] = s["nt"]
    return kw, solar_of(s)


@check.case("cluster orbit", interp_spec(), quick=700, shards=4)
def interp(s, C):
    """interpolate_orbit moves the cluster (and its stars with it) to where its orbit takes it."""
    import clustertools as ct
    s = dict(s)
    if s["t"] in (12.0, -12.0):
        s["t"] = 12.0
    cl, U, P = make(s)
    kw, Q = shared(s, U)
    X = np.array(s["X"])
    x, v, c, w = about(s)
    if s["cen"]:
        kw["from_centre"] = True
        X = X + np.concatenate([c, w])
    if U == "radec" and s["E"] is not None:
        X = np.array(sky.from_sky(*sky.to_sky(*X, P), Q))[:, 0]
    if s["t"] != 12.0:
        kw["tfinal"] = tgive(s["t"], U, P, cl)
    if s["nt"] == 2 and abs(s["t"]) > 2:
        del kw["nt"]
    want = integrate(acceleration(s["pot"], Q), X[:, None], [s["t"]])[:, 0, 0]
    before, pot = rich.full(cl), potential(s["pot"])
    name = "orbit_interpolate" if s["legacy"] and "from_centre" not in kw else "interpolate_orbit"
    tol = 3e-3 if abs(s["t"]) > 3 else 2e-4
    if s["func"]:
        r = getattr(ct, name)(cl, pot=pot, **kw)
        agree(states(r, U, Q)[:, 0], want, name, tol)
        rich.unchanged(cl, before, (), name, rtol=1e-9 if U != "radec" else 1e-6)
    else:
        r = getattr(cl, name)(pot=pot, **kw)
        need(cl.units == U and cl.origin == before["origin"], "%s left the cluster in %s, %s" % (name, cl.units, cl.origin))
        agree(states(r, U, Q)[:, 0], want, "cluster." + name, tol)
        if U == "radec":
            g = [getattr(cl, k) for k in ("ra_gc", "dec_gc", "dist_gc", "pmra_gc", "pmdec_gc", "vlos_gc")]
        else:
            g = [getattr(cl, k + "gc") for k in ("x", "y", "z", "vx", "vy", "vz")]
        agree(states(g, U, Q)[:, 0], want, "orbital state after cluster." + name, tol)
        # the stars follow: they are where they were about the cluster
        if U != "radec":
            raw = values(cl)
            L, V, T = natural(U, P)
            y = np.array([raw[k] for k in "xyz"]) * L
            u_ = np.array([raw["v" + k] for k in "xyz"]) * V
            if cl.origin == "galaxy":
                y = y - np.array([raw[k + "gc"] for k in "xyz"])[:, None] * L
                u_ = u_ - np.array([raw["v" + k + "gc"] for k in "xyz"])[:, None] * V
                e1, e2 = x, v
            else:
                e1, e2 = shifted(s, cl.origin)
            big = 1e-9 * (np.abs(X[:3]).max() + np.abs(want[:3]).max()), 1e-9 * (np.abs(X[3:]).max() + np.abs(want[3:]).max())
            close(y, e1, "stars about the cluster after " + name, rtol=1e-9, atol=big[0])
            close(u_, e2, "velocities of stars about the cluster after " + name, rtol=1e-9, atol=big[1])
            derived(cl, U, name, 1e-7)
    C.label(U)
    C.nt((U != "kpckms" or s["E"] is not None))


@check.case("stars' orbits", interp_spec(), quick=500, shards=4)
def interps(s, C):
    """interpolate_orbits moves every star along its own orbit, and the cluster along its own."""
    import clustertools as ct
    s = dict(s)
    if abs(s["t"]) > 2.0:
        s["t"] = 0.5
    cl, U, P = make(s)
    if cl.origin in ("cluster", "centre"):
        return about_cluster(s, C, cl, U, P)
    kw, Q = shared(s, U)
    X = np.array(s["X"])
    y, v = shifted(s, "galaxy")
    S = np.concatenate([y, v])
    if U == "radec" and s["E"] is not None:
        S, X = np.array(sky.from_sky(*sky.to_sky(*S, P), Q)), np.array(sky.from_sky(*sky.to_sky(*X, P), Q))[:, 0]
    kw["tfinal"] = tgive(s["t"], U, P, cl)
    with np.errstate(all="ignore"):
        want = integrate(acceleration(s["pot"], Q), np.column_stack([S, X]), [s["t"]])[:, :, 0]
    before, pot = rich.full(cl), potential(s["pot"])
    name = "orbits_interpolate" if s["legacy"] else "interpolate_orbits"
    if s["func"]:
        r = getattr(ct, name)(cl, pot=pot, **kw)
        agree(states(r, U, Q), want[:, :-1], name)
        rich.unchanged(cl, before, (), name, rtol=1e-9 if U != "radec" else 1e-6)
    else:
        r = getattr(cl, name)(pot=pot, **kw)
        need(cl.units == U and cl.origin == before["origin"], "%s left the cluster in %s, %s" % (name, cl.units, cl.origin))
        agree(states(r, U, Q), want[:, :-1], "cluster." + name)
        star, gc = (("ra", "dec", "dist", "pmra", "pmdec", "vlos"), ("ra_gc", "dec_gc", "dist_gc", "pmra_gc", "pmdec_gc", "vlos_gc")) if U == "radec" else \
                   (("x", "y", "z", "vx", "vy", "vz"), ("xgc", "ygc", "zgc", "vxgc", "vygc", "vzgc"))
        agree(states([getattr(cl, k) for k in star], U, Q), want[:, :-1], "stars after cluster." + name)
        agree(states([getattr(cl, k) for k in gc], U, Q)[:, 0], want[:, -1], "orbital state after cluster." + name)
        derived(cl, U, name)
    C.label(U)
    C.nt((U != "kpckms" or s["E"] is not None))


def derived(cl, U, name, tol=0.0):
    """Radii, speeds and the order of the stars belong to the new coordinates."""
    if U == "radec":
        return
    raw = values(cl)
    r, v = [np.asarray(rich.plain(q, d), float) for q, d in ((cl.r, "pc"), (cl.v, "kms"))]
    close(r, np.sqrt(sum(np.asarray(raw[k]) ** 2 for k in "xyz")), "r after " + name, rtol=1e-9, atol=tol * r.max())
    close(v, np.sqrt(sum(np.asarray(raw["v" + k]) ** 2 for k in "xyz")), "v after " + name, rtol=1e-9, atol=tol * v.max())
    if cl.rorder is not None and len(cl.rorder) == len(r):
        need(np.all(np.diff(r[cl.rorder]) >= -tol * r.max()), "the order of the stars is outdated after " + name)


def about_cluster(s, C, cl, U, P):
    """In the cluster's or centre's frame the potential is one about the origin."""
    import clustertools as ct
    from galpy.potential import PlummerPotential
    from galpy.util import conversion
    kw, Q = shared(s, U)
    M, b = 2e4, 4.0                                     # Msun, pc
    t = np.sign(s["t"]) * min(abs(s["t"]), 0.03)         # Gyr
    S = np.concatenate(shifted(s, cl.origin))
    G = 4.300917270036279e-6                             # kpc (km/s)^2 / Msun
    acc = lambda x, y, z: -G * M * np.array([x, y, z]) / (x * x + y * y + z * z + (b / 1000.0) ** 2) ** 1.5
    pot = PlummerPotential(amp=M / conversion.mass_in_msol(ro=Q["ro"], vo=Q["vo"]), b=b / 1000.0 / Q["ro"])
    want = integrate(acc, S, [t])[:, :, 0]
    kw["tfinal"] = tgive(t, U, P, cl)
    kw["nt"] = 1000
    before = rich.full(cl)
    g0 = state(cl, U, P)
    R = np.abs(want[:3]).max() + np.abs(S[:3]).max(), np.abs(want[3:]).max() + np.abs(S[3:]).max()
    tol = 1e-3 + 1e-9 * (np.abs(np.array(s["X"])).max() / R[0])
    name = "orbits_interpolate" if s["legacy"] else "interpolate_orbits"
    r = getattr(ct, name)(cl, pot=pot, **kw) if s["func"] else getattr(cl, name)(pot=pot, **kw)
    agree(states(r, U, Q), want, name + " about the cluster", tol, R)
    if s["func"]:
        rich.unchanged(cl, before, (), name)
    else:
        need(cl.units == U and cl.origin == before["origin"], "%s left the cluster in %s, %s" % (name, cl.units, cl.origin))
        agree(states([getattr(cl, k) for k in ("x", "y", "z", "vx", "vy", "vz")], U, Q), want, "stars after cluster." + name, tol, R)
        close(state(cl, U, P), g0, "orbital state of the cluster after " + name, rtol=1e-9)
        derived(cl, U, name)
    C.label(U + " about the cluster")
    C.nt(True)


# ------------------------------------------------------------------ orbital paths

@st.composite
def path_spec(draw):
    return dict(draw(cluster_spec(hi=4)), pot=draw(st.sampled_from(["log", "mn", "list"])), t=draw(st.sampled_from([0.1, 0.02, 0.5, 1.0, None])),
                cen=draw(st.integers(0, 4)) == 0, nt=draw(st.sampled_from([51, 101, 200, 1000])), sky=draw(st.booleans()), init=draw(st.booleans()), legacy=draw(st.integers(0, 3)) == 0)


@check.case("path", path_spec(), quick=800, shards=4)
def path(s, C):
    """orbital_path is the cluster's orbit from tfinal ago to tfinal ahead."""
    import clustertools as ct
    s = dict(s)
    cl, U, P = make(s)
    kw, Q = shared(s, U)
    X = np.array(s["X"])
    x, v, c, w = about(s)
    if s["cen"]:
        kw["from_centre"] = True
        X = X + np.concatenate([c, w])
    if U == "radec":
        if s["E"] is not None:
            X = np.array(sky.from_sky(*sky.to_sky(*X, P), Q))[:, 0]
        s["sky"] = True
    t = 0.1 if s["t"] is None else s["t"]
    tg = None if s["t"] is None else tgive(t, U, P, cl)
    kw["dt" if s["legacy"] else "tfinal"] = tg
    ts = np.linspace(-t, t, s["nt"])
    want = integrate(acceleration(s["pot"], Q), X[:, None], ts)[:, 0, :]
    before, pot = rich.full(cl), potential(s["pot"])
    if s["sky"]:
        kw["skypath"] = True
    if s["init"]:
        kw["initialize"] = True
    if s["func"]:
        r = ct.orbital_path(cl, pot=pot, **kw)
        need(len(r) == (8 if s["init"] else 7), "%d results" % len(r))
        o = r[7] if s["init"] else None
        r = r[:7]
    else:
        r = cl.orbital_path(pot=pot, **kw)
        need(len(r) == 7, "%d results" % len(r))
        for k, q in zip(("tpath", "xpath", "ypath", "zpath", "vxpath", "vypath", "vzpath"), r):
            need(getattr(cl, k) is q, "%s is not what was returned" % k)
        o = cl.orbit if s["init"] else None
    T = 1.0 if U == "radec" else natural(U, P)[2]
    close(arr(rich.plain(r[0], "Myr"), "times") * T, ts, "times of the path", rtol=5e-5 if U == "amuse" else 1e-8, atol=1e-12)
    if s["sky"]:
        got = np.array(sky.from_sky(*[arr(q, "sky coordinate") for q in r[1:]], Q))
    else:
        got = states(r[1:], U, Q)
    agree(got, want, "path", 2e-4)
    if o is not None:
        from galpy.util import conversion
        tt = ts[[0, len(ts) // 3, -1]] * (1 - 1e-9) / conversion.time_in_Gyr(ro=Q["ro"], vo=Q["vo"])
        agree(physical(o, tt).reshape(6, -1), want[:, [0, len(ts) // 3, -1]], "the initialized orbit", 2e-4)
    rich.unchanged(cl, before, ("tpath", "xpath", "ypath", "zpath", "vxpath", "vypath", "vzpath", "orbit"), "orbital_path", rtol=1e-9 if U != "radec" else 1e-6)
    C.label("%s%s" % (U, " on the sky" if s["sky"] else ""))
    C.nt(U != "kpckms" or s["E"] is not None)


# ------------------------------------------------------------------ loading a cluster with its host orbit

@st.composite
def host_spec(draw):
    return dict(cl=draw(rich.specs(1, 6, lists=False)), amuse=draw(st.integers(0, 4)) == 0, E=draw(solar()), t=draw(st.sampled_from([0.0, 0.0, 0.5, 2.0, 1.234])), X=draw(orbit()))


@check.case("host orbit", host_spec(), quick=400, shards=2)
def host(s, C):
    """A cluster loaded with a galpy orbit is, at its own time, where the orbit is then - in the orbit's own scales."""
    import clustertools as ct
    from galpy.orbit import Orbit
    from galpy.util import conversion
    P = s["cl"]["P"]
    Q = dict(gen.DEFAULTS) if s["E"] is None else s["E"]
    X = s["X"]
    R, f = np.hypot(X[0], X[1]), np.arctan2(X[1], X[0])
    c, n = X[0] / R, X[1] / R
    o = Orbit([R / Q["ro"], (X[3] * c + X[4] * n) / Q["vo"], (X[4] * c - X[3] * n) / Q["vo"], X[2] / Q["ro"], X[5] / Q["vo"], f],
              ro=Q["ro"], vo=Q["vo"], zo=Q["zo"], solarmotion=Q["sm"])
    T = conversion.time_in_Gyr(ro=Q["ro"], vo=Q["vo"])
    o.integrate(np.linspace(0, 3.0 / T, 12001), potential("log"))
    U = s["cl"]["units"]
    cl = rich.build(s["cl"], lum=False)
    cl.tphys = s["t"] / natural(U, P)[2]
    if s["amuse"]:
        cl.to_amuse()
        U = "amuse"
    seen = []

    def loader(**kw):
        seen.append(kw)
        return cl
    got = ct.load_cluster(units=U, origin=cl.origin, load_function=loader, orbit=o)
    need(got is cl and got.orbit is o and seen[0]["orbit"] is o, "the orbit is not kept")
    want = integrate(acceleration("log", Q), np.array(X)[:, None], [s["t"]])[:, 0, 0]
    agree(np.array(state(cl, U, P)), want, "the loaded cluster's place on its orbit", 2e-4)
    C.label(U)
    C.nt(s["t"] > 0)
