"""P27: limepy models and models of Galactic globular clusters are the stars limepy draws for the requested model, on the cluster's own orbit."""
import os
import numpy as np
from hypothesis import strategies as st
from vt.core import Check, close, same, need, fail, arr
from vt import gen, sky, rich
from checks.p21 import COORD
from checks.p22 import host_orbit, orbit_lines

check = Check("P27",
    rule="concentration: any King concentration; model: any lowered isothermal model (given as an object or by its parameters; scaled by any radius; anisotropic; several masses) with an orbit, an orbit file or "
         "neither; galactic: any catalogued globular cluster, by any of its names, either catalogue, any number of stars, units and origin (non-trivial = at least 5 stars)",
    assumptions=["limepy.sample draws the same stars for the same model (it sets its own seed)", "14 clusters of Harris (1996) that galpy has no orbit for offline are left out"])

OFFLINE = set("Ko2 KO1 2MSGC01 ESONASC06 2MSGC02 GLIMPSE02 GLIMPSE01 AVDB ESO452SC1 ESO456SC3 2MASSGC01 ESO280SC0 2MASSGC02 AL3".upper().split())


# ------------------------------------------------------------------ concentration
@check.case("concentration", st.tuples(st.floats(0.31, 18.5), st.floats(0.0, 1.0)).map(list), quick=1500)
def concentration(s, C):
    import clustertools as ct
    w, f = s
    c = float(ct.w0_to_c(w))
    close(float(ct.c_to_w0(c)), w, "c_to_w0(w0_to_c(W0))", rtol=1e-8)
    close(float(ct.c_to_w0(w, invert=True)), c, "c_to_w0(invert=True)", rtol=1e-12)
    w2 = 0.31 + f * 18.1
    c2 = float(ct.w0_to_c(w2))
    if abs(w - w2) > 1e-6:
        need((c2 > c) == (w2 > w), "concentration does not grow with W0: %r at %r, %r at %r" % (c, w, c2, w2))
    if 0.5 < w < 14:
        from limepy import limepy
        k = limepy(w, 1)
        close(c, np.log10(k.rt / k.r0), "concentration of a King model of W0=%r" % w, rtol=0, atol=0.01)
        C.nt()


# ------------------------------------------------------------------ comparing clusters with samples
def sample(model, N):
    from limepy import sample as draw
    state = np.random.get_state()
    try:
        d = draw(model, N=N)
    except Exception:                          # limepy cannot draw stars of this model
        return dict(m=np.array([np.nan]))
    finally:
        np.random.set_state(state)
    return {k: np.array(getattr(d, k)) for k in list(COORD) + ["m"]}


def number(a):
    q = rich.strip(a)
    return np.asarray(a if q is None else q[0], float)


def stars(cl, d, units, origin, orb, what, P):
    """The stars `d` (pc, km/s, Msun or the units of the cluster if L, V, M are 1) around the orbit `orb` (kpc, km/s)."""
    n = len(d["m"])
    need(cl.ntot == n and len(cl.x) == n, "%s: %r stars instead of %d" % (what, cl.ntot, n))
    need(cl.units == units, "%s is in units %r instead of %r" % (what, cl.units, units))
    need(cl.origin == origin, "%s has its origin at %r instead of %r" % (what, cl.origin, origin))
    same(np.sort(arr(cl.id, "id")), np.arange(1, n + 1), what + ": ids")
    v = number
    if origin == "sky":
        X = [d[k] / 1000.0 + orb[0][j] for j, k in enumerate("xyz")]
        W = [d["v" + k] + orb[1][j] for j, k in enumerate("xyz")]
        e = sky.to_sky(*X, *W, P)
        for k, a in zip(("ra", "dec", "dist", "pmra", "pmdec", "vlos"), e):
            close(getattr(cl, k), a, "%s: %s" % (what, k), rtol=1e-6, atol=1e-6 * max(1.0, np.max(np.abs(a))))
        return
    if units == "amuse":
        L, V, M = 1.0, 1.0, 1.0
        x = {k: v(getattr(cl, k)) for k in list(COORD) + ["m", "xgc", "ygc", "zgc", "vxgc", "vygc", "vzgc", "xc", "yc", "zc", "vxc", "vyc", "vzc"]}
    else:
        L, V, M, T = gen.factors(units, P) if orb is not None else (1.0, 1.0, 1.0, 1.0)
        if units == "nbody" and orb is not None:
            L, V, M = cl.rbar, cl.vbar, cl.zmbar
        x = {k: v(getattr(cl, k)) for k in list(COORD) + ["m", "xgc", "ygc", "zgc", "vxgc", "vygc", "vzgc", "xc", "yc", "zc", "vxc", "vyc", "vzc"]}
    close(x["m"] * M, d["m"], what + ": m", rtol=1e-8)
    for j, k in enumerate("xyz"):
        pos, vel = x[k] * L, x["v" + k] * V
        gx, gv = x[k + "gc"] * L, x["v" + k + "gc"] * V
        if orb is not None:
            close(gx, orb[0][j] * 1000.0, "%s: orbital %s" % (what, k), rtol=1e-8, atol=1e-6)
            close(gv, orb[1][j], "%s: orbital v%s" % (what, k), rtol=1e-8, atol=1e-6)
        if origin == "galaxy":
            pos, vel = pos - gx, vel - gv
        elif origin == "centre":
            pos, vel = pos + x[k + "c"] * L, vel + x["v" + k + "c"] * V
        close(pos, d[k], "%s: %s" % (what, k), rtol=1e-8, atol=1e-9 * (1 + abs(gx) + np.max(np.abs(d[k]))))
        close(vel, d["v" + k], "%s: v%s" % (what, k), rtol=1e-8, atol=1e-9 * (1 + abs(gv) + np.max(np.abs(d["v" + k]))))


def sorted_by_radius(cl, what):
    """Loading analyses the cluster: its orders and half-mass radius are those of the stars it holds."""
    v = number
    if cl.origin == "sky" or cl.units == "radec":
        return
    r = np.sqrt(v(cl.x) ** 2 + v(cl.y) ** 2 + v(cl.z) ** 2)
    close(v(cl.r), r, what + ": r", rtol=1e-10)
    need(np.all(np.diff(r[np.asarray(cl.rorder, int)]) >= 0), what + ": stars are not ordered by radius")
    close(float(v(cl.rmax)), np.max(r), what + ": rmax", rtol=1e-10)
    need(cl.ctype == "limepy", "%s has ctype %r" % (what, cl.ctype))


# ------------------------------------------------------------------ models
@st.composite
def mspec(draw):
    return dict(W0=draw(st.floats(1.5, 9.0)), g=draw(st.one_of(st.sampled_from([0.0, 1.0, 1.5, 2.0]), st.floats(0.01, 2.2))), N=draw(st.integers(1, 60)), M=draw(st.floats(10.0, 1e5)), R=draw(st.floats(0.1, 60)),
                scale=draw(st.sampled_from(["rt", "rv", "rh", "rm", "r0", "rc", "none", "nbody"])), obj=draw(st.booleans()), phi=draw(st.booleans()), gdef=draw(st.booleans()), how=draw(st.sampled_from(["N", "N", "mbar"])),
                kind=draw(st.sampled_from(["plain", "plain", "plain", "ani", "multi"])), ra=draw(st.floats(4.0, 50.0)), mj=draw(st.sampled_from([[0.3, 1.0], [0.5, 1.0, 2.0], [0.4, 0.9]])), origin=draw(st.sampled_from(["cluster", "centre", "galaxy"])),
                orbit=draw(st.sampled_from(["none", "none", "orbit", "ofile"])), seed=draw(st.integers(0, 2 ** 31)), units=draw(st.sampled_from(["pckms", "nbody"])))


@check.case("model", mspec(), quick=480, shards=3)
def model(s, C):
    import clustertools as ct
    from limepy import limepy
    g = 1.0 if s["gdef"] else s["g"]
    W0 = min(s["W0"], 6.5) if s["kind"] != "plain" else s["W0"]
    extra = {}
    M, N = s["M"], s["N"]
    if s["kind"] == "ani":
        extra = dict(ra=s["ra"])
    elif s["kind"] == "multi":
        mj = s["mj"]
        M = float(np.clip(s["M"], 60.0, 200.0))
        extra = dict(mj=mj, Mj=[5.0, 2.0, 1.0][:len(mj)])
    if s["kind"] != "multi" and s["how"] == "mbar":
        M = min(M, 200.0) + 0.5
    key = {"rm": "rh", "rc": "r0"}.get(s["scale"], s["scale"])
    if s["scale"] == "nbody" and s["kind"] == "multi":
        key = "none"
    if key == "nbody":
        o = dict(G=1, M=1, rv=1)
        k = {}
    elif key == "none":
        o, k = dict(M=M, rv=1.0), dict(M=M)
    else:
        o, k = dict(M=M, **{key: s["R"]}), {"M": M, s["scale"]: s["R"]}
    try:
        m = limepy(W0, g, **o, **extra)
        ok = m.converged and m.rt > 0
    except (ValueError, IndexError):
        ok = False
    if not ok:
        C.exclude("limepy finds no such model")
        return
    if s["kind"] == "multi":
        if min(np.array(m.Mj / m.mj, dtype=int)) == 0:
            C.exclude("limepy finds no such model")
            return
    mbar = None
    if s["how"] == "mbar" and key != "nbody":
        mbar = max(0.5, M / 300.0)
        N = int(M / mbar)
    d = sample(m, N)
    if not all(np.all(np.isfinite(v)) for v in d.values()):
        C.exclude("limepy finds no such model")
        return
    kw = dict(units=s["units"], origin=s["origin"])
    if s["obj"]:
        kw["model"] = m
    else:
        kw.update(k, **extra)
        kw["phi0" if s["phi"] else "W0"] = W0
        if not s["gdef"]:
            kw["g"] = g
    if mbar is None:
        kw["N"] = N
    else:
        kw["mbar"] = mbar
    orb = None
    if s["orbit"] == "none" and s["origin"] == "galaxy":
        kw["origin"] = "cluster"
    if s["orbit"] == "orbit":
        ob = host_orbit()
        kw["orbit"] = ob
        orb = [[ob.x(0), ob.y(0), ob.z(0)], [ob.vx(0), ob.vy(0), ob.vz(0)]]
    elif s["orbit"] == "ofile":
        rs = np.random.RandomState(s["seed"])
        X, W, t, Xn, Wn, tn = orbit_lines(rs, 1, "kpckms", dict(gen.DEFAULTS))
        np.savetxt("orbit.dat", np.column_stack([tn, Xn, Wn]), fmt="%.17g")
        kw.update(ofile=open("orbit.dat"), ounits="kpckms")
        orb = [X[0], W[0]]
    if orb is not None and s["units"] == "nbody":
        kw["units"] = "pckms"
    cl = ct.load_cluster("limepy", **kw)
    what = "model of W0=%.4g, g=%.4g" % (W0, g)
    if orb is None:                            # numbers of the model as they are
        need(np.all(np.array([cl.xgc, cl.ygc, cl.zgc, cl.vxgc, cl.vygc, cl.vzgc]) == 0), what + " has an orbit nobody gave")
    stars(cl, d, kw["units"], kw["origin"], orb, what, dict(gen.DEFAULTS))
    sorted_by_radius(cl, what)
    close(np.sum(cl.m), np.sum(d["m"]), what + ": mass", rtol=1e-9)
    C.label(s["kind"])
    C.label("orbit:" + s["orbit"])
    C.nt(len(d["m"]) >= 5)


# ------------------------------------------------------------------ Galactic globular clusters
TAB = {}


def tables():
    if not TAB:
        from vt.core import REPO
        p = os.path.join(REPO, "clustertools", "io", "data")
        rows = [l.split() for l in open(os.path.join(p, "deBoer2019.dat"))]
        TAB["deboer"] = {r[0].upper(): dict(W=float(r[1]), g=float(r[3]), rt=float(r[5]), M=float(r[7])) for r in rows if r and not r[0].startswith("#")}
        rows = [l.split() for l in open(os.path.join(p, "harris2010.dat"))]
        TAB["harris"] = {}
        TAB["names"] = []
        for r in rows:
            if r and not r[0].startswith("#"):
                d = dict(M=float(r[2]), rc=float(r[3]), rt=float(r[5]))
                names = [r[0]] + ([r[1]] if r[1].lower() != "na" else [])
                for n in names:
                    TAB["harris"][n.upper()] = d
                TAB["names"].append(names)
    return TAB


def galpy_orbit(name):
    from galpy.orbit import Orbit
    P = gen.DEFAULTS
    key = ("orbit", name)
    if key not in TAB:
        TAB[key] = Orbit.from_name(name, ro=P["ro"], vo=P["vo"], solarmotion=P["sm"])
    return TAB[key]


GPAIRS = [(u, o) for u in ("pckms", "kpckms", "pcmyr", "kpcgyr", "galpy", "WDunits", "amuse", "nbody") for o in ("cluster", "centre", "galaxy")] + [("radec", "sky")] * 2


@st.composite
def gspec(draw):
    return dict(i=draw(st.integers(0, 10 ** 6)), alias=draw(st.booleans()), case=draw(st.sampled_from(["as is", "lower", "upper", "title"])), source=draw(st.sampled_from(["default", None, "deBoer", "deboer", "Harris", "harris"])),
                N=draw(st.one_of(st.none(), st.integers(1, 60))), per=draw(st.floats(5.0, 200.0)), uo=draw(st.sampled_from(GPAIRS)), citation=draw(st.booleans()))


@check.case("galactic", gspec(), quick=900, shards=3)
def galactic(s, C):
    import clustertools as ct
    from limepy import limepy
    T = tables()
    src = s["source"]
    pool = [n for n in T["names"] if not any(a.upper() in OFFLINE for a in n)]
    if src in ("deBoer", "deboer"):
        pool = [n for n in pool if any(a.upper() in T["deboer"] for a in n)]
    names = pool[s["i"] % len(pool)]
    name = names[-1] if s["alias"] else names[0]
    hit = [n.upper() for n in [name] + names if n.upper() in T["deboer"]]
    if src in (None, "default", "deBoer", "deboer") and hit:
        p = T["deboer"][hit[0]]
        W, g, rt, M = p["W"], p["g"], p["rt"], p["M"]
        C.label("de Boer")
    else:
        p = T["harris"][name.upper()]
        W, g, rt, M = float(ct.c_to_w0(np.log10(p["rt"] / p["rc"]))), 1.0, p["rt"], p["M"]
        C.label("Harris")
    try:
        orb = galpy_orbit(names[0])
    except Exception:
        try:
            orb = galpy_orbit(names[-1])
        except Exception:
            C.exclude("galpy has no orbit")
            return
    asked = {"as is": name, "lower": name.lower(), "upper": name.upper(), "title": name.title()}[s["case"]]
    units, origin = s["uo"]
    kw = dict(units=units, origin=origin)
    if s["N"] is None:
        kw["mbar"] = M / s["per"]
        N = int(M / kw["mbar"])
    else:
        kw["N"] = N = s["N"]
    if src is not None:
        kw["source"] = src
    if not s["citation"]:
        kw["citation"] = False
    m = limepy(W, g, M=M, rt=rt)
    if not m.converged:
        C.exclude("limepy finds no such model")
        return
    d = sample(m, N)
    if not all(np.all(np.isfinite(v)) for v in d.values()):
        C.exclude("limepy finds no such model")
        return
    if units == "nbody" and N < 2:
        C.exclude("no virial radius")
        return
    cl = ct.load_cluster("limepy", gcname=asked, **kw)
    P = dict(gen.DEFAULTS)
    o = [[orb.x(), orb.y(), orb.z()], [orb.vx(), orb.vy(), orb.vz()]]
    what = "model of %s" % asked
    stars(cl, d, units, origin, o, what, P)
    if units == "nbody":
        close(np.sum(cl.m), 1.0, what + ": mass in N-body units", rtol=1e-8)
    sorted_by_radius(cl, what)
    need(cl.orbit is not None, what + " has no orbit")
    close([cl.orbit.x(), cl.orbit.y(), cl.orbit.z(), cl.orbit.vx(), cl.orbit.vy(), cl.orbit.vz()], o[0] + o[1], what + ": galpy orbit", rtol=1e-9)
    C.label(units)
    C.nt(N >= 5)
