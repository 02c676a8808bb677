"""P02: sky coordinates equal the standard astronomical transformation, and coming back loses nothing."""
import numpy as np
from hypothesis import strategies as st
from vt.core import Check, close, same, need, fail, arr
from vt import gen, sky, machine

check = Check("P02",
    rule="a case is a generated cluster on a generated Galactic orbit with generated solar parameters plus a history "
         "of frame changes in which the sky frame is entered at least once; non-trivial = the sky frame is entered "
         "after another change or left again, and the cluster has at least 2 stars",
    assumptions=["oracle: astropy Galactocentric/ICRS; agreement demanded to 2e-7 deg / 2e-6 mas/yr"])

CART = gen.UNITS


@st.composite
def orbit(draw):
    """Orbital position in kpc, km/s: not within 0.3 kpc of the Sun or the Galactic centre."""
    if draw(st.integers(0, 3)) == 0:     # next to the ra = 0 meridian, far from the poles
        return dict(ra=draw(st.sampled_from([0.0, 359.999, 0.002, 359.95])), dec=draw(st.integers(-70, 70)) * 1.0,
                    dist=draw(st.integers(2, 60)) * 0.5, pm=[draw(gen.num(5)), draw(gen.num(5)), draw(gen.num(200))])
    phi = draw(st.integers(0, 359))
    R = draw(st.integers(5, 250)) / 10.0
    z = draw(gen.num(20))
    if abs(z) < 0.5:
        z += 1.0
    v = [draw(gen.num(250)) for _ in range(3)]
    return [R * np.cos(np.radians(phi + 0.25)), R * np.sin(np.radians(phi + 0.25)), z] + v


OPS = ["to_radec", "to_sky", "to_galaxy", "to_cluster", "to_centre"] + ["to_" + u for u in CART]


@st.composite
def spec(draw):
    ops = draw(st.lists(st.tuples(st.sampled_from(OPS + ["to_radec", "to_sky", "to_cluster", "to_centre"]), st.sampled_from(["method", "func", "generic"]),
                                  st.sampled_from([None, None, None, "orthographic", "VandeVen"])), min_size=0, max_size=5))
    for _ in range(draw(st.integers(0, 2))):
        ops.insert(draw(st.integers(0, len(ops))), draw(st.one_of(
            st.tuples(st.just("new orbit"), orbit(), st.none()),
            st.tuples(st.just("new centre"), st.tuples(*[gen.num(2)] * 6).map(list), st.none()),
            st.tuples(st.just("expand"), st.sampled_from([0.5, 2.0]), st.none()),
            st.tuples(st.just("add stars"), gen.star_specs(1, 4), st.none()))))
    k = draw(st.integers(0, len(ops)))
    ops.insert(k, (draw(st.sampled_from(["to_radec", "to_sky"])), draw(st.sampled_from(["method", "func", "generic"])), None))
    return dict(stars=draw(gen.star_specs(1, 12)), P=draw(gen.params()), start=draw(st.sampled_from(CART)),
                origin=draw(st.sampled_from(["cluster", "centre", "galaxy"])), orbit=draw(orbit()),
                c=[draw(gen.num(2)) for _ in range(6)], ops=[list(o) for o in ops],
                init=draw(st.booleans()))


def position(o, P):
    if isinstance(o, dict):
        return [float(v[0]) for v in sky.from_sky(o["ra"], o["dec"], o["dist"], *o["pm"], P)]
    return o


def build(s):
    P = s["P"]
    L, V, M, T = gen.factors(s["start"], P)
    a, b, _ = gen.scales(s["start"], P)
    cl = gen.new_cluster(s["start"], s["origin"], P)
    e = gen.expand(s["stars"])
    n = len(e["x"])
    o = position(s["orbit"], P)
    g = [v * 1000.0 / L for v in o[:3]] + [v / V for v in o[3:]]
    c = [v * a for v in s["c"][:3]] + [v * b for v in s["c"][3:]]
    off = [0.0] * 6
    if s["origin"] == "galaxy":
        off = g
    add = [e[k] * f + d for k, f, d in zip(("x", "y", "z", "vx", "vy", "vz"), [a, a, a, b, b, b], off)]
    cl.add_stars(*add, e["m"] / M, np.arange(n) + 1, sortstars=True)
    cl.xc, cl.yc, cl.zc, cl.vxc, cl.vyc, cl.vzc = c
    cl.add_orbit(*g)
    return cl


def apply(cl, M, op, how, cm):
    """Perform one frame change on the cluster and the model."""
    import clustertools as ct
    target = op[3:]
    orig = target in ("galaxy", "cluster", "centre", "sky")
    kw = {}
    if cm is not None and target in ("radec", "cluster", "centre", "sky"):
        kw["centre_method"] = cm
    if how == "generic":
        if orig:
            cl.to_origin(target, **kw)
        else:
            kw.pop("centre_method", None)
            cl.to_units(target)
    elif how == "func":
        getattr(ct, op)(cl, **kw)
    else:
        getattr(cl, op)(**kw)
    # model
    if orig:
        if target == "sky":
            if M.units != "radec":
                M.units, M.origin, M.lossy = "radec", "sky", True
            else:
                M.origin = "sky"
        elif target == "galaxy":
            if M.units == "radec":
                M.units = "kpckms"
            M.origin = "galaxy"
        else:
            if "centre_method" in kw:
                if M.origin != target or True:
                    M.method = cm
            M.origin = target
    elif target == "radec":
        if M.units != "radec":
            M.units, M.lossy = "radec", True
            if M.origin == "galaxy":
                M.origin = "sky"
            elif "centre_method" in kw:
                M.method = cm
    else:
        if M.units == "radec":
            M.origin = "galaxy"
        M.units = target


def mutate(cl, M, op, arg, P):
    """Change the physical state itself (between frame changes)."""
    if M.units == "radec":
        if op != "add stars" or M.origin != "sky":
            return False
        e = gen.expand(arg)
        p = np.array([e["x"], e["y"], e["z"]]) * 3.0 + M.gp[:, None]
        v = np.array([e["vx"], e["vy"], e["vz"]]) * 2.0 + M.gv[:, None]
        q = M._sky(p, v)
        cl.add_stars(*q, e["m"])
    else:
        L, V, Mu, T = gen.factors(M.units, P)
        if op == "add stars":
            e = gen.expand(arg)
            p = np.array([e["x"], e["y"], e["z"]]) * 3.0 + M.gp[:, None]
            v = np.array([e["vx"], e["vy"], e["vz"]]) * 2.0 + M.gv[:, None]
            off = {"galaxy": (0, 0), "cluster": (M.gp, M.gv), "centre": (M.gp + M.cp, M.gv + M.cv)}[M.origin]
            op_ = (p - np.reshape(off[0], (-1, 1))) / L
            ov_ = (v - np.reshape(off[1], (-1, 1))) / V
            cl.add_stars(*op_, *ov_, e["m"] / Mu)
        elif op == "new orbit":
            o = np.array(position(arg, P))
            gp, gv = o[:3] * 1000.0, o[3:]
            cl.add_orbit(*(gp / L), *(gv / V))
            if M.origin == "galaxy":
                M.x += (M.gp - gp)[:, None]
                M.v += (M.gv - gv)[:, None]
            M.gp, M.gv = gp, gv
            return True
        elif op == "new centre":
            if M.origin == "centre":
                return False
            M.cp, M.cv = np.array(arg[:3]) * 3.0, np.array(arg[3:]) * 2.0
            cl.xc, cl.yc, cl.zc = M.cp / L
            cl.vxc, cl.vyc, cl.vzc = M.cv / V
            return True
        else:
            if M.origin != "cluster":
                return False
            cl.x, cl.y, cl.z = cl.x * arg, cl.y * arg, cl.z * arg
            cl.analyze()
            M.x = M.x * arg
            return True
    M.x = np.c_[M.x, p - M.gp[:, None]]
    M.v = np.c_[M.v, v - M.gv[:, None]]
    M.m = np.r_[M.m, e["m"]]
    return True


@check.case("history", spec(), quick=1200, shards=8)
def history(s, C):
    cl = build(s)
    M = machine.Model(cl, s["P"])
    skyn = 0
    if s["init"]:
        C.label("orbit initialised beforehand")
        if cl.origin == "galaxy":
            cl.initialize_orbit()
            cl.initialize_orbits()
    for i, (op, how, cm) in enumerate(s["ops"]):
        was = M.units
        if not op.startswith("to_"):
            if not mutate(cl, M, op, how, s["P"]):
                C.label("skipped " + op)
                continue
            M.compare(cl, "after %s (step %d)" % (op, i))
            C.label(op)
            continue
        if M.units == "radec" and M.origin in ("cluster", "centre") and cm is not None and cm != M.method and op in ("to_cluster", "to_centre") and M.origin == op[3:]:
            # already in that frame: the offsets keep the projection they were made with
            C.exclude("re-request of the current offset frame with another projection")
            continue
        apply(cl, M, op, how, cm)
        when = "after %s (step %d)" % (op, i)
        M.compare(cl, when)
        if M.units == "radec":
            skyn += 1
            S, g, c = M.skyview()
            for j, k in enumerate(("ra", "dec", "dist", "pmra", "pmdec", "vlos")):
                t = dict(rtol=1e-7, atol=2e-7) if j < 3 else dict(rtol=1e-6, atol=2e-6)
                if j == 0 and np.shape(cl.ra) == np.shape(S[0]):
                    S[0] = machine.wrap(cl.ra, S[0])
                    g[0], c[0] = machine.wrap(cl.ra_gc, g[0]), machine.wrap(cl.ra_c, c[0])
                close(getattr(cl, k), S[j], k + " " + when, **t)
                close(getattr(cl, k + "_gc"), g[j], k + "_gc " + when, **t)
                close(getattr(cl, k + "_c"), c[j], k + "_c " + when, **t)
        C.label(op)
        if was == "radec" and M.units != "radec":
            C.label("left sky")
            C.nt(gen.size(s["stars"]) > 1)
    C.nt(skyn and len(s["ops"]) > 1 and gen.size(s["stars"]) > 1)
