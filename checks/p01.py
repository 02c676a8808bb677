"""P01: unit conversions preserve the physical state, along any path."""
import numpy as np
from hypothesis import strategies as st
from vt.core import Check, close, same, need, fail, arr
from vt import gen

check = Check("P01",
    rule="a case is a generated cluster (stars, centre offset, orbital position, age, scale parameters) in one unit "
         "system plus a sequence of unit-system conversions and the analyze flag of each; non-trivial = at least 2 "
         "conversions that actually change the unit system and some non-zero centre/orbit value",
    assumptions=["reference factors use IAU pc / Julian year and galpy's G; compared to 1e-8 relative"])

ALL = gen.UNITS + ["amuse"]
KINDS = dict(x=0, y=0, z=0, vx=1, vy=1, vz=1, m=2, xc=0, yc=0, zc=0, vxc=1, vyc=1, vzc=1,
             xgc=0, ygc=0, zgc=0, vxgc=1, vygc=1, vzgc=1, tphys=3)
AM = {0: "parsec", 1: "kms", 2: "MSun", 3: "Myr"}


def values(cl):
    out = {}
    import amuse.units.units as u
    for k, d in KINDS.items():
        v = getattr(cl, k)
        if cl.units == "amuse":
            try:
                v = v.value_in(getattr(u, AM[d]))
            except AttributeError:
                fail("%s has no AMUSE unit after to_amuse" % k)
        out[k] = arr(v, k).copy()
    return out


def call(cl, units, how, analyze):
    import clustertools as ct
    if how == "method":
        getattr(cl, "to_" + units)(analyze=analyze)
    elif how == "func":
        getattr(ct, "to_" + units)(cl, analyze=analyze)
    else:
        cl.to_units(units)


@st.composite
def spec(draw):
    P = draw(gen.params())
    six = [draw(gen.num(5)) for _ in range(12)]
    steps = draw(st.lists(st.tuples(st.sampled_from(ALL), st.sampled_from(["method", "func", "to_units"]),
                                    st.booleans()), min_size=1, max_size=6))
    return dict(stars=draw(gen.star_specs(1, 30)), P=P, start=draw(st.sampled_from(gen.UNITS)),
                origin=draw(st.sampled_from(["cluster", "centre", "galaxy", None])), c=six,
                tphys=draw(st.sampled_from([0.0, 1.0, 12.5, 3.0])), steps=[list(s) for s in steps])


@check.case("history", spec(), quick=3000, shards=4)
def history(s, C):
    P = s["P"]
    cl = gen.make(s["stars"], s["start"], s["origin"], P, tphys=s["tphys"])
    a, b, _ = gen.scales(s["start"], P)
    c = s["c"]
    cl.xc, cl.yc, cl.zc, cl.vxc, cl.vyc, cl.vzc = [v * f for v, f in zip(c[:6], [a, a, a, b, b, b])]
    cl.add_orbit(*[v * f for v, f in zip(c[6:], [1e3 * a] * 3 + [80 * b] * 3)])
    keep = {k: np.array(getattr(cl, k), copy=True) for k in ("id", "m0", "npop")}
    if cl.origin is None:
        C.label("origin None")
    v0 = values(cl)
    u0 = s["start"]
    changed = 0
    for units, how, an in s["steps"]:
        if units != cl.units:
            changed += 1
        call(cl, units, how, an)
        need(cl.units == units, "units label is %r after conversion to %s" % (cl.units, units))
        need(cl.origin == s["origin"], "origin changed from %r to %r by a unit conversion" % (s["origin"], cl.origin))
        f0, f1 = gen.factors(u0, P), gen.factors(units, P)
        got = values(cl)
        for k, d in KINDS.items():
            close(got[k], v0[k] * (f0[d] / f1[d]), "%s after %s -> %s" % (k, u0, units), rtol=1e-8)
        for k, v in keep.items():
            same(getattr(cl, k), v, k + " after unit conversion")
        need(cl.ntot == len(keep["id"]), "ntot changed")
        for k in ("zmbar", "rbar", "vbar", "tbar"):
            same(getattr(cl, k), P[k], k + " after unit conversion")
        C.label("to " + units)
    C.nt(changed >= 2 and any(c))
