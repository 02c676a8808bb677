"""P04: derived quantities and orderings always describe the current stars."""
import numpy as np
from hypothesis import strategies as st
from vt.core import Check, close, same, need, fail, arr
from vt import gen, machine

check = Check("P04",
    rule="a case is a generated cluster plus a history of state changes (unit/origin/sky changes, adding stars, adding "
         "luminosities, moving stars, rotation, virialisation, new centre) after each of which the derived quantities "
         "are compared with brute force on the current arrays; non-trivial = at least 3 stars and at least two state "
         "changes")


@st.composite
def spec(draw):
    step = st.one_of(
        st.tuples(st.just("units"), st.sampled_from(gen.UNITS), st.booleans()),
        st.tuples(st.just("origin"), st.sampled_from(["cluster", "centre", "galaxy"]), st.booleans()),
        st.tuples(st.just("sky"), st.sampled_from(["to_radec", "to_sky"]), st.booleans()),
        st.tuples(st.just("add"), gen.star_specs(1, 12), st.booleans()),
        st.tuples(st.just("sse"), st.integers(0, 10 ** 6), st.booleans()),
        st.tuples(st.just("shift"), st.tuples(gen.num(3), gen.num(3), gen.num(3)).map(list), st.booleans()),
        st.tuples(st.just("mass"), st.integers(0, 10 ** 6), st.booleans()),
        st.tuples(st.just("rotation"), st.sampled_from([0.0, 0.5, 1.0]), st.booleans()),
        st.tuples(st.just("virialize"), st.sampled_from([0.5, 1.0, 0.1]), st.booleans()),
        st.tuples(st.just("centre"), st.just(0), st.booleans()),
        st.tuples(st.just("analyze"), st.sampled_from(["analyze", "analyse", "key_params"]), st.booleans()),
    )
    return dict(stars=draw(gen.star_specs(1, 30)), P=draw(gen.params()), start=draw(st.sampled_from(gen.UNITS)),
                origin=draw(st.sampled_from(["cluster", "centre", "galaxy"])), c=[draw(gen.num(3)) for _ in range(12)],
                sort=draw(st.booleans()), lum=draw(st.booleans()),
                steps=[list(x) for x in draw(st.lists(step, min_size=2, max_size=9))])


def lum(cl, seed):
    rs = np.random.RandomState(seed % (2 ** 31))
    n = len(cl.x) - len(cl.kw)
    if n > 0:
        k = rs.randint(0, 15, n)
        cl.add_sse(k, rs.uniform(-3, 4, n), rs.uniform(-2, 2, n))


@check.case("history", spec(), quick=3600, shards=8)
def history(s, C):
    P = s["P"]
    cl = gen.make(s["stars"], s["start"], s["origin"], P, sort=s["sort"])
    a, b, _ = gen.scales(s["start"], P)
    c = s["c"]
    cl.xc, cl.yc, cl.zc, cl.vxc, cl.vyc, cl.vzc = [v * f for v, f in zip(c[:6], [a, a, a, b, b, b])]
    k = 1000.0 / gen.factors(s["start"], P)[0]
    cl.add_orbit(*([(v + 6.0) * k for v in c[6:9]] + [v * 80 * b for v in c[9:]]))
    if s["lum"]:
        lum(cl, 7)
        cl.analyze()
        machine.derived(cl, "initially")
        machine.ordered(cl, "initially")
    n, fresh = 0, bool(s["sort"] or s["lum"])
    for i, (kind, arg, flag) in enumerate(s["steps"]):
        when = "after step %d %s %s" % (i, kind, arg if not isinstance(arg, dict) else "")
        sort, checkit = True, True
        n0, before = len(cl.x), (cl.units, cl.origin)
        if kind == "units":
            getattr(cl, "to_" + arg)()
        elif kind == "origin":
            getattr(cl, "to_" + arg)(sortstars=flag)
            sort = flag
        elif kind == "sky":
            getattr(cl, arg)()
        elif kind == "add":
            if cl.units == "radec" and cl.origin != "sky":
                continue
            e = gen.expand(arg)
            u = cl.units if cl.units != "radec" else "kpckms"
            A, B, M = gen.scales(u, P)
            if cl.units == "radec":
                A = B = 1.0
            cl.add_stars(e["x"] * A, e["y"] * A, e["z"] * A, e["vx"] * B, e["vy"] * B, e["vz"] * B, e["m"] * M,
                         sortstars=flag)
            sort = flag
            if len(cl.lum) and len(cl.lum) != len(cl.x):
                if flag:
                    lum(cl, 13)
                    cl.analyze(sortstars=flag)
                else:
                    C.label("stars without luminosity")
                    machine.derived(cl, when)
                    lum(cl, 13)
                    cl.analyze()
                    sort = True
        elif kind == "sse":
            lum(cl, arg)
            cl.analyze(sortstars=flag)
            sort = flag
        elif kind == "shift":
            L = np.max(np.abs(cl.x)) + 1e-3
            cl.x, cl.y, cl.z = cl.x + arg[0] * L, cl.y + arg[1] * L, cl.z + arg[2] * L
            if cl.units == "radec":
                cl.analyze()
                machine.derived(cl, when)
                machine.ordered(cl, when)
                break
            cl.analyze(sortstars=flag)
            sort = flag
        elif kind == "mass":
            cl.m = cl.m * np.random.RandomState(arg).uniform(0.05, 3, len(cl.m))
            cl.analyze(sortstars=flag)
            sort = flag
        elif kind == "rotation":
            if cl.units == "radec" or cl.origin == "galaxy":
                continue
            cl.add_rotation(arg)
            cl.analyze(sortstars=flag)
            sort = flag
        elif kind == "virialize":
            if cl.units == "radec" or len(cl.x) < 2 or len(set(zip(cl.x, cl.y, cl.z))) < len(cl.x):
                continue
            cl.virialize(arg)
            cl.analyze(sortstars=flag)
            sort = flag
        elif kind == "centre":
            if cl.units == "radec":
                continue
            cl.find_centre_of_mass()
            cl.analyze(sortstars=flag)
            sort = flag
        else:
            getattr(cl, arg)(flag)
            sort = flag
        need(cl.ntot == len(cl.x) == len(cl.m), "ntot %r but %d stars %s" % (cl.ntot, len(cl.x), when))
        machine.derived(cl, when)
        if kind in ("units", "origin", "sky") and (cl.units, cl.origin) == before:
            sort = fresh    # nothing to do: the package may keep the order it has
        fresh = sort or (len(cl.x) != n0 and cl.rorder is not None)
        if fresh:
            machine.ordered(cl, when)
        C.label(kind)
        n += 1
    C.nt(n >= 2 and len(cl.x) > 2)
