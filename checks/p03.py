"""P03: moving between origins is a lossless shift, along any path of origins and unit systems."""
import numpy as np
from hypothesis import strategies as st
from vt.core import Check, close, same, need, fail, arr
from vt import gen, machine

check = Check("P03",
    rule="a case is a generated cluster with generated centre offset and orbital position plus a history of origin "
         "changes, unit changes, save/return pairs and sorting flags; non-trivial = at least two origin changes, "
         "non-zero centre offset and orbit")


@st.composite
def spec(draw):
    origin = st.tuples(st.just("origin"), st.sampled_from(["cluster", "centre", "galaxy"]),
                       st.sampled_from(["method", "func", "generic", "american"]), st.booleans())
    step = st.one_of(origin, origin,
        st.tuples(st.just("origin"), st.sampled_from(["cluster", "centre", "galaxy"]),
                  st.sampled_from(["method", "func", "generic", "american"]), st.booleans()),
        st.tuples(st.just("units"), st.sampled_from(gen.UNITS), st.sampled_from(["method", "func", "generic"]),
                  st.booleans()),
        st.tuples(st.just("save"), st.just(""), st.just("method"), st.booleans()),
        st.tuples(st.just("return"), st.sampled_from(["default", "explicit"]), st.just("method"), st.booleans()))
    return dict(stars=draw(gen.star_specs(1, 40)), P=draw(gen.params()), start=draw(st.sampled_from(gen.UNITS)),
                origin=draw(st.sampled_from(["cluster", "centre", "galaxy"])), c=[draw(gen.num(5)) for _ in range(12)],
                sort=draw(st.booleans()), steps=[list(x) for x in draw(st.lists(step, min_size=3, max_size=10))])


@check.case("history", spec(), quick=4000, shards=8)
def history(s, C):
    import clustertools as ct
    P = s["P"]
    cl = gen.make(s["stars"], s["start"], s["origin"], P, sort=s["sort"])
    a, b, _ = gen.scales(s["start"], P)
    c = s["c"]
    cl.xc, cl.yc, cl.zc, cl.vxc, cl.vyc, cl.vzc = [v * f for v, f in zip(c[:6], [a, a, a, b, b, b])]
    cl.add_orbit(*[v * f for v, f in zip(c[6:], [1e3 * a] * 3 + [80 * b] * 3)])
    M = machine.Model(cl, P)
    ids = cl.id.copy()
    saved, moves = None, 0
    for i, (kind, arg, how, flag) in enumerate(s["steps"]):
        when = "after step %d %s %s" % (i, kind, arg)
        if kind == "origin":
            moves += arg != cl.origin
            if how == "generic":
                cl.to_origin("center" if arg == "centre" and flag else arg, sortstars=flag)
            elif how == "american" and arg == "centre":
                (cl.to_center if flag else lambda: ct.to_center(cl))()
            elif how == "func":
                getattr(ct, "to_" + arg)(cl, sortstars=flag)
            else:
                getattr(cl, "to_" + arg)(sortstars=flag)
            M.origin = arg
        elif kind == "units":
            if how == "generic":
                cl.to_units(arg)
            elif how == "func":
                getattr(ct, "to_" + arg)(cl, analyze=flag)
            else:
                getattr(cl, "to_" + arg)(analyze=flag)
            M.units = arg
        elif kind == "save":
            cl.save_cluster()
            need((cl.units0, cl.origin0) == (cl.units, cl.origin), "save_cluster recorded %r" % ((cl.units0, cl.origin0),))
            saved = (cl.units, cl.origin, cl.rorder, cl.rorder_origin)
        else:
            if saved is None:
                continue
            if arg == "default":
                cl.return_cluster()
            else:
                ct.return_cluster(cl, *saved)
            M.units, M.origin = saved[:2]
            C.label("return_cluster")
        M.compare(cl, when)
        same(cl.id, ids, "ids " + when)
        # the shift identities, on the object alone
        C.label("%s" % (arg or kind))
    C.nt(moves >= 2 and any(c[:6]) and any(c[6:]))
