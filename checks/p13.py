"""P13: the nearest neighbour of every star."""
import numpy as np
from hypothesis import strategies as st
from vt.core import Check, close, same, need, fail, arr
from vt import gen, rich

check = Check("P13",
    rule="a case is a generated cluster (any units/origin, AMUSE too) with 2 to 80 stars, 3D or projected; non-trivial = at "
         "least 3 stars and the two projections give different neighbours or a star is not its neighbour's neighbour")


@st.composite
def spec(draw):
    return dict(cl=draw(rich.specs(2, 80)), proj=draw(st.sampled_from([None, True, False])), arg=draw(st.booleans()),
                func=draw(st.booleans()), amuse=draw(st.integers(0, 7)) == 0, sky=draw(st.integers(0, 5)) == 0)


@check.case("closest", spec(), quick=3000, shards=4)
def closest(s, C):
    import clustertools as ct
    from checks.p01 import values
    cl = rich.build(s["cl"], lum=False)
    sky = s["sky"] and s["cl"]["units"] not in ("nbody", "galpy") and not s["amuse"]
    if s["amuse"]:
        cl.to_amuse()
    if sky:
        cl.to_sky()
        C.label("sky")
    raw = values(cl)
    X = np.array([raw[k] for k in ("x", "y", "z")])
    proj = (bool(cl.projected) if not s["func"] else False) if s["proj"] is None else s["proj"]
    P = X[:2] if (proj or sky) else X
    n = P.shape[1]
    d = np.sqrt(((P[:, :, None] - P[:, None, :]) ** 2).sum(0))
    np.fill_diagonal(d, np.inf)
    exp = d.min(0)
    scale = np.abs(P).max()
    before = rich.full(cl)
    kw = {} if s["proj"] is None else dict(projected=s["proj"])
    got = (ct.closest_star(cl, argument=s["arg"], **kw) if s["func"] else cl.closest_star(argument=s["arg"], **kw))
    if s["arg"]:
        got, a = got
        need(len(a) == n, "%d arguments for %d stars" % (len(a), n))
        far = exp > 1e-9 * scale
        for i in np.where(far)[0]:
            need(0 <= a[i] < n and a[i] != i and abs(d[i, a[i]] - exp[i]) <= 1e-9 * scale,
                 "star %d: neighbour %s at %s, the closest is %d at %s" % (i, a[i], d[i, a[i]], int(d[i].argmin()), exp[i]))
        if not s["func"]:
            same(cl.argclosest, a, "stored neighbours")
    if not s["func"]:
        need(cl.dclosest is got, "closest_star does not store what it returns")
    close(rich.plain(got, "pc"), exp, "distance to the closest star", rtol=1e-9, atol=1e-9 * scale)
    nn = d.argmin(0)
    C.nt(n >= 3 and bool(np.any(nn[nn] != np.arange(n))))
    rich.unchanged(cl, before, ("dclosest", "argclosest"), "closest_star")
