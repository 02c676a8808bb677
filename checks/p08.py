"""P08: selecting a subset picks exactly the stars that meet the criteria, and a sub-cluster is those stars, unchanged."""
import numpy as np
from hypothesis import strategies as st
from vt.core import Check, close, same, need, fail, arr
from vt import gen, rich

check = Check("P08",
    rule="a case is a generated cluster (any units/origin, with or without stellar types, populations, energies, binaries, "
         "sky coordinates) with generated inclusive bounds on radius, mass, speed, energy, type, population and a mask, or "
         "two clusters and an overlap tolerance; non-trivial = the selection keeps some but not all stars")

PER_STAR = ("x", "y", "z", "vx", "vy", "vz", "m", "id", "m0", "npop")


@st.composite
def spec(draw):
    return dict(cl=draw(rich.specs(1, 50)), q=draw(rich.criteria()), etot=draw(st.sampled_from([None, "energies", "given"])),
                sky=draw(st.sampled_from([None, None, None, "sky", "back"])), binaries=draw(st.integers(0, 3)),
                sortstars=draw(st.booleans()), gyr=draw(st.sampled_from([None, None, "mxvpqael", "mxve"])),
                aslist=draw(st.booleans()))


def make(s, C):
    c = s["cl"]
    cl = rich.build(c)
    n = len(cl.x)
    rs = np.random.RandomState(c["seed"] ^ 77)
    if s["etot"] == "given":
        cl.add_energies(rs.uniform(0, 1, n), -rs.uniform(0, 3, n))
    elif s["etot"] == "energies":
        if len(set(zip(cl.x, cl.y, cl.z))) == n:
            cl.energies()
    if s["gyr"]:
        cl.give = s["gyr"]
        cl.gyrpot, cl.gyrq, cl.gyracc, cl.eps, cl.gyrlev = [rs.uniform(size=n) for _ in range(5)]
    if s["sky"] and c["units"] not in ("nbody",):
        cl.to_radec()
        if s["sky"] == "back":
            cl.to_units(c["units"])
            cl.to_origin(c["origin"])
        C.label("sky " + s["sky"])
    nb = min(s["binaries"], n // 2)
    if nb:
        i = np.asarray(cl.id)[:2 * nb]
        v = lambda: rs.uniform(0.1, 2, nb)
        cl.bunits = rs.choice(["nbody", "audays", "sudays"])
        d = dict(id1=i[0::2], id2=i[1::2], kw1=rs.randint(0, 14, nb), kw2=rs.randint(0, 14, nb), kcm=rs.randint(0, 3, nb),
                 ecc=v(), pb=v(), semi=v(), m1=v(), m2=v(), logl1=v(), logl2=v(), logr1=v(), logr2=v())
        if rs.uniform() < 0.5:
            d.update(ep1=v(), ep2=v(), ospin1=v(), ospin2=v())
        cl.add_bse(*d.values())
        C.label("binaries")
        return cl, d
    return cl, None


@check.case("subset", spec(), quick=2500, shards=4)
def subset(s, C):
    cl, _ = make(s, C)
    kw, mask = rich.resolve(cl, s["q"])
    arg = dict(kw)
    if s["aslist"] and "indx" in kw:
        keep = kw["indx"].copy()
    before = rich.full(cl)
    got = cl.subset(**arg)
    same(np.asarray(got, bool), mask, "subset(%s)" % sorted(kw))
    need(np.asarray(got).dtype == bool, "the subset is not a boolean mask but %r" % np.asarray(got).dtype)
    same(np.asarray(cl.indx), mask, "the stored subset")
    rich.unchanged(cl, before, (), "subset", rtol=0)
    for k, v in kw.items():
        if k == "indx":
            same(arg["indx"], v, "the caller's mask")
    if "indx" in kw:
        m = np.random.RandomState(s["q"]["indx"]).uniform(size=len(cl.x)) < 0.7
        same(kw["indx"], m, "the caller's mask")
    C.nt(0 < mask.sum() < len(mask))
    C.label("criteria %d" % min(len(kw) - 1, 4))


@check.case("sub_cluster", spec(), quick=2500, shards=6)
def sub(s, C):
    from clustertools import sub_cluster
    cl, bse = make(s, C)
    kw, mask = rich.resolve(cl, s["q"])
    before = rich.full(cl)
    sc = sub_cluster(cl, sortstars=s["sortstars"], **kw)
    rich.unchanged(cl, before, ("rorder", "rproorder", "rorder_origin", "rm", "r10", "rh", "rh10", "rmpro", "r10pro", "rhpro", "rh10pro")
                   if not s["cl"]["sort"] else (), "sub_cluster", rtol=1e-12)
    need(sc is not cl, "sub_cluster returned the cluster itself")
    n = int(mask.sum())
    C.nt(0 < n < len(mask))
    need(sc.ntot == n, "sub_cluster has %r stars, the criteria are met by %d" % (sc.ntot, n))
    need(sc.tphys == cl.tphys, "sub_cluster has another age")
    if n == 0:
        C.label("empty")
        return
    need(sc.units == cl.units and sc.origin == cl.origin, "sub_cluster is in %s/%s, the cluster in %s/%s" % (sc.units, sc.origin, cl.units, cl.origin))
    for k in PER_STAR:
        same(getattr(sc, k), np.asarray(getattr(cl, k))[mask], "sub_cluster's " + k)
    for k in ("kw", "logl", "logr", "lum", "kin", "pot", "etot", "ra", "dec", "dist", "pmra", "pmdec", "vlos"):
        v = np.asarray(getattr(cl, k))
        if len(v) == len(mask):
            close(getattr(sc, k), v[mask], "sub_cluster's " + k, rtol=1e-12)
    if s["gyr"]:
        need(sc.give == cl.give, "sub_cluster lost the gyrfalcon columns")
        for k in ("eps",) + (("gyrpot", "gyrq", "gyracc", "gyrlev") if s["gyr"] == "mxvpqael" else ()):
            same(getattr(sc, k), getattr(cl, k)[mask], "sub_cluster's " + k)
    for k in ("xgc", "ygc", "zgc", "vxgc", "vygc", "vzgc", "xc", "yc", "zc", "vxc", "vyc", "vzc", "zmbar", "rbar", "vbar", "tbar",
              "_ro", "_vo", "_zo"):
        need(getattr(sc, k) == getattr(cl, k), "sub_cluster's %s is %r, the cluster's %r" % (k, getattr(sc, k), getattr(cl, k)))
    same(sc._solarmotion, cl._solarmotion, "sub_cluster's solar motion")
    if len(cl.ra) == len(mask):
        for k in ("ra_gc", "dec_gc", "dist_gc", "pmra_gc", "pmdec_gc", "vlos_gc", "ra_c", "dec_c", "dist_c", "pmra_c", "pmdec_c", "vlos_c"):
            need(getattr(sc, k) == getattr(cl, k), "sub_cluster's %s is %r, the cluster's %r" % (k, getattr(sc, k), getattr(cl, k)))
    need(sc.projected == cl.projected, "sub_cluster's projected flag changed")
    if bse is not None:
        keep = np.isin(bse["id1"], np.asarray(cl.id)[mask]) | np.isin(bse["id2"], np.asarray(cl.id)[mask])
        for k, v in bse.items():
            same(getattr(sc, k), v[keep], "sub_cluster's binary column " + k)
        need(sc.bunits == cl.bunits, "sub_cluster's binary units are %r, the cluster's %r" % (sc.bunits, cl.bunits))
    from vt import machine
    machine.derived(sc, "of the sub-cluster")
    if s["sortstars"]:
        machine.ordered(sc, "of the sub-cluster")
    # independent copies: changing the sub-cluster leaves the cluster alone
    snap = rich.full(cl)
    for k in PER_STAR:
        getattr(sc, k)[...] = 99
    rich.unchanged(cl, snap, (), "changing the sub-cluster", rtol=0)


@st.composite
def reset_spec(draw):
    d = dict(cl=draw(rich.specs(3, 40, units=["pckms", "kpckms", "pcmyr", "kpcgyr", "galpy", "WDunits"])), q=draw(rich.criteria(energy=False)),
             how=draw(st.sampled_from(["nbody", "mass", "radii", "centre", "mass+radii"])), rvirial=draw(st.booleans()), proj=draw(st.booleans()))
    return d


@check.case("reset", reset_spec(), quick=700, shards=4)
def reset(s, C):
    from clustertools import sub_cluster
    cl = rich.build(s["cl"])
    kw, mask = rich.resolve(cl, s["q"])
    n = int(mask.sum())
    if n < 2:
        return
    L, V, M, T = gen.factors(cl.units, s["cl"]["P"])
    x = np.array([np.asarray(getattr(cl, k), float)[mask] for k in ("x", "y", "z")]) * L
    vel = np.array([np.asarray(getattr(cl, k), float)[mask] for k in ("vx", "vy", "vz")]) * V
    if len(set(map(tuple, x.T))) < n or len(set(map(tuple, x[:2].T))) < n:
        return
    m = np.asarray(cl.m, float)[mask] * M
    C.label(s["how"])
    C.nt(n < len(mask))
    if s["how"] == "centre":
        before = rich.full(cl)
        sc = sub_cluster(cl, reset_centre=True, **kw)
        for k in PER_STAR:
            same(getattr(sc, k), np.asarray(getattr(cl, k))[mask], "sub_cluster's " + k)
        return
    a = {"nbody": dict(reset_nbody=True), "mass": dict(reset_nbody_mass=True), "radii": dict(reset_nbody_radii=True),
         "mass+radii": dict(reset_nbody_mass=True, reset_nbody_radii=True)}[s["how"]]
    sc = sub_cluster(cl, reset_rvirial=s["rvirial"], reset_projected=s["proj"], **a, **kw)
    P = s["cl"]["P"]
    zm = m.sum() if s["how"] in ("nbody", "mass", "mass+radii") else P["zmbar"]
    # distances do not depend on the frame; the half-mass radius is about the centre the scale is measured from
    if s["how"] == "mass":
        rb, tol = P["rbar"], 1e-9
    elif s["rvirial"]:
        y = x.copy()
        if s["proj"]:
            y[2] = 0
        i, j = np.triu_indices(n, 1)
        rb, tol = m.sum() ** 2 / (2 * np.sum(m[i] * m[j] / np.linalg.norm(y[:, i] - y[:, j], axis=0))), 1e-6
    else:
        from vt import machine
        y = x.copy()
        if cl.origin == "galaxy":
            y -= np.array([cl.xgc + cl.xc, cl.ygc + cl.yc, cl.zgc + cl.zc])[:, None] * L
        r = np.hypot(y[0], y[1]) if s["proj"] else np.linalg.norm(y, axis=0)
        lo, hi = machine.enclosed(r, m, 0.5)
        e = 1e-9 * np.max(np.abs(x))
        need(4 / 3 * (lo * (1 - 1e-9) - e) <= sc.rbar <= 4 / 3 * (hi * (1 + 1e-9) + e), "rbar %r, 4/3 of the half-mass radius is %r" % (sc.rbar, 4 / 3 * lo))
        rb, tol = sc.rbar, 1e-9
    if s["cl"]["origin"] == "galaxy":
        tol = max(tol, 1e-5)
    close(sc.zmbar, zm, "zmbar of the sub-cluster")
    close(sc.rbar, rb, "rbar of the sub-cluster", rtol=tol)
    close(sc.vbar, 0.06557 * np.sqrt(sc.zmbar / sc.rbar), "vbar of the sub-cluster", rtol=1e-4)
    close(sc.tbar, sc.rbar / (1.0227 * sc.vbar), "tbar of the sub-cluster", rtol=1e-3)
    need((cl.zmbar, cl.rbar, cl.vbar, cl.tbar) == (P["zmbar"], P["rbar"], P["vbar"], P["tbar"]), "the cluster's own scales changed")
    need(sc.units == cl.units and sc.origin == cl.origin, "the frame changed: %s %s" % (sc.units, sc.origin))
    for k in PER_STAR:
        v = np.asarray(getattr(cl, k))[mask]
        close(getattr(sc, k), v, "sub_cluster's " + k, rtol=1e-9, scale=np.max(np.abs(v)))


@st.composite
def overlap_spec(draw):
    return dict(a=draw(gen.star_specs(1, 40)), b=draw(gen.star_specs(1, 40)), off=[draw(gen.num(1)) for _ in range(3)],
                tol=draw(st.sampled_from([0.1, 0.5, 1.5, 3.0, 10.0])), projected=draw(st.booleans()), ret=draw(st.booleans()),
                default=draw(st.booleans()))


@check.case("overlap", overlap_spec(), quick=1500, shards=2)
def overlap(s, C):
    from clustertools import overlap_cluster
    a, b = gen.make(s["a"]), gen.make(s["b"])
    b.x, b.y, b.z = b.x + s["off"][0], b.y + s["off"][1], b.z + s["off"][2]
    b.analyze()
    d = np.array([a.x, a.y, a.z])[:, :, None] - np.array([b.x, b.y, b.z])[:, None, :]
    if s["projected"]:
        d[2] = 0
    dmin = np.sqrt((d ** 2).sum(0)).min(1)
    kw = dict(projected=s["projected"])
    tol = s["tol"]
    if s["default"]:
        tol = 0.1
    else:
        kw["tol"] = tol
    if not s["projected"] and s["default"]:
        del kw["projected"]
    if np.any(np.abs(dmin - tol) < 1e-9):
        C.label("tie")
        return
    mask = dmin < tol
    C.nt(0 < mask.sum() < len(mask))
    before, bb = rich.full(a), rich.full(b)
    got = overlap_cluster(a, b, return_cluster=s["ret"], **kw)
    if s["ret"]:
        need(got.ntot == mask.sum(), "overlap has %r stars, expected %d" % (got.ntot, mask.sum()))
        if mask.any():
            same(got.id, a.id[mask], "ids of the overlap")
            same(got.x, a.x[mask], "x of the overlap")
    else:
        same(np.asarray(got), mask, "overlap mask")
    rich.unchanged(a, before, (), "overlap_cluster", rtol=1e-12)
    rich.unchanged(b, bb, (), "overlap_cluster", rtol=1e-12)
