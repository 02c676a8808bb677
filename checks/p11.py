"""P11: the centre of a cluster is the one the documented algorithms define, and it is stored in the right frame."""
import numpy as np
from hypothesis import strategies as st
from vt.core import Check, close, same, need, fail, arr
from vt import gen, rich

check = Check("P11",
    rule="a case is a generated cluster in any units/origin, a method (centre of mass, shrinking spheres, nearest-"
         "neighbour density, sigma clipping) with generated options (start, subset mask, sphere size, limits, neighbours, "
         "reset) via function or method; non-trivial = at least one shrinking/clipping step or a proper subset, or the "
         "density method with at least 7 stars",
    assumptions=["ties of a star with the sphere radius are accepted either way"])

NAMES = ("xc", "yc", "zc", "vxc", "vyc", "vzc")


def harfst(x, v, m, start, vstart, nsphere, rmin, rmax, nmax, eps):
    x, v = x - start[:, None], v - vstart[:, None]
    c, vc = start.copy(), vstart.copy()
    r = np.sqrt((x ** 2).sum(0))
    lim = r.max() if rmax is None else rmax
    k = 0
    while lim > rmin and k < nmax:
        r = np.sqrt((x ** 2).sum(0))
        i = r < lim * (1 + eps)
        if i.sum() <= nsphere:
            break
        d, dv = (m[i] * x[:, i]).sum(1) / m[i].sum(), (m[i] * v[:, i]).sum(1) / m[i].sum()
        x, v, c, vc = x - d[:, None], v - dv[:, None], c + d, vc + dv
        lim *= 0.8
        k += 1
    return np.r_[c, vc], k


def clipped(x, v, m, start, nsigma, nsphere, eps):
    i, y, k, stuck = np.arange(x.shape[1]), x - start[:, None], 0, 0
    r = np.sqrt((y ** 2).sum(0))
    while len(i) > nsphere:
        keep = r < nsigma * np.std(r) * (1 + eps)
        if keep.sum() <= nsphere:
            break
        if keep.all():
            stuck += 1
            if stuck > 60:
                break
        i, y, k = i[keep], y[:, keep] - y[:, keep].mean(1)[:, None], k + 1
        r = np.sqrt((y ** 2).sum(0))
    return np.r_[(m[i] * x[:, i]).sum(1), (m[i] * v[:, i]).sum(1)] / m[i].sum(), k


def density(x, v, m, nn):
    d = np.sqrt(((x[:, :, None] - x[:, None, :]) ** 2).sum(0))
    o = np.argsort(d, axis=1, kind="stable")
    far = np.take_along_axis(d, o, 1)[:, nn - 1]
    w = m[o[:, :nn - 1]].sum(1) / far ** 3
    return np.r_[(w * x).sum(1), (w * v).sum(1)] / w.sum()


@st.composite
def spec(draw):
    how = draw(st.sampled_from(["mass", "harfst", "harfst", "casertano", "casertano", "clip", "find harfst", "find casertano"]))
    big = how in ("mass", "harfst", "find harfst", "clip")
    return dict(cl=draw(rich.specs(1, 150 if big else 60, units=gen.UNITS + ["amuse"] if False else gen.UNITS, lists=False)),
                how=how, nsphere=draw(st.sampled_from([1, 5, 10, 30, 100])), rmin=draw(st.sampled_from([0.1, 0.01, 1.0])),
                rmax=draw(st.sampled_from([None, None, 2.0, 8.0])), nmax=draw(st.sampled_from([100, 1, 3])),
                nn=draw(st.sampled_from([6, 6, 3, 10])), nsigma=draw(st.sampled_from([1.0, 1.0, 0.7, 2.0, 5.0])),
                start=[draw(gen.num(1)) for _ in range(6)] if draw(st.booleans()) else None, mask=draw(st.sampled_from([None, None, 0.8, 0.5, 0.0])),
                func=draw(st.booleans()), reset=draw(st.booleans()), orbit=draw(st.sampled_from(["set", "set", "none", "same"])),
                amuse=draw(st.integers(0, 5)) == 0, defaults=draw(st.integers(0, 3)) == 0)


@check.case("centre", spec(), quick=4000, shards=8)
def centre(s, C):
    import clustertools as ct
    P = s["cl"]["P"]
    cl = rich.build(s["cl"], lum=False)
    if s["orbit"] == "none":
        cl.add_orbit(0., 0., 0., 0., 0., 0.)
    U = s["cl"]["units"]
    if s["amuse"]:
        cl.to_amuse()
        U = "amuse"
    from checks.p01 import values
    a, b, _ = gen.scales(U, P)
    raw = values(cl) if True else None
    x = np.array([raw[k] for k in ("x", "y", "z")])
    v = np.array([raw[k] for k in ("vx", "vy", "vz")])
    m = raw["m"]
    n = len(m)
    how, kw = s["how"], {}
    start = np.zeros(6)
    mask = np.ones(n, bool)
    dens = how in ("harfst", "casertano", "clip", "find harfst", "find casertano")
    nsphere, nn, nsig, nmax = s["nsphere"], s["nn"], s["nsigma"], s["nmax"]
    rmin, rmax = s["rmin"] * a, None if s["rmax"] is None else s["rmax"] * a
    if how != "mass":
        if s["start"] is not None:
            start = np.array(s["start"]) * np.array([a] * 3 + [b] * 3)
            if s["cl"]["origin"] == "galaxy":
                start += np.array([raw[k] for k in ("xgc", "ygc", "zgc", "vxgc", "vygc", "vzgc")])
            kw.update(dict(zip(("xstart", "ystart", "zstart", "vxstart", "vystart", "vzstart"), [float(t) for t in start])))
        if s["mask"] is not None:
            mask = np.random.RandomState(s["cl"]["seed"] ^ 5).uniform(size=n) < s["mask"]
            kw["indx"] = mask.copy()
        if s["defaults"]:
            nsphere, nn, nsig, nmax, rmin, rmax = 100, 6, 1.0, 100, 0.1, None
        elif how == "clip":
            kw.update(nsphere=nsphere, nsigma=nsig)
        elif "casertano" in how:
            kw.update(nneighbour=nn)
        else:
            kw.update(nsphere=nsphere, rmin=rmin, rmax=rmax, nmax=nmax)
    X, V, M = x[:, mask], v[:, mask], m[mask]
    k = 0
    if how == "mass":
        exp = [np.r_[(M * X).sum(1), (M * V).sum(1)] / M.sum()]
        name, C2 = "find_centre_of_mass", True
    elif not mask.any():
        if how in ("harfst", "casertano"):
            return
        exp, name, C2 = [np.zeros(6)], "find_centre", False
        kw["density"] = how != "clip"
        if "casertano" in how:
            kw["method"] = "casertano"
        C.label("empty subset")
    elif "casertano" in how:
        if mask.sum() < nn:
            return
        d = np.sqrt(((X[:, :, None] - X[:, None, :]) ** 2).sum(0))
        s0 = np.sort(d, axis=1)
        if np.any(s0[:, nn - 1] <= 1e-6 * d.max()):
            return
        exp = [density(X, V, M, nn)]
        name, C2 = ("find_centre" if "find" in how else "find_centre_of_density"), mask.sum() >= 7
        kw["method"] = "casertano"
    elif how == "clip":
        res = [clipped(X, V, M, start[:3], nsig, nsphere, e) for e in (-1e-10, 1e-10)]
        exp, k = [r[0] for r in res], res[0][1]
        name, C2 = "find_centre", k > 0
        kw["density"] = False
    else:
        res = [harfst(X, V, M, start[:3], start[3:], nsphere, rmin, rmax, nmax, e) for e in (-1e-10, 1e-10)]
        exp, k = [r[0] for r in res], res[0][1]
        name, C2 = ("find_centre" if "find" in how else "find_centre_of_density"), k > 0
    C.nt(C2 or (0 < mask.sum() < n))
    C.label(how)
    before = rich.full(cl)
    method = not s["func"]
    if method:
        got = getattr(cl, name)(reset_centre=s["reset"], **kw)
    else:
        got = getattr(ct, name)(cl, **kw)
    need(len(got) == 6, "%s returned %d values" % (name, len(got)))
    if U == "amuse":
        import amuse.units.units as u
        try:
            got = [g.value_in(u.parsec) for g in got[:3]] + [g.value_in(u.kms) for g in got[3:]]
        except AttributeError:
            if mask.any():
                fail("%s of an AMUSE cluster returned plain numbers" % name)
    g = arr(got, "centre")
    R, W = np.max(np.abs(x)) + np.max(np.abs(start[:3])), np.max(np.abs(v)) + np.max(np.abs(start[3:]))
    atol = np.array([1e-9 * R] * 3 + [1e-9 * W] * 3)
    ok = [np.all(np.abs(g - e) <= atol) for e in exp]
    if not any(ok):
        close(g, exp[0], "%s %s" % (name, {k: v for k, v in kw.items() if k != "indx"}), rtol=0, atol=float(0)) if False else fail(
            "%s(%s) found %s, the algorithm gives %s" % (name, {k: v for k, v in kw.items() if k != "indx"}, g.tolist(), exp[0].tolist()))
    if "indx" in kw:
        same(kw["indx"], mask, "the caller's mask")
    # what is stored
    now = values(cl)
    for q in ("x", "y", "z", "vx", "vy", "vz", "m"):
        close(now[q], raw[q], q + " after " + name, rtol=1e-12, atol=1e-12 * (W if "v" in q else R))
    need(cl.units == U and cl.origin == s["cl"]["origin"], "frame changed to %s/%s" % (cl.units, cl.origin))
    C6 = np.array([now[q] for q in NAMES])
    C0 = np.array([raw[q] for q in NAMES])
    G6 = np.array([now[q[:-1] + "gc"] for q in NAMES])
    G0 = np.array([raw[q[:-1] + "gc"] for q in NAMES])
    tol = dict(rtol=1e-12, atol=1e-300)
    if not method or cl.origin == "centre":
        close(C6, C0, "stored centre", **tol)
        close(G6, G0, "stored orbital position", **tol)
    elif cl.origin == "cluster":
        close(C6, g, "stored centre", rtol=1e-12, atol=1e-12 * 0)
        close(G6, G0, "stored orbital position", **tol)
    elif s["reset"] or not np.any(G0):
        close(G6, g, "orbital position set from the centre", **tol)
        close(C6, np.zeros(6), "centre after resetting the orbital position", **tol)
    else:
        close(G6, G0, "stored orbital position", **tol)
        close(C6, g - G0, "centre as an offset from the orbital position", rtol=1e-9, atol=1e-12 * max(R, W))


@check.case("planted", st.tuples(st.integers(0, 10 ** 6), st.sampled_from(["harfst", "casertano", "clip"]),
                                 st.tuples(gen.num(4), gen.num(4), gen.num(4), gen.num(3), gen.num(3), gen.num(3)).map(list),
                                 st.sampled_from(["cluster", "galaxy"]), st.booleans()).map(list), quick=300, shards=2)
def planted(s, C):
    """A dense clump away from the origin is found; going to the centre puts it at zero."""
    seed, how, c, origin, tail = s
    rs = np.random.RandomState(seed)
    n = 400
    q = rs.uniform(0.01, 0.9, n)
    r = 0.5 / np.sqrt(q ** (-2 / 3) - 1)
    d = rs.normal(size=(n, 3))
    p = d / np.linalg.norm(d, axis=1)[:, None] * r[:, None] + np.array(c[:3])
    v = rs.normal(size=(n, 3)) * 0.5 + np.array(c[3:])
    if tail:
        t = rs.uniform(-1, 1, (40, 1)) * np.array([[15.0, 3.0, 0.0]]) + np.array(c[:3])
        p, v = np.r_[p, t], np.r_[v, np.zeros((40, 3)) + np.array(c[3:])]
    cl = gen.new_cluster("pckms", origin)
    off = np.zeros(6)
    if origin == "galaxy":
        off = np.array([8000., 100., 50., 10., 220., 3.])
    cl.add_stars(*(list((p + off[:3]).T) + list((v + off[3:]).T)))
    if origin == "galaxy":
        cl.add_orbit(*off)
    start = dict(zip(("xstart", "ystart", "zstart", "vxstart", "vystart", "vzstart"), off))
    if how == "clip":
        cl.find_centre(density=False, **start)
    else:
        cl.find_centre(method=how, **start)
    got = np.array([cl.xc, cl.yc, cl.zc, cl.vxc, cl.vyc, cl.vzc])
    C.nt(True)
    need(np.all(np.abs(got[:3] - c[:3]) < 0.4), "the clump at %s was located at %s" % (c[:3], got[:3].tolist()))
    need(np.all(np.abs(got[3:] - c[3:]) < 0.4), "the clump moving at %s was found to move at %s" % (c[3:], got[3:].tolist()))
    cl.to_centre()
    need(np.all(np.abs([np.median(cl.x), np.median(cl.y), np.median(cl.z)]) < 0.5), "to_centre does not put the clump at the origin")
