"""P24: matching stars to orbital and tail paths, tail paths, and the tail frame are what they are defined to be, in the cluster's units."""
import numpy as np
from hypothesis import strategies as st
from vt.core import Check, close, same, need, fail, arr
from vt import gen, rich, sky, binning
from checks.p23 import ALL, SM, solar, orbit, explicit, natural, acceleration, integrate, potential, tgive, states, amuse_state

check = Check("P24",
    rule="a case is a generated stream of stars along and around a generated orbit (any units, AMUSE and sky coordinates too, any origin), matched "
         "by brute force to a path; non-trivial = at least three stars, on either side of the cluster or path")

OUT = ("tstar", "dprog", "dpath", "tpath", "xpath", "ypath", "zpath", "vxpath", "vypath", "vzpath", "orbit", "x_tail", "y_tail", "z_tail", "vx_tail", "vy_tail", "vz_tail",
       "r_tail", "v_tail")
SKY = tuple(k + e for k in ("ra", "dec", "dist", "pmra", "pmdec", "vlos") for e in ("", "_gc", "_c")) + ("rac", "decc", "distc", "pmrac", "pmdecc", "vlosc", "orbits", "analyze_units", "analyze_origin")


@st.composite
def stream(draw, to=(None, None, None, "amuse", "radec"), lo=1):
    return dict(n=draw(st.integers(lo, 40)), seed=draw(st.integers(0, 2 ** 31 - 1)), P=draw(gen.params()), units=draw(st.sampled_from(gen.UNITS)), to=draw(st.sampled_from(list(to))),
                origin=draw(st.sampled_from(["cluster", "centre", "galaxy"])), X=draw(orbit()), spread=draw(st.sampled_from([0.0, 0.02, 0.3])), c=draw(st.booleans()),
                pot=draw(st.sampled_from(["log", "mn", "list"])), t=draw(st.sampled_from([0.1, 0.05, 0.2])), E=draw(solar()), func=draw(st.booleans()), cen=draw(st.integers(0, 4)) == 0)


def setup(s):
    """(cluster, its units, parameters, stars' positions and velocities in kpc km/s, the state the orbit starts from)."""
    P, U = s["P"], s["units"]
    X = np.array(s["X"])
    rs = np.random.RandomState(s["seed"])
    n = s["n"]
    t = rs.uniform(-1, 1, n) * s["t"]
    S = integrate(acceleration(s["pot"], P), X[:, None], t)[:, 0, :]
    S[:3] += rs.normal(size=(3, n)) * (s["spread"] + 0.003)
    S[3:] += rs.normal(size=(3, n)) * 2.0
    L, V, T = natural(U, P)
    c = (rs.normal(size=6) * np.repeat([0.05, 5.0], 3) if s["c"] else np.zeros(6))
    cl = gen.new_cluster(U, "galaxy", P)
    cl.add_stars(*(S[:3] / L), *(S[3:] / V), rs.uniform(0.2, 2, n), np.arange(1, n + 1), analyze=True, sortstars=True)
    cl.xc, cl.yc, cl.zc, cl.vxc, cl.vyc, cl.vzc = [float(v) for v in np.concatenate([c[:3] / L, c[3:] / V])]
    cl.add_orbit(*[float(v) for v in np.concatenate([X[:3] / L, X[3:] / V])])
    cl.to_origin(s["origin"])
    if s["to"] == "amuse":
        cl.to_amuse()
        U = "amuse"
    elif s["to"] == "radec":
        cl.to_radec()
        U = "radec"
    E = s["E"] if U != "galpy" else None
    Q = dict(P)
    if E is not None:
        Q.update(E)
    kw = explicit(E)
    if s["cen"]:
        kw["from_centre"] = True
        X = X + c
    if E is not None and (U == "radec" or s["resky"]):     # the orbit starts from the sky coordinates, seen with the given solar parameters
        X = np.array(sky.from_sky(*sky.to_sky(*X, P), Q))[:, 0]
    return cl, U, P, Q, S, X, kw


def give(path, ts, U, P, onsky, plainly):
    """A path (Gyr, kpc, km/s or sky coordinates) as it is given to the package: in the cluster's units."""
    if U == "amuse" and plainly:
        return [ts.copy()] + [p.copy() for p in path]
    t = tgive(ts.copy(), U, P, None)
    if onsky:
        return [t] + [p.copy() for p in path]
    if U == "amuse":
        return [t] + amuse_state(path[:3].copy(), path[3:].copy())
    L, V, T = natural(U, P)
    return [t] + [p / L for p in path[:3]] + [p / V for p in path[3:]]


def brute(Y, path, ts, onsky, projected, to_path):
    """(index, dprog, |dpath|, sign, decided) of each star by the definitions."""
    d = path[:, None, :] - Y[:, :, None]                # 6, n, k
    seg = np.diff(path[:3], axis=1)
    if onsky:
        d[0] = np.mod(d[0] + 180.0, 360.0) - 180.0
        seg[0] = np.mod(seg[0] + 180.0, 360.0) - 180.0
    m = 2 if projected else 3
    r = np.sqrt((d[:m] ** 2).sum(0))
    i = np.argmin(r, axis=1)
    near = np.take_along_axis(r, i[:, None], 1)[:, 0]
    other = r.copy()
    np.put_along_axis(other, i[:, None], np.inf, 1)
    decided = other.min(1) - near > 2e-5 * (1.0 + np.abs(path[:m]).max()) if r.shape[1] > 1 else np.ones(len(i), bool)
    arc = np.concatenate([[0.0], np.cumsum(np.sqrt((seg[:m] ** 2).sum(0)))])
    prog = arc[i] - arc[np.argmin(np.abs(ts))]
    if to_path:
        j = np.minimum(i, seg.shape[1] - 1)
        tan = seg[:m, j] / np.sqrt((seg[:m, j] ** 2).sum(0))
        sv = np.array([d[k, np.arange(len(i)), i] for k in range(m)])
        near = np.sqrt(np.maximum((sv ** 2).sum(0) - (sv * tan).sum(0) ** 2, 0.0))
    p = path[:, i]
    L = np.cross(p[:3].T, p[3:].T)
    off = (Y[:3] - p[:3]).T
    dot = (off * L).sum(1)
    side = np.where(np.abs(dot) > 1e-4 * np.linalg.norm(L, axis=1) * (1e-3 + np.linalg.norm(off, axis=1)), np.sign(dot), 0.0)
    return i, prog, near, side, decided


def compare(r, U, P, ts, ref, onsky, projected, what, tol):
    i, prog, near, side, ok = ref
    need(len(r) == 3, "%d results" % len(r))
    L, V, T = (1.0, 1.0, 1.0) if U == "radec" else natural(U, P)
    t = np.atleast_1d(arr(rich.plain(r[0], "Myr"), "tstar")) * T
    if onsky and U == "amuse":              # degrees come back tagged as kpc
        dp, dd = [np.atleast_1d(arr(rich.plain(q, "pc"), "distance")) / 1000.0 for q in r[1:]]
    elif onsky or U == "radec":
        dp, dd = [np.atleast_1d(arr(q, "distance")) for q in r[1:]]
    else:
        dp, dd = [np.atleast_1d(arr(rich.plain(q, "pc"), "distance")) * L for q in r[1:]]
    need(t.shape == i.shape and dp.shape == i.shape and dd.shape == i.shape, "shapes %s %s %s of the results" % (t.shape, dp.shape, dd.shape))
    close(t[ok], ts[i][ok], what + ": tstar", rtol=5e-5 if U == "amuse" else 1e-7, atol=1e-9)
    close(dp[ok], prog[ok], what + ": dprog", rtol=tol, atol=tol)
    close(np.abs(dd[ok]), near[ok], what + ": distance to the path", rtol=tol, atol=tol)
    if not projected:
        sel = ok & (side != 0) & (near > 10 * tol)
        same(np.sign(dd[sel]), side[sel], what + ": side of the path")
    return ok.sum()


@st.composite
def match_spec(draw):
    return dict(draw(stream()), own=draw(st.booleans()), no=draw(st.sampled_from([201, 301, 101, 5, 1001])), sky=draw(st.integers(0, 2)) == 0, to_path=draw(st.booleans()), full=draw(st.booleans()),
                proj=draw(st.booleans()), dt=draw(st.integers(0, 3)) == 0, plainly=draw(st.booleans()))


@check.case("match", match_spec(), quick=1600, shards=4)
def match(s, C):
    """orbital_path_match: nearest point of the path, arc length to the cluster, signed distance."""
    import clustertools as ct
    cl, U, P, Q, S, X, kw = setup(dict(s, resky=s["sky"] and s["own"]))
    onsky = s["sky"] or U == "radec"
    proj = s["proj"] or onsky
    ts = np.linspace(-s["t"], s["t"], s["no"])
    pp = integrate(acceleration(s["pot"], Q if s["own"] else P), X[:, None], ts)[:, 0, :]
    if onsky:
        # the stars are put on the sky with the cluster's solar parameters, its orbit with those of the call
        path, Y = np.array(sky.to_sky(*pp, Q if s["own"] else P)), np.array(sky.to_sky(*S, P))
    else:
        path, Y = pp, S
    if s["own"]:
        tg = tgive(s["t"], U, P, cl)
        if U == "amuse" and s["plainly"]:
            tg = s["t"]                                     # Gyr when no unit is given
        kw["dt" if s["dt"] else "tfinal"] = tg
        kw.update(pot=potential(s["pot"]), nt=s["no"])
    else:
        kw = dict(path=give(path, ts, U, P, onsky, s["plainly"]))
        if s["dt"]:
            kw["path"] = tuple(kw["path"])
        keep = [np.array(rich.strip(p)[0] if rich.strip(p) is not None else p) for p in kw["path"]]
    if onsky:
        kw["skypath"] = True
    for k, f in (("to_path", s["to_path"]), ("do_full", s["full"]), ("projected", s["proj"])):
        if f:
            kw[k] = True
    before = rich.full(cl)
    if s["func"]:
        r = ct.orbital_path_match(cl, **kw)
    else:
        r = cl.orbital_path_match(**kw)
        need(cl.tstar is r[0] and cl.dprog is r[1] and cl.dpath is r[2], "orbital_path_match does not store what it returns")
    if not s["own"]:
        for a, b in zip(kw["path"], keep):
            same(rich.strip(a)[0] if rich.strip(a) is not None else a, b, "the given path")
    # the package integrates the orbit itself: its path differs from the reference by the integration error; on the sky galpy's and astropy's
    # axes differ a little, and the poles magnify that
    tol = (3e-4 if s["own"] else 1e-7) if not onsky else 3e-3
    if onsky and (np.abs(path[1]).max() > 80 or np.abs(Y[1]).max() > 80 or path[2].min() < 1.0):
        C.exclude("close to a pole or the Sun")
        return
    k = compare(r, U, P, ts, brute(Y, path, ts, onsky, proj, s["to_path"]), onsky, proj, "orbital_path_match", tol)
    rich.unchanged(cl, before, OUT + (SKY if onsky else ()), "orbital_path_match", rtol=1e-9 if not onsky else 1e-6)
    C.label("%s%s" % (U, " on the sky" if onsky else ""))
    C.nt(k >= 3)


# ------------------------------------------------------------------ tails

@st.composite
def tail_spec(draw):
    return dict(draw(stream(to=(None, None, None, "amuse"))), no=draw(st.sampled_from([212, 1014, 98])), nt=draw(st.sampled_from([5, 10, 25, 7])), ntail=draw(st.sampled_from([None, 5, 5, 30, 60])),
                bin=draw(st.sampled_from([None, "fix", "num"])), dmax=draw(st.sampled_from([None, None, 0.1, 0.02, 0.5])), sky=draw(st.integers(0, 2)) == 0, to_path=draw(st.booleans()),
                full=draw(st.booleans()), proj=draw(st.booleans()), dt=draw(st.integers(0, 3)) == 0, match=draw(st.integers(0, 2)) == 0)


def bins(ts, s, ntail):
    if ntail > s["nt"]:
        f = np.linspace(0.0, 1.0 - 1.0 / s["nt"], ntail)
        if s["bin"] == "num":
            k = np.sort(ts)
            lo, up = k[(f * (len(k) - 1)).astype(int)], k[((f + 1.0 / s["nt"]) * (len(k) - 1)).astype(int)]
            inside = [(ts >= a) & ((ts < b) if i < ntail - 1 else (ts <= b)) for i, (a, b) in enumerate(zip(lo, up))]
            return lo, np.array([ts[q].mean() for q in inside]), up
        lo = ts.min() + f * (ts.max() - ts.min())
        up = lo + (ts.max() - ts.min()) / s["nt"]
        up[-1] = ts.max()
        return lo, (lo + up) / 2, up
    if s["bin"] == "num":
        lo, mid, up, h = binning.num_bins(ts, s["nt"])
        return lo, mid, up
    lo, mid, up, h = binning.fix_bins(ts, s["nt"])
    return lo, mid, up


@check.case("tail path", tail_spec(), quick=1600, shards=4)
def tail(s, C):
    """tail_path: the mean position and velocity of the stars matched to each stretch of the orbit."""
    import clustertools as ct
    onsky, proj = s["sky"], s["proj"] or s["sky"]
    cl, U, P, Q, S, X, kw = setup(dict(s, resky=False, E=None if onsky else s["E"]))
    ntail = s["ntail"] if s["ntail"] is not None else 100
    ts = np.linspace(-s["t"], s["t"], s["no"])
    pp = integrate(acceleration(s["pot"], Q), X[:, None], ts)[:, 0, :]
    path, Y = (np.array(sky.to_sky(*pp, Q)), np.array(sky.to_sky(*S, P))) if onsky else (pp, S)
    if onsky and (np.abs(path[1]).max() > 80 or np.abs(Y[1]).max() > 80 or path[2].min() < 1.0):
        C.exclude("close to a pole or the Sun")
        return
    i, prog, near, side, ok = brute(Y, path, ts, onsky, proj, s["to_path"])
    kw.update(pot=potential(s["pot"]), no=s["no"], nt=s["nt"])
    kw["dt" if s["dt"] else "tfinal"] = tgive(s["t"], U, P, cl)
    if s["ntail"] is not None:
        kw["ntail"] = ntail
    for k, v in (("bintype", s["bin"]), ("skypath", onsky), ("to_path", s["to_path"]), ("do_full", s["full"]), ("projected", s["proj"])):
        if v:
            kw[k] = v
    use = np.ones(len(i), bool)
    tol = 3e-4 if not onsky else 3e-3
    if s["dmax"] is not None and not onsky:
        if np.any(np.abs(near - s["dmax"]) < 3 * tol):
            C.exclude("a star at dmax")
            return
        use = near <= s["dmax"]
        kw["dmax"] = amuse_state([s["dmax"]], [])[0] if U == "amuse" else s["dmax"] / natural(U, P)[0]
    if not ok.all():
        C.exclude("a star between two points of the path")
        return
    lo, mid, up = bins(ts, s, ntail)
    t = ts[i]
    edges = np.concatenate([lo, up[:-1]])
    if s["bin"] != "num" and np.any(np.abs(t[:, None] - edges)[:, 1:] < 1e-9):
        C.exclude("a matched time at the edge of a bin")
        return
    want = []
    for a, b, m in zip(lo, up, mid):
        sel = use & (t >= a - (1e-12 if a == lo[0] else 0)) & ((t < b) if b < up[-1] or a < lo[-1] else (t <= b + 1e-12))
        if sel.any():
            want.append(np.concatenate([[m], S[:, sel].mean(axis=1)]))
    want = np.array(want).reshape(-1, 7).T
    before = rich.full(cl)
    if s["match"] and want.shape[1] < 2:
        return
    if s["match"]:                      # tail_path_match: the match to the tail path, whose units and options are the cluster's
        return tail_match(s, C, cl, U, P, Q, Y, kw, onsky, before)
    if s["func"]:
        r = ct.tail_path(cl, **kw)
    else:
        r = cl.tail_path(**kw)
        for k, q in zip(("tpath", "xpath", "ypath", "zpath", "vxpath", "vypath", "vzpath"), r):
            need(getattr(cl, k) is q, "%s is not what was returned" % k)
    need(len(r) == 7, "%d results" % len(r))
    T = natural(U, P)[2]
    got = np.atleast_1d(arr(rich.plain(r[0], "Myr"), "times")) * T
    close(got, want[0], "times of the tail path", rtol=5e-5 if U == "amuse" else 1e-7, atol=1e-9)
    if want.shape[1]:
        if onsky:
            g = np.array(sky.from_sky(*[arr(q, "sky") for q in r[1:]], Q))
            close(g[:3], want[1:4], "tail path: position", rtol=1e-6, atol=1e-4)
            close(g[3:], want[4:], "tail path: velocity", rtol=1e-6, atol=0.02)
        else:
            g = states(r[1:], U, P)
            close(g[:3], want[1:4], "tail path: position", rtol=1e-8, atol=1e-7)
            close(g[3:], want[4:], "tail path: velocity", rtol=1e-8, atol=1e-6)
    rich.unchanged(cl, before, OUT + (SKY if onsky else ()), "tail_path", rtol=1e-9 if not onsky else 1e-6)
    C.label("%s%s" % (U, " on the sky" if onsky else ""))
    C.nt(want.shape[1] >= 2 and s["n"] >= 3)


def tail_match(s, C, cl, U, P, Q, Y, kw, onsky, before):
    import clustertools as ct
    base = {k: v for k, v in kw.items() if k not in ("to_path", "do_full", "projected")}
    given = ct.tail_path(cl, **base)
    if len(given[0]) < 2:
        C.exclude("a tail path of less than two points")
        return
    kw = dict(kw)
    if s["seed"] % 2:
        kw["path"] = given
    r = ct.tail_path_match(cl, **kw) if s["func"] else cl.tail_path_match(**kw)
    if not s["func"]:
        need(cl.tstar is r[0] and cl.dprog is r[1] and cl.dpath is r[2], "tail_path_match does not store what it returns")
    ts = np.atleast_1d(arr(rich.plain(given[0], "Myr"), "times")) * natural(U, P)[2]
    if onsky:
        path = np.array([np.atleast_1d(arr(q, "sky")) for q in given[1:]])
    else:
        path = states(given[1:], U, P)
    if len(ts) < 2 or np.diff(np.sort(np.abs(ts)))[0] < 1e-9:
        C.exclude("no single tail point nearest to the cluster")
        return
    compare(r, U, P, ts, brute(Y, path, ts, onsky, s["proj"] or onsky, s["to_path"]), onsky, s["proj"] or onsky, "tail_path_match", 1e-5 if not onsky else 1e-3)
    rich.unchanged(cl, before, OUT + (SKY if onsky else ()), "tail_path_match", rtol=1e-9 if not onsky else 1e-6)
    C.label("tail_path_match %s%s" % (U, " on the sky" if onsky else ""))
    C.nt(s["n"] >= 3)


@st.composite
def frame_spec(draw):
    return dict(cl=draw(rich.specs(4, 20, lists=False)), amuse=draw(st.integers(0, 4)) == 0, func=draw(st.booleans()),
                v=draw(st.one_of(st.none(), st.sampled_from([[1, 0, 0], [-1, 0, 0], [0, 1, 0], [0, 0, -1], [-1, 1e-7, 0], [1, 1e-7, 0]]))), W=draw(st.lists(st.integers(-200, 200), min_size=3, max_size=3)))


@check.case("tail frame", frame_spec(), quick=1200, shards=2)
def frame(s, C):
    """to_tail is one rotation of all positions and velocities about the origin of the cluster (or centre); see the known finding on its direction."""
    import clustertools as ct
    cl = rich.build(s["cl"], lum=False)
    U = s["cl"]["units"]
    L, V, M, T = gen.factors(U, s["cl"]["P"])
    W = np.array(s["v"] if s["v"] is not None else s["W"], float) * (150.0 if s["v"] is not None else 1.0)
    if not np.linalg.norm(W) > 1:
        return
    cl.vxgc, cl.vygc, cl.vzgc = [float(v) for v in W / V]
    if s["amuse"]:
        cl.to_amuse()
        U, L, V = "amuse", 1.0, 1.0
    from checks.p01 import values
    raw = values(cl)
    x, v = np.array([raw[k] for k in "xyz"], float), np.array([raw["v" + k] for k in "xyz"], float)
    R, RV = np.abs(x).max(), np.abs(v).max()
    if cl.origin == "galaxy":                   # turned about the centre
        x = x - np.array([raw[k + "gc"] + raw[k + "c"] for k in "xyz"])[:, None]
        v = v - np.array([raw["v" + k + "gc"] + raw["v" + k + "c"] for k in "xyz"])[:, None]
    before = rich.full(cl)
    names = ("x_tail", "y_tail", "z_tail", "vx_tail", "vy_tail", "vz_tail")
    if s["func"]:
        r = ct.to_tail(cl)
        need(len(r) == 6, "%d results" % len(r))
    else:
        cl.to_tail()
        r = [getattr(cl, k) for k in names]
    X = np.array([arr(rich.plain(q, "pc"), k) for q, k in zip(r[:3], names)])
    Y = np.array([arr(rich.plain(q, "kms"), k) for q, k in zip(r[3:], names[3:])])
    need(X.shape == x.shape and Y.shape == v.shape, "shapes")
    Q = np.linalg.lstsq(x.T, X.T, rcond=None)[0].T
    if np.linalg.cond(x) > 1e3:
        return
    e = 1e-12 * (R / np.abs(x).max()) + 1e-10
    close(X, Q @ x, "tail coordinates", rtol=0, atol=100 * e * np.abs(x).max())
    close(Q @ Q.T, np.eye(3), "the map to the tail frame keeps lengths and angles", rtol=0, atol=1e5 * e)
    need(np.linalg.det(Q) > 0 or W[0] < -0.9999999 * np.linalg.norm(W), "the map to the tail frame mirrors the cluster")
    close(Y, Q @ v, "velocities in the tail frame", rtol=0, atol=(1e5 * e + 1e-12 * RV / np.abs(v).max()) * np.abs(v).max())
    w = W / np.linalg.norm(W)
    forth, back = Q @ w, Q.T @ w
    ok = np.abs(forth - [1, 0, 0]).max() < 1e-6 + 1e5 * e
    recorded = np.abs(back - [1, 0, 0]).max() < 1e-6 + 1e5 * e            # the recorded finding: the inverse rotation is applied
    need(ok or recorded, "neither the rotation to the tail frame nor its inverse takes the cluster's velocity to +x: %s" % forth)
    if not ok:
        C.label("recorded finding: inverse rotation")
    if not s["func"]:
        close(rich.plain(cl.r_tail, "pc") if U != "amuse" else [rich.plain(q, "pc") for q in np.atleast_1d(cl.r_tail)], np.sqrt((x ** 2).sum(0)), "r_tail", rtol=1e-6, atol=1e-11 * R)
        close(rich.plain(cl.v_tail, "kms") if U != "amuse" else [rich.plain(q, "kms") for q in np.atleast_1d(cl.v_tail)], np.sqrt((v ** 2).sum(0)), "v_tail", rtol=1e-6, atol=1e-11 * RV)
    rich.unchanged(cl, before, OUT, "to_tail")
    C.nt(s["cl"]["origin"] != "cluster" or s["amuse"] or s["v"] is None)


@check.known("to_tail-direction")
def direction():
    import clustertools as ct
    cl = gen.make(dict(kind="rand", n=5, seed=1, shape="plummer", mass="equal", off=0.0), "pckms", "cluster")
    cl.add_orbit(8000.0, 0.0, 0.0, 0.0, 200.0, 0.0)
    r = ct.to_tail(cl)
    if np.allclose(r[0], cl.y, rtol=1e-9):
        return None
    return "to_tail of a cluster moving along +y gives x_tail = %s where y = %s (the inverse of the rotation that takes its velocity to the x axis)" % (r[0][:2], cl.y[:2])
