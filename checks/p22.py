"""P22: stepping through a simulation visits every snapshot once, in order, each with its own stars, time and orbit line."""
import os, shutil
import numpy as np
from hypothesis import strategies as st
from vt.core import Check, close, same, need, fail, arr
from vt import gen
from checks.p21 import COORD, gyrheader

check = Check("P22",
    rule="series: numbered snapshot files (any base, end, zero padding, directory, first number, columns, units, origin) with an orbit file, a galpy "
         "orbit or neither, stepped with advance_cluster until it is empty; nemo: several snapshots in one gyrfalcon file; custom: a user's load "
         "function (non-trivial = at least two steps)")

OUNITS = ["pckms", "kpckms", "pcmyr", "kpcgyr", "nbody", "galpy", "WDunits"]


def clean():
    for f in os.listdir("."):
        shutil.rmtree(f) if os.path.isdir(f) else os.unlink(f)


def orbit_lines(rs, k, ou, P):
    """k orbital states: (physical kpc, km/s, Gyr), and the numbers to be written in the units `ou`."""
    L, V, M, T = gen.factors(ou, P)
    X, W, t = rs.uniform(2, 12, (k, 3)), rs.uniform(-200, 200, (k, 3)), np.sort(rs.uniform(0.001, 3, k))
    return X, W, t, X * 1000.0 / L, W / V, t * 1000.0 / T


ORBIT = []


def host_orbit():
    """An orbit integrated over 60 Gyr (shared by all cases of a process)."""
    if not ORBIT:
        from galpy.orbit import Orbit
        from galpy.potential import LogarithmicHaloPotential
        P = gen.DEFAULTS
        o = Orbit([1.0, 0.1, 1.1, 0.1, -0.2, 0.5], ro=P["ro"], vo=P["vo"], solarmotion=P["sm"], zo=P["zo"])
        o.integrate(np.linspace(0, 60 / 0.0358, 6001), LogarithmicHaloPotential(normalize=1.0, q=0.9))
        ORBIT.append(o)
    return ORBIT[0]


def at(cl, X, W, what):
    L, V, M, T = gen.factors(cl.units, dict(gen.DEFAULTS))
    close(np.array([cl.xgc, cl.ygc, cl.zgc]) * L / 1000.0, X, what + ": orbital position", rtol=1e-8, atol=1e-9)
    close(np.array([cl.vxgc, cl.vygc, cl.vzgc]) * V, W, what + ": orbital velocity", rtol=1e-8, atol=1e-7)


def stars_of(cl, d, ids, origin, what):
    need(cl.ntot == len(ids), "%s: %r stars instead of %d" % (what, cl.ntot, len(ids)))
    same(cl.id, ids, what + ": ids")
    big = [abs(cl.xgc) + abs(cl.ygc) + abs(cl.zgc), abs(cl.vxgc) + abs(cl.vygc) + abs(cl.vzgc)] if origin == "galaxy" else [0.0, 0.0]
    for k in COORD:
        close(getattr(cl, k), d[k], "%s: %s" % (what, k), rtol=1e-9, atol=1e-9 * (big[len(k) - 1] + np.max(np.abs(d[k]))))
    close(cl.m, d["m"], what + ": m", rtol=1e-9)


def make(rs, n, units, origin):
    L, V, M, T = gen.factors(units, dict(gen.DEFAULTS))
    d = {k: rs.normal(0, 3 / L if k in "xyz" else 2 / V, n) for k in COORD}
    if origin == "galaxy":
        for k in COORD:
            d[k] += 5000.0 / L if k in "xyz" else 80.0 / V
    d["m"] = rs.uniform(0.1, 3, n) / M
    return d


@st.composite
def spec(draw):
    return dict(k=draw(st.integers(1, 4)), n=draw(st.lists(st.integers(2, 9), min_size=4, max_size=4)), seed=draw(st.integers(0, 2 ** 31)), first=draw(st.sampled_from([0, 0, 0, 1, 7, 98])),
                nzfill=draw(st.sampled_from([None, 1, 3, 6])), base=draw(st.sampled_from([None, "snap", "run_"])), end=draw(st.sampled_from([None, ".txt"])), delim=draw(st.sampled_from([None, ","])),
                head=draw(st.integers(0, 2)), wdir=draw(st.sampled_from([None, "w", "w/"])), snapdir=draw(st.sampled_from([None, "sub", "sub/"])), units=draw(st.sampled_from(gen.UNITS)),
                origin=draw(st.sampled_from(["cluster", "centre", "galaxy", None])), how=draw(st.sampled_from(["none", "file", "file", "name", "galpy"])), ounits=draw(st.sampled_from(OUNITS + [None])),
                otime=draw(st.booleans()), ocols=draw(st.booleans()), analyze=draw(st.booleans()), sort=draw(st.booleans()), cols=draw(st.booleans()), cont=draw(st.integers(0, 3)), change=draw(st.booleans()))


@check.case("series", spec(), quick=1200, shards=2)
def series(s, C):
    import clustertools as ct
    clean()
    rs = np.random.RandomState(s["seed"])
    k, units, origin, P = s["k"], s["units"], s["origin"], dict(gen.DEFAULTS)
    if origin is None and s["how"] != "none":
        origin = "cluster"
    wdir = (s["wdir"] or "").rstrip("/")
    snapdir = (s["snapdir"] or "").rstrip("/")
    cont = min(s["cont"], k) if s["how"] in ("none", "galpy") else 0        # the last `cont` snapshots lie in cont/
    if cont == k:
        cont = 0
    data, ids = [], []
    for i in range(k):
        d = make(rs, s["n"][i], units, origin)
        data.append(d)
        ids.append(rs.choice(1000, s["n"][i], replace=False) if s["cols"] else np.arange(s["n"][i]))
        where = os.path.join(*[p for p in (".", wdir, "cont" if i >= k - cont else "", snapdir) if p])
        os.makedirs(where, exist_ok=True)
        names = ["m"] + list(COORD)
        t = np.column_stack([d[c] for c in names] + [ids[i]])
        if s["cols"]:
            t = t[:, ::-1]
        with open("%s/%s%s%s" % (where, s["base"] or "", str(s["first"] + i).zfill(s["nzfill"] or 5), s["end"] or ".dat"), "w") as f:
            f.write("some words\n" * s["head"])
            np.savetxt(f, t, delimiter=s["delim"] or " ", fmt="%.17g")
    kw = {}
    if s["cols"]:
        kw = dict(col_names=["id"] + names[::-1], col_nums=list(range(8)))
    once = {a: b for a, b in dict(nzfill=s["nzfill"], snapbase=s["base"], snapend=s["end"], delimiter=s["delim"], wdir=s["wdir"], snapdir=s["snapdir"]).items() if b is not None}
    if s["head"]:
        once["skiprows"] = s["head"]
    if s["first"]:
        once["nsnap"] = s["first"]
    ou = s["ounits"]
    X, W, t, Xn, Wn, tn = orbit_lines(rs, s["first"] + k, ou or units, P)
    again = dict(kw)
    orbit = None
    if s["how"] in ("file", "name"):
        o = np.column_stack([tn, Xn, Wn])
        if s["ocols"]:
            o = o[:, [6, 5, 4, 0, 3, 2, 1]]
            again.update(ocol_names=["x", "y", "z", "t", "vx", "vy", "vz"], ocol_nums=[6, 5, 4, 3, 2, 1, 0])
        os.makedirs(os.path.join(".", wdir), exist_ok=True)
        np.savetxt(os.path.join(".", wdir, "orbit.dat"), o, fmt="%.17g")
        if ou is not None:
            again["ounits"] = ou
        if s["otime"]:
            again["otime"] = True
        if s["how"] == "file":
            once["ofile"] = open(os.path.join(".", wdir, "orbit.dat"))
        else:
            once["ofilename"] = "orbit.dat"
    elif s["how"] == "galpy":
        orbit = host_orbit()
        again["orbit"] = orbit
    cl = ct.load_cluster("snapshot", units=units, origin=origin, analyze=s["analyze"], sortstars=s["sort"], **once, **again)
    for i in range(k):
        what = "snapshot %d" % i
        stars_of(cl, data[i], ids[i], origin if s["how"] != "none" else None, what) if origin != "galaxy" or s["how"] != "none" else moved(cl, data[i], ids[i], what)
        need(cl.units == units and cl.origin == origin, "%s is in %r, %r" % (what, cl.units, cl.origin))
        need(cl.nsnap == s["first"] + i, "%s: nsnap = %r instead of %d" % (what, cl.nsnap, s["first"] + i))
        if s["how"] in ("file", "name"):
            at(cl, X[s["first"] + i], W[s["first"] + i], what)
            if s["otime"]:
                T = gen.factors(units, P)[3]
                close(cl.tphys * T / 1000.0, t[s["first"] + i], what + ": time", rtol=1e-8)
        elif s["how"] == "galpy":
            L, V = gen.factors(units, P)[:2]
            close(np.array([cl.xgc, cl.ygc, cl.zgc]) * L / 1000.0, [orbit.x(0.0), orbit.y(0.0), orbit.z(0.0)], what + ": orbital position", rtol=1e-8)
            close(np.array([cl.vxgc, cl.vygc, cl.vzgc]) * V, [orbit.vx(0.0), orbit.vy(0.0), orbit.vz(0.0)], what + ": orbital velocity", rtol=1e-8, atol=1e-8)
        if s["change"]:             # analysing a snapshot in other units and frames does not affect the next one
            if origin is not None:
                cl.to_galaxy()
            cl.to_pckms()
        cl = ct.advance_cluster(cl, analyze=s["analyze"], sortstars=s["sort"], **again)
    need(cl.ntot == 0 and len(cl.x) == 0, "%r stars after the last snapshot" % (cl.ntot,))
    C.nt(k > 1)
    C.label(s["how"])
    if cont:
        C.label("cont/")
    if s["first"]:
        C.label("not from zero")


def moved(cl, d, ids, what):
    """Without an orbit the galaxy frame keeps the numbers of the file."""
    need(cl.ntot == len(ids), "%s: %r stars instead of %d" % (what, cl.ntot, len(ids)))
    same(cl.id, ids, what + ": ids")
    for k in COORD:
        close(getattr(cl, k), d[k], "%s: %s" % (what, k), rtol=1e-9)
    close(cl.m, d["m"], what + ": m", rtol=1e-9)


@st.composite
def nspec(draw):
    return dict(k=draw(st.integers(1, 4)), n=draw(st.integers(2, 9)), seed=draw(st.integers(0, 2 ** 31)), loader=draw(st.sampled_from(["gyrfalcon", "nemo", "new_gyrfalcon", "new_nemo"])),
                head=draw(st.sampled_from([None, 13, 7])), give=draw(st.sampled_from([None, "mxv", "mxve", "mxvpqael"])), units=draw(st.sampled_from(["WDunits", "kpckms", "pckms"])),
                origin=draw(st.sampled_from(["cluster", "galaxy", None])), how=draw(st.sampled_from(["none", "file", "galpy", "name"])), ounits=draw(st.sampled_from(OUNITS + [None])),
                analyze=draw(st.booleans()), sort=draw(st.booleans()), vary=draw(st.booleans()), dt=draw(st.integers(1, 640)), t0=draw(st.integers(0, 64)), wdir=draw(st.booleans()), change=draw(st.booleans()))


@check.case("nemo", nspec(), quick=800, shards=2)
def nemo(s, C):
    import clustertools as ct
    clean()
    rs = np.random.RandomState(s["seed"])
    k, units, origin, P = s["k"], s["units"], s["origin"], dict(gen.DEFAULTS)
    if s["how"] != "none" and origin is None:
        origin = "cluster"
    new = s["loader"].startswith("new")
    ns = [s["n"]] * k if new or not s["vary"] else [s["n"] + i for i in range(k)]
    give = s["give"]
    nc = dict(mxv=0, mxve=1, mxvpqael=5)[give or "mxv"]
    data = []
    w = "w/" if s["wdir"] else ""
    if w:
        os.makedirs("w", exist_ok=True)
    head = s["head"] or 13
    with open(w + "snap.nemo", "w") as f:
        for i in range(k):
            d = make(rs, ns[i], units, origin)
            d["extra"] = rs.uniform(0, 5, (ns[i], nc))
            data.append(d)
            f.write(gyrheader(ns[i], (s["t0"] + i * s["dt"]) / 64.0, head))
            np.savetxt(f, np.column_stack([d[c] for c in ("m",) + COORD] + [d["extra"]]), fmt="%.17g")
    once, again = dict(filename="snap.nemo"), {}
    if w:
        once["wdir"] = "w"
    if s["head"]:
        once["skiprows"] = s["head"]
    if give:
        again["give"] = give
    X, W, t, Xn, Wn, tn = orbit_lines(rs, k, s["ounits"] or units, P)
    orbit = None
    if s["how"] in ("file", "name"):
        np.savetxt(w + "orbit.dat", np.column_stack([tn, Xn, Wn]), fmt="%.17g")
        once.update({"ofile": open(w + "orbit.dat")} if s["how"] == "file" else {"ofilename": "orbit.dat"})
        if s["ounits"] is not None:
            again["ounits"] = s["ounits"]
    elif s["how"] == "galpy":
        orbit = host_orbit()
        again["orbit"] = orbit
    cl = ct.load_cluster(s["loader"], units=units, origin=origin, analyze=s["analyze"], sortstars=s["sort"], **once, **again)
    for i in range(k):
        what = "snapshot %d" % i
        ids = np.arange(ns[i]) + (0 if new else 1)
        if s["how"] == "none" and origin == "galaxy":
            moved2(cl, data[i], ids, what)
        else:
            stars_of(cl, data[i], ids, origin, what)
        need(cl.units == units and cl.origin == origin, "%s is in %r, %r" % (what, cl.units, cl.origin))
        close(cl.tphys, (s["t0"] + i * s["dt"]) / 64.0, what + ": time", rtol=1e-9)
        if nc == 1:
            close(cl.eps, data[i]["extra"][:, 0], what + ": eps", rtol=1e-12)
        elif nc == 5:
            for j, a in enumerate(("gyrpot", "gyrq", "gyracc", "eps", "gyrlev")):
                close(getattr(cl, a), data[i]["extra"][:, j], what + ": " + a, rtol=1e-12)
        if s["how"] in ("file", "name"):
            at(cl, X[i], W[i], what)
        elif orbit is not None:
            L, V, M, T = gen.factors(units, P)
            tt = cl.tphys * T / 1000.0 / (P["ro"] * 1000.0 / (P["vo"] * gen.KMS) / 1000.0)
            close(np.array([cl.xgc, cl.ygc, cl.zgc]) * L / 1000.0, [orbit.x(tt), orbit.y(tt), orbit.z(tt)], what + ": orbital position", rtol=1e-4, atol=1e-3)
        if s["change"]:
            if origin is not None and s["how"] != "none":
                cl.to_galaxy()
            cl.to_pckms()
        with open(os.devnull, "w"):
            cl = ct.advance_cluster(cl, analyze=s["analyze"], sortstars=s["sort"], **again)
    need(cl.ntot == 0, "%r stars after the last snapshot" % (cl.ntot,))
    C.nt(k > 1)
    C.label(s["how"])
    C.label(s["loader"])


def moved2(cl, d, ids, what):
    need(cl.ntot == len(ids), "%s: %r stars instead of %d" % (what, cl.ntot, len(ids)))
    same(cl.id, ids, what + ": ids")
    for k in COORD:
        close(getattr(cl, k), d[k], "%s: %s" % (what, k), rtol=1e-9)
    close(cl.m, d["m"], what + ": m", rtol=1e-9)


@st.composite
def uspec(draw):
    return dict(k=draw(st.integers(1, 3)), seed=draw(st.integers(0, 2 ** 31)), units=draw(st.sampled_from(gen.UNITS)), origin=draw(st.sampled_from(["cluster", "galaxy"])),
                filename=draw(st.booleans()), file=draw(st.booleans()), extra=draw(st.booleans()))


@check.case("custom", uspec(), quick=150)
def custom(s, C):
    """A user's load function gets the caller's arguments, the initial units and origin and the next snapshot number."""
    import clustertools as ct
    clean()
    rs = np.random.RandomState(s["seed"])
    open("orbit.dat", "w").write("0 1 2 3 4 5 6\n")
    calls = []
    def loader(ctype, units, origin, ofile, orbit, **kw):
        calls.append(dict(kw, ctype=ctype, units=units, origin=origin, ofile=ofile, orbit=orbit))
        cl = ct.StarCluster(units=units, origin=origin, ctype=ctype, nsnap=kw.get("nsnap", 0))
        if len(calls) <= s["k"]:
            cl.add_stars(*rs.normal(0, 1, (6, 5)), rs.uniform(1, 2, 5))
        return cl
    kw = dict(filename="a.dat") if s["filename"] else {}
    if s["extra"]:
        kw["mine"] = 5
    f = open("orbit.dat") if s["file"] else None
    cl = ct.load_cluster(units=s["units"], origin=s["origin"], load_function=loader, ofile=f, **kw)
    for i in range(s["k"]):
        c = calls[-1]
        need(len(calls) == i + 1, "%d calls of the load function for %d snapshots" % (len(calls), i + 1))
        need(c["ctype"] == "custom" and c["units"] == s["units"] and c["origin"] == s["origin"], "load function got %r" % (c,))
        need(c.get("filename") == kw.get("filename") and c.get("mine") == kw.get("mine"), "load function got %r" % (c,))
        need(c["ofile"] is f, "load function got orbit file %r" % (c["ofile"],))
        need(c.get("nsnap", 0) == i and bool(c.get("advance", False)) == (i > 0), "load function got nsnap %r, advance %r for snapshot %d" % (c.get("nsnap"), c.get("advance"), i))
        need(cl.ntot == 5 and cl.ctype == "custom", "custom cluster")
        cl.to_units("pckms")
        cl = ct.advance_cluster(cl, load_function=loader, **kw)
    need(cl.ntot == 0, "%r stars after the last snapshot" % (cl.ntot,))
    C.nt(s["k"] > 1)
