"""P21: reading and writing star data preserves every star: values, order, identity, units and frame."""
import os
import numpy as np
from hypothesis import strategies as st
from vt.core import Check, close, same, need, fail, arr
from vt import gen, rich, sky
from checks.p01 import values

check = Check("P21",
    rule="snapout/gyrout/fortout/sseout: a generated cluster (units, origin, optional data), output options, and the loader it is read back "
         "with; columns: a generated text file with any subset and order of columns, delimiter, header and place on disk; tables: astropy "
         "tables with generated column names; amuse, galpy: particle sets and orbits (non-trivial = at least 3 stars and, for files, a "
         "column order, unit system or option that is not the default)")

HALF = ("rm", "r10", "rmpro", "r10pro", "rh", "rh10", "rhpro", "rh10pro")
COORD = ("x", "y", "z", "vx", "vy", "vz")


def galactic(cl):
    """(positions kpc, velocities km/s, masses Msun) of every star in the galaxy frame."""
    P = dict(ro=cl._ro, vo=cl._vo, zmbar=cl.zmbar, rbar=cl.rbar, vbar=cl.vbar, tbar=cl.tbar)
    L, V, M, T = gen.factors(cl.units, P)
    raw = values(cl)
    X, W = np.array([raw[k] for k in "xyz"], float), np.array([raw["v" + k] for k in "xyz"], float)
    if cl.origin != "galaxy":
        X = X + np.array([raw[k + "gc"] for k in "xyz"], float)[:, None]
        W = W + np.array([raw["v" + k + "gc"] for k in "xyz"], float)[:, None]
        if cl.origin == "centre":
            X = X + np.array([raw[k + "c"] for k in "xyz"], float)[:, None]
            W = W + np.array([raw["v" + k + "c"] for k in "xyz"], float)[:, None]
    return X * L / 1000.0, W * V, np.array(raw["m"], float) * M


def loaded(c2, cl, n, cols, what, tol=1e-9):
    """The loaded cluster has exactly the stars of `cols` (x..vz, m), in their order."""
    need(type(c2).__name__ == "StarCluster", "%s returned %r" % (what, type(c2)))
    need(c2.ntot == n, "%s: %r stars, expected %d" % (what, c2.ntot, n))
    raw = values(c2)
    L = max(np.max(np.abs(cols[k])) for k in "xyz")
    W = max(np.max(np.abs(cols["v" + k])) for k in "xyz")
    for k in COORD:
        close(raw[k], cols[k], "%s: %s" % (what, k), rtol=tol, atol=tol * (L if k in "xyz" else W))
    close(raw["m"], cols["m"], "%s: m" % what, rtol=tol)


@st.composite
def sspec(draw):
    d = draw(rich.specs(1, 30))
    d.update(energies=draw(st.booleans()), radec=draw(st.booleans()), analyze=draw(st.booleans()), sort2=draw(st.booleans()))
    return d


@check.case("snapout", sspec(), quick=900, shards=2)
def snapout(s, C):
    import clustertools as ct
    cl = rich.build(s)
    rs = np.random.RandomState(s["seed"] + 1)
    n = cl.ntot
    if s["energies"]:
        cl.add_energies(rs.uniform(0, 2, n), rs.uniform(-3, 0, n))
    before = rich.full(cl)
    st0 = {k: np.copy(getattr(cl, k)) for k in COORD + ("m", "id")}
    en = {k: np.copy(getattr(cl, k)) for k in ("kin", "pot", "etot")}
    kw = np.copy(cl.kw)
    gp = galactic(cl)
    ct.snapout(cl, "snap.dat", energies=s["energies"], radec=s["radec"])
    rich.unchanged(cl, before, (), "snapout")
    d = np.loadtxt("snap.dat", ndmin=2)
    need(d.shape[0] == n, "%d rows for %d stars" % (d.shape[0], n))
    haskw = len(kw) == n
    nc = 8 + (haskw or s["energies"] or s["radec"]) + 3 * s["energies"] + 6 * s["radec"]
    need(d.shape[1] == nc, "%d columns, expected %d" % (d.shape[1], nc))
    raw = values(cl)
    big = {k: np.max(np.abs(raw[k])) + np.abs(raw[k + "gc"]) + np.abs(raw[k + "c"]) for k in COORD}
    big = {k: max(big[b] for b in (("x", "y", "z") if k in "xyz" else ("vx", "vy", "vz"))) for k in COORD}
    for i, k in enumerate(("m",) + COORD + ("id",)):
        # the sky coordinates come first and move the cluster to another frame and back
        close(d[:, i], st0[k], "column %s" % k, rtol=1e-13, atol=(1e-11 * big[k] if s["radec"] and k in COORD else 0.0) + 1e-300)
    if haskw:
        close(d[:, 8], kw, "column kw")
    j = 9
    if s["energies"]:
        for i, k in enumerate(("kin", "pot", "etot")):
            close(d[:, 9 + i], en[k], "column %s" % k, rtol=1e-13)
        j = 12
    if s["radec"]:
        P = s["P"]
        exp = sky.to_sky(*gp[0], *gp[1], P)
        for i, k in enumerate(("ra", "dec", "dist", "pmra", "pmdec", "vlos")):
            g = d[:, j + i]
            if k == "ra":
                g = (g - exp[i] + 180.0) % 360.0 - 180.0
                close(g * np.cos(np.radians(exp[1])), np.zeros(n), "column ra", atol=1e-8)
            else:
                close(g, exp[i], "column %s" % k, rtol=1e-7, atol=1e-6 if k in ("pmra", "pmdec", "vlos") else 1e-8)
    names = ["m"] + list(COORD) + ["id"] + (["kw"] if haskw else [])
    c2 = ct.load_cluster("snapshot", filename="snap.dat", units=s["units"], origin=s["origin"], col_names=names, col_nums=list(range(len(names))),
                         analyze=s["analyze"], sortstars=s["sort2"])
    need(c2.units == s["units"] and c2.origin == s["origin"], "loaded as %r, %r instead of %r, %r" % (c2.units, c2.origin, s["units"], s["origin"]))
    loaded(c2, cl, n, {k: d[:, i] for i, k in enumerate(names)}, "snapout read back")
    same(c2.id, st0["id"], "ids read back")
    if haskw:
        same(np.asarray(c2.kw, int), kw.astype(int), "stellar types read back")
    C.nt(n >= 3 and (s["energies"] or s["radec"] or s["units"] != "pckms" or s["origin"] != "cluster"))
    C.label("energies" if s["energies"] else "plain")
    C.label("radec" if s["radec"] else "no radec")


@st.composite
def cspec(draw):
    n = draw(st.integers(1, 12))
    drop = draw(st.sets(st.sampled_from(["m", "id", "kw", "z", "vx", "vy", "vz"]), max_size=5))
    names = [k for k in ("m",) + COORD + ("id", "kw") if k not in drop]
    return dict(n=n, seed=draw(st.integers(0, 2 ** 31)), names=draw(st.permutations(names)), junk=draw(st.integers(0, 4)), delim=draw(st.sampled_from([None, ",", ";", "|"])),
                head=draw(st.integers(0, 3)), hash=draw(st.booleans()), place=draw(st.sampled_from(["cwd", "wdir", "snapdir", "series", "series snapdir", "series wdir", "absolute"])),
                nsnap=draw(st.integers(0, 130)), nzfill=draw(st.integers(1, 6)), base=draw(st.sampled_from(["", "snap", "run_"])), end=draw(st.sampled_from([".dat", ".txt", ""])),
                slash=draw(st.booleans()), decoy=draw(st.booleans()), origin=draw(st.sampled_from([None, "cluster", "centre", "galaxy"])),
                units=draw(st.sampled_from(gen.UNITS + [None])), analyze=draw(st.booleans()), sort=draw(st.booleans()), fmt=draw(st.sampled_from(["%.18e", "%.6f", "%.10g"])))


@check.case("columns", cspec(), quick=900, shards=2)
def columns(s, C):
    import clustertools as ct
    rs = np.random.RandomState(s["seed"])
    n, names = s["n"], list(s["names"])
    data = {k: np.round(rs.normal(0, 5, n), 4) for k in COORD}
    data["m"] = np.round(rs.uniform(0.1, 3, n), 4)
    data["id"] = rs.choice(10 ** 6, n, replace=False).astype(float)
    data["kw"] = rs.randint(0, 15, n).astype(float)
    cols = names + ["junk"] * s["junk"]
    perm = rs.permutation(len(cols))
    nums = np.empty(len(cols), int)
    nums[perm] = np.arange(len(cols))               # file column of each name
    table = np.empty((n, len(cols)))
    for i, k in enumerate(cols):
        table[:, nums[i]] = data[k] if k != "junk" else rs.normal(0, 9, n)
    def write(path, t):
        with open(path, "w") as f:
            for i in range(s["head"]):
                f.write(("# " if s["hash"] else "") + "header line %d with words\n" % i)
            np.savetxt(f, t, fmt=s["fmt"], delimiter=s["delim"] or " ")
    kw = dict(units=s["units"], origin=s["origin"], col_names=names, col_nums=[int(v) for v in nums[:len(names)]], delimiter=s["delim"], skiprows=s["head"],
              analyze=s["analyze"], sortstars=s["sort"])
    sl = "/" if s["slash"] else ""
    p, series = s["place"], s["place"].startswith("series")
    for d in ("w", "w/sub"):
        os.makedirs(d, exist_ok=True)
    name = "%s%s%s" % (s["base"], str(s["nsnap"]).zfill(s["nzfill"]), s["end"]) if series else "stars.dat"
    if series:
        kw.update(nsnap=s["nsnap"], nzfill=s["nzfill"], snapbase=s["base"], snapend=s["end"])
    else:
        kw.update(filename=name)
    where = dict(cwd="", wdir="w/", snapdir="w/sub/", series="", absolute="w/sub/")
    where.update({"series wdir": "w/", "series snapdir": "w/sub/"})
    path = where[p] + name
    if p in ("wdir", "snapdir", "series wdir", "series snapdir"):
        kw["wdir"] = "w" + sl
        if s["decoy"]:          # another file of that name where the program runs
            write(name, table[::-1] + 1.0)
    if p in ("snapdir", "series snapdir"):
        kw["snapdir"] = "sub" + sl
        if s["decoy"]:
            write("w/" + name, table[::-1] + 2.0)
    if p == "absolute":
        kw["filename"] = os.path.abspath(path)
    write(path, table)
    c2 = ct.load_cluster("snapshot", **kw)
    exp = {k: (data[k] if k in names else np.full(n, 1.0 if k == "m" else 0.0)) for k in COORD + ("m",)}
    need(c2.units == s["units"] and c2.origin == s["origin"], "loaded as %r, %r" % (c2.units, c2.origin))
    tol = 1e-9 if s["fmt"] != "%.10g" else 2e-9
    loaded(c2, None, n, exp, "snapshot with columns %s" % (names,), tol)
    if "id" in names:
        same(c2.id, data["id"].astype(int), "ids")
    else:
        need(len(np.unique(c2.id)) == n, "ids are not unique: %r" % (c2.id,))
    if "kw" in names:
        same(np.asarray(c2.kw, int), data["kw"].astype(int), "stellar types")
    need(len(c2.m0) == n and len(c2.npop) == n and c2.nsnap == (s["nsnap"] if series else 0), "bookkeeping of the loaded cluster")
    if s["analyze"] and s["origin"] is not None and n:
        r = np.sqrt(arr(c2.x, "x") ** 2 + arr(c2.y, "y") ** 2 + arr(c2.z, "z") ** 2)
        close(c2.r, r, "radii of the loaded cluster", rtol=1e-9)
    C.nt(n >= 3 and (s["junk"] > 0 or any(nums[i] != i for i in range(len(names)))))
    C.label("%s" % p)
    C.label("%d of 9 columns" % len(names))


@check.case("missing file", cspec(), quick=100)
def missing(s, C):
    """A snapshot that is not there is an empty cluster, not an exception and not another file."""
    import clustertools as ct
    for f in os.listdir("."):
        if os.path.isfile(f):
            os.unlink(f)
    open("00000.dat.old", "w").write("1 2 3 4 5 6 7\n")
    kw = dict(units=s["units"], origin=s["origin"], nsnap=s["nsnap"], nzfill=s["nzfill"], snapbase=s["base"], snapend=s["end"] or ".dat")
    if s["decoy"]:
        kw["filename"] = "nothing.dat"
    np.savetxt("%s%s%s" % (s["base"], str(s["nsnap"] + 1).zfill(s["nzfill"]), s["end"] or ".dat"), np.ones((3, 7)))
    c2 = ct.load_cluster("snapshot", **kw)
    need(c2.ntot == 0, "%r stars loaded from a file that does not exist" % (c2.ntot,))
    C.nt()


@st.composite
def gspec(draw):
    d = draw(rich.specs(2, 30))
    d.update(eps=draw(st.sampled_from([None, "float", "int", "array", "units"])), loader=draw(st.sampled_from(["gyrfalcon", "new_gyrfalcon", "nemo", "new_nemo"])),
             head=draw(st.sampled_from([13, 13, 13, 5, 20])), time=draw(st.integers(0, 5000)) / 64.0, analyze=draw(st.booleans()), amuse=draw(st.integers(0, 5)) == 0)
    return d


def gyrheader(n, t, k):
    """k header lines as s2a writes them."""
    lines = ["# "] * k
    lines[1] = "# from snapshot out.nemo"
    lines[2] = "# time: %.17g" % t
    lines[3] = "# Ntot: %d, Nsink: 0, Nstd: %d" % (n, n)
    return "\n".join(lines) + "\n"


@check.case("gyrout", gspec(), quick=500, shards=2)
def gyrout(s, C):
    import clustertools as ct
    cl = rich.build(s)
    n = cl.ntot
    P = s["P"]
    gp = galactic(cl)
    if s["amuse"]:
        cl.to_amuse()
    kw, eps = {}, None
    L = gen.factors(cl.units, P)[0] / 1000.0
    rs = np.random.RandomState(s["seed"])
    if s["eps"] == "float":
        kw = dict(eps=0.25)
        eps = np.full(n, 0.25 * L)
    elif s["eps"] == "int":
        kw = dict(eps=2)
        eps = np.full(n, 2 * L)
    elif s["eps"] == "array":
        kw = dict(eps=rs.uniform(0.1, 2, n))
        eps = kw["eps"] * L
    elif s["eps"] == "units":
        kw = dict(eps=rs.uniform(0.1, 2, n), epsunits="pckms")
        eps = kw["eps"] / 1000.0
    if cl.units == "amuse" and s["eps"] in ("float", "int", "array"):
        import amuse.units.units as u
        kw["eps"] = kw["eps"] | u.parsec
    e0 = np.copy(rich.plain(kw["eps"])) if kw else None
    before = rich.full(cl)
    ct.gyrout(cl, filename="init.dat", **kw)
    rich.unchanged(cl, before, (), "gyrout")
    if kw:
        same(np.asarray(rich.plain(kw["eps"])), e0, "the eps passed in")
    d = np.loadtxt("init.dat", ndmin=2)
    need(d.shape == (n, 7 + (eps is not None)), "file of shape %r for %d stars" % (d.shape, n))
    X, V, M = gp
    tol = dict(rtol=1e-9 if "galpy" != s["units"] else 2e-5)
    close(d[:, 0], M / gen.WDMASS, "mass column", **tol)
    for i in range(3):
        close(d[:, 1 + i], X[i], "position column %d" % i, rtol=1e-9, atol=1e-9 * np.max(np.abs(X)))
        close(d[:, 4 + i], V[i] * gen.KMS, "velocity column %d" % i, rtol=1e-9, atol=1e-9 * np.max(np.abs(V)))
    if eps is not None:
        close(d[:, 7], eps, "softening column", rtol=1e-9)
    # a gyrfalcon snapshot with these stars, read back
    with open("snap.nemo", "w") as f:
        f.write(gyrheader(n, s["time"], s["head"]) + open("init.dat").read())
    c2 = ct.load_cluster(s["loader"], filename="snap.nemo", units="WDunits", origin="galaxy", skiprows=s["head"], give="mxve" if eps is not None else "mxv",
                         analyze=s["analyze"])
    loaded(c2, cl, n, dict(zip(("m",) + COORD, d[:, :7].T)), "%s" % s["loader"])
    need(len(np.unique(c2.id)) == n, "ids are not unique")
    close(c2.tphys, s["time"], "time", rtol=1e-12)
    if eps is not None:
        close(c2.eps, d[:, 7], "softenings", rtol=1e-12)
    need(c2.units == "WDunits" and c2.origin == "galaxy", "loaded as %r, %r" % (c2.units, c2.origin))
    c2.to_units("pckms")
    raw = values(c2)
    for i, k in enumerate("xyz"):
        close(raw[k], X[i] * 1000.0, "%s in pc" % k, rtol=1e-7, atol=1e-7 * np.max(np.abs(X)))
        close(raw["v" + k], V[i], "v%s in km/s" % k, rtol=1e-7, atol=1e-7 * np.max(np.abs(V)))
    close(raw["m"], M, "mass in Msun", **tol)
    C.nt(n >= 3)
    C.label("eps %s" % s["eps"])
    C.label("%s" % s["loader"])


@st.composite
def fspec(draw):
    d = draw(rich.specs(3, 30, units=[u for u in gen.UNITS]))
    d.update(sse=draw(st.booleans()), reset=draw(st.sampled_from([None, "both", "mass", "radii"])), amuse=draw(st.integers(0, 5)) == 0)
    return d


@check.case("fortout", fspec(), quick=700, shards=2)
def fortout(s, C):
    import clustertools as ct
    cl = rich.build(s)
    n, P = cl.ntot, s["P"]
    X, V, M = galactic(cl)
    L, W, MM, T = gen.factors(cl.units, P)
    raw = values(cl)
    c = np.array([(raw[k + "gc"] + raw[k + "c"]) * L / 1000.0 for k in "xyz"])
    vc = np.array([(raw["v" + k + "gc"] + raw["v" + k + "c"]) * W for k in "xyz"])
    rs = np.random.RandomState(s["seed"])
    m0 = np.array(cl.m0, float)          # written as it is stored
    sse = s["sse"] and not s["amuse"]
    if sse:
        k0, ep, os_ = rs.randint(0, 15, n), rs.uniform(0, 100, n), rs.uniform(0, 9, n)
        if len(cl.kw):
            cl.kw = np.array([])
            cl.logl = cl.logr = cl.lum = cl.ep = cl.ospin = np.array([])
        cl.add_sse(k0, np.zeros(n), np.zeros(n), ep=ep, ospin=os_)
        cl.analyze(sortstars=s["sort"])         # half-light radii belong to the new luminosities
    if s["amuse"]:
        cl.to_amuse()
    before = rich.full(cl)
    lst = s["stars"]["kind"] == "list"       # coincident stars have no virial radius; half the mass may be reached exactly at a star
    reset = s["reset"] if s["units"] != "nbody" and not lst else None
    kw = dict(reset_nbody=True, reset_nbody_mass=reset in ("both", "mass"), reset_nbody_radii=reset in ("both", "radii")) if reset else {}
    cl.wdir = os.getcwd() + "/"
    ct.fortout(cl, filename="fort.10", sse=sse, **kw)
    scales = ("zmbar", "rbar", "vbar", "tbar", "rbar_su", "rbar_au", "tbar_days", "rv", "wdir")
    rich.unchanged(cl, before, (scales if reset else ("wdir",)) + (HALF if lst else ()), "fortout")
    d = np.loadtxt("fort.10", ndmin=2)
    need(d.shape == (n, 7), "file of shape %r for %d stars" % (d.shape, n))
    tol = 2e-9 if s["units"] != "galpy" else 2e-5
    close(d[:, 0] * cl.zmbar, M, "mass column", rtol=tol)
    sx, sv = np.max(np.abs(X)) * 1000.0, np.max(np.abs(V)) + np.max(np.abs(vc))
    for i in range(3):
        close(d[:, 1 + i] * cl.rbar, (X[i] - c[i]) * 1000.0, "position column %d" % i, rtol=tol, atol=1e-9 * sx)
        close(d[:, 4 + i] * cl.vbar, V[i] - vc[i], "velocity column %d" % i, rtol=tol, atol=1e-9 * sv)
    if not reset:
        close([cl.zmbar, cl.rbar, cl.vbar, cl.tbar], [P["zmbar"], P["rbar"], P["vbar"], P["tbar"]], "scales", rtol=1e-12)
    elif reset in ("both", "mass"):
        close(np.sum(d[:, 0]), 1.0, "total mass in N-body units", rtol=1e-9)
    if sse:
        ct.sseout(cl, "fort.12b")
        for f in ("fort.12", "fort.12b"):
            e = np.loadtxt(f, ndmin=2)
            need(e.shape == (n, 5), "%s of shape %r" % (f, e.shape))
            for j, (a, what) in enumerate(((m0, "initial mass"), (k0, "type"), (M, "mass"), (ep, "epoch"), (os_, "spin"))):
                close(e[:, j], a, "%s column of %s" % (what, f), rtol=tol, atol=1.01e-6)
        rich.unchanged(cl, before, (scales if reset else ("wdir",)) + (HALF if lst else ()), "sseout")
    C.nt(n >= 3)
    C.label("reset %s" % reset)
    C.label("sse" if sse else "no sse")


ALIAS = dict(m=["m", "mass"], x=["x"], y=["y"], z=["z"], vx=["v_x", "vx"], vy=["v_y", "vy"], vz=["v_z", "vz"], id=["id"])
SKYALIAS = dict(x=["right ascension", "ra"], y=["declination", "dec"], z=["distance", "dist", "d"], vx=["pm_ra_cosdec", "pm_ra", "pmra"],
                vy=["pm_dec", "pmdec"], vz=["radial_velocity", "rvel", "v_los", "vlos"], m=["m", "mass"], id=["id"])


@st.composite
def tspec(draw):
    return dict(n=draw(st.integers(2, 12)), seed=draw(st.integers(0, 2 ** 31)), mapper=draw(st.booleans()), sky=draw(st.integers(0, 3)) == 0, drop=draw(st.lists(st.sampled_from(["m", "id"]), max_size=2)),
                case=draw(st.sampled_from(["lower", "upper", "title"])), big=draw(st.booleans()), dtype=draw(st.sampled_from(["f8", "f4", "i4"])), twice=draw(st.booleans()),
                units=draw(st.sampled_from(gen.UNITS)), origin=draw(st.sampled_from(["cluster", "centre", "galaxy", None])), analyze=draw(st.booleans()), kind=draw(st.booleans()))


@check.case("tables", tspec(), quick=600)
def tables(s, C):
    import clustertools as ct
    from astropy.table import Table, QTable
    rs = np.random.RandomState(s["seed"])
    n = s["n"]
    units, origin = ("radec", "sky") if s["sky"] else (s["units"], s["origin"])
    data = {k: rs.normal(0, 50, n).astype(s["dtype"]) for k in COORD}
    if s["sky"]:
        data["x"], data["y"], data["z"] = rs.uniform(0, 360, n), rs.uniform(-80, 80, n), rs.uniform(1, 30, n)
    data["m"] = rs.uniform(0.1, 3, n)
    base = 4295806720 * 10 ** 9 if s["big"] else 7
    data["id"] = base + rs.permutation(n)
    al = SKYALIAS if s["sky"] else ALIAS
    keys = [k for k in COORD + ("m", "id") if k not in s["drop"]]
    t = (QTable if s["kind"] else Table)()
    cm = {}
    order = rs.permutation(len(keys))
    for i in order:
        k = keys[i]
        nm = "col%d" % i if s["mapper"] else getattr(al[k][rs.randint(len(al[k]))], s["case"])()
        t[nm] = data[k]
        cm[k] = nm
        t["other%d" % i] = rs.normal(0, 1, n)
    before, names = {c: np.copy(t[c]) for c in t.colnames}, list(t.colnames)
    kw = dict(particles=t, units=units, origin=origin, analyze=s["analyze"])
    if s["mapper"]:
        kw["column_mapper"] = cm
    cm0 = dict(cm)
    for rep in range(2 if s["twice"] else 1):
        c2 = ct.load_cluster("astropy_table", **kw)
        need(cm == cm0, "the caller's column mapper became %r" % (cm,))
        need(list(t.colnames) == names, "columns of the caller's table changed")
        for c in names:
            same(np.asarray(t[c]), before[c], "column %s of the caller's table" % c)
        need(c2.units == units and c2.origin == origin, "loaded as %r, %r" % (c2.units, c2.origin))
        exp = {k: np.asarray(data[k], float) for k in COORD}
        exp["m"] = data["m"] if "m" in keys else np.ones(n)
        loaded(c2, None, n, exp, "table")
        if "id" in keys:
            same(c2.id, data["id"], "ids")
        else:
            need(len(np.unique(c2.id)) == n, "ids are not unique")
        if s["sky"]:
            for k, a in zip(COORD, ("ra", "dec", "dist", "pmra", "pmdec", "vlos")):
                close(getattr(c2, a), exp[k], "attribute %s" % a, rtol=1e-12)
    C.nt(n >= 3)
    C.label("mapper" if s["mapper"] else "names")
    C.label("sky" if s["sky"] else "cartesian")


@st.composite
def aspec(draw):
    return dict(stars=draw(gen.star_specs(2, 20)), seed=draw(st.integers(0, 2 ** 31)), units=draw(st.sampled_from([None, "amuse"] + gen.UNITS)), xu=draw(st.sampled_from(["pc", "kpc", "AU", "m"])),
                vu=draw(st.sampled_from(["kms", "ms", "pc/Myr"])), mu=draw(st.sampled_from(["MSun", "kg"])), origin=draw(st.sampled_from(["cluster", "centre", "galaxy", None])), analyze=draw(st.booleans()))


@check.case("amuse", aspec(), quick=400)
def amuse(s, C):
    import clustertools as ct
    import amuse.units.units as u
    from amuse.datamodel import Particles
    e = gen.expand(s["stars"])
    n = len(e["x"])
    p = Particles(n)
    xu, ku = dict(pc=(u.parsec, 1), kpc=(u.kpc, 1e3), AU=(u.AU, None), m=(u.m, None))[s["xu"]], None
    vu, mu = {"kms": u.kms, "ms": u.m / u.s, "pc/Myr": u.parsec / u.Myr}[s["vu"]], dict(MSun=u.MSun, kg=u.kg)[s["mu"]]
    for k in "xyz":
        setattr(p, k, (e[k] * 3 | u.parsec).in_(xu[0]))
        setattr(p, "v" + k, (e["v" + k] * 2 | u.kms).in_(vu))
    p.mass = (e["m"] | u.MSun).in_(mu)
    keys = np.array(p.key)
    c2 = ct.load_cluster("amuse", particles=p, units=s["units"], origin=s["origin"], analyze=s["analyze"])
    units = s["units"] or "amuse"
    need(c2.units == units and c2.origin == s["origin"], "loaded as %r, %r" % (c2.units, c2.origin))
    P = dict(gen.DEFAULTS)
    L, V, M, T = gen.factors(units, P)
    exp = {k: e[k] * 3 / L for k in "xyz"}
    exp.update({"v" + k: e["v" + k] * 2 / V for k in "xyz"})
    exp["m"] = e["m"] / M
    # the package and AMUSE differ in the length of a year and in G
    loaded(c2, None, n, exp, "AMUSE particles", 1e-9 if units in ("amuse", "pckms", "kpckms", "nbody") else 1e-4)
    need(len(np.unique(c2.id)) == n, "ids are not unique: %r" % (c2.id,))
    same(np.asarray(c2.id).astype("uint64"), keys.astype("uint64"), "ids")
    for k in "xyz":
        close(getattr(p, k).value_in(u.parsec), e[k] * 3, "the caller's particles", rtol=1e-9)
    C.nt(n >= 3 and s["xu"] != "pc")
    C.label("%s" % s["units"])


@st.composite
def ospec(draw):
    return dict(n=draw(st.integers(2, 12)), seed=draw(st.integers(0, 2 ** 31)), kind=draw(st.sampled_from(["kpckms", "galpy", "trip"])), origin=draw(st.sampled_from(["cluster", "centre", "galaxy", None])),
                analyze=draw(st.booleans()), m=draw(st.sampled_from(["none", "float", "array", "int"])), P=draw(gen.params()))


@check.case("galpy", ospec(), quick=400)
def galpy(s, C):
    import clustertools as ct
    from galpy.orbit import Orbit
    rs = np.random.RandomState(s["seed"])
    n = s["n"]
    P = s["P"]
    X, V = rs.normal(0, 8, (3, n)), rs.normal(0, 100, (3, n))
    m = dict(none=None, float=0.4, int=2, array=rs.uniform(0.1, 2, n))[s["m"]]
    ms = np.ones(n) if m is None else np.ones(n) * m
    kw = {} if m is None else dict(m=m)
    if s["kind"] == "trip":     # cluster -> galpy orbits of its stars -> cluster
        cl = gen.new_cluster("kpckms", "galaxy", P)
        cl.add_stars(X[0], X[1], X[2], V[0], V[1], V[2], ms)
        cl.add_orbit(5.0, 1.0, 2.0, 10.0, 200.0, 5.0)
        o = cl.initialize_orbits()
        ro, vo = P["ro"], P["vo"]
    else:
        ro, vo = (1.0, 1.0) if s["kind"] == "galpy" else (P["ro"], P["vo"])
        R, phi = np.hypot(X[0], X[1]), np.arctan2(X[1], X[0])
        vR, vT = V[0] * np.cos(phi) + V[1] * np.sin(phi), V[1] * np.cos(phi) - V[0] * np.sin(phi)
        q = dict(ro=ro, vo=vo) if s["kind"] == "kpckms" else {}
        o = Orbit(np.column_stack([R / ro, vR / vo, vT / vo, X[2] / ro, V[2] / vo, phi]), **q)
    c2 = ct.load_cluster("galpy", particles=o, units="galpy" if s["kind"] == "galpy" else "kpckms", origin=s["origin"], analyze=s["analyze"], ro=ro, vo=vo, **kw)
    exp = dict(zip(COORD, list(X) + list(V)))
    exp["m"] = ms
    if s["kind"] == "galpy":
        from galpy.util import conversion
        exp["m"] = ms / (1.0 / 4.300917270036279e-6)          # ro = 1 kpc, vo = 1 km/s
        close(c2.m, exp["m"], "mass", rtol=1e-6)
        exp["m"] = np.array(c2.m)
    loaded(c2, None, n, exp, "galpy orbits", 1e-8)
    need(len(np.unique(c2.id)) == n, "ids are not unique")
    need(c2.origin == s["origin"], "loaded as %r" % (c2.origin,))
    C.nt(n >= 3)
    C.label(s["kind"])
