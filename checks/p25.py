"""P25: NBODY6 and NBODY6++ output is read completely: every star, binary, scale and output time of the files, in order."""
import os, shutil, struct
import numpy as np
from hypothesis import strategies as st
from vt.core import Check, close, same, need, fail, arr
from vt import gen

check = Check("P25",
    rule="nbody6: OUT3 with or without OUT33 and fort.82/fort.83; nbody6++: conf.3 files with or without bev.82/sev.83, any step between outputs; "
         "hdf5: snap.40 files of one or more steps with or without conf.3 - all written by an independent writer and stepped through to the end "
         "(non-trivial = binaries, or more than one output)",
    assumptions=["file layouts as read by the package (checked on its sample conf.3 files)", "binary parameters to 1e-5 (solar radius)"])

AU_PC = 648000.0 / np.pi
SU_PC = AU_PC * 1.49597870700e13 / 6.957e10
XYZ = ("x", "y", "z")
VEL = ("vx", "vy", "vz")


def clean():
    for f in os.listdir("."):
        shutil.rmtree(f) if os.path.isdir(f) else os.unlink(f)


def f4(a):
    return np.asarray(a, "f4").astype(float)


def scales(rs):
    rbar, zmbar = 10 ** rs.uniform(-0.5, 1), 10 ** rs.uniform(1, 4)
    v = 0.06557 * np.sqrt(zmbar / rbar)
    return dict(rbar=rbar, zmbar=zmbar, vbar=v, tbar=rbar / (1.023 * v))


def header(rs, S, t, nb):
    """The 20 numbers NBODY6 writes in front of every snapshot, and what they mean."""
    h = dict(S, tphys=t, rtide=rs.uniform(5, 20), xc=rs.normal(0, 0.1), yc=rs.normal(0, 0.1), zc=rs.normal(0, 0.1), rc=rs.uniform(0.1, 1), nc=float(rs.randint(1, 50)), rscale=rs.uniform(0.5, 1))
    a = [t, nb, h["rbar"], h["zmbar"], h["rtide"], rs.normal(), h["xc"], h["yc"], h["zc"], rs.uniform(), h["tbar"], h["vbar"], h["rc"], h["nc"],
         rs.uniform(), rs.uniform(), rs.uniform(), h["rscale"], 100.0, 1e-5]
    return {k: float(f4(v)) for k, v in h.items()}, a


def rec(b):
    n = struct.pack("i", len(b))
    return n + b + n


def snapshot(rs, ns, nb):
    """Single stars and binaries (component states, total = centre of mass first in the cluster)."""
    ids = rs.permutation(np.arange(1, ns + 2 * nb + 1))
    d = dict(ns=ns, nb=nb, X=rs.normal(0, 1, (ns, 3)), V=rs.normal(0, 0.5, (ns, 3)), m=rs.uniform(0.001, 0.1, ns), id=ids[2 * nb:],
             kw=rs.randint(0, 15, ns), logl=rs.uniform(-3, 4, ns), logr=rs.uniform(-2, 2, ns), te=rs.uniform(3, 5, ns))
    d.update(bX=rs.normal(0, 1, (nb, 3)), bV=rs.normal(0, 0.5, (nb, 3)), id1=ids[:2 * nb:2], id2=ids[1:2 * nb:2], kw1=rs.randint(0, 15, nb), kw2=rs.randint(0, 15, nb), kcm=rs.randint(-10, 15, nb),
             ecc=rs.uniform(0, 0.99, nb), days=10 ** rs.uniform(-1, 5, nb), su=10 ** rs.uniform(0, 5, nb), m1=rs.uniform(0.1, 30, nb), m2=rs.uniform(0.1, 30, nb),
             logl1=rs.uniform(-3, 4, nb), logl2=rs.uniform(-3, 4, nb), logr1=rs.uniform(-2, 2, nb), logr2=rs.uniform(-2, 2, nb), te1=rs.uniform(3, 5, nb), te2=rs.uniform(3, 5, nb),
             dX=rs.normal(0, 1e-3, (nb, 3)), dV=rs.normal(0, 1, (nb, 3)))
    return d


def stars(cl, e, what, rtol):
    n = len(e["m"])
    need(cl.ntot == n and len(cl.x) == n, "%s: %r stars instead of %d" % (what, cl.ntot, n))
    same(cl.id, e["id"], what + ": ids")
    for j in range(3):
        close(getattr(cl, XYZ[j]), e["X"][:, j], "%s: %s" % (what, XYZ[j]), rtol=rtol, atol=1e-7)
        close(getattr(cl, VEL[j]), e["V"][:, j], "%s: %s" % (what, VEL[j]), rtol=rtol, atol=1e-7)
    close(cl.m, e["m"], what + ": m", rtol=rtol)


def head(cl, h, what, names=("rbar", "zmbar", "vbar", "tbar", "rtide", "rc", "nc", "rscale", "xc", "yc", "zc")):
    for k in names:
        close(getattr(cl, k), h[k], "%s: %s" % (what, k), rtol=1e-6, atol=1e-9)


def evolution(cl, d, what, nan=()):
    """Stellar types, luminosities and radii of binaries (total light, larger radius) and single stars."""
    nb = d["nb"]
    need(len(cl.kw) == len(cl.logl) == len(cl.logr) == nb + d["ns"], "%s: %d types, %d luminosities, %d radii for %d stars" % (what, len(cl.kw), len(cl.logl), len(cl.logr), nb + d["ns"]))
    same(cl.kw[nb:], d["kw"], what + ": kw of single stars")
    l, r = d["logl"].copy(), d["logr"].copy()
    for i in nan:
        l[i] = r[i] = 0.0
    close(cl.logl[nb:], l, what + ": logl of single stars", rtol=1e-9, atol=1e-9)
    close(cl.logr[nb:], r, what + ": logr of single stars", rtol=1e-9, atol=1e-9)
    close(cl.logl[:nb], np.log10(10 ** d["logl1"] + 10 ** d["logl2"]), what + ": logl of binaries", rtol=1e-9, atol=1e-9)
    close(cl.logr[:nb], np.maximum(d["logr1"], d["logr2"]), what + ": logr of binaries", rtol=1e-9, atol=1e-9)
    close(cl.lum[nb:], 10 ** l, what + ": lum of single stars", rtol=1e-9)


def binaries(cl, d, rbar, zmbar, what):
    nb = d["nb"]
    for k in ("id1", "id2", "kw1", "kw2", "kcm"):
        same(getattr(cl, k), d[k], "%s: %s" % (what, k))
    for k in ("ecc", "logl1", "logl2", "logr1", "logr2"):
        close(getattr(cl, k), d[k], "%s: %s" % (what, k), rtol=1e-9, atol=1e-12)
    need(cl.nb == nb and cl.ns == d["ns"], "%s: nb = %r, ns = %r with %d binaries and %d single stars" % (what, cl.nb, cl.ns, nb, d["ns"]))
    need(cl.bunits == "nbody", "%s: binary units %r" % (what, cl.bunits))
    close(cl.m1, d["m1"] / zmbar, what + ": m1", rtol=1e-6)
    close(cl.m2, d["m2"] / zmbar, what + ": m2", rtol=1e-6)
    close(cl.semi, d["su"] / SU_PC / rbar, what + ": semi", rtol=1e-5)
    close(cl.pb, d["days"] / (365.25 * (rbar * AU_PC) ** 1.5 / np.sqrt(zmbar)), what + ": pb", rtol=1e-5)


def se_row(d, i, nan):
    b = "NaN NaN NaN" if i in nan else "%.17g %.17g %.17g" % (d["logl"][i], d["logr"][i], d["te"][i])
    return "%.17g %.17g " % (1.0, 2.0) + b


def binary_row(d, i):
    return "%d %d %d %d %d %.17g %.17g %.17g %.17g %.17g %.17g %.17g %.17g %.17g %.17g %.17g %.17g" % (d["id1"][i], d["id2"][i], d["kw1"][i], d["kw2"][i], d["kcm"][i],
        1.0, d["ecc"][i], np.log10(d["days"][i]), np.log10(d["su"][i]), d["m1"][i], d["m2"][i], d["logl1"][i], d["logl2"][i], d["logr1"][i], d["logr2"][i], d["te1"][i], d["te2"][i])


def use(cl, how):
    """What a user may do to a snapshot before going to the next one."""
    if how == "pckms":
        cl.to_pckms()
    elif how == "centre":
        cl.to_centre()
        cl.to_pckms()


@st.composite
def spec(draw):
    return dict(k=draw(st.integers(1, 3)), ns=draw(st.lists(st.integers(1, 7), min_size=3, max_size=3)), nb=draw(st.lists(st.integers(0, 3), min_size=3, max_size=3)), seed=draw(st.integers(0, 2 ** 31)),
                evo=draw(st.booleans()), out33=draw(st.booleans()), nan=draw(st.booleans()), wdir=draw(st.sampled_from([None, "w", "w/"])), snapdir=draw(st.sampled_from([None, "sub"])),
                use=draw(st.sampled_from([None, "pckms", "centre"])), analyze=draw(st.booleans()), cont=draw(st.integers(0, 2)), orbit=draw(st.booleans()))


def where(s, cont=False):
    p = os.path.join(*[p for p in (".", (s["wdir"] or "").rstrip("/"), "cont" if cont else "", s["snapdir"] or "") if p])
    os.makedirs(p, exist_ok=True)
    return p + "/"


def options(s):
    o = dict(analyze=s["analyze"])
    for k in ("wdir", "snapdir"):
        if s[k] is not None:
            o[k] = s[k]
    return o


def orbit_file(s, rs, k):
    """An orbit file with one line per output; returns the arguments naming it and the states."""
    if not s["orbit"]:
        return {}, None
    X, W = rs.uniform(2, 12, (k, 3)), rs.uniform(-200, 200, (k, 3))
    w = os.path.join(".", (s["wdir"] or "").rstrip("/"))
    np.savetxt(w + "/orbit.dat", np.column_stack([np.arange(k), X, W]), fmt="%.17g")
    return dict(ofilename="orbit.dat"), (X, W)


def orbit_at(cl, o, i, what):
    if o is not None:
        close(np.array([cl.xgc, cl.ygc, cl.zgc]) * cl.rbar / 1000.0, o[0][i], what + ": orbital position", rtol=1e-6)
        close(np.array([cl.vxgc, cl.vygc, cl.vzgc]) * cl.vbar, o[1][i], what + ": orbital velocity", rtol=1e-6)


@check.case("nbody6", spec(), quick=2000, shards=2)
def nbody6(s, C):
    import clustertools as ct
    clean()
    rs = np.random.RandomState(s["seed"])
    S, k, w = scales(rs), s["k"], where(s)
    out33 = s["out33"] or s["evo"]
    t0 = rs.uniform(0, 5)
    data = []
    cont = s["cont"] > 0 and k > 1 and not s["orbit"]           # the last output is that of a restart, in cont/
    f3, f33, f82, f83 = b"", b"", "", ""

    def write(w):
        open(w + "OUT3", "wb").write(f3)
        if out33:
            open(w + "OUT33", "wb").write(f33)
        if s["evo"]:
            open(w + "fort.82", "w").write(f82)
            open(w + "fort.83", "w").write(f83)

    for i in range(k):
        if cont and i == k - 1:
            write(w)
            w = where(s, True)
            f3, f33, f82, f83 = b"", b"", "", ""
        nb = s["nb"][i] if out33 else 0
        d = snapshot(rs, s["ns"][i], nb)
        h, a = header(rs, S, t0 + i * 10.0, nb)
        d["bm"] = (d["m1"] + d["m2"]) / h["zmbar"]
        nan = [0] if s["nan"] and s["evo"] else []
        f3 += rec(struct.pack("4i", d["ns"], i, 1, 20)) + rec(np.array(a, "f4").tobytes() + d["m"].astype("f4").tobytes() + d["X"].astype("f4").tobytes() + d["V"].astype("f4").tobytes() + d["id"].astype("i4").tobytes())
        f33 += rec(struct.pack("3i", nb, i, 20))
        if nb:
            og = rs.normal(0, 100, 20)
            f33 += rec(og.astype("f4").tobytes() + d["bm"].astype("f4").tobytes() + d["bX"].astype("f4").tobytes() + d["bV"].astype("f4").tobytes() + d["id1"].astype("i4").tobytes())
        f82 += "## BEGIN %d %.3f\n" % (nb, h["tphys"]) + "".join(binary_row(d, j) + "\n" for j in range(nb)) + "## END\n"
        f83 += "## BEGIN %d %.3f\n" % (d["ns"], h["tphys"]) + "".join("%d %d " % (d["id"][j], d["kw"][j]) + se_row(d, j, nan) + "\n" for j in range(d["ns"])) + "## END\n"
        data.append((d, h, nan))
    write(w)
    okw, orb = orbit_file(s, rs, k)
    again = dict(ounits="kpckms") if okw else {}
    cl = ct.load_cluster("nbody6", **options(s), **okw, **again)
    for i, (d, h, nan) in enumerate(data):
        what = "output %d" % i
        need(cl.units == "nbody" and cl.origin == "cluster" and cl.ctype == "nbody6", "%s is in %r, %r" % (what, cl.units, cl.origin))
        head(cl, h, what)
        close(cl.tphys, h["tphys"], what + ": time", rtol=1e-6, atol=1e-9)
        stars(cl, dict(X=f4(np.vstack([d["bX"], d["X"]])), V=f4(np.vstack([d["bV"], d["V"]])), m=f4(np.append(d["bm"], d["m"])), id=np.append(d["id1"], d["id"])), what, 1e-9)
        need(cl.nb == d["nb"] and cl.ns == d["ns"], "%s: nb = %r, ns = %r with %d binaries and %d single stars" % (what, cl.nb, cl.ns, d["nb"], d["ns"]))
        if s["evo"]:
            evolution(cl, d, what, nan)
            if d["nb"]:
                same(cl.kw[:d["nb"]], d["kcm"], what + ": kw of binaries")
            binaries(cl, d, h["rbar"], h["zmbar"], what)
        orbit_at(cl, orb, i, what)
        use(cl, s["use"])
        cl = ct.advance_cluster(cl, analyze=s["analyze"], **again)
    need(cl.ntot == 0 and len(cl.x) == 0, "%r stars after the last output" % (cl.ntot,))
    C.nt(k > 1 or any(d["nb"] for d, _, _ in data))
    C.label("stellar evolution" if s["evo"] else "dynamics only")
    if max(d["nb"] for d, _, _ in data) > 1:
        C.label("several binaries")


def com(d):
    """Component states of binaries with masses m1, m2 (N-body), and their centres of mass as stored by single precision."""
    m1, m2 = f4(d["nm1"]), f4(d["nm2"])
    X1, X2 = f4(d["bX"] + d["dX"]), f4(d["bX"] - d["dX"])
    V1, V2 = f4(d["bV"] + d["dV"]), f4(d["bV"] - d["dV"])
    m = m1 + m2
    return m1, m2, X1, X2, V1, V2, m, (X1 * m1[:, None] + X2 * m2[:, None]) / m[:, None], (V1 * m1[:, None] + V2 * m2[:, None]) / m[:, None]


def conf3(h, a, d):
    """conf.3 of one output: the components of the binaries in pairs, then the single stars."""
    nb, ns = d["nb"], d["ns"]
    m1, m2, X1, X2, V1, V2, m, X, V = com(d)
    n = 2 * nb + ns
    M, P, W, I = np.zeros(n), np.zeros((n, 3)), np.zeros((n, 3)), np.zeros(n, int)
    M[0:2 * nb:2], M[1:2 * nb:2], M[2 * nb:] = m1, m2, d["m"]
    P[0:2 * nb:2], P[1:2 * nb:2], P[2 * nb:] = X1, X2, d["X"]
    W[0:2 * nb:2], W[1:2 * nb:2], W[2 * nb:] = V1, V2, d["V"]
    I[0:2 * nb:2], I[1:2 * nb:2], I[2 * nb:] = d["id1"], d["id2"], d["id"]
    P4 = P.astype("f4").astype(float)
    R = np.linalg.norm(P4[:, None] - P4[None], axis=2)
    np.fill_diagonal(R, np.inf)
    phi = (M.astype("f4").astype(float)[None] / R).sum(axis=1)
    b = np.array(a, "f4").tobytes()
    for v in (M, d["rhos"], np.arange(n), P, W, phi):
        b += np.asarray(v).astype("f4").tobytes()
    return rec(struct.pack("4i", n, 1, 1, 20)) + rec(b + I.astype("i4").tobytes()), phi[2 * nb:]


@st.composite
def ppspec(draw):
    s = draw(spec())
    s.update(dt=draw(st.sampled_from([None, 1, 2, 20, 0.5, 0.25])), legacy=draw(st.booleans()), atload=draw(st.booleans()), name=draw(st.sampled_from(["nbody6pp", "nbody6++"])), first=draw(st.sampled_from([0, 0, 0, 2])), shuffle=draw(st.booleans()),
             nodata=draw(st.booleans()))
    return s


@check.case("nbody6++", ppspec(), quick=2000, shards=2)
def nbody6pp(s, C):
    import clustertools as ct
    clean()
    rs = np.random.RandomState(s["seed"])
    S, k, w = scales(rs), s["k"], where(s)
    dt = s["dt"] or 1
    t0 = rs.uniform(0, 5)
    first = 0 if s["orbit"] else s["first"] * (dt if dt >= 1 else 1)
    data = []
    for i in range(k):
        if s["cont"] and i and i >= k - s["cont"] and not s["orbit"]:
            w = where(s, True)
        d = snapshot(rs, s["ns"][i], s["nb"][i])
        nb, ns = d["nb"], d["ns"]
        h, a = header(rs, S, t0 + i * 10.0, nb)
        d["nm1"], d["nm2"] = d["m1"] / h["zmbar"], d["m2"] / h["zmbar"]
        d["rhos"] = rs.uniform(0.1, 5, 2 * nb + ns)
        nan = [0] if s["nan"] and s["evo"] else []
        tag = str(first + i * dt if not isinstance(dt, float) else float(first + i * dt))
        b, phi = conf3(h, a, d)
        open(w + "conf.3_" + tag, "wb").write(b)
        if s["evo"]:
            nodata = s["nodata"]
            with open(w + "bev.82_" + tag, "w") as f:
                f.write("%d %.5f\n" % (nb, h["tphys"]))
                for j in range(nb):
                    row = "%.5f %d %d " % (h["tphys"], 2 * j + 1, 2 * j + 2) + binary_row(d, j)
                    f.write((" ".join(row.split()[:14]) if nodata else row) + "\n")
            if nodata:
                for c in ("logl1", "logl2", "logr1", "logr2"):
                    d[c] = np.zeros(nb)
            order = rs.permutation(ns) if s["shuffle"] else np.arange(ns)
            with open(w + "sev.83_" + tag, "w") as f:
                f.write("%d %.5f\n" % (ns, h["tphys"]))
                for j in order:
                    f.write("%.5f %d %d %d " % (h["tphys"], 2 * nb + 1 + j, d["id"][j], d["kw"][j]) + se_row(d, j, nan) + "\n")
        data.append((d, h, nan, phi))
    okw, orb = orbit_file(s, rs, k)
    again = dict(ounits="kpckms") if okw else {}
    once = dict(again)
    if s["dt"] is not None:
        key = "deltat" if s["legacy"] else "dtout"
        once[key] = s["dt"]
        if not s["atload"]:
            again[key] = s["dt"]
    if first:
        once["nsnap"] = first
    cl = ct.load_cluster(s["name"], **options(s), **okw, **once)
    for i, (d, h, nan, phi) in enumerate(data):
        what = "output %d" % i
        nb = d["nb"]
        need(cl.units == "nbody" and cl.origin == "cluster" and cl.ctype == "nbody6++", "%s is in %r, %r (%r)" % (what, cl.units, cl.origin, cl.ctype))
        need(cl.nsnap == first + i * dt, "%s: nsnap = %r instead of %r" % (what, cl.nsnap, first + i * dt))
        head(cl, h, what)
        close(cl.tphys, h["tphys"], what + ": time", rtol=1e-6, atol=1e-9)
        m1, m2, X1, X2, V1, V2, m, X, V = com(d)
        stars(cl, dict(X=np.vstack([X, f4(d["X"])]), V=np.vstack([V, f4(d["V"])]), m=np.append(m, f4(d["m"])), id=np.append(d["id1"], d["id"])), what, 1e-9)
        need(cl.nb == nb and cl.ns == d["ns"], "%s: nb = %r, ns = %r with %d binaries and %d single stars" % (what, cl.nb, cl.ns, nb, d["ns"]))
        for j in range(3):
            for c, e in (("x", X1), ("vx", V1)):
                close(getattr(cl, c.replace("x", "xyz"[j]) + "b1"), e[:, j], "%s: component 1, %s" % (what, c.replace("x", "xyz"[j])), rtol=1e-9)
            for c, e in (("x", X2), ("vx", V2)):
                close(getattr(cl, c.replace("x", "xyz"[j]) + "b2"), e[:, j], "%s: component 2, %s" % (what, c.replace("x", "xyz"[j])), rtol=1e-9)
        need(len(cl.rhos) == nb + d["ns"], "%s: %d densities" % (what, len(cl.rhos)))
        close(cl.rhos[nb:], f4(d["rhos"][2 * nb:]), what + ": rhos of single stars", rtol=1e-6)
        close(cl.kin[nb:], 0.5 * f4(d["m"]) * np.sum(f4(d["V"]) ** 2, axis=1), what + ": kinetic energy of single stars", rtol=1e-9)
        close(cl.pot[nb:], -f4(d["m"]) * phi, what + ": potential energy of single stars", rtol=1e-5)
        close(cl.etot, cl.kin + cl.pot, what + ": total energy", rtol=1e-9, atol=1e-12)
        if s["evo"]:
            evolution(cl, d, what, nan)
            binaries(cl, d, h["rbar"], h["zmbar"], what)
        orbit_at(cl, orb, i, what)
        use(cl, s["use"])
        cl = ct.advance_cluster(cl, analyze=s["analyze"], **again)
    need(cl.ntot == 0 and len(cl.x) == 0, "%r stars after the last output" % (cl.ntot,))
    C.nt(k > 1 or any(d["nb"] for d, _, _, _ in data))
    C.label("stellar evolution" if s["evo"] else "dynamics only")
    if k > 1 and s["dt"] not in (None, 1):
        C.label("step between outputs" + (" given once" if s["atload"] else ""))


@st.composite
def hspec(draw):
    s = draw(spec())
    s.update(files=draw(st.lists(st.integers(1, 3), min_size=1, max_size=3)), dt=draw(st.sampled_from([None, 1, 4])), atload=draw(st.booleans()), conf=draw(st.booleans()), name=draw(st.sampled_from(["nbody6pp", "nbody6++"])))
    s.update(binaries=draw(st.booleans()), ns=draw(st.lists(st.integers(2, 7), min_size=9, max_size=9)), nb=draw(st.lists(st.integers(1, 3), min_size=9, max_size=9)))
    return s


@check.case("hdf5", hspec(), quick=800, shards=4)
def hdf5(s, C):
    import clustertools as ct, h5py
    clean()
    rs = np.random.RandomState(s["seed"])
    S, w = scales(rs), where(s)
    dt = s["dt"] or 1
    data, c = [], 0
    for i, k in enumerate(s["files"]):
        if s["cont"] and i and i >= len(s["files"]) - s["cont"]:
            w = where(s, True)
        with h5py.File(w + "snap.40_%d.h5part" % (i * dt), "w") as f:
            for j in range(k):
                d = snapshot(rs, s["ns"][c], s["nb"][c] if s["binaries"] else 0)
                t = 0.25 * c
                g = f.create_group("Step#%d" % j)
                g.attrs["N_SINGLE"], g.attrs["Time"] = d["ns"], t
                d["m"] = d["m"] * 100.0
                d["V"], d["bV"] = d["V"] * 10, d["bV"] * 10
                d["pot"], d["bpot"] = rs.uniform(-9, -1, d["ns"]), rs.uniform(-9, -1, d["nb"])
                for a, v in (("NAM", d["id"]), ("M", d["m"]), ("KW", d["kw"]), ("L", 10 ** d["logl"]), ("RC", d["logr"]), ("RS", d["logr"]), ("TE", d["te"]), ("POT", d["pot"])):
                    g[a] = v
                for q in range(3):
                    g["X%d" % (q + 1)], g["V%d" % (q + 1)] = d["X"][:, q], d["V"][:, q]
                if s["binaries"]:
                    b = g.create_group("Binaries")
                    for a, v in (("A", d["su"] / SU_PC * AU_PC), ("ECC", d["ecc"]), ("G", d["ecc"]), ("KW1", d["kw1"]), ("KW2", d["kw2"]), ("KWC", d["kcm"]), ("L1", 10 ** d["logl1"]), ("L2", 10 ** d["logl2"]),
                                 ("M1", d["m1"]), ("M2", d["m2"]), ("MC1", d["m1"]), ("MC2", d["m2"]), ("NAM1", d["id1"]), ("NAM2", d["id2"]), ("NAMC", d["id1"] + 1000), ("P", d["days"]), ("POT", d["bpot"]),
                                 ("RC1", d["logr1"]), ("RC2", d["logr2"]), ("RS1", d["logr1"]), ("RS2", d["logr2"]), ("TE1", d["te1"]), ("TE2", d["te2"])):
                        b[a] = v
                    for q in range(3):
                        b["XC%d" % (q + 1)], b["VC%d" % (q + 1)] = d["bX"][:, q], d["bV"][:, q]
                        b["XR%d" % (q + 1)], b["VR%d" % (q + 1)] = d["dX"][:, q], d["dV"][:, q]
                h, a = header(rs, S, t, d["nb"])
                if j == 0 and s["conf"]:
                    d["nm1"], d["nm2"] = d["m1"] / h["zmbar"], d["m2"] / h["zmbar"]
                    d["rhos"] = rs.uniform(0.1, 5, 2 * d["nb"] + d["ns"])
                    open(w + "conf.3_%d" % (i * dt), "wb").write(conf3(h, a, d)[0])
                data.append((d, h, t, i, j))
                c += 1
    again = {}
    once = {}
    if s["dt"] is not None:
        once["dtout"] = s["dt"]
        if not s["atload"]:
            again["dtout"] = s["dt"]
    cl = ct.load_cluster(s["name"], hdf5=True, **options(s), **once)
    scale = None
    for c, (d, h, t, i, j) in enumerate(data):
        what = "output %d" % c
        nb = d["nb"]
        need(cl.units == "nbody" and cl.origin == "cluster" and cl.ctype == "nbody6++", "%s is in %r, %r (%r)" % (what, cl.units, cl.origin, cl.ctype))
        if s["conf"]:
            if j == 0:
                scale = h
            head(cl, scale, what)
        elif scale is None or j == 0 and s["cont"] and i == max(1, len(s["files"]) - s["cont"]):         # also at a restart
            scale = {q: getattr(cl, q) for q in ("rbar", "zmbar", "vbar", "tbar")}
            close(np.sum(cl.m), 1.0, what + ": total mass in N-body units", rtol=1e-9)
        else:
            head(cl, scale, what, ("rbar", "zmbar", "vbar", "tbar"))
        close(cl.tphys, t, what + ": time", rtol=1e-6, atol=1e-9)
        bm = d["m1"] + d["m2"]
        L, V, M = cl.rbar, cl.vbar, cl.zmbar
        stars(cl, dict(X=np.vstack([d["bX"], d["X"]]) / L, V=np.vstack([d["bV"], d["V"]]) / V, m=np.append(bm, d["m"]) / M, id=np.append(d["id1"], d["id"])), what, 1e-9)
        need(cl.nb == nb and cl.ns == d["ns"], "%s: nb = %r, ns = %r with %d binaries and %d single stars" % (what, cl.nb, cl.ns, nb, d["ns"]))
        evolution(cl, d, what)
        close(cl.pot, np.append(d["bpot"], d["pot"]), what + ": potentials", rtol=1e-9)
        if nb:
            binaries(cl, d, L, M, what)
        use(cl, s["use"])
        cl = ct.advance_cluster(cl, analyze=s["analyze"], **again)
    need(cl.ntot == 0 and len(cl.x) == 0, "%r stars after the last output" % (cl.ntot,))
    C.nt(len(data) > 1 or s["binaries"])
    C.label("conf.3" if s["conf"] else "scales from the stars")
    C.label("several files", len(s["files"]) > 1)
