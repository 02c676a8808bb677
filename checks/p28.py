"""P28: plotting shows the numbers the analysis returns, changes neither them nor the cluster, and writes the file asked for."""
import os
import numpy as np
from hypothesis import strategies as st
from vt.core import Check, Violation, close, same, need, fail, arr
from vt import gen, rich, sky
from checks.p29 import UNITS, build, selection, potentials, span, maybe, call, Failed, numbers, alike

check = Check("P28",
    rule="stars, sky: any cluster in any frame, unit system and projection, drawn with any options, against its star coordinates; profiles, paths: any function that can plot with plot=True, against its own results "
         "without plotting (non-trivial = at least 5 stars drawn, or a profile or path of at least 3 points)",
    assumptions=["what is drawn is read back from matplotlib's own artists (Agg back end)"])

PC = ("pckms", "pcmyr", "amuse")
KPC = ("kpckms", "kpcgyr", "WDunits")


def plt():
    import matplotlib
    matplotlib.use("Agg", force=True)
    import matplotlib.pyplot as p
    return p


def plain(v):
    q = rich.strip(v)
    return np.asarray(v if q is None else q[0], float)


def points(ax):
    """(x, y) of everything drawn on the axes, in order of drawing kind."""
    out = [(np.asarray(l.get_xdata(), float), np.asarray(l.get_ydata(), float)) for l in ax.lines]
    return out + [tuple(np.asarray(c.get_offsets(), float).T) for c in ax.collections]


def drawn(p):
    return [d for ax in p.gcf().axes for d in points(ax)] if p.get_fignums() else []


def unit_label(text, units, what):
    for mark, ok in (("(pc)", PC), ("(kpc)", KPC), ("(NBODY)", ("nbody",)), ("(GALPY)", ("galpy",)), ("(degree)", ("radec",))):
        if mark in text:
            need(units in ok, "%s: axis label %r for a cluster in %s" % (what, text, units))


def coincide(got, exp, what, tol=1e-9):
    for g, e, k in zip(got, exp, "xy"):
        need(np.shape(g) == np.shape(e), "%s: %r %s values drawn instead of %r" % (what, np.shape(g), k, np.shape(e)))
        ok = np.isclose(g, e, rtol=tol, atol=tol * np.nanmax(np.abs(e), initial=0), equal_nan=True)
        need(np.all(ok), "%s: %s values drawn %r instead of %r" % (what, k, np.asarray(g)[~ok][:3], np.asarray(e)[~ok][:3]))


class Files:
    """A file name for the plot, sometimes; checks afterwards that the picture is there."""

    def __init__(self, rs, kw):
        self.name = None
        if rs.uniform() < 0.12:
            self.name = kw["filename"] = "plot%d.png" % rs.randint(1000)

    def check(self, what):
        if self.name:
            need(os.path.isfile(self.name) and open(self.name, "rb").read(8) == b"\x89PNG\r\n\x1a\n", what + ": no picture in the file asked for")
            os.remove(self.name)
        need(not [f for f in os.listdir(".") if f.endswith(".png")], what + " left a picture that was not asked for")


@st.composite
def dspec(draw, names, n=(1, 80), units=UNITS, lists=False):
    return dict(name=draw(st.sampled_from(names)), s=draw(rich.specs(n[0], n[1], units=units if draw(st.integers(0, 2)) == 0 else gen.UNITS, lists=lists)), seed=draw(st.integers(0, 2 ** 31)))


# ------------------------------------------------------------------ stars

@check.case("stars", dspec(["xyz", "xz", "yz", "xy", "default"]), quick=900, shards=2)
def stars(s, C):
    import clustertools as ct
    p = plt()
    p.close("all")
    cl = build(s["s"])
    rs = np.random.RandomState(s["seed"])
    if s["s"]["units"] != "amuse" and rs.uniform() < 0.1:
        cl.to_radec()
    kw = maybe({}, rs, alpha=[0.3, 0.8], do_centre=[True, False], color=["r", "k"], legend=[True])
    name = s["name"]
    if name != "default":
        kw["coords"] = name
    over = rs.uniform() < 0.3
    if over:
        kw["overplot"] = True
        fig = p.figure()
        if name not in ("xyz", "default"):
            p.plot([0, 1], [0, 2])
    lim = [None, None]
    for i, k in enumerate(("xlim", "ylim")):
        if rs.uniform() < 0.3:
            lim[i] = kw[k] = (-float(rs.randint(1, 5)), float(rs.randint(1, 9)))
    f = Files(rs, kw) if not over else None
    before = rich.full(cl)
    ct.starplot(cl, **dict(kw))
    rich.unchanged(cl, before, (), "starplot")
    what = "starplot(%s) of a cluster in %s, %s" % (", ".join("%s=%r" % t for t in sorted(kw.items())), cl.units, cl.origin)
    if f:
        f.check(what)
    X = {k: plain(getattr(cl, k)) for k in "xyz"}
    planes = dict(xyz=["xz", "xy"], default=["xz", "xy"]).get(name, [name])
    axes = p.gcf().axes
    need(len(axes) == len(planes), "%s: %d axes" % (what, len(axes)))
    if over:
        need(p.gcf() is fig and len(p.get_fignums()) == 1, what + " does not draw on the current figure")
    for ax, pl in zip(axes, planes):
        d = points(ax)
        if over and name not in ("xyz", "default"):
            coincide(d[0], (np.array([0., 1.]), np.array([0., 2.])), what + ": what was there")
            d = d[1:]
        need(len(d) >= 1, what + " draws nothing")
        coincide(d[0], (X[pl[0]], X[pl[1]]), what)
        if kw.get("do_centre") and not (over and len(planes) == 1):
            g, c = [{k: float(plain(getattr(cl, k + t))) for k in "xyz"} for t in ("gc", "c")]
            marks = [[float(v[0][0]), float(v[1][0])] for v in d[1:]]
            if cl.origin == "galaxy" and len(planes) == 2:
                exp = [[g[k] for k in pl], [g[k] + c[k] for k in pl]]
            elif cl.origin == "galaxy" or cl.origin == "sky":
                exp = [[g[k] for k in pl]] if len(planes) == 1 else None
            elif cl.origin == "cluster":
                exp = [[c[k] for k in pl]]
            else:
                exp = [[0.0, 0.0]] if len(planes) == 1 else []
            if exp is not None:
                need(len(marks) == len(exp), "%s: %d centres marked instead of %d" % (what, len(marks), len(exp)))
                for m_, e_ in zip(marks, exp):
                    close(np.array(m_), np.array(e_), what + ": centre", rtol=1e-9, atol=1e-9 * max(abs(t) for t in e_))
        else:
            need(len(d) == 1, what + " draws more than the stars")
        if not (over and len(planes) == 1):
            for v, got, lab, k in ((lim[0], ax.get_xlim(), ax.get_xlabel(), pl[0]), (lim[1], ax.get_ylim(), ax.get_ylabel(), pl[1])):
                if v is not None:
                    need(tuple(got) == tuple(v), "%s: limits %r" % (what, got))
                need(lab.strip().upper().startswith(k.upper()), "%s: axis labelled %r" % (what, lab))
                unit_label(lab, "pckms" if cl.units == "amuse" else cl.units, what)
        if "alpha" in kw:
            need(ax.lines[-1 if len(d) == 1 else -len(d)].get_alpha() == kw["alpha"], what + ": alpha")
    p.close("all")
    C.label(name)
    C.nt(cl.ntot >= 5)


@check.case("sky", dspec(["radec", "pm", "default"], n=(1, 40)), quick=500, shards=2)
def skies(s, C):
    import clustertools as ct
    p = plt()
    p.close("all")
    cl = build(s["s"])
    rs = np.random.RandomState(s["seed"])
    P = s["s"]["P"]
    L, V, M, T = (1.0, 1.0, 1.0, 1.0) if cl.units == "amuse" else gen.factors(cl.units, P)
    off = {k: float(plain(getattr(cl, k))) for k in ("xgc", "ygc", "zgc", "vxgc", "vygc", "vzgc", "xc", "yc", "zc", "vxc", "vyc", "vzc")}
    X = []
    for k in ("x", "y", "z", "vx", "vy", "vz"):
        v = plain(getattr(cl, k)).copy()
        if cl.origin != "galaxy":
            v = v + off[k + "gc"]
        if cl.origin == "centre":
            v = v + off[k + "c"]
        X.append(v * (L / 1000.0 if k[0] != "v" else V))
    exp = sky.to_sky(*X, P)
    G = sky.to_sky(*[off[k + "gc"] * (L / 1000.0 if k[0] != "v" else V) for k in ("x", "y", "z", "vx", "vy", "vz")], P)
    if s["s"]["units"] != "amuse" and rs.uniform() < 0.1:
        cl.to_radec()
    kw = maybe({}, rs, do_centre=[True, False], color=["r", "k"])
    if s["name"] != "default":
        kw["coords"] = s["name"]
    over = rs.uniform() < 0.3
    if over:
        kw["overplot"] = True
        fig = p.figure()
        p.plot([0, 1], [0, 2])
    f = Files(rs, kw) if not over else None
    before = rich.full(cl)
    ct.skyplot(cl, **dict(kw))
    what = "skyplot(%s) of a cluster in %s, %s" % (", ".join("%s=%r" % t for t in sorted(kw.items())), cl.units, cl.origin)
    new = [k for k in rich.full(cl) if k not in before or (before[k] is None) or np.size(before[k]) == 0 or np.shape(before[k]) != np.shape(rich.full(cl)[k])]
    skykeys = [a + b for a in ("ra", "dec", "dist", "pmra", "pmdec", "vlos") for b in ("", "_gc", "_c")] + ["orbit", "orbits"]
    rich.unchanged(cl, before, tuple(skykeys) + tuple(k for k in new if k in rich.LAZY), "skyplot", rtol=1e-8)
    if f:
        f.check(what)
    d = points(p.gcf().axes[0])
    if over:
        need(p.gcf() is fig, what + " does not draw on the current figure")
        d = d[1:]
    i = (3, 4) if s["name"] == "pm" else (0, 1)
    tol = 3e-6 if s["name"] == "pm" else 5e-7
    for got, e, k in zip(d[0], (exp[i[0]], exp[i[1]]), i):
        need(np.shape(got) == np.shape(e), what + ": number of stars drawn")
        diff = np.abs(got - e) if k != 0 else np.abs((got - e + 180.0) % 360.0 - 180.0)
        sc = np.maximum(1.0, 1.0 / np.maximum(np.cos(np.radians(exp[1])), 1e-6)) if k == 0 else (1.0 + np.abs(e))
        need(np.all(diff <= tol * sc * np.maximum(1.0, 1.0 / exp[2])), "%s: %r drawn instead of %r" % (what, got[:3], e[:3]))
    if kw.get("do_centre") and not over:
        need(len(d) == 2, what + ": no centre marked")
        for got, e in zip(d[1], (G[i[0]], G[i[1]])):
            need(abs(float(got[0]) - float(e[0])) <= 3e-6 * (1 + abs(float(e[0]))), "%s: centre marked at %r instead of %r" % (what, got, e))
    else:
        need(len(d) == 1, what + " draws more than the stars")
    p.close("all")
    C.label(s["name"])
    C.nt(cl.ntot >= 5)


# ------------------------------------------------------------------ functions with plot=True

def prof(cl, rs, a):
    kw = selection(cl, rs, a)
    kw.pop("mmin", None), kw.pop("mmax", None)
    return maybe(kw, rs, nrad=[3, 5, 8], projected=[True, False])


def prof_n(cl, rs, a):
    return maybe(prof(cl, rs, a), rs, normalize=[True, False])


def massy(cl, rs, a):
    return maybe(selection(cl, rs, a), rs, nmass=[3, 4, 5], projected=[True, False])


def host(cl, rs, a):
    return dict(pot=potentials()[rs.randint(2)])


def mf(cl, rs, a):
    return maybe(massy(cl, rs, a), rs, mcorr=[rs.uniform(0.5, 1, cl.ntot)])


def tmf(cl, rs, a):
    return maybe(mf(cl, rs, a), rs, lower_bounds=[[0.0, -9.0, 1e-9, -9.0]], upper_bounds=[[np.inf, 9.0, np.inf, 9.0]])


def way(match=False, tail=False):
    def f(cl, rs, a):
        kw = dict(tfinal=span(cl) * rs.uniform(0.5, 2), pot=potentials()[rs.randint(2)], nt=int(rs.randint(10, 40)))
        maybe(kw, rs, from_centre=[True, False], skypath=[True, False])
        if tail:
            kw.update(no=int(rs.randint(30, 60)), ntail=int(rs.randint(2, 6)))
        return kw
    return f


# name -> (keywords, kind)
F = dict(rho_prof=(prof_n, "xy"), m_prof=(lambda c, r, a: maybe(prof_n(c, r, a), r, cumulative=[True, False]), "xy"), sigv_prof=(prof_n, "xy"), beta_prof=(prof_n, "xy"), v_prof=(prof_n, "xy"), v2_prof=(prof_n, "xy"),
         vcirc_prof=(prof_n, "xy"), alpha_prof=(lambda c, r, a: maybe(prof_n(c, r, a), r, nmass=[3, 4]), "lnx"), eta_prof=(lambda c, r, a: maybe(prof_n(c, r, a), r, nmass=[3, 4]), "lnx"),
         meq_prof=(lambda c, r, a: maybe(prof_n(c, r, a), r, nmass=[3, 4]), "lnx"),
         mass_function=(mf, "mf"), tapered_mass_function=(tmf, "mf"), eta_function=(massy, "eta"), meq_function=(massy, "eta"),
         virial_radius_critical_density=(lambda c, r, a: maybe({}, r, H=[60.0], Om=[0.2], overdens=[100.0, 1e9], projected=[True, False]), "vline"),
         rcore=(lambda c, r, a: maybe({}, r, method=["casertano", "isothermal"], nneighbour=[3, 5], mfrac=[0.1, 0.2], projected=[True, False]), "line"),
         rlimiting=(lambda c, r, a: maybe(host(c, r, a), r, nrad=[4, 8], projected=[True, False], from_centre=[True, False]), "line"),
         rtidal=(lambda c, r, a: maybe(host(c, r, a), r, rtiterate=[1, 3], from_centre=[True, False]), "circle"),
         orbital_path=(way(), "path"), orbital_path_match=(way(match=True), "match"), tail_path=(way(tail=True), "tail"), tail_path_match=(way(match=True, tail=True), "match"))
PATHS = [k for k in F if k.endswith(("path", "match"))]


@check.case("profiles", dspec([k for k in F if k not in PATHS], n=(2, 150)), quick=1800, shards=4)
def profiles(s, C):
    drawing(s, C)


@check.case("paths", dspec(PATHS, n=(2, 40)), quick=500, shards=3)
def paths(s, C):
    drawing(s, C)


def drawing(s, C):
    import copy
    import clustertools as ct
    p = plt()
    p.close("all")
    name = s["name"]
    make, kind = F[name]
    c1, c2 = build(s["s"]), build(s["s"])
    rs = np.random.RandomState(s["seed"])
    amuse = c1.units == "amuse"
    kw = make(c1, rs, amuse)
    if kind in ("path", "tail", "match") and amuse:
        from amuse.units import units as u
        kw["tfinal"] = kw["tfinal"] * 1000.0 | u.Myr
    f_ = getattr(ct, name, None) or getattr(ct.analysis.functions, name)
    np.random.seed(3)
    r0 = call(f_, c1, **copy.deepcopy({k: v for k, v in kw.items() if k != "pot"}), **({"pot": kw["pot"]} if "pot" in kw else {}))
    need(not p.get_fignums(), name + " draws without plot=True")
    before = rich.full(c2)
    two = dict(kw, plot=True)
    over = rs.uniform() < 0.25 and kind not in ("mf", "eta", "circle")
    if over:
        two["overplot"] = True
        fig = p.figure()
    F_ = Files(rs, two)
    np.random.seed(3)
    r = call(f_, c2, **two)
    what = "%s(%s) of a cluster in %s, %s" % (name, ", ".join(sorted(two)), c2.units, c2.origin)
    C.label(name)
    if isinstance(r0, Failed):
        C.exclude("no result: " + r0.args[0])
        p.close("all")
        return
    if isinstance(r, Failed):
        import traceback
        p.close("all")
        if r.args[0] in ("LinAlgError", "ValueError") and ("log" in r.args[1].lower() or "limits" in r.args[1].lower()):
            C.exclude("nothing matplotlib can scale")
            return
        fail("%s fails with %s; it does not without plotting" % (what, r.args))
    alike(r, r0, what + ": result with plotting")
    ignore = {k for k in before if k.startswith(("ra", "dec", "dist", "pm", "vlos", "orbit"))} if "path" in name else set()
    ignore |= {"xc", "yc", "zc", "vxc", "vyc", "vzc"} if name == "rcore" else set()
    # exactly what the function does to the cluster without plotting
    rich.unchanged(c2, rich.full(c1), tuple(ignore) + (() if not name.startswith(("tail", "orbital")) else ()), what + " and without plotting:")
    d = drawn(p)
    short = "not enough stars" if kind in ("mf", "eta") and not d else None
    if short:
        C.exclude(short)
        if F_.name and os.path.exists(F_.name):
            os.remove(F_.name)
        p.close("all")
        return
    need(len(d) >= 1, what + " draws nothing")
    F_.check(what)
    if over:
        need(p.gcf() is fig and len(p.get_fignums()) == 1, what + " does not draw on the current figure")
    if kind in ("xy", "lnx"):
        x, y = plain(r[0]), plain(r[1])
        with np.errstate(all="ignore"):
            coincide(d[0], (x if kind == "xy" else np.log(x), y), what)
        C.nt(len(x) >= 3)
        if kind == "lnx":
            slope = r[4 if False else 2] if name == "alpha_prof" else None
    elif kind in ("mf", "eta"):
        x, y = plain(r[0]), plain(r[2 if kind == "mf" else 1])
        with np.errstate(all="ignore"):
            coincide(d[0], (x, np.log10(y)), what)
        if name in ("mass_function", "eta_function") and len(d) > 1:
            a, b = (r[3], r[5]) if name == "mass_function" else (r[2], r[4])
            coincide(d[1], (d[1][0], float(a) * np.log10(d[1][0]) + float(b)), what + ": fit", tol=1e-7)
        C.nt(len(x) >= 3)
    elif kind in ("line", "vline"):
        R = float(plain(r))
        need(len(d) == 3, what + ": %d lines" % len(d))
        n = len(d[0][0])
        need(n == len(d[0][1]) and n >= 1, what + ": profile")
        x, y = d[0]
        level = d[1][1]
        need(np.all(level == level[0]), what + ": the threshold is not level")
        v = d[2][0]
        need(np.all(v == v[0]), what + ": the radius is not a vertical line")
        if kind == "vline":       # drawn in pc
            L = 1.0 if amuse else gen.factors(c2.units, s["s"]["P"])[0]
            close(v[:1], [R * L], what + ": radius drawn", rtol=1e-9)
        else:
            close(v[:1], [R], what + ": radius drawn", rtol=1e-9)
            # the curve is the density profile of the cluster in the cluster's units
            M_ = 1.0 if amuse else gen.factors(c2.units, s["s"]["P"])[2]
            L_ = 1.0 if amuse else gen.factors(c2.units, s["s"]["P"])[0]
            if name == "rlimiting" and np.all(np.isfinite(x)):
                rp = call(ct.rho_prof, c1, nrad=kw.get("nrad", 20), projected=kw.get("projected", False))
                if not isinstance(rp, Failed):
                    coincide((x, y), (plain(rp[0]), plain(rp[1])), what + ": density profile", tol=1e-7)
                    if 0 < R < x[-1] * (1 - 1e-9) and len(x) > 1:     # the curve crosses the threshold there
                        i = int(np.argmax(y < level[0]))
                        close([np.interp(R, x[i - 1:i + 1], y[i - 1:i + 1])], level[:1], what + ": the radius is not where the profile meets the threshold", rtol=1e-6)
            elif name == "rcore" and kw.get("method", "casertano") == "isothermal" and np.any(y < level[0]):
                i = int(np.argmax(y < level[0]))
                if i > 0:
                    close([np.interp(R, x[i - 1:i + 1], y[i - 1:i + 1])], level[:1], what + ": the radius is not where the profile meets the threshold", rtol=1e-6)
                    close(level[:1], y[:1] * (0.5 if kw.get("projected") else 1 / 3.0), what + ": threshold", rtol=1e-9)
        C.nt(n >= 3)
    elif kind == "circle":
        R = float(plain(r))
        coincide(d[0], (plain(c2.x), plain(c2.y)), what + ": stars")
        q = {k: float(plain(getattr(c2, k))) for k in ("xgc", "ygc", "xc", "yc")}
        cen = [0.0, 0.0]
        if c2.origin == "galaxy":
            cen = [q["xgc"] + (q["xc"] if kw.get("from_centre") else 0.0), q["ygc"] + (q["yc"] if kw.get("from_centre") else 0.0)]
        elif c2.origin == "cluster" and kw.get("from_centre"):
            cen = [q["xc"], q["yc"]]
        if R > 0:
            rad = np.hypot(d[1][0] - cen[0], d[1][1] - cen[1])
            need(np.all(np.abs(rad - R) <= 1e-6 * R + 1e-9 * np.hypot(*cen)), "%s: circle of radii %r about %r instead of %r" % (what, rad[:3], cen, R))
        C.nt(c2.ntot >= 5)
    elif kind == "path":
        x, y = plain(r[1]), plain(r[2])
        coincide(d[-1], (x, y), what + ": path")
        if not kw.get("skypath"):
            coincide(d[0], (plain(c2.x), plain(c2.y)), what + ": stars")
        C.nt(len(x) >= 3)
    elif kind == "tail":
        x, y = plain(r[1]), plain(r[2])
        if not kw.get("skypath"):
            L = 1.0 if amuse else gen.factors(c2.units, s["s"]["P"])[0]
            x, y = x * L / 1000.0, y * L / 1000.0
        coincide(d[-1], (x, y), what + ": path", tol=1e-8)
        C.nt(len(x) >= 3)
    else:
        x, y = plain(r[1]), plain(r[2])
        if not kw.get("skypath"):
            L = 1.0 if amuse else gen.factors(c2.units, s["s"]["P"])[0]
            x, y = x * L / 1000.0, y * L / 1000.0
        elif amuse:
            x = y = None
        if x is not None:
            coincide(d[0], (x, y), what + ": distances", tol=1e-8)
        C.nt(c2.ntot >= 5)
    if kind in ("xy", "line", "circle") and not over:
        unit_label(p.gcf().axes[0].get_xlabel(), c2.units, what)
    p.close("all")
