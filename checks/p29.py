"""P29: every analysis method of a cluster returns - and stores - what the function of the same name gives for the same arguments."""
import numpy as np
from hypothesis import strategies as st
from vt.core import Check, Violation, close, same, need, fail, arr
from vt import gen, rich

check = Check("P29",
    rule="methods: any analysis method with any of its keywords, on any cluster in any frame and unit system, against the function of the same name on an identical cluster; frames: the same for conversions, "
         "centres and virialisation (non-trivial = at least 5 stars and at least two keywords)",
    assumptions=["results of the functions themselves are decided by P08-P27"])

UNITS = gen.UNITS + ["amuse"]


def bounds(cl, rs, names):
    """Bounds on the quantities of `names` that leave a good part of the stars."""
    kw = {}
    for k in names:
        a = rich.strip(getattr(cl, dict(r="r", v="v", m="m", e="etot")[k]))
        q = getattr(cl, dict(r="r", v="v", m="m", e="etot")[k])
        v = np.sort(np.asarray(q if a is None else a[0], float))
        if len(v) < 4:
            continue
        i, j = rs.randint(0, len(v) // 4 + 1), rs.randint(3 * len(v) // 4, len(v))
        if rs.uniform() < 0.7:
            kw[k + "min"] = v[i] - abs(v[i]) * 1e-6
        if rs.uniform() < 0.7:
            kw[k + "max"] = v[j] + abs(v[j]) * 1e-6
    return kw


def selection(cl, rs, amuse):
    names = [k for k in "rmv" if rs.uniform() < 0.4]
    if amuse:
        names = [k for k in names if k == "x"]
    kw = bounds(cl, rs, names)
    if rs.uniform() < 0.4:
        kw["kwmin"], kw["kwmax"] = [(0, 1), (0, 0), (0, 14), (1, 15)][rs.randint(4)]
    if rs.uniform() < 0.3:
        kw["indx"] = rs.uniform(size=cl.ntot) < 0.85
    return kw


def maybe(kw, rs, **options):
    for k, v in options.items():
        if rs.uniform() < 0.5:
            kw[k] = v[rs.randint(len(v))] if isinstance(v, list) else v
    return kw


def potentials():
    from galpy.potential import MWPotential2014, LogarithmicHaloPotential
    return [MWPotential2014, LogarithmicHaloPotential(normalize=1.0, q=0.9)]


def span(cl):
    """About 30 Myr in the units of the cluster."""
    P = dict(ro=cl._ro, vo=cl._vo, rbar=cl.rbar, vbar=cl.vbar, zmbar=cl.zmbar, tbar=cl.tbar)
    if cl.units == "amuse":
        return 0.03
    return 30.0 / gen.factors(cl.units, P)[3]


def spec_kinematics(cl, rs, a):
    kw = selection(cl, rs, a)
    return maybe(kw, rs, nmass=[3, 4, 5], projected=[True, False])


def start(cl, rs, a):
    kw = {}
    if not a:
        L = float(np.median(np.abs(cl.x))) + 1e-12
        for k in ("xstart", "ystart", "zstart"):
            if rs.uniform() < 0.3:
                kw[k] = rs.normal() * L * 0.1
        if rs.uniform() < 0.3:
            kw["rmin"] = float(np.median(cl.r)) * rs.uniform(0.05, 0.6)
    maybe(kw, rs, indx=[rs.uniform(size=cl.ntot) < 0.8], nsphere=[3, 10, 50], nmax=[1, 3, 50], method=["harfst", "casertano"], nneighbour=[3, 6])
    if a:
        kw.pop("rmin", None)
        kw["method"] = "casertano"
    return kw


def frames(cl, rs, kw):
    """Explicit solar parameters (only where an orbit is made of a cluster in physical units)."""
    if rs.uniform() < 0.3:
        kw.update(ro=8.2, vo=230.0)
    return maybe(kw, rs, zo=[0.0, 0.025], solarmotion=[[-11.1, 12.24, 7.25], [-10.0, 11.0, 7.0]])


def pathkw(cl, rs, match=False, tail=False, sky=True, centre=True):
    kw = dict(tfinal=span(cl) * rs.uniform(0.3, 2), pot=potentials()[rs.randint(2)])
    if centre:
        kw.update(maybe({}, rs, from_centre=[True, False]))
    frames(cl, rs, kw)
    if cl.units == "amuse" and (not sky or rs.uniform() < 0.5):
        from amuse.units import units as u
        kw["tfinal"] = kw["tfinal"] * 1000.0 | u.Myr
    if tail:
        kw.update(nt=int(rs.randint(20, 60)), no=int(rs.randint(30, 90)), ntail=int(rs.randint(3, 8)))
    else:
        kw["nt"] = int(rs.randint(20, 60))
    if match or tail:
        maybe(kw, rs, to_path=[True, False], do_full=[True, False])
    if match:
        maybe(kw, rs, projected=[True, False])
    if sky and rs.uniform() < 0.3 and not (tail and match):
        kw["skypath"] = True
    return kw


def tail(cl, rs, match=False):
    kw = pathkw(cl, rs, match=match, tail=True)
    if rs.uniform() < 0.4:
        kw["dmax"] = float(rs.uniform(0.5, 3)) * (1 if cl.units == "amuse" else 1000.0 / gen.factors(cl.units, dict(ro=cl._ro, vo=cl._vo, rbar=cl.rbar, vbar=cl.vbar, zmbar=cl.zmbar, tbar=cl.tbar))[0])
    if not match:
        maybe(kw, rs, bintype=["fix", "num"])
    return kw


def enkw(cl, rs, a):
    kw = maybe({}, rs, specific=[True, False], projected=[True, False], full=[True, False])
    if not a and rs.uniform() < 0.4:
        kw["softening"] = float(np.median(cl.r)) * 0.1
    r = rs.uniform()
    if r < 0.2:
        kw["ids"] = list(np.asarray(cl.id)[rs.choice(cl.ntot, max(1, cl.ntot // 3), replace=False)])
    elif r < 0.35:
        kw["ids"] = rs.uniform(size=cl.ntot) < 0.5
        if not kw["ids"].any():
            kw["ids"][0] = True
    return kw


def relax(cl, rs, a):
    kw = maybe({}, rs, coulomb=[0.1, 0.3], projected=[True, False])
    if not a and rs.uniform() < 0.5:
        kw["rad"] = float(np.sort(cl.r)[(3 * cl.ntot) // 4]) * 1.0001
    return kw


# name -> (keywords, attributes that store the results (None: result not stored), which result of the function they are, what projected=None means)
M = dict(
    relaxation_time=(relax, ["trelax"], True),
    half_mass_relaxation_time=(lambda c, rs, a: maybe({}, rs, coulomb=[0.1, 0.3], projected=[True, False]), ["trh"], True),
    core_relaxation_time=(lambda c, rs, a: maybe({}, rs, coulomb=[0.1, 0.3], projected=[True, False]), ["trc"], True),
    energies=(enkw, None, True),
    closest_star=(lambda c, rs, a: maybe({}, rs, projected=[True, False], argument=[True, False]), ["dclosest", "argclosest"], True),
    rlagrange=(lambda c, rs, a: maybe({}, rs, nlagrange=[1, 3, 7, 20], projected=[True, False]), ["rn"], True),
    virial_radius=(lambda c, rs, a: maybe({}, rs, method=["inverse_distance", "critical_density"], full=[True, False], H=[60.0, 75.0], Om=[0.2, 0.35], overdens=[100.0, 1e9], nrad=[5, 10], projected=[True, False]), ["rv"], True),
    mass_function=(lambda c, rs, a: maybe(spec_kinematics(c, rs, a), rs, mcorr=[rs.uniform(0.5, 1, c.ntot)], npop=[1]), "alpha:3", "p"),
    tapered_mass_function=(lambda c, rs, a: maybe(spec_kinematics(c, rs, a), rs, mcorr=[rs.uniform(0.5, 1, c.ntot)], npop=[1]), "alpha:5", "p"),
    eta_function=(lambda c, rs, a: maybe(spec_kinematics(c, rs, a), rs, npop=[1]), "eta:2", "p"),
    meq_function=(lambda c, rs, a: maybe(spec_kinematics(c, rs, a), rs, npop=[1]), "meq:2", "p"),
    ckin=(spec_kinematics, ["ck"], "p"),
    rcore=(lambda c, rs, a: maybe({}, rs, method=["casertano", "isothermal"], nneighbour=[3, 5], mfrac=[0.1, 0.2, 0.34], projected=[True, False]), ["rc"], "p"),
    rtidal=(lambda c, rs, a: maybe(dict(pot=potentials()[rs.randint(2)]), rs, rtiterate=[1, 3, 10], rtconverge=[0.5, 0.99], indx=[rs.uniform(size=c.ntot) < 0.8], from_centre=[True, False]), ["rt"], False),
    rlimiting=(lambda c, rs, a: maybe(dict(pot=potentials()[rs.randint(2)]), rs, nrad=[4, 8], projected=[True, False], from_centre=[True, False]), ["rl"], "p"),
    initialize_orbit=(lambda c, rs, a: frames(c, rs, maybe({}, rs, from_centre=[True, False])), "orbit", False),
    initialize_orbits=(lambda c, rs, a: frames(c, rs, {}), "orbits", False),
    interpolate_orbit=(lambda c, rs, a: pathkw(c, rs, sky=False), ["xgc", "ygc", "zgc", "vxgc", "vygc", "vzgc"], False),
    orbit_interpolate=(lambda c, rs, a: pathkw(c, rs, sky=False), ["xgc", "ygc", "zgc", "vxgc", "vygc", "vzgc"], False),
    interpolate_orbits=(lambda c, rs, a: pathkw(c, rs, sky=False, centre=False), ["x", "y", "z", "vx", "vy", "vz"], False),
    orbits_interpolate=(lambda c, rs, a: pathkw(c, rs, sky=False, centre=False), ["x", "y", "z", "vx", "vy", "vz"], False),
    orbital_path=(lambda c, rs, a: maybe(pathkw(c, rs), rs, initialize=[True]), ["tpath", "xpath", "ypath", "zpath", "vxpath", "vypath", "vzpath"], False),
    orbital_path_match=(lambda c, rs, a: pathkw(c, rs, match=True), ["tstar", "dprog", "dpath"], False),
    tail_path=(lambda c, rs, a: tail(c, rs), ["tpath", "xpath", "ypath", "zpath", "vxpath", "vypath", "vzpath"], False),
    tail_path_match=(lambda c, rs, a: tail(c, rs, True), ["tstar", "dprog", "dpath"], False),
    to_tail=(lambda c, rs, a: {}, ["x_tail", "y_tail", "z_tail", "vx_tail", "vy_tail", "vz_tail"], False),
    find_centre=(lambda c, rs, a: maybe(start(c, rs, a), rs, nsigma=[0.8, 2.0], density=[True, False]), "centre", False),
    find_centre_of_density=(start, "centre", False),
    find_centre_of_mass=(lambda c, rs, a: {}, "centre", False),
)
NAMES = sorted(M)
SLOW = dict(tail_path=40, tail_path_match=40, orbital_path_match=40, interpolate_orbits=12, orbits_interpolate=12)


@st.composite
def mspec(draw):
    name = draw(st.sampled_from(NAMES))
    return dict(name=name, s=draw(rich.specs(2, SLOW.get(name, 120), units=UNITS if draw(st.integers(0, 3)) == 0 else gen.UNITS, lists=False)), seed=draw(st.integers(0, 2 ** 31)), projected=draw(st.booleans()))


def build(s):
    if s["units"] != "amuse":
        return rich.build(s)
    cl = rich.build(dict(s, units="pckms"))
    cl.to_amuse()
    return cl


def numbers(v):
    """Every number of a result, in a fixed order."""
    q = rich.strip(v)
    if q is not None:
        return [np.atleast_1d(np.asarray(q[0], float))] + [q[1]]
    if v is None or isinstance(v, str):
        return [v]
    if isinstance(v, list) and v and all(isinstance(t, (float, int, np.number)) for t in v):
        return [np.asarray(v, float)]
    if isinstance(v, (list, tuple)):
        return [w for t in v for w in numbers(t)]
    if hasattr(v, "vxvv"):
        return numbers([v.x(use_physical=False), v.y(use_physical=False), v.z(use_physical=False), v.vx(use_physical=False), v.vy(use_physical=False), v.vz(use_physical=False), float(v._ro), float(v._vo), float(v._zo), list(v._solarmotion)])
    return [np.atleast_1d(np.asarray(v, float))]


def alike(a, b, what):
    a, b = numbers(a), numbers(b)
    need(len(a) == len(b), "%s: %d results instead of %d" % (what, len(a), len(b)))
    floor = 1e-12 * max([np.nanmax(np.abs(q[np.isfinite(q)]), initial=0) for q in b if isinstance(q, np.ndarray)] + [0.0])     # components of vectors
    for i, (p, q) in enumerate(zip(a, b)):
        if isinstance(p, (str, type(None))) or isinstance(q, (str, type(None))):
            need(type(p) is type(q) and p == q, "%s: %r instead of %r" % (what, p, q))
        else:
            need(p.shape == q.shape, "%s: shape %r instead of %r" % (what, p.shape, q.shape))
            ok = np.isclose(p, q, rtol=1e-9, atol=floor + 1e-9 * (np.nanmax(np.abs(q), initial=0) if np.any(np.isfinite(q)) else 0), equal_nan=True)
            need(np.all(ok), "%s: number %d is %r instead of %r" % (what, i, p[~ok][:3], q[~ok][:3]))


class Failed(Exception):
    pass


def call(f, *a, **kw):
    try:
        return f(*a, **kw)
    except (Violation, AssertionError):
        raise
    except Exception as e:
        return Failed(type(e).__name__, str(e)[:200])


@check.case("methods", mspec(), quick=3000, shards=6)
def methods(s, C):
    import copy
    import clustertools as ct
    name = s["name"]
    f = dict(orbit_interpolate="interpolate_orbit", orbits_interpolate="interpolate_orbits").get(name, name)
    make, store, proj = M[name]
    c1, c2 = build(s["s"]), build(s["s"])
    rs = np.random.RandomState(s["seed"])
    amuse = c1.units == "amuse"
    kw = make(c1, rs, amuse)
    two = copy.deepcopy({k: v for k, v in kw.items() if k != "pot"})
    if "pot" in kw:
        two["pot"] = kw["pot"]
    one = dict(kw)
    if proj is True and "projected" not in kw:          # by default, as the cluster says
        one["projected"] = c1.projected
    np.random.seed(7)
    r1 = call(getattr(ct, f), c1, **one)
    np.random.seed(7)
    r2 = call(getattr(c2, name), **two)
    what = "%s(%s)" % (name, ", ".join(sorted(kw)))
    C.label(name)
    if isinstance(r1, Failed):
        if isinstance(r2, Failed):
            C.exclude("no result: " + r1.args[0])
            return
        fail("%s: the function fails with %s, the method does not" % (what, r1.args))
    if isinstance(r2, Failed):
        fail("%s: the method fails with %s, the function does not" % (what, r2.args))
    C.nt(c1.ntot >= 5 and len(kw) >= 2)
    if name == "energies":
        alike(r2, r1, what)
        ids = kw.get("ids")
        n = c1.ntot
        i = np.ones(n, bool) if ids is None else (np.asarray(ids) if isinstance(ids, np.ndarray) else np.isin(np.asarray(c1.id), ids))
        k, p, t = [np.concatenate([w for w in numbers(getattr(c2, a)) if not isinstance(w, str)]) for a in ("kin", "pot", "etot")]
        alike(k[i], numbers(r1[0])[0], what + ": kin stored")
        alike(p[i], numbers(r1[1])[0], what + ": pot stored")
        alike(t, k + p, what + ": etot stored")
        need(np.all(k[~i] == 0) and np.all(p[~i] == 0), what + ": energies of stars outside the subset")
        return
    if isinstance(store, str) and ":" in store:
        attr, j = store.split(":")
        alike(r2, r1[int(j)], what)
        alike(getattr(c2, attr), r1[int(j)], what + ": " + attr)
        alike([c2.mmin, c2.mmax], [kw.get("mmin"), kw.get("mmax")], what + ": mass range stored")
        return
    if store in ("orbit", "orbits"):
        alike(r2, r1, what)
        alike(getattr(c2, store), r1, what + ": " + store)
        return
    if store == "centre":
        alike(r2, r1, what)
        gc = [getattr(c1, k) for k in ("xgc", "ygc", "zgc", "vxgc", "vygc", "vzgc")]
        v = [numbers(t)[0] for t in r1]
        g = [numbers(t)[0] for t in gc]
        e = [numbers(getattr(c1, k))[0] for k in ("xc", "yc", "zc", "vxc", "vyc", "vzc")]
        if c1.origin == "cluster":
            e = v
        elif c1.origin == "galaxy":
            e = [p - q for p, q in zip(v, g)]
        got = [numbers(getattr(c2, k))[0] for k in ("xc", "yc", "zc", "vxc", "vyc", "vzc")]
        if c1.origin != "galaxy" or any(np.any(t != 0) for t in g):
            for a_, b_, sc, kk in zip(got, e, v, ("xc", "yc", "zc", "vxc", "vyc", "vzc")):
                close(a_, b_, what + ": " + kk, rtol=1e-9, atol=1e-9 * abs(float(sc[0])))
        return
    if store is None:
        alike(r2, r1, what)
        return
    res = r1 if len(store) > 1 and isinstance(r1, tuple) else (r1,)
    if name == "to_tail":
        need(r2 is None or isinstance(r2, tuple), what + " returns something else")
    elif name == "orbital_path" and kw.get("initialize"):
        res = r1[:7]
        alike(r2[:7], res, what)
        alike(c2.orbit, r1[7], what + ": orbit")
    elif name in ("interpolate_orbits", "orbits_interpolate", "interpolate_orbit", "orbit_interpolate"):
        alike(r2, r1, what)
    else:
        alike(r2, r1, what)
    for a, v in zip(store, res):
        alike(getattr(c2, a), v, what + ": " + a)


# ------------------------------------------------------------------ frames, units and whole-cluster operations

OPS = ["pckms", "kpckms", "pcmyr", "kpcgyr", "nbody", "galpy", "WDunits", "amuse", "units", "centre", "center", "cluster", "galaxy", "origin", "sudays", "audays",
       "virialize", "reset_nbody_scale", "add_rotation", "save", "radec", "sky", "subset", "analyze"]


def operate(c, k, rs, as_method, C=None):
    """One operation on the cluster: with its method, or with the function."""
    import clustertools as ct
    b, n, o, d = rs.randint(2) == 0, rs.randint(3), ["cluster", "centre", "galaxy"][rs.randint(3)], rs.uniform(0.2, 1.0)
    U = gen.UNITS[rs.randint(len(gen.UNITS))]
    full, spec, soft = rs.randint(2) == 0, rs.randint(2) == 0, [0.0, d][rs.randint(2)]
    if c.units in ("amuse", "radec"):
        soft, spec = 0.0, True
    if k in ("pckms", "kpckms", "pcmyr", "kpcgyr", "nbody", "galpy", "WDunits", "amuse"):
        kw = {} if n == 0 else dict(analyze=b)
        if as_method:
            return getattr(c, "to_" + k)(**kw)
        return getattr(ct, "to_" + k)(c, **kw)
    if k == "units":
        return c.to_units(U) if as_method else ct.to_units(c, U)
    if k in ("centre", "center", "cluster"):
        kw = {} if n == 0 else dict(sortstars=b)
        return getattr(c, "to_" + k)(**kw) if as_method else getattr(ct, "to_" + dict(center="centre").get(k, k))(c, **kw)
    if k == "galaxy":
        kw = {} if n == 0 else dict(sortstars=b)
        return c.to_galaxy(**kw) if as_method else ct.to_galaxy(c, **kw)
    if k == "origin":
        return c.to_origin(o, sortstars=b) if as_method else ct.to_origin(c, o, sortstars=b)
    if k in ("sudays", "audays"):
        return getattr(c, "to_" + k)() if as_method else getattr(ct, "to_" + k)(c)
    if k == "radec":
        kw = {} if n == 0 else dict(sortstars=b)
        return c.to_radec(**kw) if as_method else ct.to_radec(c, **kw)
    if k == "sky":
        kw = {} if n == 0 else dict(sortstars=b)
        return c.to_sky(**kw) if as_method else ct.to_sky(c, **kw)
    if k == "virialize":
        kw = dict(qvir=d, full=full, softening=soft, specific=spec)
        if n == 0:
            kw.pop("qvir")
        if as_method:
            if b:
                kw["projected"] = full
            c.virialize(**kw)
            return c.qv
        qv = ct.virialize(c, projected=full if b else c.projected, **kw)
        c.qv = qv
        u0, o0 = c.units, c.origin
        if o0 not in ("cluster", "centre"):
            ct.to_centre(c, sortstars=False)
        c.vx, c.vy, c.vz = c.vx * qv, c.vy * qv, c.vz * qv
        ct.return_cluster(c, u0, o0, c.rorder, c.rorder_origin)
        c.analyze(sortstars=False)
        return qv
    if k == "reset_nbody_scale":
        kw = dict(mass=b, radii=full or not b, rvirial=spec)
        if n == 0:
            kw["projected"] = full
        if as_method:
            c.reset_nbody_scale(**kw)
        else:
            import copy
            out = list(ct.reset_nbody_scale(copy.deepcopy(c), **dict(dict(projected=c.projected), **kw)))
            c.reset_nbody_scale(**kw)
            return out
        return [c.zmbar, c.rbar, c.vbar, c.tbar]
    if k == "add_rotation":
        q = int(rs.randint(2)) * rs.uniform(0, 1)
        np.random.seed(5)
        if as_method:
            c.add_rotation(q)
            return c.qrot
        u0, o0 = c.units, c.origin
        if o0 not in ("cluster", "centre"):
            ct.to_centre(c, sortstars=False)
        c.x, c.y, c.z, c.vx, c.vy, c.vz = ct.add_rotation(c, q)
        c.qrot = q
        ct.return_cluster(c, u0, o0, c.rorder, c.rorder_origin)
        c.analyze(sortstars=False)
        return q
    if k == "save":
        if as_method:
            c.save_cluster()
            s = (c.units0, c.origin0, c.rorder0, c.rorder_origin0)
        else:
            s = ct.save_cluster(c)
        return [str(s[0]), str(s[1])]
    if k == "analyze":
        if as_method:
            [c.analyze, c.analyse, lambda sortstars, projected: c.key_params(do_order=sortstars, projected=projected)][n](sortstars=b, projected=full)
        else:
            c.analyze(sortstars=b, projected=full)
        return None
    if k == "subset":
        kw = selection(c, rs, c.units in ("amuse", "radec"))
        if as_method:
            out = c.subset(**kw)
            need(np.array_equal(out, c.indx), "subset does not store its result")
            return out
        return ct.analysis.functions._get_subset(c, **kw) if hasattr(ct.analysis.functions, "_get_subset") else c.subset(**kw)
    raise AssertionError(k)


@st.composite
def fspec(draw):
    return dict(s=draw(rich.specs(2, 40, units=UNITS if draw(st.integers(0, 4)) == 0 else gen.UNITS, lists=False)),
                ops=draw(st.lists(st.tuples(st.sampled_from(OPS), st.integers(0, 2 ** 20)), min_size=1, max_size=5)))


@check.case("operations", fspec(), quick=1200, shards=3)
def operations(s, C):
    a, b = build(s["s"]), build(s["s"])
    n = 0
    for k, seed in s["ops"]:
        r1 = call(operate, a, k, np.random.RandomState(seed), False)
        r2 = call(operate, b, k, np.random.RandomState(seed), True)
        if isinstance(r1, Failed) or isinstance(r2, Failed):
            need(isinstance(r1, Failed) and isinstance(r2, Failed), "%s: function %r, method %r" % (k, r1, r2))
            C.exclude("no result: " + r1.args[0])
            break
        n += 1
        C.label(k)
        alike(r2, r1, k)
        need((b.units, b.origin) == (a.units, a.origin), "%s: the method gives %r instead of %r" % (k, (b.units, b.origin), (a.units, a.origin)))
        need(type(b.x) is type(a.x) and [v.dtype for v in (b.x, b.m)] == [v.dtype for v in (a.x, a.m)] if a.units != "amuse" else True, k + ": types of the arrays")
        skip = () if k not in ("virialize", "add_rotation") else rich.LAZY
        rich.unchanged(b, rich.full(a), ("units0",) + tuple(skip), "after %s the method's cluster differs from the function's:" % k)
    C.nt(n >= 2 and a.ntot >= 3)
