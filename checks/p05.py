"""P05: analyses leave the cluster and the caller's arguments as they were, and do not depend on the analyses done before."""
import copy
import numpy as np
from hypothesis import strategies as st
from vt.core import Check, Violation, close, same, need, fail, arr
from vt import gen, rich
from checks.p29 import UNITS, M, build, selection, call, Failed, numbers, alike, maybe
from checks.p28 import F as PROFILES, PATHS

check = Check("P05",
    rule="history: a sequence of analyses (functions, or methods with their documented attributes) on one cluster; each result is compared to the same analysis of a fresh, identical cluster, and cluster and "
         "arguments to what they were (non-trivial = at least 2 analyses of at least 5 stars)",
    assumptions=["the results themselves are decided by the other properties; rcore may find the centre when none is known"])

# methods whose only effect is the attributes that store the result
STORES = dict(relaxation_time=["trelax"], half_mass_relaxation_time=["trh"], core_relaxation_time=["trc"], closest_star=["dclosest", "argclosest"], rlagrange=["rn"], virial_radius=["rv"],
              mass_function=["alpha", "mmin", "mmax"], tapered_mass_function=["alpha", "mmin", "mmax"], eta_function=["eta", "mmin", "mmax"], meq_function=["meq", "mmin", "mmax"], ckin=["ck"],
              rtidal=["rt"], rlimiting=["rl"], energies=["kin", "pot", "etot", "ektot", "ptot", "qvir"], initialize_orbit=["orbit"], initialize_orbits=["orbits"],
              orbital_path=["tpath", "xpath", "ypath", "zpath", "vxpath", "vypath", "vzpath", "orbit"])
NOT = ("orbit_interpolate", "orbits_interpolate", "rcore")
SLOW = ("interpolate_orbits", "tail_path", "tail_path_match", "orbital_path_match", "initialize_orbits")


def table():
    t = {k: v[0] for k, v in M.items() if k not in NOT}
    t.update({k: v[0] for k, v in PROFILES.items() if k.endswith("_prof")})
    t["rho_prof2"] = lambda c, rs, a: dict(PROFILES["rho_prof"][0](c, rs, a), bintype="fix")
    t["sphere_coords"] = t["cyl_coords"] = t["sky_coords"] = lambda c, rs, a: {}
    t["rcore"] = M["rcore"][0]
    t["overlap"] = lambda c, rs, a: {}
    t["starplot"] = lambda c, rs, a: maybe({}, rs, coords=["xy", "xyz", "yz"], do_centre=[True])
    t["skyplot"] = lambda c, rs, a: maybe({}, rs, coords=["radec", "pm"])
    t["sub_cluster"] = lambda c, rs, a: dict(selection(c, rs, a), **maybe({}, rs, sortstars=[True, False], reset_centre=[False]))
    t["snapout"] = lambda c, rs, a: {}
    t["path match"] = lambda c, rs, a: {}
    return t


T = table()
NAMES = sorted(T)


@st.composite
def hspec(draw):
    calls = draw(st.lists(st.tuples(st.sampled_from(NAMES), st.integers(0, 2 ** 20), st.booleans()), min_size=1, max_size=5))
    big = not any(c[0] in SLOW for c in calls)
    return dict(s=draw(rich.specs(1, 60 if big else 15, units=UNITS if draw(st.integers(0, 3)) == 0 else gen.UNITS, lists=False)), calls=calls)


def run(c, name, kw, method, other):
    import clustertools as ct
    np.random.seed(11)
    if name == "rho_prof2":
        return ct.rho_prof(c, **kw)
    if name in ("sphere_coords", "cyl_coords", "sky_coords"):
        return getattr(ct, name)(c)
    if name == "overlap":
        return ct.overlap_cluster(c, other, tol=kw["tol"], return_cluster=False)
    if name in ("starplot", "skyplot"):
        import matplotlib
        matplotlib.use("Agg", force=True)
        import matplotlib.pyplot as p
        getattr(ct, name)(c, **kw)
        p.close("all")
        return None
    if name == "sub_cluster":
        o = ct.sub_cluster(c, **kw)
        return [o.x, o.y, o.z, o.vx, o.vy, o.vz, o.m, np.asarray(o.id, float), o.units, o.origin]
    if name == "snapout":
        ct.snapout(c, "out.dat")
        return np.loadtxt("out.dat", ndmin=2)[:, :7]
    if name == "path match":
        return ct.orbital_path_match(c, path=other)
    return getattr(c, name)(**kw) if method else getattr(ct, name)(c, **kw)


def frozen(v):
    if isinstance(v, dict):
        return {k: frozen(w) for k, w in v.items() if k != "pot"}
    if isinstance(v, (list, tuple)):
        return [frozen(w) for w in v]
    if isinstance(v, np.ndarray):
        return (v.dtype.str, v.shape, v.tobytes())
    return repr(v)


def shaky(s, name, kw, method, other, r1):
    """Whether the result depends on rounding: it changes when the stars are moved by parts in 1e13 (ties, near-chaotic orbits)."""
    for k in range(24):
        c, rs = build(s), np.random.RandomState(k)
        for a in ("x", "y", "z", "vx", "vy", "vz", "m"):        # relative, and that of a shift to the galaxy and back
            v = getattr(c, a) * (1.0 + (2e-13 if k % 2 else 4e-12) * rs.uniform(-1, 1, c.ntot))
            if a != "m":
                v = v + (getattr(c, a + "gc") * 4e-15) * rs.uniform(-1, 1, c.ntot)
                setattr(c, a + "gc", getattr(c, a + "gc") * (1.0 + 2e-13 * rs.uniform(-1, 1)))
            setattr(c, a, v)
        c.analyze(sortstars=s["sort"] and not s.get("stale"))
        r = call(run, c, name, copy.deepcopy({a: v for a, v in kw.items() if a != "pot"}) | ({"pot": kw["pot"]} if "pot" in kw else {}), method, copy.deepcopy(other))
        if isinstance(r, Failed):
            return True
        try:
            alike(r, r1, "")
        except Violation:
            return True
    return False


@check.case("history", hspec(), quick=6000, shards=8)
def history(s, C):
    c = build(s["s"])
    stored = set()
    done = 0
    for name, seed, method in s["calls"]:
        fresh = build(s["s"])
        rs = np.random.RandomState(seed)
        kw = T[name](fresh, rs, fresh.units == "amuse")
        other = None
        if name == "interpolate_orbits":        # orbits of stars through the centre of the potential amplify rounding
            if fresh.origin != "galaxy":
                continue
            kw["tfinal"] = kw["tfinal"] / 20.0
        if name == "overlap":
            if fresh.units == "amuse":
                continue
            other = build(dict(s["s"], stars=dict(s["s"]["stars"], seed=s["s"]["stars"].get("seed", 0) ^ 1)))
            kw["tol"] = float(np.median(np.abs(fresh.x - fresh.x.mean()))) * 0.3 + 1e-12
        if name == "snapout" and fresh.units == "amuse":
            continue
        if name == "path match":
            if fresh.units == "amuse":
                continue
            t = np.linspace(-1, 1, 11)
            other = [t, fresh.xgc + t * abs(fresh.xgc) * 0.1, fresh.ygc + 0 * t, fresh.zgc + t ** 2 * abs(fresh.xgc) * 0.02, fresh.vxgc + 0 * t, fresh.vygc + 0 * t, fresh.vzgc + 0 * t]
        method = method and name in STORES
        if method:
            kw.setdefault("projected", False) if name in ("relaxation_time", "half_mass_relaxation_time", "core_relaxation_time", "closest_star", "rlagrange", "virial_radius", "energies") else None
        one = copy.deepcopy({k: v for k, v in kw.items() if k != "pot"})
        if "pot" in kw:
            one["pot"] = kw["pot"]
        r1 = call(run, fresh, name, one, method, copy.deepcopy(other))
        if isinstance(r1, Failed):
            C.exclude("no result: " + r1.args[0])
            continue
        before, args, oth = rich.full(c), frozen(kw), frozen(other) if not hasattr(other, "ntot") else rich.full(other)
        r2 = call(run, c, name, kw, method, other)
        what = "%s%s(%s) of a cluster in %s, %s" % ("method " if method else "", name, ", ".join(sorted(kw)), c.units, c.origin)
        if isinstance(r2, Failed):
            if r2.args[0] == "RuntimeError" and shaky(s["s"], name, kw, method, other, r1):      # a fit that just converges
                C.exclude("fit does not always converge")
                continue
            fail("%s: fails with %s after %d other analyses, but not on its own" % (what, r2.args, done))
        need((c.units, c.origin) == (fresh.units, fresh.origin), "%s: leaves the cluster in %r" % (what, (c.units, c.origin)))
        need(frozen(kw) == args, what + " changed an argument of the caller")
        if hasattr(other, "ntot"):
            rich.unchanged(other, oth, (), what + " (second cluster)")
        else:
            need(frozen(other) == oth, what + " changed the caller's path")
        try:
            alike(r2, r1, what + " after %d other analyses" % done)
        except Violation:
            if not shaky(s["s"], name, kw, method, other, r1):
                raise
            C.exclude("result depends on rounding")
        allowed = set(STORES.get(name, [])) if method else set()
        if name in ("rcore", "core_relaxation_time"):
            allowed |= {"xc", "yc", "zc", "vxc", "vyc", "vzc"} if all(before[k] == 0 for k in ("xc", "yc", "zc")) else set()
        if name in ("skyplot", "sky_coords", "orbital_path", "orbital_path_match", "tail_path", "tail_path_match", "path match"):
            allowed |= {k for k in set(before) | set(vars(c)) if k.startswith(("ra", "dec", "dist", "pm", "vlos", "orbit"))}
        allowed |= {k + "|unit" for k in allowed}
        rich.unchanged(c, before, tuple(allowed), what, rtol=1e-8)
        done += 1
        C.label(name)
        if name in ("rcore", "core_relaxation_time") and "xc" in allowed:
            break                   # a centre is known from here on
    C.nt(done >= 2 and c.ntot >= 5)
