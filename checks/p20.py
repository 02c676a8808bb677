"""P20: physical results do not depend on the cluster's units or origin; the conversion helpers are exact."""
import numpy as np
from hypothesis import strategies as st
from vt.core import Check, close, same, need, fail, arr
from vt import gen, rich

check = Check("P20",
    rule="helpers: a quantity, its dimension and a pair of unit systems with generated scales (non-trivial = different systems); "
         "equivariance: a generated cluster, an analysis call and two frames (units and origin) it is evaluated in (non-trivial = "
         "the frames differ in units and at least 8 stars)")

ALL = gen.UNITS + ["amuse", "radec"]
DIM = dict(L=(1, 0, 0, 0), V=(0, 1, 0, 0), V2=(0, 2, 0, 0), M=(0, 0, 1, 0), T=(0, 0, 0, 1), RHO=(-3, 0, 1, 0), SIG=(-2, 0, 1, 0),
           N=(0, 0, 0, 0), PM=(0, 0, -1, 0), E=(0, 2, 1, 0))
UNIT = dict(L="pc", V="kms", V2="kms2", M="Msun", T="Myr", RHO="rho", SIG="sigma", N="none", E="E")


def fac(dim, units, P):
    f = gen.factors(units, P)
    return float(np.prod([a ** b for a, b in zip(f, DIM[dim])]))


def phys(v, dim, units, P, dist=None):
    """The number(s) in pc, km/s, Msun, Myr."""
    if units == "amuse":
        q = rich.strip(v)
        if q is None:
            if dim in ("N", "PM"):
                return arr(v, "result")
            need(np.size(v) == 0 or not np.any(np.isfinite(arr(v, "result"))) or not np.any(arr(v, "result")), "plain numbers %r where an AMUSE quantity is expected" % (v,))
            return arr(v, "result")
        need(q[1] == UNIT[dim], "result in %s, expected %s" % (q[1], UNIT[dim]))
        return np.asarray(q[0], float)
    if units == "radec":
        v = arr(v, "result")
        if dim == "L":
            return np.tan(np.radians(v)) * dist * 1000.0
        if dim in ("RHO", "SIG"):
            k = np.degrees(np.arctan2(1.0, dist)) / 1000.0        # degrees per pc, as the package defines a volume on the sky
            return v * k ** (3 if dim == "RHO" else 2)
        return v * dict(M=1.0, T=1000.0, N=1.0, PM=1.0)[dim]
    return arr(v, "result") * fac(dim, units, P)


@st.composite
def hspec(draw):
    return dict(P=draw(gen.params()), dim=draw(st.sampled_from(["L", "V", "V2", "T", "M", "RHO", "SIG"])), a=draw(st.sampled_from(gen.UNITS + ["amuse"])),
                b=draw(st.sampled_from(ALL)), x=draw(st.lists(gen.num(50), min_size=1, max_size=4)), arr=draw(st.booleans()), dist=draw(st.integers(1, 300)) / 10.0,
                orb=[draw(gen.num(10)) for _ in range(6)])


@check.case("helpers", hspec(), quick=2500, shards=2)
def helpers(s, C):
    import clustertools as ct
    try:
        from clustertools.util import units as U
        f = dict(L=U._convert_length, V=U._convert_velocity, V2=U._convert_square_velocity, T=U._convert_time, M=U._convert_mass, RHO=U._convert_density,
                 SIG=lambda x, u, c: U._convert_density(x, u, c, projected=True))[s["dim"]]
    except (ImportError, AttributeError):
        C.exclude("no such helper")
        return
    a, b, P, dim = s["a"], s["b"], s["P"], s["dim"]
    if b == "radec" and dim in ("V", "V2"):
        return                  # no conversion is offered
    cl = gen.new_cluster(b, "cluster", P)
    cl.xgc, cl.ygc, cl.zgc = s["orb"][0] * 30, s["orb"][1] * 9, s["dist"]
    cl.vxgc, cl.vygc, cl.vzgc = s["orb"][3:]
    x0 = np.array(s["x"]) if s["arr"] else float(s["x"][0])
    x = np.copy(x0) if s["arr"] else x0
    if a == "amuse":
        import amuse.units.units as u
        k = dict(L=u.parsec, V=u.kms, V2=u.kms ** 2, M=u.MSun, T=u.Myr, RHO=u.MSun / u.parsec ** 3, SIG=u.MSun / u.parsec ** 2)[dim]
        x = x | k
    got = f(x, a, cl)
    p0 = x0 * (fac(dim, a, P) if a != "amuse" else 1.0)
    if b == "radec" and dim == "L":
        close(got, np.degrees(np.arctan2(p0 / 1000.0, s["dist"])), "angle", rtol=1e-6)
    else:
        close(phys(got, dim, b, P, s["dist"]), p0, "%s from %s in %s" % (dim, a, b), rtol=2e-5 if "galpy" in (a, b) else 3e-7)
    need(cl.units == b and cl.zgc == s["dist"], "the cluster changed")
    C.nt(a != b)
    C.label("%s" % dim)


# ---------------------------------------------------------------- equivariance of the analysis functions

def _pos(cl, dims, f):
    return dims, f(cl)


CALLS = {
    "relaxation_time": lambda ct, c, k: (["T"], [ct.relaxation_time(c)]),
    "half_mass_relaxation_time": lambda ct, c, k: (["T"], [ct.half_mass_relaxation_time(c, projected=k)]),
    "core_relaxation_time": lambda ct, c, k: (["T"], [ct.core_relaxation_time(c, projected=k)]),
    "rlagrange": lambda ct, c, k: (["L"], [ct.rlagrange(c, nlagrange=7, projected=k)]),
    "virial_radius inverse": lambda ct, c, k: (["L"], [ct.virial_radius(c, method="inverse_distance", projected=k)]),
    "virial_radius critical": lambda ct, c, k: (["L"], [ct.virial_radius(c, method="critical_density", projected=k)]),
    "closest_star": lambda ct, c, k: (["L"], [ct.closest_star(c, projected=k)]),
    "energies": lambda ct, c, k: (["E", "E"], list(c.energies(specific=False, parallel=False, projected=k))[:2]),
    "specific energies": lambda ct, c, k: (["V2", "V2"], list(c.energies(specific=True, parallel=False, projected=k))[:2]),
    "mass_function": lambda ct, c, k: (["M", "N", "PM", "N"], list(ct.mass_function(c, nmass=4, projected=k))[:4]),
    "eta_function": lambda ct, c, k: (["M", "V", "N"], list(ct.eta_function(c, nmass=4, projected=k))[:3]),
    "rho_prof": lambda ct, c, k: (["L", "SIG" if k else "RHO", "N"], ct.rho_prof(c, nrad=4, projected=k)),
    "m_prof": lambda ct, c, k: (["L", "M", "N"], ct.m_prof(c, nrad=4, projected=k)),
    "sigv_prof": lambda ct, c, k: (["N", "V"], list(ct.sigv_prof(c, nrad=3, projected=k, normalize=True))[:2]),
    "v_prof": lambda ct, c, k: (["L", "V"], list(ct.v_prof(c, nrad=3, projected=k, normalize=False))[:2]),
    "v2_prof": lambda ct, c, k: (["L", "V2"], list(ct.v2_prof(c, nrad=3, projected=k, normalize=False))[:2]),
    "beta_prof": lambda ct, c, k: (["L", "N"], list(ct.beta_prof(c, nrad=3, projected=k, normalize=False))[:2]),
    "alpha_prof": lambda ct, c, k: (["L", "N", "N"], list(ct.alpha_prof(c, nrad=3, nmass=3, projected=k))[:3]),
    "eta_prof": lambda ct, c, k: (["L", "N", "N"], list(ct.eta_prof(c, nrad=3, nmass=3, projected=k))[:3]),
    "vcirc_prof": lambda ct, c, k: (["L", "V", "L", "V"], ct.vcirc_prof(c, nrad=None, projected=k, normalize=False)),
    "rcore": lambda ct, c, k: (["L"], [ct.rcore(c, method="casertano", projected=k)]),
}


@st.composite
def espec(draw):
    fr = lambda: [draw(st.sampled_from(gen.UNITS + ["amuse"])), draw(st.sampled_from(["cluster", "centre", "galaxy"]))]
    return dict(P=draw(gen.params()), a=fr(), b=fr(), n=draw(st.integers(6, 60)), seed=draw(st.integers(0, 2 ** 31)), call=draw(st.sampled_from(sorted(CALLS))),
                proj=draw(st.booleans()), off=draw(st.sampled_from([0.0, 0.3])), G=draw(st.sampled_from([0, 1])))


def physical(s):
    """N-body scales in which G = 1 (so that energies and times mean the same in every unit system)."""
    P = dict(s["P"])
    P["vbar"] = float(np.sqrt(4.302e-3 * P["zmbar"] / P["rbar"]))
    P["tbar"] = P["rbar"] / (P["vbar"] * gen.KMS)
    return P


@check.case("frames", espec(), quick=4500, shards=8)
def frames(s, C):
    import clustertools as ct
    P, n, rs = physical(s), s["n"], np.random.RandomState(s["seed"])
    L, V, M, T = gen.factors("pckms", P)
    x = rs.normal(0, 2, (3, n)) * rs.uniform(0.2, 2, n)
    v = rs.normal(0, 3, (3, n))
    m = (rs.uniform(size=n) * (0.1 ** -1.3 - 5.0 ** -1.3) + 5.0 ** -1.3) ** (-1 / 1.3)
    off = s["off"] or (0.3 if "core" in s["call"] else 0.0)        # with no centre known, rcore finds one
    o = off * rs.normal(0, 1, 6)
    orb = np.append(rs.normal(0, 5000, 3), rs.normal(0, 150, 3))
    # both clusters are written down directly in their own frames: no conversion by the package is involved
    cls = []
    for U, O in (s["a"], s["b"]):
        u = "pckms" if U == "amuse" else U
        f = gen.factors(u, P)
        sh = dict(cluster=0 * o, centre=-o, galaxy=orb)[O]
        c = gen.new_cluster(u, O, P)
        c.add_stars(*[(x[i] + o[i] + sh[i]) / f[0] for i in range(3)], *[(v[i] + o[3 + i] + sh[3 + i]) / f[1] for i in range(3)], m / f[2], np.arange(1, n + 1))
        c.xc, c.yc, c.zc = o[:3] / f[0]
        c.vxc, c.vyc, c.vzc = o[3:] / f[1]
        c.add_orbit(*(orb[:3] / f[0]), *(orb[3:] / f[1]))
        c.analyze()
        if U == "amuse":
            c.to_amuse()
        cls.append(c)
    # "cluster" and "centre" frames refer to different points: compare only frames with the same reference
    ref = [(O != "centre" if "energies" in s["call"] else O == "cluster") for U, O in (s["a"], s["b"])]
    if s["call"] == "eta_function" and (s["a"][1] == "galaxy") != (s["b"][1] == "galaxy"):
        C.exclude("speeds are those of the frame")
        return
    if ref[0] != ref[1] and off and s["call"] != "rcore":
        C.exclude("different reference points")
        return
    k = s["proj"]
    fn = CALLS[s["call"]]
    if s["call"] in ("relaxation_time",):
        k = False
    res = []
    for c, (U, O) in zip(cls, (s["a"], s["b"])):
        try:
            dims, out = fn(ct, c, k)
        except ValueError as e:         # too few stars for a fit: in every frame
            res.append(None)
            continue
        need(len(out) >= len(dims), "%d results" % len(out))
        res.append([phys(r, d, "pckms" if U == "amuse" and s["call"] in ("mass_function", "eta_function") else U, P) for r, d in zip(out, dims)])
    if res[0] is None or res[1] is None:
        need(res[0] is res[1], "%s: ValueError in one frame only (%s)" % (s["call"], [s["a"], s["b"]][res[1] is None]))
        C.exclude("too few stars")
        return
    for d, p, q in zip(dims, *res):
        if not np.all(np.isfinite(p)) and p.shape == q.shape:
            need(np.array_equal(np.isfinite(p), np.isfinite(q)), "%s: undefined values differ between the frames: %s and %s" % (s["call"], p, q))
        close(q, p, "%s (%s)" % (s["call"], d), rtol=2e-4, atol=2e-4 * (np.max(np.abs(p[np.isfinite(p)]), initial=0)))
    C.nt(s["a"][0] != s["b"][0] and n >= 8)
    C.label(s["call"])
    C.label("/".join(sorted({s["a"][0], s["b"][0]})))
