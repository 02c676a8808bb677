"""Generators: star sets, cluster parameters and their expansion into StarCluster objects.

A star-set spec is either an explicit list of small integers (ties, coincident coordinates, zeros: shrinks to
hand-readable cases) or (n, seed, shape parameters) expanded by a private numpy RandomState, so it is still a pure
function of the spec.
"""
import numpy as np
from hypothesis import strategies as st

KMS = 1.0227121650537077          # 1 km/s in pc/Myr (IAU pc, Julian year)
G_PC = 4.302e-3                   # the package's documented G in pc (km/s)^2 / Msun
WDMASS = 222288.4543021174        # Msun per Walter Dehnen mass unit


def log_uniform(lo, hi):
    return st.floats(min_value=float(np.log10(lo)), max_value=float(np.log10(hi)), allow_nan=False).map(
        lambda e: float("%.6g" % 10 ** e))


def num(hi, lo=None):
    """Decimal numbers with 3 decimals (no denormals), shrinking towards 0."""
    lo = -hi if lo is None else lo
    return st.integers(int(lo * 1000), int(hi * 1000)).map(lambda i: i / 1000.0)


@st.composite
def star_specs(draw, min_n=1, max_n=60, lists=True, shapes=("plummer", "uniform", "clumpy", "shell"),
               masses=("equal", "power", "mixed"), max_list=8):
    if lists and min_n <= max_list and draw(st.integers(0, 3)) == 0:
        row = st.tuples(*([st.integers(-4, 4)] * 6 + [st.integers(1, 5)]))
        rows = draw(st.lists(row, min_size=min_n, max_size=min(max_list, max_n)))
        return dict(kind="list", rows=[list(r) for r in rows])
    return dict(kind="rand", n=draw(st.integers(min_n, max_n)), seed=draw(st.integers(0, 2 ** 31 - 1)),
                shape=draw(st.sampled_from(list(shapes))), mass=draw(st.sampled_from(list(masses))),
                off=draw(st.sampled_from([0.0, 0.0, 0.3, 5.0])))


def expand(spec):
    """Star set in abstract units (r ~ 1, v ~ 1, m ~ 1)."""
    if spec["kind"] == "list":
        a = np.array(spec["rows"], dtype=float).reshape(-1, 7)
        return dict(x=a[:, 0] * 0.5, y=a[:, 1] * 0.5, z=a[:, 2] * 0.5, vx=a[:, 3] * 0.25, vy=a[:, 4] * 0.25,
                    vz=a[:, 5] * 0.25, m=a[:, 6] * 0.5)
    n, rs = spec["n"], np.random.RandomState(spec["seed"])
    sh = spec["shape"]
    u = rs.normal(size=(n, 3))
    u /= np.linalg.norm(u, axis=1)[:, None] + 1e-300
    if sh == "plummer":
        q = rs.uniform(0.001, 0.97, n)
        r = 1.0 / np.sqrt(q ** (-2.0 / 3.0) - 1.0)
        p = u * r[:, None]
    elif sh == "uniform":
        p = rs.uniform(-1.5, 1.5, size=(n, 3))
    elif sh == "clumpy":
        c = rs.uniform(-2, 2, size=(3, 3))
        p = c[rs.randint(0, 3, n)] + 0.2 * rs.normal(size=(n, 3))
    else:
        p = u * (1.0 + 0.05 * rs.normal(size=n))[:, None]
    v = rs.normal(size=(n, 3)) * 0.6 + rs.normal(size=3) * spec["off"] * 0.2
    p = p + rs.normal(size=3) * spec["off"]
    if spec["mass"] == "equal":
        m = np.ones(n)
    elif spec["mass"] == "power":
        m = (rs.uniform(size=n) * (0.1 ** -1.3 - 5.0 ** -1.3) + 5.0 ** -1.3) ** (-1 / 1.3)
    else:
        m = rs.choice([0.2, 0.5, 0.5, 1.0, 3.0], n)
    return dict(x=p[:, 0].copy(), y=p[:, 1].copy(), z=p[:, 2].copy(), vx=v[:, 0].copy(), vy=v[:, 1].copy(),
                vz=v[:, 2].copy(), m=m.astype(float))


def size(spec):
    return len(spec["rows"]) if spec["kind"] == "list" else spec["n"]


UNITS = ["pckms", "kpckms", "pcmyr", "kpcgyr", "nbody", "galpy", "WDunits"]


@st.composite
def params(draw):
    """Solar position / N-body scale parameters attached to a cluster."""
    d = dict(ro=8.275, vo=8.275 * 30.39 - 12.24, zo=0.0208, sm=[-11.1, 12.24, 7.25])
    if draw(st.booleans()):
        d.update(ro=draw(st.sampled_from([8.0, 8.5, 7.9])), vo=draw(st.sampled_from([220.0, 235.5, 240.0])),
                 zo=draw(st.sampled_from([0.0, 0.025])), sm=draw(st.sampled_from([[-11.1, 12.24, 7.25], [-10.0, 11.0, 7.0],
                                                                                [-14.0, 12.24, 7.25]])))
    zm, rb = draw(log_uniform(50, 5e5)), draw(log_uniform(0.3, 20))
    d.update(zmbar=zm, rbar=rb, vbar=draw(log_uniform(0.05, 20)), tbar=draw(log_uniform(0.05, 30)))
    return d


DEFAULTS = dict(ro=8.275, vo=8.275 * 30.39 - 12.24, zo=0.0208, sm=[-11.1, 12.24, 7.25],
                zmbar=1.0, rbar=1.0, vbar=1.0, tbar=1.0)


def factors(units, P):
    """(length in pc, velocity in km/s, mass in Msun, time in Myr) of one unit of `units`; independent of the package."""
    if units in ("pckms", "amuse"):
        return 1.0, 1.0, 1.0, 1.0
    if units == "pcmyr":
        return 1.0, 1.0 / KMS, 1.0, 1.0
    if units == "kpckms":
        return 1000.0, 1.0, 1.0, 1000.0
    if units == "kpcgyr":
        return 1000.0, 1.0 / KMS, 1.0, 1000.0
    if units == "WDunits":
        return 1000.0, 1.0 / KMS, WDMASS, 1000.0
    if units == "nbody":
        return P["rbar"], P["vbar"], P["zmbar"], P["tbar"]
    if units == "galpy":
        ro, vo = P["ro"], P["vo"]
        # time: ro/vo;  mass: vo^2 ro / G with galpy's G = 4.30091e-3 pc (km/s)^2/Msun
        return 1000.0 * ro, vo, vo * vo * ro * 1000.0 / 4.300917270036279e-3, 1000.0 * ro / (vo * KMS)
    raise KeyError(units)


# natural scale of each unit system (so that generated values are of sensible size)
def scales(units, P):
    """Multipliers turning abstract star sets into values of the unit system: r ~ 3 pc, v ~ 2 km/s, m ~ 1 Msun."""
    L, V, M, T = factors(units, P)
    return 3.0 / L, 2.0 / V, 1.0 / M


def new_cluster(units, origin, P=DEFAULTS, **kw):
    from clustertools import StarCluster
    k = dict(ro=P["ro"], vo=P["vo"], zo=P["zo"], solarmotion=list(P["sm"]))
    k.update(kw)
    cl = StarCluster(kw.pop("tphys", 0.0), units=units, origin=origin, **{a: b for a, b in k.items() if a != "tphys"})
    cl.zmbar, cl.rbar, cl.vbar, cl.tbar = P["zmbar"], P["rbar"], P["vbar"], P["tbar"]
    return cl


def make(spec, units="pckms", origin="cluster", P=DEFAULTS, analyze=True, sort=True, ids=None, **kw):
    """StarCluster with the star set scaled to the unit system (positions relative to the given origin)."""
    s = expand(spec)
    a, b, c = scales(units, P)
    cl = new_cluster(units, origin, P, **kw)
    n = len(s["x"])
    cl.add_stars(s["x"] * a, s["y"] * a, s["z"] * a, s["vx"] * b, s["vy"] * b, s["vz"] * b, s["m"] * c,
                 np.arange(1, n + 1) if ids is None else ids, analyze=analyze, sortstars=sort)
    return cl


STATE = ("x", "y", "z", "vx", "vy", "vz", "m", "id", "m0", "npop")
CENTRE = ("xc", "yc", "zc", "vxc", "vyc", "vzc", "xgc", "ygc", "zgc", "vxgc", "vygc", "vzgc")


def snapshot(cl):
    d = {k: np.array(getattr(cl, k), copy=True) for k in STATE}
    d.update({k: float(getattr(cl, k)) for k in CENTRE})
    d.update(units=cl.units, origin=cl.origin, tphys=float(cl.tphys), ntot=cl.ntot, nb=cl.nb,
             zmbar=cl.zmbar, rbar=cl.rbar, vbar=cl.vbar, tbar=cl.tbar)
    return d
