"""P09: energies equal the direct sum over stars, whichever way they are computed."""
import numpy as np
from hypothesis import strategies as st
from vt.core import Check, close, same, need, fail, arr
from vt import gen, rich

check = Check("P09",
    rule="a case is a generated cluster of distinct stars in any units/origin plus generated options (specific, full, "
         "parallel, projected, softening, subset by mask/ids/single id, function or method) compared with a direct sum; "
         "non-trivial = at least 3 stars",
    assumptions=["stars have distinct positions (coincident stars are deliberately NaN or skipped)",
                 "G = 4.302e-3 pc (km/s)^2/Msun in physical units, 1 in nbody/galpy/WDunits; 2e-3 relative for the constant, "
                 "then 1e-9 between the ways of computing"])


def G(units):
    k = gen.KMS
    return {"pckms": 4.302e-3, "amuse": 4.302e-3, "kpckms": 4.302e-6, "pcmyr": 4.302e-3 * k * k, "kpcgyr": 4.302e-6 * k * k}.get(units, 1.0)


@st.composite
def spec(draw):
    return dict(cl=draw(rich.specs(2, 40)), specific=draw(st.booleans()), full=draw(st.booleans()), projected=draw(st.sampled_from([True, False, None])),
                soft=draw(st.sampled_from([0.0, 0.0, 0.1, 1.0])), sub=draw(st.sampled_from([None, None, None, "mask", "ids", "one", "i_d", "npids"])),
                func=draw(st.booleans()), subseed=draw(st.integers(0, 10 ** 6)), par=draw(st.booleans()))


def oracle(cl, s, projected, soft):
    """Kinetic and potential energies in the centred frame of the cluster, by direct sum."""
    x = np.array([cl.x, cl.y, cl.z], float)
    v = np.array([cl.vx, cl.vy, cl.vz], float)
    m = np.asarray(cl.m, float)
    if cl.origin == "galaxy":
        x = x - np.array([cl.xgc, cl.ygc, cl.zgc])[:, None]
        v = v - np.array([cl.vxgc, cl.vygc, cl.vzgc])[:, None]
    if projected:
        x[2] = 0
        v[2] = 0
    d = np.sqrt(((x[:, :, None] - x[:, None, :]) ** 2).sum(0) + soft ** 2)
    w = m[:, None] * m[None, :] / np.where(d > 0, d, 1.0)
    np.fill_diagonal(w, 0)
    pot = -G(cl.units) * w.sum(1)
    kin = 0.5 * m * (v ** 2).sum(0)
    if s["specific"]:
        return kin / m, pot / m
    return kin, pot


def run(s, C, parallel):
    import clustertools as ct
    cl = rich.build(s["cl"], lum=False)
    n = len(cl.x)
    projected = s["projected"] if s["projected"] is not None else (False if s["func"] else bool(s["cl"]["proj"]))
    xy = list(zip(cl.x, cl.y)) if projected else list(zip(cl.x, cl.y, cl.z))
    if len(set(xy)) < n:
        C.label("coincident stars")
        return
    soft = s["soft"] * gen.scales(s["cl"]["units"], s["cl"]["P"])[0]
    kin, pot = oracle(cl, s, projected, soft)
    L = np.max(np.abs([cl.x, cl.y, cl.z]))
    V = np.max(np.abs([cl.vx, cl.vy, cl.vz]))
    # the frame change rounds positions relative to the galactocentric distance
    x = np.array([cl.x, cl.y] if projected else [cl.x, cl.y, cl.z], float)
    d = np.sqrt(((x[:, :, None] - x[:, None, :]) ** 2).sum(0))
    dmin = np.min(d[np.triu_indices(n, 1)]) if n > 1 else 1.0
    rt = 1e-9 + 1e-14 * L / max(dmin, soft, 1e-300)
    if rt > 1e-4:
        return
    sub = None
    rs = np.random.RandomState(s["subseed"])
    if s["sub"] in ("mask", "i_d"):
        sub = rs.uniform(size=n) < 0.6
        if not sub.any():
            sub[0] = True
        arg = sub
    elif s["sub"] in ("ids", "npids"):
        k = rs.randint(1, n + 1)
        ids = rs.permutation(np.asarray(cl.id))[:k]
        sub = np.isin(cl.id, ids)
        arg = [int(i) for i in ids] if s["sub"] == "ids" else ids
    elif s["sub"] == "one":
        i = rs.randint(n)
        sub = np.asarray(cl.id) == cl.id[i]
        arg = int(cl.id[i])
    kw = dict(specific=s["specific"], softening=soft, full=s["full"])
    if s["projected"] is not None:
        kw["projected"] = s["projected"]
    if parallel:
        kw["parallel"] = True
    if sub is not None:
        kw["i_d" if s["sub"] == "i_d" else "ids"] = arg
    before = rich.full(cl)
    got = ct.energies(cl, **kw) if s["func"] else cl.energies(**kw)
    allowed = ("kin", "pot", "etot", "ektot", "ptot", "qvir") + (() if s["cl"]["sort"] else
              ("rorder", "rproorder", "rorder_origin", "rm", "r10", "rmpro", "r10pro", "rh", "rh10", "rhpro", "rh10pro"))
    rich.unchanged(cl, before, allowed, "energies", rtol=1e-9)
    need(len(got) == 2, "energies returned %d values" % len(got))
    ek, ep = (kin, pot) if sub is None else (kin[sub], pot[sub])
    gk, gp = arr(got[0], "kinetic energies"), arr(got[1], "potential energies")
    # the constant is documented to 4 digits; the structure is checked to rounding
    close(gk, ek, "kinetic energy", rtol=1e-9, atol=1e-12 * V * V * (1 if s["specific"] else np.max(cl.m)))
    close(gp, ep, "potential energy", rtol=max(2e-3, rt))
    if ep.size:
        close(gp * (ep.sum() / gp.sum()), ep, "potential energy (up to the gravitational constant)", rtol=max(rt, 1e-8))
    C.nt(n >= 3)
    C.label("sub" if sub is not None else "all")
    if not s["func"]:
        fk, fp = np.zeros(n), np.zeros(n)
        m = np.ones(n, bool) if sub is None else sub
        fk[m], fp[m] = gk, gp
        close(cl.kin, fk, "stored kin", rtol=1e-12)
        close(cl.pot, fp, "stored pot", rtol=1e-12)
        close(cl.etot, fk + fp, "stored etot", rtol=1e-12, atol=1e-12 * np.max(np.abs(fp), initial=0))
        close(cl.ektot, fk.sum(), "ektot")
        close(cl.ptot, fp.sum() / 2, "ptot")
        if fp.sum() != 0:
            close(cl.qvir, 2 * fk.sum() / fp.sum(), "qvir")


@check.case("direct sum", spec(), quick=3000, shards=6)
def direct(s, C):
    run(s, C, False)


@check.case("parallel", spec(), quick=200, shards=1)
def parallel(s, C):
    if s["par"]:
        s = dict(s, cl=dict(s["cl"], stars=dict(kind="rand", n=300, seed=s["subseed"], shape="plummer", mass="power", off=0.0)))
        C.label("many stars")
    run(s, C, True)


@st.composite
def eq_spec(draw):
    return dict(cl=draw(rich.specs(2, 30, units=["pckms", "kpckms", "pcmyr", "kpcgyr", "galpy", "WDunits"], lists=False)),
                to=draw(st.sampled_from(["pckms", "kpckms", "pcmyr", "kpcgyr", "galpy", "WDunits", "amuse"])), projected=draw(st.booleans()))


@check.case("any units", eq_spec(), quick=800, shards=2)
def equivariance(s, C):
    """The energies of the same cluster in another unit system are the same energies."""
    P = s["cl"]["P"]
    a = rich.build(s["cl"], lum=False)
    b = rich.build(s["cl"], lum=False)
    ka, pa = a.energies(projected=s["projected"])
    b.to_units(s["to"])
    kb, pb = b.energies(projected=s["projected"])
    if s["to"] == "amuse":
        import amuse.units.units as u
        need(b.units == "amuse", "units %r after energies" % b.units)
        kb, pb = kb.value_in(u.kms ** 2), pb.value_in(u.kms ** 2)
    va, vb = gen.factors(s["cl"]["units"], P)[1], gen.factors(s["to"], P)[1]
    close(np.asarray(kb) * vb ** 2, np.asarray(ka) * va ** 2, "kinetic energy in %s" % s["to"], rtol=1e-6, scale=1e-9)
    close(np.asarray(pb) * vb ** 2, np.asarray(pa) * va ** 2, "potential energy in %s" % s["to"], rtol=2e-3)
    C.nt(s["to"] != s["cl"]["units"])


@check.case("given energies", st.tuples(st.lists(st.tuples(gen.num(50), gen.num(50)).map(list), min_size=1, max_size=20), st.booleans()).map(list), quick=400)
def given(s, C):
    rows, et = s
    a = np.array(rows, float)
    cl = gen.make(dict(kind="rand", n=len(a), seed=1, shape="plummer", mass="equal", off=0.0))
    kin, pot = np.abs(a[:, 0]), -np.abs(a[:, 1])
    etot = kin * 2 + 1
    cl.add_energies(kin, pot, etot) if et else cl.add_energies(kin, pot)
    same(cl.kin, kin, "kin")
    same(cl.pot, pot, "pot")
    same(cl.etot, etot if et else kin + pot, "etot")
    close(cl.ektot, kin.sum(), "ektot")
    close(cl.ptot, pot.sum() / 2, "ptot")
    if pot.sum() != 0:
        close(cl.qvir, 2 * kin.sum() / pot.sum(), "qvir")
    C.nt(len(a) > 1)
