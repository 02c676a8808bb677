"""P14: relaxation times follow their published formulae, in the cluster's time unit."""
import numpy as np
from hypothesis import strategies as st
from vt.core import Check, close, same, need, fail, arr
from vt import gen, rich

check = Check("P14",
    rule="a case is a generated cluster (any units/origin, AMUSE too), radius, Coulomb parameter and projection; non-trivial = "
         "at least 4 stars, some of them outside the radius")

G = 4.302e-3
PCKMS_MYR = 0.9777922216807891


@st.composite
def spec(draw):
    return dict(cl=draw(rich.specs(4, 80, lists=False)), proj=draw(st.sampled_from([None, True, False])), coulomb=draw(st.sampled_from([None, 0.4, 0.11, 0.02])),
                rad=draw(st.sampled_from([None, None, 0.3, 0.8, 1.2])), which=draw(st.sampled_from(["spitzer", "half", "core"])),
                func=draw(st.booleans()), amuse=draw(st.integers(0, 7)) == 0)


@check.case("relaxation", spec(), quick=3000, shards=4)
def relax(s, C):
    import clustertools as ct
    P = s["cl"]["P"]
    cl = rich.build(s["cl"], lum=False)
    U = s["cl"]["units"]
    if s["amuse"]:
        cl.to_amuse()
        U = "amuse"
    X, V, M = rich.about(cl)
    L, W, Mu, T = gen.factors(U, P)
    X, V, M = X * L, V * W, M * Mu
    n = len(M)
    proj = (bool(cl.projected) if not s["func"] else False) if s["proj"] is None else s["proj"]
    R = np.sqrt((X[:2 if proj else 3] ** 2).sum(0))
    S2 = (V[:2 if proj else 3] ** 2).sum(0)
    lnl = np.log((s["coulomb"] or 0.4) * n)
    o = np.argsort(R)
    cum = np.cumsum(M[o])
    rh = R[o][np.argmax(cum >= (0.5 - 1e-12) * cum[-1])]
    rh2 = R[o][np.argmax(cum >= (0.5 + 1e-12) * cum[-1])]
    if rh2 - rh > 1e-9 * R.max():
        C.exclude("half-mass radius ambiguous to rounding")
        return
    kw = {}
    if s["proj"] is not None:
        kw["projected"] = s["proj"]
    if s["coulomb"] is not None:
        kw["coulomb"] = s["coulomb"]
    before = rich.full(cl)
    w, allowed = s["which"], ()
    if w == "spitzer":
        rad = rh
        if s["rad"] is not None:
            rad = rh * s["rad"] * 1.0001234
            kw["rad"] = rich.unplain(rad / L, cl)
        inside = R <= rad * (1 + 1e-9)
        if np.any(np.abs(R - rad) < 1e-9 * (rad + rich.reach(before) * L)) and s["rad"] is not None:
            return
        if not inside.any():
            return
        mbar = M[inside].mean()
        rho = inside.sum() / (4 * np.pi * rad ** 3 / 3)
        exp = S2.mean() ** 1.5 / (15.4 * G ** 2 * mbar ** 2 * rho * lnl)
        name, store = "relaxation_time", "trelax"
        C.nt(not inside.all())
    elif w == "half":
        exp = 0.138 * np.sqrt(M.sum()) * rh ** 1.5 / (M.mean() * np.sqrt(G) * lnl)
        name, store = "half_mass_relaxation_time", "trh"
        C.nt(True)
    else:
        if n < 8:
            return
        rc = float(np.asarray(rich.plain(ct.rcore(cl, projected=proj), "pc"))) * L
        before = rich.full(cl)
        exp = 0.39 / lnl * np.sqrt(rc ** 3 / (G * M.sum())) * M.sum() / M.mean() * np.sqrt(rc * rh) / (rc + rh)
        name, store = "core_relaxation_time", "trc"
        C.nt(True)
    C.label(name)
    got = getattr(ct, name)(cl, **kw) if s["func"] else getattr(cl, name)(**kw)
    if not s["func"]:
        need(getattr(cl, store) is got, name + " does not store what it returns")
    close(rich.plain(got, "Myr"), exp * PCKMS_MYR / T, "%s(%s)" % (name, kw), rtol=2e-3)
    rich.unchanged(cl, before, (store,), name)
