"""P16: density, mass and circular velocity profiles bin exactly the selected stars about the centre."""
import numpy as np
from hypothesis import strategies as st
from vt.core import Check, close, same, need, fail, arr
from vt import gen, rich, binning, prof

check = Check("P16",
    rule="a case is a generated cluster (any units/origin, AMUSE too), a selection of stars, radial bins (equal numbers, equal "
         "widths or the user's own) and options; non-trivial = at least 3 bins hold selected stars and the selection or the "
         "user's bins leave stars out")


@check.case("density and mass", prof.spec(["rho", "m", "m", "cum"]), quick=3000, shards=8)
def densmass(s, C):
    import clustertools as ct
    f = s["fn"]
    p = prof.setup(s, C)
    if p is None:
        return
    cl, kw = p.cl, dict(p.kw)
    if f == "cum":
        kw["cumulative"] = True
    before = rich.full(cl)
    bins0 = [np.copy(b) for b in p.bins] if p.bins is not None else None
    got = (ct.rho_prof if f == "rho" else ct.m_prof)(cl, **kw)
    C.label(f + " " + s["bins"])
    need(len(got) == 3, "%d results" % len(got))
    p.common(cl, before, kw, bins0, f)
    lo, mid, up, w = p.lo, p.mid, p.up, p.which
    rm = p.rm(False)        # radii are normalised by the (3D) half-mass radius
    p.radii(got[0], mid, rm, "profile radii")
    ms = np.array([np.sum(p.M[w == i]) for i in range(len(lo))])
    ns = np.array([np.sum(w == i) for i in range(len(lo))])
    if f == "rho":
        vol = np.pi * (up ** 2 - lo ** 2) if p.proj else 4 * np.pi / 3 * (up ** 3 - lo ** 3)
        g = rich.plain(got[1], "sigma" if p.proj else "rho") if p.amuse else got[1]
        close(g, ms / vol, "density", rtol=1e-6)
    else:
        if f == "cum":
            inner = np.sum(p.mask & (p.R < lo[0])) if p.bins is not None else 0
            ms = np.array([np.sum(p.M[p.mask & (p.place <= i) & (p.R <= up[-1])]) for i in range(len(lo))])
            ns = np.array([np.sum(p.mask & (p.place <= i) & (p.R <= up[-1])) for i in range(len(lo))])
        close(rich.plain(got[1], "Msun"), ms, "mass", rtol=1e-9)
    close(got[2], ns, "number of stars")
    C.nt(np.sum(ns > 0) >= 3 and (not p.mask.all() or s["bins"] == "user"))


@check.case("circular velocity", prof.spec(["vcirc"]), quick=1500, shards=4)
def vcirc(s, C):
    import clustertools as ct
    p = prof.setup(s, C, nrad_none=True)
    if p is None:
        return
    cl, kw = p.cl, dict(p.kw)
    before = rich.full(cl)
    bins0 = [np.copy(b) for b in p.bins] if p.bins is not None else None
    got = ct.vcirc_prof(cl, **kw)
    p.common(cl, before, kw, bins0, "vcirc_prof")
    need(len(got) == 4, "%d results" % len(got))
    o = np.argsort(p.R[p.mask])
    R, M = p.R[p.mask][o], p.M[p.mask][o]
    if p.near_ties(R):
        return
    U = s["cl"]["units"] if not p.amuse else "amuse"
    G = 1.0 if U == "nbody" else {"pckms": 4.302e-3, "amuse": 4.302e-3, "kpckms": 4.302e-6, "pcmyr": 4.302e-3 * gen.KMS ** 2,
                                  "kpcgyr": 4.302e-6 * gen.KMS ** 2}.get(U, 1.0)
    vc = np.sqrt(G * np.cumsum(M) / R)
    gr, gv = arr(rich.plain(got[0], "pc"), "radii"), arr(rich.plain(got[1], "kms"), "circular velocities")
    norm = p.rm(p.proj) if p.norm else 1.0
    tol = 1e-9 * (p.reach + R.max())
    if s["nrad"] is None and p.bins is None:
        close(gr, R / norm, "radii of the stars", rtol=1e-8, atol=tol / norm)
        close(gv, vc, "circular velocity", rtol=1e-4)
    else:
        need(len(gr) == len(p.mid), "%d radii for %d bins" % (len(gr), len(p.mid)))
        for g, v, c in zip(gr * norm, gv, p.mid):
            need(abs(g - c) <= np.min(np.abs(R - c)) + 3 * tol, "profile at %r, the star nearest to the bin centre %r is at %r" % (g, c, R[np.argmin(np.abs(R - c))]))
            i = int(np.argmin(np.abs(R - g)))
            need(abs(R[i] - g) <= 3 * tol, "%r is not the radius of a selected star" % g)
            close(v, vc[i], "circular velocity at %r" % g, rtol=1e-4)
    i = int(np.argmax(vc))
    close(rich.plain(got[3], "kms"), vc[i], "maximum circular velocity", rtol=1e-4)
    if np.sum(vc > vc[i] * (1 - 1e-9)) == 1:
        close(rich.plain(got[2], "pc"), R[i], "radius of the maximum", rtol=1e-6, atol=tol)
    C.nt(len(R) >= 5 and not p.mask.all())
    C.label(s["bins"])
