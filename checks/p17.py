"""P17: kinematic and mass-function profiles: dispersion, mean and mean-square velocity, anisotropy, alpha, eta, m_eq."""
import numpy as np
from hypothesis import strategies as st
from vt.core import Check, close, same, need, fail, arr
from vt import gen, rich, binning, prof

check = Check("P17",
    rule="a case is a generated cluster (any units/origin, AMUSE too), a selection of stars, radial bins (equal numbers, equal "
         "widths or the user's own), a velocity component and options; non-trivial = at least 2 bins hold more than 3 "
         "selected stars and the selection or the user's bins leave stars out")


def component(p, coord):
    """The velocity component a profile of `coord` is about: spherical, or cylindrical in projection."""
    x, y, z = p.X
    vx, vy, vz = p.V
    R = np.sqrt(x ** 2 + y ** 2)
    r = np.sqrt(R ** 2 + z ** 2)
    if coord in (None, "v"):
        return p.S
    if coord in ("r", "vr"):
        return (x * vx + y * vy) / R if p.proj else (x * vx + y * vy + z * vz) / r
    if coord in ("phi", "vp", "vphi"):
        return (x * vy - y * vx) / R
    if coord in ("theta", "vt", "vtheta"):
        return (z * (x * vx + y * vy) / R - R * vz) / r
    return dict(x=vx, y=vy, z=vz)[coord[-1]]


@check.case("velocity", prof.spec(["sigv", "sigv", "v", "v2", "beta"], coord=True), quick=4000, shards=8)
def velocity(s, C):
    import clustertools as ct
    f = s["fn"]
    p = prof.setup(s, C)
    if p is None:
        return
    cl, kw = p.cl, dict(p.kw)
    coord = s["coord"]
    if p.proj and coord in ("theta", "vt", "vtheta"):
        coord = None            # no such component in projection
    if f != "beta" and coord is not None:
        kw["coord"] = coord
    before = rich.full(cl)
    bins0 = [np.copy(b) for b in p.bins] if p.bins is not None else None
    fn = dict(sigv=ct.sigv_prof, v=ct.v_prof, v2=ct.v2_prof, beta=ct.beta_prof)[f]
    got = fn(cl, **kw)
    C.label(f + (" " + coord[-1] if coord and f != "beta" else ""))
    C.label(s["bins"])
    p.common(cl, before, kw, bins0, f)
    need(len(got) == 2, "%d results" % len(got))
    p.radii(got[0], p.mid, p.rm(p.proj), "profile radii")
    if np.min(np.sqrt(p.X[0] ** 2 + p.X[1] ** 2)) < 1e-6 * p.reach:
        return
    B = [p.which == i for i in range(len(p.lo))]
    tol = 1e-8 * max(p.vreach, 1e-300)
    # a component of a velocity at a distance from an axis is known to the rounding of the coordinates
    tol = tol * (1 + p.reach / np.min(np.sqrt(p.X[0] ** 2 + p.X[1] ** 2)) * 1e-3)
    g = rich.plain(got[1], "kms2" if f == "v2" else "kms") if f != "beta" else got[1]
    if f == "beta":
        vr, vp, vt = component(p, "r"), component(p, "phi"), component(p, "theta")
        exp, ok = np.zeros(len(B)), np.ones(len(B), bool)
        for i, b in enumerate(B):
            if b.sum() > 3:
                sr, sp, s_t = np.std(vr[b]), np.std(vp[b]), np.std(vt[b])
                ok[i] = sr > 1e-5 * p.vreach
                exp[i] = sp / sr - 1.0 if p.proj else 1.0 - (s_t ** 2 + sp ** 2) / (2 * sr ** 2)
        need(np.shape(g) == exp.shape, "%d values for %d bins" % (np.size(g), len(exp)))
        close(np.asarray(g)[ok], exp[ok], "anisotropy", rtol=1e-3 if p.loose else 1e-6, atol=1e-3 if p.loose else 1e-6)
    else:
        w = component(p, coord)
        q = dict(sigv=np.std, v=np.mean, v2=lambda a: np.mean(a ** 2))[f]
        exp = np.array([q(w[b]) if b.sum() > 3 else 0.0 for b in B])
        close(g, exp, "%s_prof(coord=%r)" % (f, coord), rtol=1e-6, atol=tol * (p.vreach if f == "v2" else 1))
    C.nt(sum(b.sum() > 3 for b in B) >= 2 and (not p.mask.all() or s["bins"] == "user"))


@st.composite
def mspec(draw):
    d = draw(prof.spec(["alpha", "alpha", "eta", "meq"], lo=60, hi=300, masses=("power",)))
    d["nrad"] = draw(st.sampled_from([4, 3, 5, None]))
    d["nmass"] = draw(st.sampled_from([4, 5, 6]))
    d["corr"] = draw(st.integers(0, 3)) == 0
    d["aerr"] = draw(st.booleans())
    d["mbin"] = draw(st.sampled_from([None, None, "fix"]))
    return d


@check.case("mass segregation", mspec(), quick=900, shards=8)
def segregation(s, C):
    """alpha, eta and m_eq of the stars of each radial bin, and their gradient with ln(r/rm)."""
    import clustertools as ct
    from copy import deepcopy
    f, n = s["fn"], s["nmass"]
    p = prof.setup(s, C)
    if p is None:
        return
    cl, kw = p.cl, dict(p.kw)
    kw["nmass"] = n
    if p.qkw is None and f == "alpha" and len(cl.kw) > 0:      # main-sequence stars unless asked otherwise
        k = np.asarray(cl.kw)
        if ((k < 0) | (k > 1)).any() and p.bins is None:
            p.mask = p.mask & (k >= 0) & (k <= 1)
            sel = p.R[p.mask]
            if len(sel) < 2:
                return
            nr = kw["nrad"]
            p.lo, p.mid, p.up, cnt = (binning.fix_bins if kw.get("bintype") == "fix" else binning.num_bins)(sel, nr)
            if kw.get("bintype") == "fix" and any(np.min(np.abs(p.R - v)) < 1e-8 * p.reach for v in p.up[:-1]):
                return
            p.place = binning.place(p.R, p.up)
            p.which = np.where(p.mask & (p.R >= p.lo[0] - 1e-12 * p.reach) & (p.R <= p.up[-1] + 1e-12 * p.reach), p.place, -1)
        elif p.bins is not None:
            p.which = np.where((k >= 0) & (k <= 1), p.which, -1)
    if s["mbin"] and f == "alpha":
        kw["mbintype"] = "fix"
    corr = None
    if s["corr"] and f == "alpha":
        corr = np.random.RandomState(s["cl"]["seed"] ^ 5).uniform(0.2, 1, len(p.M))
        kw["mcorr"] = corr.copy()
    if f == "alpha" and s["aerr"]:
        kw["aerror"] = True
    B = [p.which == i for i in range(len(p.lo))]
    need_n = n if f == "alpha" else 2 * n
    exp, err, ok = np.zeros(len(B)), np.zeros(len(B)), np.ones(len(B), bool)
    S = p.S
    for i, b in enumerate(B):
        if b.sum() < need_n:
            continue
        m = p.M[b]
        if len(np.unique(m)) < 4 or m.max() - m.min() < 1e-6 * m.max():
            return
        lo, mid, up, cnt = binning.fix_bins(m, n) if "mbintype" in kw else binning.num_bins(m, n)
        w = binning.place(m, up)
        if any(np.sum(np.abs(m - e) < 1e-9 * m.max()) > (0 if "mbintype" in kw else 1) for e in up[:-1]):
            return
        N = np.array([np.sum(w == j) for j in range(len(lo))])
        if f == "alpha":
            c = np.ones(len(m)) if corr is None else corr[b]
            d = np.array([np.sum(1 / c[w == j]) for j in range(len(lo))]) / (up - lo)
            if np.sum(N > 0) < 3:
                return
            exp[i], y, err[i], ey = binning.line(np.log10(mid[N > 0]), np.log10(d[N > 0]))
        else:
            if np.any(N < 2) or len(N) < 3:
                return
            sg = np.array([np.std(S[b][w == j]) for j in range(len(lo))])
            if np.any(sg < 1e-6 * p.vreach):
                return
            if f == "eta":
                exp[i], y, err[i], ey = binning.line(np.log10(mid), np.log10(sg))
            else:
                ok[i] = False
    if f == "eta" and len(B) > 3 and any(not b.any() for b in B):
        return
    before = rich.full(cl)
    bins0 = [np.copy(b) for b in p.bins] if p.bins is not None else None
    ref = deepcopy(cl) if f == "meq" else None
    fn = dict(alpha=ct.alpha_prof, eta=ct.eta_prof, meq=ct.profiles.meq_prof if hasattr(ct, "profiles") else None)[f]
    if fn is None:
        from clustertools.analysis.profiles import meq_prof as fn
    try:
        got = fn(cl, **kw)
    except RuntimeError as e:
        if "Optimal parameters" in str(e):
            return
        raise
    C.label(f)
    p.common(cl, before, kw, bins0, f)
    if corr is not None:
        same(kw["mcorr"], corr, "the caller's completeness correction")
    need(len(got) == (7 if kw.get("aerror") else 6), "%d results" % len(got))
    mid = p.mid
    if f == "alpha" and p.bins is not None:
        mid = np.array([np.mean(p.R[b]) if b.any() else np.nan for b in B])
    p.radii(got[0], mid, p.rm(p.proj), "profile radii")
    g = np.asarray(got[1], float)
    need(g.shape == exp.shape, "%d values for %d bins" % (g.size, exp.size))
    close(g[ok], exp[ok], f, rtol=1e-4 if p.loose else 1e-6, atol=1e-4 if p.loose else 1e-6)
    if f == "meq":
        M = p.M
        for i in np.where(~ok)[0]:      # the equipartition mass of exactly the stars of the bin
            if p.amuse or s["cl"]["origin"] == "galaxy":
                break
            try:
                e = ct.meq_function(ref, nmass=n, kwmin=0, kwmax=15, indx=B[i].copy(), projected=p.proj)[2]
            except RuntimeError:
                continue
            e = 0.0 if e <= -100 else e
            close(g[i], e, "equipartition mass of bin %d" % i, rtol=1e-6)
        exp = g
    if kw.get("aerror"):
        close(got[6], err, "errors of alpha", rtol=1e-3, atol=1e-6)
    if len(B) > 3 and not np.any(np.isnan(mid)):
        a, y, ea, ey = binning.line(np.log(mid / p.rm(p.proj)), exp)
        for k, e, w in ((2, a, "gradient"), (3, ea, "error of the gradient"), (4, y, "value at the half-mass radius"), (5, ey, "its error")):
            close(got[k], e, f + " " + w, rtol=1e-3, atol=1e-4 * (1 + np.abs(exp).max()))
        C.label(f + " gradient")
    elif len(B) <= 3:
        need(got[2] == -100.0, "gradient of %d bins is %r" % (len(B), got[2]))
    C.nt(sum(b.sum() >= need_n for b in B) >= 2 and (not p.mask.all() or s["bins"] == "user"))
