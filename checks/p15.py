"""P15: mass functions, mass-dependent velocity dispersions, equipartition mass and kinematic concentration."""
import warnings
import numpy as np
from hypothesis import strategies as st
from vt.core import Check, close, same, need, fail, arr
from vt import gen, rich, binning

check = Check("P15",
    rule="a case is a generated cluster (any units/origin, AMUSE too), a selection of stars, a number of mass bins, kind of "
         "bins and completeness correction; non-trivial = at least 4 mass bins hold stars and the selection leaves some out "
         "or bins are uneven")


@st.composite
def spec(draw, fns=("mass", "mass", "eta", "meq", "tapered"), lo=12, hi=160):
    return dict(cl=draw(rich.specs(lo, hi, lists=False, masses=("power", "power", "mixed"))), q=draw(rich.criteria(energy=False)),
                sel=draw(st.integers(0, 2)) > 0, nmass=draw(st.sampled_from([10, 4, 5, 6, 8])), defn=draw(st.integers(0, 3)) == 0,
                bins=draw(st.sampled_from(["num", "num", "fix", "mfix"])), corr=draw(st.sampled_from([None, None, "one", "rand"])),
                fn=draw(st.sampled_from(list(fns))), func=draw(st.booleans()), amuse=draw(st.integers(0, 7)) == 0, unit_mass=draw(st.booleans()))


def select(s, cl):
    q = s["q"] if s["sel"] else dict({k: [None, None] for k in "rmve"}, kw=None, npop=None, indx=None, projected=s["q"]["projected"])
    kw, mask = rich.resolve(cl, q, energy=False)
    if q["kw"] is None and len(cl.kw) > 0:      # main-sequence stars unless asked otherwise
        k = np.asarray(cl.kw)
        mask &= (k >= 0) & (k <= 1)
    return kw, mask


def meq_model(m, a, b):
    return np.where(m <= a, b * np.exp(-0.5 * m / a), b * np.exp(-0.5) * (m / a) ** -0.5)


def tap_model(m, A, al, mc, be):
    return A * m ** al * (1.0 - np.exp(-(m / mc) ** be))


def best(model, x, y, bounds, got, err, what):
    """The returned parameters are within the bounds and fit as well as an independent bounded least-squares fit."""
    from scipy.optimize import curve_fit
    try:
        p, V = curve_fit(model, x, y, bounds=bounds)
    except RuntimeError:
        return False
    got = arr(got, what)
    lo, hi = np.array(bounds[0], float), np.array(bounds[1], float)
    need(np.all(got >= lo - 1e-9 * np.abs(lo)) and np.all(got <= hi + 1e-9 * np.abs(np.where(np.isfinite(hi), hi, 0))), "%s %s outside its bounds" % (what, got))
    c0, c1 = np.sum((model(x, *p) - y) ** 2), np.sum((model(x, *got) - y) ** 2)
    need(c1 <= c0 * (1 + 1e-3) + 1e-12 * np.sum(y ** 2), "%s: fit %s has a residual of %s, %s has %s" % (what, got.tolist(), c1, p.tolist(), c0))
    e = np.sqrt(np.diag(V))
    if np.all(np.isfinite(e)) and np.all(e < np.abs(p)) and np.allclose(got, p, rtol=1e-5):
        close(err, e, what + " errors", rtol=0.05, scale=1e-12)
    return True


@check.case("mass", spec(), quick=2400, shards=8)
def mass(s, C):
    import clustertools as ct
    cl = rich.build(s["cl"])
    if s["amuse"]:
        for k in ("r", "v", "rpro", "vpro"):
            getattr(cl, k)
    kw, mask = select(s, cl)
    amuse = s["amuse"] and not any(k in kw for k in ("rmin", "rmax", "vmin", "vmax", "mmin", "mmax"))
    m = np.asarray(cl.m, float)
    v = np.asarray(cl.vpro if s["q"]["projected"] else cl.v, float)
    if amuse:
        L, W, Mu, T = gen.factors(s["cl"]["units"], s["cl"]["P"])
        v, m = v * W, m * Mu
        cl.to_amuse()
    n, M = s["nmass"], m[mask]
    if s["defn"]:
        n = 10
    else:
        kw["nmass"] = n
    fn = s["fn"]
    if not s["func"] and fn in ("eta", "meq", "tapered", "mass") and "npop" in kw and fn == "tapered":
        pass
    fix = fn == "mass" and s["bins"] != "num"
    if fn == "mass" and s["bins"] == "fix":
        kw["bintype"] = "fix"
    elif fn == "mass" and s["bins"] == "mfix":
        kw["mbintype"] = "fix"
    corr = np.ones(len(m))
    if s["corr"] and fn in ("mass", "tapered"):
        if s["corr"] == "rand":
            corr = np.random.RandomState(s["cl"]["seed"] ^ 9).uniform(0.2, 1.0, len(m))
        kw["mcorr"] = corr.copy()
    few = len(M) < (2 * n if fn in ("eta", "meq") else n)
    if not few:
        if len(np.unique(M)) < 2 or M.max() - M.min() < 1e-6 * M.max():
            return
        lo, mid, up, cnt = binning.fix_bins(M, n) if fix else binning.num_bins(M, n)
        w = binning.place(m, up)
        b = [(w == i) & mask for i in range(len(lo))]
        if (amuse or fix) and not binning.edge_ok(M[np.argsort(M)], up[:-1] if fix else [], M.max()):
            return
        if fix and any(np.any(np.abs(M - e) < 1e-9 * M.max()) for e in up[:-1]):
            return
        if sum(t.any() for t in b) < 3:
            C.exclude("fewer than 3 mass bins hold stars: no fit")
            return
    before = rich.full(cl)
    names = dict(mass="mass_function", eta="eta_function", meq="meq_function", tapered="tapered_mass_function")
    try:
        if s["func"]:
            got = getattr(ct, names[fn])(cl, **kw)
        else:
            got = getattr(cl, names[fn])(**kw)
    except RuntimeError as e:
        if "Optimal parameters" in str(e):
            C.exclude("fit did not converge")
            return
        raise
    C.label(fn + (" few" if few else ""))
    if "indx" in kw:
        same(kw["indx"], np.random.RandomState(s["q"]["indx"]).uniform(size=len(m)) < 0.7, "the caller's mask")
    if "mcorr" in kw:
        same(kw["mcorr"], corr, "the caller's completeness correction")
    rich.unchanged(cl, before, ("alpha", "eta", "meq", "mmin", "mmax"), names[fn])
    if not s["func"]:
        attr = dict(mass="alpha", tapered="alpha", eta="eta", meq="meq")[fn]
        need(getattr(cl, attr) is got or getattr(cl, attr) == got, names[fn] + " does not store what it returns")
    if few:
        if s["func"]:
            k = dict(mass=8 if kw.get("mcorr") is not None else 7, eta=6, meq=6, tapered=11)[fn]
            need(len(got) == k, "%d values for too few stars, %d otherwise" % (len(got), k))
            need(got[3 if fn in ("mass", "tapered") else 2] == -1000.0, "slope of too few stars")
        else:
            need(got == -1000.0, "slope of too few stars is %r" % (got,))
        return
    N = np.array([np.sum(t) for t in b])
    C.nt(len(lo) >= 4 and (len(set(N.tolist())) > 1 or not mask.all()))
    if fn in ("mass", "tapered"):
        Nc = np.array([np.sum(1.0 / corr[t]) for t in b])
        dm = Nc / (up - lo)
        if s["func"]:
            close(got[0], mid, "mean mass of the bins", rtol=1e-9)
            close(got[1], N, "stars per mass bin")
            close(got[2], dm, "dN/dm", rtol=1e-6)
        ok = N > 0
        if fn == "mass":
            a, y, ea, ey = binning.line(np.log10(mid[ok]), np.log10(dm[ok]))
            if not s["func"]:
                close(got, a, "slope of the mass function", rtol=1e-6, atol=1e-6)
                return
            close(got[3], a, "slope of the mass function", rtol=1e-6, atol=1e-6)
            close(got[4], ea, "error of the slope", rtol=1e-4, atol=1e-6)
            close(got[5], y, "intercept of the mass function", rtol=1e-6, atol=1e-6)
            close(got[6], ey, "error of the intercept", rtol=1e-4, atol=1e-6)
            if "mcorr" in kw:
                need(len(got) == 8, "no mass bin errors returned")
                with np.errstate(all="ignore"):
                    close(np.asarray(got[7])[ok], (N / Nc)[ok], "completeness of the bins")
        else:
            x, y = mid, dm
            bnd = ([0.0, -np.inf, m.min(), -np.inf], [np.inf, np.inf, m.max(), np.inf])
            if s["func"]:
                need(len(got) == 11, "%d values" % len(got))
                if best(tap_model, x, y, bnd, [got[3], got[5], got[7], got[9]], [got[4], got[6], got[8], got[10]], "tapered mass function"):
                    C.label("fit compared")
        return
    if np.any(N < 2):
        C.exclude("mass bin with a single star")
        return
    sig = np.array([np.sqrt(np.mean((v[t] - v[t].mean()) ** 2)) for t in b])
    if np.any(sig <= 1e-9 * np.abs(v).max()):
        return
    if s["func"]:
        close(got[0], mid, "mean mass of the bins", rtol=1e-9)
        close(got[1], sig, "velocity dispersion of the bins", rtol=1e-6)
    if fn == "eta":
        a, y, ea, ey = binning.line(np.log10(mid), np.log10(sig))
        if s["func"]:
            for g, e, t, w in zip(got[2:], (a, ea, y, ey), (1e-6, 1e-4, 1e-6, 1e-4), ("eta", "error of eta", "intercept", "error of the intercept")):
                close(g, e, w, rtol=t, atol=1e-6)
        else:
            close(got, a, "eta", rtol=1e-6, atol=1e-6)
    elif s["func"]:
        if best(meq_model, mid, sig, ([m.min(), 0.0], [m.max(), np.inf]), [got[2], got[4]], [got[3], got[5]], "equipartition mass"):
            C.label("fit compared")


@check.case("ckin", spec(fns=("ckin",), lo=60, hi=260), quick=300, shards=4)
def ckin(s, C):
    """Ratio of the equipartition mass inside the half-mass radius to that between the 40% and 60% Lagrange radii."""
    import clustertools as ct
    from copy import deepcopy
    cl = rich.build(s["cl"])
    kw, mask = select(s, cl)
    for k in ("rmin", "rmax", "vmin", "vmax", "mmin", "mmax"):
        kw.pop(k, None)
    if not s["func"]:
        kw.pop("npop", None)
    kw["nmass"] = n = min(s["nmass"], 6)
    X, V, M = rich.about(cl)
    p = kw.get("projected", False)
    R = np.sqrt((X[:2 if p else 3] ** 2).sum(0))
    o = np.argsort(R)
    cm = np.cumsum(M[o])
    rn = []
    for f in (0.4, 0.5, 0.6):
        i, j = np.argmax(cm >= f * cm[-1] * (1 - 1e-10)), np.argmax(cm >= f * cm[-1] * (1 + 1e-10))
        if i != j:
            return
        rn.append(R[o][i])
    ref = deepcopy(cl)
    if s["cl"]["origin"] == "galaxy":
        ref.to_centre()
    a = {k: (np.copy(v) if k == "indx" else v) for k, v in kw.items()}
    e = 1e-9 * (rich.reach(rich.full(cl)) + R.max())
    try:
        shell = ct.eta_function(ref, rmin=rn[0] - e, rmax=rn[2] + e, meq=True, **a)
        inner = ct.eta_function(ref, rmin=0.0, rmax=rn[1] + e, meq=True, **a)
    except (ValueError, TypeError, RuntimeError):
        return
    before = rich.full(cl)
    try:
        got = ct.ckin(cl, **kw) if s["func"] else cl.ckin(**kw)
    except RuntimeError:
        return
    C.nt(shell[2] > 0 and inner[2] > 0)
    close(got, inner[2] / shell[2], "kinematic concentration", rtol=1e-4)
    if not s["func"]:
        need(cl.ck is got, "ckin is not stored")
    rich.unchanged(cl, before, ("ck",), "ckin")
