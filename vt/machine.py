"""Reference model of the frame state of a cluster (units, origin, sky), driven by the history checks.

The model keeps the stars in the Galactocentric frame, the orbital position and the centre offset, all in pc / km/s,
and predicts what the package must show in any (units, origin) frame.
"""
import numpy as np
from . import gen, sky
from .core import close, same, need, fail, arr

POS, VEL = ("x", "y", "z"), ("vx", "vy", "vz")


class Model:
    def __init__(self, cl, P):
        """Take over the state of a freshly built Cartesian cluster."""
        self.P = P
        L, V, M, T = gen.factors(cl.units, P)
        x = np.array([cl.x, cl.y, cl.z], float) * L
        v = np.array([cl.vx, cl.vy, cl.vz], float) * V
        self.gp = np.array([cl.xgc, cl.ygc, cl.zgc], float) * L
        self.gv = np.array([cl.vxgc, cl.vygc, cl.vzgc], float) * V
        self.cp = np.array([cl.xc, cl.yc, cl.zc], float) * L
        self.cv = np.array([cl.vxc, cl.vyc, cl.vzc], float) * V
        # stars relative to the cluster position ('cluster' origin)
        self.x, self.v = x.copy(), v.copy()
        if cl.origin == "centre":
            self.x += self.cp[:, None]
            self.v += self.cv[:, None]
        elif cl.origin == "galaxy":
            self.x -= self.gp[:, None]
            self.v -= self.gv[:, None]
        self.m = np.array(cl.m, float) * M
        self.t = float(cl.tphys) * T
        self.units, self.origin = cl.units, cl.origin
        self.method = None
        self.lossy = False      # a sky transformation happened: round-off is relative to the distance

    # -- sky view, kpc and km/s
    def _sky(self, p, v):
        return np.array(sky.to_sky(*(list(p / 1000.0) + list(v)), self.P))

    def skyview(self):
        s = self._sky(self.x + self.gp[:, None], self.v + self.gv[:, None])
        g = self._sky(self.gp[:, None], self.gv[:, None])[:, 0]
        c = self._sky((self.gp + self.cp)[:, None], (self.gv + self.cv)[:, None])[:, 0]
        return s, g, c

    def expected(self):
        """(positions, velocities, gc, centre) in the current frame."""
        if self.units == "radec":
            s, g, c = self.skyview()
            out = s.copy()
            ref = None
            if self.origin == "cluster":
                ref = g
            elif self.origin == "centre":
                ref = c
            if ref is not None:
                out = project(s, ref, self.method)
            return out[:3], out[3:], g, c
        L, V, M, T = gen.factors(self.units, self.P)
        x, v = self.x.copy(), self.v.copy()
        if self.origin == "centre":
            x -= self.cp[:, None]
            v -= self.cv[:, None]
        elif self.origin == "galaxy":
            x += self.gp[:, None]
            v += self.gv[:, None]
        return x / L, v / V, np.r_[self.gp / L, self.gv / V], np.r_[self.cp / L, self.cv / V]

    def compare(self, cl, when, rtol=1e-9):
        import clustertools  # noqa
        need(cl.units == self.units, "units %r, expected %r %s" % (cl.units, self.units, when))
        need(cl.origin == self.origin, "origin %r, expected %r %s" % (cl.origin, self.origin, when))
        px, pv, g, c = self.expected()
        if self.units == "radec":
            # round-off of the astronomical transformation (galpy vs astropy agree to ~1e-10 deg)
            tol = dict(rtol=1e-7, atol=2e-7)
            vt = dict(rtol=1e-6, atol=2e-6)
            atolg, atolgv = tol, vt
            need_close(cl, px, pv, g, c, when, tol, vt)
        else:
            L, V, M, T = gen.factors(self.units, self.P)
            R = np.max(np.abs(self.x), initial=0) + np.max(np.abs(self.gp)) + np.max(np.abs(self.cp))
            W = np.max(np.abs(self.v), initial=0) + np.max(np.abs(self.gv)) + np.max(np.abs(self.cv))
            e = rtol
            if self.lossy:
                R, W, e = R + 2e4, W + 500.0 + R / 20.0, 1e-9
            tol, vt = dict(rtol=e, atol=1e-10 * R / L if not self.lossy else 1e-8 * R / L), \
                dict(rtol=e, atol=1e-10 * W / V if not self.lossy else 1e-7 * W / V)
            need_close(cl, px, pv, g, c, when, tol, vt)
        L, V, M, T = gen.factors("kpckms" if self.units == "radec" else self.units, self.P)
        close(cl.m, self.m / M, "m " + when)
        close(cl.tphys, self.t / T, "tphys " + when)


def wrap(got, exp):
    """Right ascension: the representative of `exp` (mod 360) closest to `got`."""
    try:
        return exp + 360.0 * np.round((np.asarray(got, float) - exp) / 360.0)
    except Exception:
        return exp


def need_close(cl, px, pv, g, c, when, tol, vt):
    radec = cl.units == "radec"
    if radec:
        px, g, c = px.copy(), g.copy(), c.copy()
        if cl.origin == "sky" and np.shape(cl.x) == np.shape(px[0]):
            px[0] = wrap(cl.x, px[0])
        g[0], c[0] = wrap(cl.xgc, g[0]), wrap(cl.xc, c[0])
    for i, k in enumerate(POS):
        close(getattr(cl, k), px[i], k + " " + when, **tol)
        close(getattr(cl, k + "gc"), g[i], k + "gc " + when, **tol)
        close(getattr(cl, k + "c"), c[i], k + "c " + when, **tol)
    for i, k in enumerate(VEL):
        close(getattr(cl, k), pv[i], k + " " + when, **vt)
        close(getattr(cl, k + "gc"), g[3 + i], k + "gc " + when, **vt)
        close(getattr(cl, k + "c"), c[3 + i], k + "c " + when, **vt)


def project(s, ref, method):
    """Offsets from a reference point in the sky frame, per the documented centre methods."""
    ra, dec, d, pmra, pmdec, vl = s
    ra0, dec0 = np.radians(ref[0]), np.radians(ref[1])
    a, b = np.radians(ra), np.radians(dec)
    out = np.empty_like(s)
    out[2], out[5] = d - ref[2], vl - ref[5]
    if method in ("orthographic", "VandeVen"):
        out[0] = np.degrees(np.cos(b) * np.sin(a - ra0))
        out[1] = np.degrees(np.sin(b) * np.cos(dec0) - np.cos(b) * np.sin(dec0) * np.cos(a - ra0))
        if method == "orthographic":
            vx = pmra * np.cos(a - ra0) - pmdec * np.sin(b) * np.sin(a - ra0)
            vy = pmra * np.sin(dec0) * np.sin(a - ra0) + pmdec * (
                np.cos(b) * np.cos(dec0) + np.sin(b) * np.sin(dec0) * np.cos(a - ra0))
            out[3], out[4] = vx - ref[3], vy - ref[4]
        else:
            out[3], out[4] = pmra - ref[3], pmdec - ref[4]
    else:
        dra = ra - ref[0]
        dra = dra - 360.0 * np.round(dra / 360.0)
        out[0], out[1] = dra * np.cos(dec0), dec - ref[1]
        out[3], out[4] = pmra - ref[3], pmdec - ref[4]
    return out


def derived(cl, when, projected=True):
    """analyze() quantities recomputed from the cluster's own current arrays (brute force)."""
    x, y, z = [np.asarray(getattr(cl, k), float) for k in POS]
    vx, vy, vz = [np.asarray(getattr(cl, k), float) for k in VEL]
    m = np.asarray(cl.m, float)
    r, rp = np.sqrt(x * x + y * y + z * z), np.sqrt(x * x + y * y)
    v, vp = np.sqrt(vx * vx + vy * vy + vz * vz), np.sqrt(vx * vx + vy * vy)
    for k, e in (("r", r), ("rpro", rp), ("v", v), ("vpro", vp)):
        close(getattr(cl, k), e, k + " " + when, rtol=1e-12)
    close(cl.mtot, m.sum(), "mtot " + when)
    close(cl.mmean, m.mean(), "mmean " + when)
    close(cl.rmean, r.mean(), "rmean " + when)
    close(cl.rmax, r.max(), "rmax " + when)
    close(cl.rmeanpro, rp.mean(), "rmeanpro " + when)
    close(cl.rmaxpro, rp.max(), "rmaxpro " + when)


def enclosed(r, w, frac):
    """Smallest star radius enclosing at least `frac` of the weight, with the tolerance band of that definition."""
    o = np.argsort(r, kind="stable")
    rs, c = r[o], np.cumsum(w[o])
    t = frac * np.sum(w)
    eps = 1e-9 * np.sum(np.abs(w))
    lo = rs[np.argmax(c >= t - eps)]
    hi = rs[np.argmax(c >= t + eps)] if c[-1] >= t + eps else rs[-1]
    return lo, hi


def half(cl, when, attr, r, w, frac):
    got = getattr(cl, attr)
    need(got is not None, "%s is None %s" % (attr, when))
    got = float(arr(got, attr))
    lo, hi = enclosed(r, w, frac)
    need(lo * (1 - 1e-9) <= got <= hi * (1 + 1e-9),
         "%s = %r but the radius enclosing %g of the total lies in [%r, %r] %s" % (attr, got, frac, lo, hi, when))


def ordered(cl, when):
    """rorder/rproorder sort the stars; half-mass/10 per cent/half-light radii follow from brute force."""
    m = np.asarray(cl.m, float)
    r, rp = np.asarray(cl.r, float), np.asarray(cl.rpro, float)
    for name, rad in (("rorder", r), ("rproorder", rp)):
        o = getattr(cl, name)
        need(o is not None, "%s is None %s" % (name, when))
        o = np.asarray(o)
        need(sorted(o.tolist()) == list(range(len(r))), "%s is not a permutation of the stars %s" % (name, when))
        s = rad[o]
        need(np.all(np.diff(s) >= -1e-12 * (np.abs(s[1:]) + 1e-300)), "%s does not sort the stars by radius %s" % (name, when))
    half(cl, when, "rm", r, m, 0.5)
    half(cl, when, "r10", r, m, 0.1)
    half(cl, when, "rmpro", rp, m, 0.5)
    half(cl, when, "r10pro", rp, m, 0.1)
    if len(cl.lum) > 0:
        L = np.asarray(cl.lum, float)
        half(cl, when, "rh", r, L, 0.5)
        half(cl, when, "rh10", r, L, 0.1)
        half(cl, when, "rhpro", rp, L, 0.5)
        half(cl, when, "rh10pro", rp, L, 0.1)
