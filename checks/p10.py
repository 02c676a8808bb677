"""P10: virialising reaches the requested virial ratio, rotation turns retrograde stars, N-body scales follow the cluster."""
import numpy as np
from hypothesis import strategies as st
from vt.core import Check, close, same, need, fail, arr
from vt import gen, rich, machine

check = Check("P10",
    rule="a case is a generated cluster in any units/origin with energies known or not, a history of 1-3 virialisations "
         "(target, specific, full, projected, softening), rotations, moves and N-body scale resets (which of mass/radii, "
         "virial radius or half-mass radius, projected); non-trivial = at least 3 stars and two operations",
    assumptions=["0.06557 km/s = sqrt(G Msun/pc); no resets in nbody units, where the scale defines what the numbers mean"])


@st.composite
def spec(draw):
    step = st.one_of(
        st.tuples(st.just("virialize"), st.tuples(st.sampled_from([0.5, 0.5, 0.1, 1.0, 0.3]), st.booleans(), st.booleans(),
                  st.sampled_from([None, True, False]), st.sampled_from([0.0, 0.0, 0.3])).map(list)),
        st.tuples(st.just("virialize"), st.just("default")),
        st.tuples(st.just("energies"), st.sampled_from([0.0, 0.5])),
        st.tuples(st.just("kick"), st.integers(0, 10 ** 6)),
        st.tuples(st.just("rotate"), st.sampled_from([0.0, 1.0, 0.5])),
        st.tuples(st.just("scale"), st.tuples(st.booleans(), st.booleans(), st.booleans(), st.sampled_from([None, True, False]), st.booleans()).map(list)),
        st.tuples(st.just("origin"), st.sampled_from(["cluster", "centre", "galaxy"])),
    )
    return dict(cl=draw(rich.specs(3, 30, units=["pckms", "kpckms", "pcmyr", "kpcgyr", "galpy", "WDunits"], lists=False)),
                steps=[list(x) for x in draw(st.lists(step, min_size=1, max_size=4))])


def centred(cl, pos=True):
    """Positions/velocities in the frame the operations work in: the centre when the cluster is in the galaxy frame."""
    x = np.array([cl.x, cl.y, cl.z], float)
    v = np.array([cl.vx, cl.vy, cl.vz], float)
    if cl.origin == "galaxy":
        x = x - np.array([cl.xgc + cl.xc, cl.ygc + cl.yc, cl.zgc + cl.zc])[:, None]
        v = v - np.array([cl.vxgc + cl.vxc, cl.vygc + cl.vyc, cl.vzgc + cl.vzc])[:, None]
    return x, v


def ratio(cl, x, v, specific, projected, soft):
    from checks.p09 import G
    m = np.asarray(cl.m, float)
    if projected:
        x, v = x.copy(), v.copy()
        x[2] = 0
        v[2] = 0
    d = np.sqrt(((x[:, :, None] - x[:, None, :]) ** 2).sum(0) + soft ** 2)
    w = m[:, None] * m[None, :] / np.where(d > 0, d, 1)
    np.fill_diagonal(w, 0)
    pot, kin = G(cl.units) * w.sum(1), 0.5 * m * (v ** 2).sum(0)
    if specific:
        pot, kin = pot / m, kin / m
    return 2 * kin.sum() / pot.sum()


@check.case("history", spec(), quick=2400, shards=8)
def history(s, C):
    P = s["cl"]["P"]
    cl = rich.build(s["cl"])
    n = len(cl.x)
    L = gen.scales(s["cl"]["units"], P)
    ids, m = np.array(cl.id), np.array(cl.m)
    done = 0
    big = lambda: (np.max(np.abs([cl.x, cl.y, cl.z])), np.max(np.abs([cl.vx, cl.vy, cl.vz])))
    for i, (kind, a) in enumerate(s["steps"]):
        when = "after step %d %s %s" % (i, kind, a)
        x0, v0 = centred(cl)
        raw = {k: np.array(getattr(cl, k), float) for k in ("x", "y", "z", "vx", "vy", "vz")}
        R, W = big()
        u0, o0 = cl.units, cl.origin
        scl = (cl.zmbar, cl.rbar, cl.vbar, cl.tbar)
        if kind == "virialize":
            q, specific, full, projected, soft = (0.5, True, True, None, 0.0) if a == "default" else a
            soft = soft * L[0]
            pr = bool(s["cl"]["proj"]) if projected is None else projected
            if a == "default":
                cl.virialize()
            else:
                cl.virialize(q, specific=specific, full=full, projected=projected, softening=soft)
            x1, v1 = centred(cl)
            exp = np.sqrt(q / ratio(cl, x0, v0, specific, pr, soft))
            close(cl.qv, exp, "velocity scaling factor " + when, rtol=1e-3)
            close(x1, x0, "centred positions " + when, rtol=1e-9, atol=1e-12 * R)
            close(v1, v0 * cl.qv, "scaled velocities " + when, rtol=1e-9, atol=1e-12 * W)
            got = ratio(cl, x1, v1, specific, pr, soft)
            close(got, q, "virial ratio " + when, rtol=2e-3)
            if cl.origin != "galaxy":
                cl.energies(specific=specific, full=full, projected=pr, softening=soft)
                close(abs(cl.qvir), q, "virial ratio found by energies() " + when, rtol=1e-6)
        elif kind == "energies":
            cl.energies(softening=a * L[0])
        elif kind == "kick":
            f = np.random.RandomState(a).uniform(0.3, 3)
            cl.vx, cl.vy, cl.vz = cl.vx * f, cl.vy * f, cl.vz * f
            cl.analyze()
        elif kind == "rotate":
            cl.add_rotation(a)
            x1, v1 = centred(cl)
            close(x1, x0, "centred positions " + when, rtol=1e-9, atol=1e-11 * R)
            rho = np.hypot(x0[0], x0[1])
            th = np.where(rho > 0, rho, 1)
            j0, j1 = (x0[0] * v0[1] - x0[1] * v0[0]) / th, (x1[0] * v1[1] - x1[1] * v1[0]) / th
            rr0, rr1 = (x0[0] * v0[0] + x0[1] * v0[1]) / th, (x1[0] * v1[0] + x1[1] * v1[1]) / th
            tol = dict(rtol=1e-7, atol=1e-9 * W)
            ok = rho > 1e-6 * R
            close(rr1[ok], rr0[ok], "radial velocity " + when, **tol)
            close(v1[2], v0[2], "vertical velocity " + when, **tol)
            close(np.abs(j1[ok]), np.abs(j0[ok]), "tangential speed " + when, **tol)
            flipped = ok & (np.abs(j1 - j0) > 2e-9 * W)
            need(not np.any(j0[flipped] > 0), "a prograde star was turned " + when)
            if a == 1.0:
                need(np.all(j1[ok] >= -1e-9 * W), "retrograde stars remain with qrot = 1 " + when)
            if a == 0.0:
                need(not flipped.any(), "stars were turned with qrot = 0 " + when)
            need(cl.qrot == a, "qrot is %r" % cl.qrot)
        elif kind == "scale":
            mass, radii, rvirial, projected, func = a
            pr = (bool(s["cl"]["proj"]) and not func) if projected is None else projected
            kw = dict(mass=mass, radii=radii, rvirial=rvirial)
            if projected is not None:
                kw["projected"] = projected
            if func:
                import clustertools as ct
                got = ct.reset_nbody_scale(cl, **kw)
                need((cl.zmbar, cl.rbar, cl.vbar, cl.tbar) == scl, "the function changed the cluster's scales " + when)
            else:
                cl.reset_nbody_scale(**kw)
                got = (cl.zmbar, cl.rbar, cl.vbar, cl.tbar)
                au = cl.rbar * 648000.0 / np.pi
                close([cl.rbar_au, cl.rbar_su, cl.tbar_days], [au, au * 1.49597870700e13 / 6.957e10, 365.25 * au ** 1.5 / np.sqrt(cl.zmbar)], "scales of binary parameters " + when, rtol=1e-8)
            fl, fv, fm, ft = gen.factors(cl.units, P)
            close(got[0], m.sum() * fm if mass else scl[0], "zmbar " + when)
            xx = x0 * fl
            mm = m * fm
            if not radii:
                close(got[1], scl[1], "rbar " + when)
            elif rvirial:
                y = xx.copy()
                if pr:
                    y[2] = 0
                a_, b_ = np.triu_indices(n, 1)
                rv = mm.sum() ** 2 / (2 * np.sum(mm[a_] * mm[b_] / np.linalg.norm(y[:, a_] - y[:, b_], axis=0)))
                close(got[1], rv, "rbar from the virial radius " + when, rtol=1e-5)
            else:
                r = np.hypot(xx[0], xx[1]) if pr else np.linalg.norm(xx, axis=0)
                lo, hi = machine.enclosed(r, mm, 0.5)
                e = 1e-9 * R * fl
                need(4 / 3 * lo * (1 - 1e-9) - e <= got[1] <= 4 / 3 * hi * (1 + 1e-9) + e, "rbar %r is not 4/3 of the %shalf-mass radius %r %s" % (
                    got[1], "projected " if pr else "", lo, when))
            close(got[2], 0.06557 * np.sqrt(got[0] / got[1]), "vbar " + when, rtol=1e-4)
            close(got[3], got[1] / (gen.KMS * got[2]), "tbar " + when, rtol=1e-3)
            for k, b in raw.items():
                close(getattr(cl, k), b, k + " " + when, rtol=1e-9, atol=1e-11 * (R if "v" not in k else W))
        else:
            cl.to_origin(a)
            o0 = a
        need(cl.units == u0 and cl.origin == o0, "frame is %s/%s, was %s/%s %s" % (cl.units, cl.origin, u0, o0, when))
        same(cl.id, ids, "ids " + when)
        same(cl.m, m, "masses " + when) if False else close(cl.m, m, "masses " + when)
        machine.derived(cl, when)
        C.label(kind)
        done += kind in ("virialize", "rotate", "scale")
    C.nt(done >= 2)
