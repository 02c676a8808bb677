"""P07: binary-star data are kept complete and convert between N-body, solar and astronomical units consistently."""
import numpy as np
from hypothesis import strategies as st
from vt.core import Check, close, same, need, fail, arr
from vt import gen

check = Check("P07",
    rule="a case is a generated set of binaries (added in one or two steps), N-body scales and a history of binary unit "
         "conversions, compared with independently computed unit factors; non-trivial = at least one conversion that "
         "changes the binary units",
    assumptions=["reference: IAU au and pc, R_sun = 6.957e10 cm, Kepler's third law in (au, yr, Msun); 1e-9 relative"])

AU_PC = 648000.0 / np.pi        # au per pc
RSUN_AU = 1.49597870700e13 / 6.957e10   # solar radii per au


@st.composite
def spec(draw):
    return dict(n=draw(st.integers(1, 8)), seed=draw(st.integers(0, 10 ** 6)), split=draw(st.booleans()),
                rbar=draw(gen.log_uniform(0.05, 50)), zmbar=draw(gen.log_uniform(1, 1e6)),
                vbar=draw(gen.log_uniform(0.1, 10)), tbar=draw(gen.log_uniform(0.01, 10)),
                bunits=draw(st.sampled_from(["nbody", "nbody", "audays", "sudays"])), spin=draw(st.booleans()),
                aslist=draw(st.booleans()),
                steps=draw(st.lists(st.tuples(st.sampled_from(["sudays", "audays"]), st.booleans()).map(list),
                                    min_size=1, max_size=6)))


@check.case("binary units", spec(), quick=4000, shards=8)
def units(s, C):
    import clustertools as ct
    rs = np.random.RandomState(s["seed"])
    n = s["n"]
    cl = gen.new_cluster("nbody", "cluster")
    d = dict(nc=3, rc=0.2, rbar=s["rbar"], rtide=9.0, xc=0.1, yc=0.2, zc=-0.3, zmbar=s["zmbar"], vbar=s["vbar"],
             tbar=s["tbar"], rscale=0.7, ns=11, nb=n, n_p=5)
    if s["aslist"]:
        cl.add_nbody6(list(d.values()))
    else:
        cl.add_nbody6(**d)
    for k, v in d.items():
        same(getattr(cl, k), v, k + " after add_nbody6")
    close(cl.rbar_au, s["rbar"] * AU_PC, "rbar_au")
    close(cl.rbar_su, s["rbar"] * AU_PC * RSUN_AU, "rbar_su")
    close(cl.tbar_days, 365.25 * (s["rbar"] * AU_PC) ** 1.5 / np.sqrt(s["zmbar"]), "tbar_days")
    b = dict(id1=np.arange(n) * 2 + 1, id2=np.arange(n) * 2 + 2, kw1=rs.randint(0, 15, n), kw2=rs.randint(0, 15, n),
             kcm=rs.randint(0, 15, n), ecc=rs.uniform(0, 1, n), pb=None, semi=10 ** rs.uniform(-6, -2, n),
             m1=rs.uniform(1e-4, 1e-2, n), m2=rs.uniform(1e-4, 1e-2, n), logl1=rs.normal(size=n), logl2=rs.normal(size=n),
             logr1=rs.normal(size=n), logr2=rs.normal(size=n))
    b["pb"] = np.sqrt(b["semi"] ** 3 / (b["m1"] + b["m2"]))     # N-body periods (G = 1, in units of 2 pi)
    if s["spin"]:
        b.update({k: rs.normal(size=n) for k in ("ep1", "ep2", "ospin1", "ospin2")})
    parts = [slice(0, n // 2), slice(n // 2, n)] if s["split"] and n > 1 else [slice(0, n)]
    for p in parts:
        cl.add_bse(**{k: v[p].copy() for k, v in b.items()})
    for k, v in b.items():
        close(getattr(cl, k), v, k + " after add_bse", rtol=1e-14)
    close(cl.eb, 0.5 * b["m1"] * b["m2"] / b["semi"], "eb")
    need(cl.nb == n, "nb is %r for %d binaries" % (cl.nb, n))
    need(cl.bunits == "nbody", "binary units of an N-body cluster are %r" % cl.bunits)
    F = dict(nbody=(1.0, 1.0, 1.0))
    day = 365.25 * (s["rbar"] * AU_PC) ** 1.5 / np.sqrt(s["zmbar"])
    F["audays"] = (s["rbar"] * AU_PC, day, s["zmbar"])
    F["sudays"] = (s["rbar"] * AU_PC * RSUN_AU, day, s["zmbar"])
    cur = "nbody"
    moved = 0
    for to, func in s["steps"]:
        moved += to != cur
        (getattr(ct, "to_" + to, None) if func and hasattr(ct, "to_" + to) else lambda c: getattr(c, "to_" + to)())(cl)
        need(cl.bunits == to, "binary units are %r after to_%s" % (cl.bunits, to))
        a, t, m = F[to]
        close(cl.semi, b["semi"] * a, "semi after to_" + to)
        close(cl.pb, b["pb"] * t, "pb after to_" + to)
        close(cl.m1, b["m1"] * m, "m1 after to_" + to)
        close(cl.m2, b["m2"] * m, "m2 after to_" + to)
        # Kepler's third law in (au, yr, Msun)
        au = cl.semi / (1.0 if to == "audays" else RSUN_AU)
        close(au ** 3 / (cl.pb / 365.25) ** 2, cl.m1 + cl.m2, "Kepler's third law after to_" + to)
        for k in ("ecc", "kw1", "kw2", "logl1", "logr2", "id1", "id2"):
            close(getattr(cl, k), b[k], k + " after to_" + to, rtol=1e-14)
        cur = to
    C.nt(moved > 0)
    C.label("conversions", moved)
