"""P06: adding stars keeps every per-star array aligned, complete and in the order given; binaries by centre of mass."""
import numpy as np
from hypothesis import strategies as st
from vt.core import Check, close, same, need, fail, arr
from vt import gen

check = Check("P06",
    rule="a case is a history of star additions (full arrays, scalars broadcast to the others, defaulted or given "
         "ids/masses/initial masses/populations, 0..n binaries per call through add_stars or add_binary_stars, lists, "
         "stellar-evolution data with and without an index array) compared with a plain list of per-star records; "
         "non-trivial = at least two additions or a binary")

COLS = ("x", "y", "z", "vx", "vy", "vz", "m", "id", "m0", "npop")


@st.composite
def addition(draw):
    n = draw(st.integers(1, 9))
    kind = draw(st.sampled_from(["singles", "singles", "nb", "binaries", "binary1"]))
    return dict(kind=kind, n=n, nb=draw(st.integers(1, 4)), seed=draw(st.integers(0, 10 ** 6)),
                scalar=[k for k in ("x", "z", "vy", "m", "m0", "npop") if kind == "singles" and draw(st.integers(0, 5)) == 0],
                give=[k for k in ("m", "id", "m0", "npop") if draw(st.booleans())],
                form=draw(st.sampled_from(["array", "array", "list", "int"])), sort=draw(st.booleans()),
                sse=draw(st.sampled_from(["no", "plain", "arg", "minimal"])))


@st.composite
def spec(draw):
    return dict(adds=draw(st.lists(addition(), min_size=1, max_size=4)),
                frame=draw(st.sampled_from([["pckms", "cluster"], ["nbody", "centre"], ["kpckms", "galaxy"], [None, None],
                                            ["radec", "sky"], ["galpy", "galaxy"]])))


def columns(n, seed):
    rs = np.random.RandomState(seed)
    d = {k: np.round(rs.normal(size=n) * 3, 3) for k in ("x", "y", "z", "vx", "vy", "vz")}
    d["m"] = np.round(rs.uniform(0.1, 3, n), 3)
    d["id"] = seed * 1000 + 500 + np.arange(n)[::-1] * 3
    d["m0"] = np.round(rs.uniform(1, 4, n), 3)
    d["npop"] = rs.randint(1, 4, n)
    return d


@check.case("history", spec(), quick=4000, shards=8)
def history(s, C):
    units, origin = s["frame"]
    cl = gen.new_cluster(units, origin)
    rec = {k: np.array([]) for k in COLS}
    sse = {k: np.array([]) for k in ("kw", "logl", "logr", "ep", "ospin")}
    comp = {k + i: np.array([]) for k in ("x", "y", "z", "vx", "vy", "vz", "m") for i in ("b1", "b2")}
    nb = 0
    auto = False
    for i, a in enumerate(s["adds"]):
        kind = a["kind"]
        if units == "radec" and kind != "singles":
            kind = "singles"
        when = "after addition %d (%s)" % (i, kind)
        if kind in ("binaries", "binary1"):
            k = 1 if kind == "binary1" else a["nb"]
            b1, b2 = columns(k, a["seed"]), columns(k, a["seed"] + 17)
            b2["id"] = b1["id"] + 1
            six1, six2 = [[d[c] if kind == "binaries" else float(d[c][0]) for c in COLS[:6]] for d in (b1, b2)]
            kw = {}
            pick = (lambda v: v) if kind == "binaries" else (lambda v: v[0])
            for c, n1 in (("m", "mb"), ("id", "id"), ("m0", "m0"), ("npop", "npop")):
                if c in a["give"]:
                    kw[n1 + "1"], kw[n1 + "2"] = b1[c], b2[c]
                else:
                    b1[c], b2[c] = dict(m=(np.ones(k),) * 2, id=(None, None), m0=(np.zeros(k),) * 2,
                                        npop=(np.ones(k),) * 2)[c]
            cl.add_binary_stars(*(six1 + six2), **kw)
            cl.analyze(sortstars=a["sort"])
            C.label("add_binary_stars")
            front = com(b1, b2)
            if "npop" in a["give"]:
                front["npop"] = np.maximum(b1["npop"], b2["npop"])
            back = None
            nb += k
        else:
            n = a["n"] + (2 * a["nb"] if kind == "nb" else 0)
            d = columns(n, a["seed"])
            kb = a["nb"] if kind == "nb" else 0
            kw, given = {}, {}
            for c in COLS:
                if c in ("m", "id", "m0", "npop") and c not in a["give"]:
                    d[c] = dict(m=np.ones(n), id=None, m0=np.zeros(n), npop=np.ones(n))[c]
                    continue
                v = d[c].copy()
                if c in a["scalar"] and n > 1:
                    d[c] = np.full(n, d[c][0])
                    v = float(d[c][0]) if c != "npop" else int(d[c][0])
                elif a["form"] == "list" and not kb:
                    v = v.tolist()
                elif a["form"] == "int" and c in ("y", "vz"):
                    d[c] = np.round(d[c])
                    v = d[c].astype(int)
                given[c] = v
            keep = {c: np.array(v, copy=True) for c, v in given.items()}
            cl.add_stars(*[given[c] for c in COLS[:6]], **{c: v for c, v in given.items() if c not in COLS[:6]},
                         nb=kb, sortstars=a["sort"])
            for c, v in given.items():
                same(v, keep[c], "input array %s of add_stars" % c)
            front = None
            if kb:
                j = np.arange(kb) * 2
                b1 = {c: (v[j] if v is not None else None) for c, v in d.items()}
                b2 = {c: (v[j + 1] if v is not None else None) for c, v in d.items()}
                front = com(b1, b2)
                front["npop"] = b1["npop"]
                C.label("add_stars nb")
                nb += kb
            back = {c: (v[2 * kb:] if v is not None else None) for c, v in d.items()}
            if a["scalar"]:
                C.label("scalar broadcast")
        if front is not None:
            for c in comp:
                src = b1 if c.endswith("b1") else b2
                comp[c] = np.r_[src[c[:-2]], comp[c]]
        nid = len(rec["id"])
        nf = len(front["x"]) if front is not None else 0
        for c in COLS:
            parts = []
            for part, pos in ((front, 0), (back, 1)):
                if part is None:
                    continue
                v = part[c]
                if v is None:
                    v = np.full(len(part["x"]), np.nan)
                parts.append((pos, v))
            for pos, v in parts:
                rec[c] = np.r_[v, rec[c]] if pos == 0 else np.r_[rec[c], v]
        # --- compare
        N = len(rec["x"])
        for c in COLS:
            got = arr(getattr(cl, c), c)
            need(got.shape == (N,), "%s has %s entries for %d stars %s" % (c, got.shape, N, when))
            e = rec[c]
            if c == "id":
                need(np.issubdtype(np.asarray(cl.id).dtype, np.integer), "ids are %s %s" % (np.asarray(cl.id).dtype, when))
                known = ~np.isnan(e)
                same(got[known], e[known], "given ids " + when)
                if len(set(e[known].tolist())) == known.sum():
                    need(len(set(got.tolist())) == N or auto_clash(s, i), "ids are not unique %s: %s" % (when, got))
                rec["id"] = got.copy()      # automatically assigned ids must now stay
            else:
                close(got, e, c + " " + when, rtol=1e-12, atol=1e-12)
        need(cl.ntot == N and cl.nb == nb and cl.ns == N - nb,
             "ntot/nb/ns = %r/%r/%r for %d entries of which %d binaries %s" % (cl.ntot, cl.nb, cl.ns, N, nb, when))
        for c, v in comp.items():
            close(getattr(cl, c[:-2] + c[-2:]), v, c + " " + when, rtol=1e-12, atol=1e-12)
        if units == "radec":
            for c, k in zip(COLS[:6], ("ra", "dec", "dist", "pmra", "pmdec", "vlos")):
                close(getattr(cl, k), rec[c], k + " " + when, rtol=1e-12, atol=1e-12)
        # --- stellar evolution data of the stars added so far
        if a["sse"] != "no" and len(sse["kw"]) < N and front is None:
            k = N - len(sse["kw"])
            rs = np.random.RandomState(a["seed"] + 5)
            v = dict(kw=rs.randint(0, 15, k), logl=rs.uniform(-3, 3, k), logr=rs.uniform(-3, 3, k), ep=rs.uniform(0, 9, k),
                     ospin=rs.uniform(0, 9, k))
            if a["sse"] == "arg":
                p = rs.permutation(k)
                cl.add_sse(v["kw"][p], v["logl"][p], v["logr"][p], v["ep"][p], v["ospin"][p], arg=p)
                C.label("add_sse with index array")
            elif a["sse"] == "minimal":
                cl.add_sse(v["kw"], v["logl"], v["logr"])
                v["ep"], v["ospin"] = np.zeros(k), np.zeros(k)
            else:
                cl.add_sse(v["kw"], v["logl"], v["logr"], v["ep"], v["ospin"])
            for c in sse:
                sse[c] = np.r_[sse[c], v[c]]
                close(getattr(cl, c), sse[c], c + " " + when, rtol=1e-12)
            close(cl.lum, 10.0 ** sse["logl"], "lum " + when, rtol=1e-12)
            close(cl.ltot, np.sum(10.0 ** sse["logl"]), "ltot " + when, rtol=1e-12)
    C.nt(len(s["adds"]) > 1 or nb > 0)


def auto_clash(s, i):
    """Automatic ids start after the largest id present; ids *given* later may coincide with them."""
    return i > 0 and any("id" in a["give"] for a in s["adds"][1:i + 1])


def com(b1, b2):
    f = {}
    M = b1["m"] + b2["m"]
    for c in COLS[:6]:
        f[c] = (b1[c] * b1["m"] + b2[c] * b2["m"]) / M
    f["m"] = M
    f["id"] = b1["id"]
    f["m0"] = b1["m0"] + b2["m0"]
    f["npop"] = np.ones(len(M))
    return f


@st.composite
def ispec(draw):
    step = st.fixed_dictionaries(dict(n=st.integers(1, 8), seed=st.integers(0, 10 ** 6), base=st.sampled_from([0, 1, 2 ** 31 - 3, 2 ** 53 - 2, 4295806720 * 10 ** 9]),
                                      form=st.sampled_from(["int64", "list", "uint64", "none"]), nb=st.integers(0, 1), nomass=st.booleans(), sort=st.booleans()))
    return dict(adds=draw(st.lists(step, min_size=1, max_size=4)), amuse=draw(st.integers(0, 3)) == 0, units=draw(st.sampled_from([None, "amuse", "pckms", "kpckms", "nbody"])),
                other=draw(st.booleans()))


@check.case("identities", ispec(), quick=600)
def identities(s, C):
    """Ids are integers of any size and are kept exactly; AMUSE quantities are added in the cluster's units."""
    import clustertools as ct
    from checks.p01 import values
    units = s["units"] if s["amuse"] else "pckms"
    cl = ct.StarCluster(units=units, origin="cluster")
    ids, X, V, M, auto = [], [], [], [], False
    if s["amuse"]:
        import amuse.units.units as u
    for i, a in enumerate(s["adds"]):
        rs = np.random.RandomState(a["seed"])
        nb = a["nb"] if not s["amuse"] else 0
        n = a["n"] + 2 * nb
        v = [int(a["base"]) + i * 1000 + int(k) for k in rs.permutation(n)]
        kw = {}
        if a["form"] == "none":
            auto = True
        else:
            kw["id"] = v if a["form"] == "list" else np.array(v, dtype=a["form"])
        x, w, m = rs.normal(0, 3, (3, n)), rs.normal(0, 3, (3, n)), rs.uniform(0.1, 2, n)
        nomass = a["nomass"] and (s["amuse"] or True)
        if s["amuse"]:
            f = (u.kpc, 1000.0) if s["other"] else (u.parsec, 1.0)
            q = [k / f[1] | f[0] for k in x] + [k | u.kms for k in w]
            if nomass:
                m = np.ones(n)
            else:
                kw["m"] = m | u.MSun
            cl.add_stars(*q, sortstars=a["sort"], **kw)
        else:
            if nomass:
                m = np.ones(n)
            else:
                kw["m"] = m
            cl.add_stars(*x, *w, nb=nb, sortstars=a["sort"], **kw)
        when = "after addition %d" % i
        N = len(cl.x)
        need(len(cl.id) == N and np.issubdtype(np.asarray(cl.id).dtype, np.integer), "%d ids (%s) for %d stars %s" % (len(cl.id), np.asarray(cl.id).dtype, N, when))
        got = [int(k) for k in cl.id]
        if a["form"] == "none":
            ids = got
        else:
            ids = ([v[0]] if nb else []) + ids + v[2 * nb:]
        need(got == ids, "ids %r instead of %r %s" % (got, ids, when))
        if not any(b["form"] == "none" for b in s["adds"][:i + 1]):
            need(len(set(got)) == len(set(ids)), "ids collide " + when)
        if nb:
            t = m[0] + m[1]
            X = [(x[:, 0] * m[0] + x[:, 1] * m[1]) / t] + X
            V = [(w[:, 0] * m[0] + w[:, 1] * m[1]) / t] + V
            M = [t] + M
        X, V, M = X + list(x[:, 2 * nb:].T), V + list(w[:, 2 * nb:].T), M + list(m[2 * nb:])
        L, W, K, T = gen.factors(cl.units, dict(gen.DEFAULTS))
        need(not s["amuse"] or cl.units == ("amuse" if units is None else units) or cl.units == "pckms", "cluster is in %r units %s" % (cl.units, when))
        raw = values(cl) if cl.units == "amuse" else vars(cl)
        for j, k in enumerate("xyz"):
            close(raw[k] * L, [p[j] for p in X], k + " " + when, rtol=1e-9)
            close(raw["v" + k] * W, [p[j] for p in V], "v" + k + " " + when, rtol=1e-9)
        close(raw["m"] * K, M, "m " + when, rtol=1e-9)
        need(cl.ntot == N == len(M), "ntot = %r for %d stars %s" % (cl.ntot, len(M), when))
    C.nt(len(s["adds"]) > 1 or any(a["base"] > 2 ** 50 for a in s["adds"]))
    C.label("amuse" if s["amuse"] else "plain")
