"""C17: conversion to and from Astropy keeps the values."""
from __future__ import annotations

import astropy.coordinates as apyc
import astropy.units as apyu
from plum import convert

from dv import ghost_astropy as ghost

from .lib import *  # noqa: F403

ghost.install()
ASSUMES = ["Astropy quantities, representations and differentials return the component values they were built from, azimuths up to whole turns (dv/ghost_astropy.py; executions use the real Astropy)"]
CROSS = [*ASSUMES, "Astropy's represent_as keeps the Cartesian point (dv/ghost_astropy.py; executions use the real Astropy)"]
REP = {"CartesianPos3D": apyc.CartesianRepresentation, "CylindricalPos": apyc.CylindricalRepresentation, "SphericalPos": apyc.PhysicsSphericalRepresentation, "LonLatSphericalPos": apyc.SphericalRepresentation}
DIFF = {"CartesianVel3D": apyc.CartesianDifferential, "CylindricalVel": apyc.CylindricalDifferential, "SphericalVel": apyc.PhysicsSphericalDifferential,
        "LonLatSphericalVel": apyc.SphericalDifferential, "LonCosLatSphericalVel": apyc.SphericalCosLatDifferential}
RKIND = {"Parallax": lambda x: cx.distance.Parallax(x, "mas"), "DistanceModulus": lambda x: cx.distance.DistanceModulus(x, "mag")}


def puta(outs, meta, p, rep, comps):
    """Record the components of an Astropy object (or several quantities)."""
    us = {}
    for c in comps:
        q = getattr(rep, c)
        outs[f"{p}.{c}"] = jnp.asarray(q.value)
        us[c] = (str(u.unit(str(q.unit)) if not isinstance(q.unit, apyu.UnitBase) else q.unit), "Quantity")
    meta[p] = dict(cls=next(k.__name__ for k in type(rep).__mro__ if not k.__name__.startswith("Ghost")), comps=us)


def same_pos(pos, q, w, p=""):
    """Goals: component dicts (SI) are the same position, component by component."""
    gs = []
    for c, k in COMPS[pos]:
        if k == "A":
            gs += [(f"{p}cos {c}", alleq(cos(q[c]), cos(w[c]))), (f"{p}sin {c}", alleq(sin(q[c]), sin(w[c])))]
        else:
            gs.append((f"{p}{c}", alleq(q[c], w[c])))
    return gs


def setshape(vs, pos, shape):
    if shape == "mixed":
        for x, s in zip(vs, ((2, 1), (3,), ()), strict=False):
            x.shape = s
    return vs


def to_apy(pos, prof, shape=(), target="own", kind=None):
    """Vector -> counterpart: same physical components; and back: the same vector."""
    rep = REP[pos]
    rad = {"SphericalPos": "r", "LonLatSphericalPos": "distance"}.get(pos)
    vs = setshape(posvars(pos, prof, shape=() if shape == "mixed" else shape), pos, shape)
    if kind:
        for x in vs:
            if x.name == rad:
                x.lo, x.hi = (0.1, 50.0) if kind == "Parallax" else (-5.0, 30.0)
                x.special = ()

    def run(a, meta):
        q = mkpos(pos, a, prof, kinds={rad: RKIND[kind]} if kind else None)
        r = convert(q, rep if target == "own" else apyc.BaseRepresentation)
        outs = {}
        put(outs, meta, "q", q)
        puta(outs, meta, "a", r, rep.attr_classes)
        put(outs, meta, "b", convert(r, cls(pos)))
        put(outs, meta, "f", cls(pos).from_(r))
        put(outs, meta, "g", V.AbstractPos3D.from_(r))
        meta["shape"] = (tuple(r.shape), tuple(q.shape))
        return outs

    def post(v, o, m):
        w = phys(o, m, "q") if kind else physin(v, pos, prof)
        gs = []
        for p, what in (("a", "in Astropy: "), ("b", "convert back: "), ("f", "from_: "), ("g", "base from_: ")):
            q = phys(o, m, p)
            gs += same_pos(pos, q, w, what)
        return gs

    def static(m, w):
        return [("Astropy class", m["a"]["cls"] == rep.__name__, m["a"]["cls"]), *[(f"class[{p}]", m[p]["cls"] == pos, m[p]["cls"]) for p in "bfg"], ("shape", m["shape"][0] == m["shape"][1], str(m["shape"]))]

    def pre(v):
        out = in_range(pos, {k: x for k, x in v.items() if not (kind and k == rad)} | ({rad: np.full(v[rad].shape, tm.ONE, dtype=object)} if kind else {}), prof)
        if kind == "Parallax":
            for x in v[rad].ravel():
                out += [tm.lt(tm.ZERO, x), tm.lt(fac("mas", "rad") * x, tm.PI / 2)]
        return out

    return Contract(f"to Astropy[{pos} | {prof}, {shape}, {target}{', ' + kind if kind else ''}]", ["convert(pos, apyc)", f"{pos}.from_(apyc)"], vs, run, post, pre, static=static, assumes=ASSUMES)


def to_apy_diff(vel, prof, shape=(), target="own"):
    rep = DIFF[vel]
    vs = dvars(vel, prof, 1)
    if shape == "mixed":
        setshape(vs, None, "mixed")
    else:
        for x in vs:
            x.shape = tuple(shape)
    un = dunits(INT[vel], prof, 1, vel)
    comps = dcomps(vel)

    def si(c):
        return "m/s" if u.unit(un[c]).is_equivalent("m/s") else "rad/s"

    def run(a, meta):
        w = mkdiff(vel, a, prof, 1)
        r = convert(w, rep if target == "own" else apyc.BaseDifferential)
        outs = {}
        puta(outs, meta, "a", r, rep.attr_classes)
        put(outs, meta, "b", convert(r, cls(vel)))
        put(outs, meta, "f", cls(vel).from_(r))
        put(outs, meta, "g", V.AbstractVel3D.from_(r))
        meta["shape"] = (tuple(r.shape), tuple(w.shape))
        return outs

    def post(v, o, m):
        return [(f"{what}{c}", alleq(fac(m[p]["comps"][c][0], si(c)) * o[f"{p}.{c}"], fac(un[c], si(c)) * v[c]))
                for p, what in (("a", "in Astropy: "), ("b", "convert back: "), ("f", "from_: "), ("g", "base from_: ")) for c in comps]

    def static(m, w):
        return [("Astropy class", m["a"]["cls"] == rep.__name__, m["a"]["cls"]), *[(f"class[{p}]", m[p]["cls"] == vel, m[p]["cls"]) for p in "bfg"], ("shape", m["shape"][0] == m["shape"][1], str(m["shape"]))]

    return Contract(f"to Astropy[{vel} | {prof}, {shape}, {target}]", ["convert(vel, apyc)", f"{vel}.from_(apyc)"], vs, run, post, static=static, assumes=ASSUMES)


def mkrep(pos, a, prof):
    un = cunits(pos, prof)
    return REP[pos](**{c: apyu.Quantity(a[c], un[c]) for c in REP[pos].attr_classes})


def from_apy(src, dst, prof, shape=(), via="class"):
    """A position class from any Astropy representation: the same point."""
    vs = posvars(src, prof, shape=shape)

    def run(a, meta):
        rep = mkrep(src, a, prof)
        outs = {}
        r = V.AbstractPos3D.from_(rep) if via == "base" else convert(rep, cls(dst)) if via == "convert" else cls(dst).from_(rep)
        put(outs, meta, "r", r)
        meta["shape"] = tuple(r.shape)
        if src == dst:
            back = convert(r, REP[src])
            puta(outs, meta, "a", back, REP[src].attr_classes)
        return outs

    def post(v, o, m):
        w = physin(v, src, prof)
        q = phys(o, m, "r")
        if m["r"]["cls"] != dst:
            return [("class", tm.FALSE)]
        if src == dst:
            return same_pos(src, q, w) + same_pos(src, phys(o, m, "a"), w, "and back: ")
        # relative to the radius, for the sake of executions
        N = sqrt(sum(x * x for x in to_cart(src, w)))
        return [(x, alleq(a + N, b + N)) for x, a, b in zip("xyz", to_cart(dst, q), to_cart(src, w), strict=True)]

    def static(m, w):
        return [("class", m["r"]["cls"] == dst, m["r"]["cls"]), ("shape", m["shape"] == tuple(shape), str(m["shape"]))]

    def pre(v):
        q = physin(v, src, prof)
        out = in_range(src, v, prof)
        return out if src == dst else out + interior(src, q) + regular_cart(to_cart(src, q), [src, dst])

    return Contract(f"from Astropy[{REP[src].__name__} -> {dst}, {via} | {prof}{list(shape) or ''}]", [f"{dst}.from_(apyc)"], vs, run, post, pre, static=static, assumes=ASSUMES if src == dst else CROSS)


def from_apy_diff(vel, prof, shape=(), via="class"):
    vs = dvars(vel, prof, 1)
    for x in vs:
        x.shape = tuple(shape)
    un = dunits(INT[vel], prof, 1, vel)
    comps = dcomps(vel)

    def run(a, meta):
        d = DIFF[vel](**{c: apyu.Quantity(a[c], un[c]) for c in DIFF[vel].attr_classes})
        outs = {}
        r = V.AbstractVel3D.from_(d) if via == "base" else convert(d, cls(vel)) if via == "convert" else cls(vel).from_(d)
        put(outs, meta, "r", r)
        puta(outs, meta, "a", convert(r, DIFF[vel]), comps)
        return outs

    def post(v, o, m):
        si = {c: "m/s" if u.unit(un[c]).is_equivalent("m/s") else "rad/s" for c in comps}
        return [(f"{w}{c}", alleq(fac(m[p]["comps"][c][0], si[c]) * o[f"{p}.{c}"], fac(un[c], si[c]) * v[c])) for p, w in (("r", ""), ("a", "and back: ")) for c in comps]

    return Contract(f"from Astropy[{DIFF[vel].__name__}, {via} | {prof}{list(shape) or ''}]", [f"{vel}.from_(apyc)"], vs, run, post,
                    static=lambda m, w: [("class", m["r"]["cls"] == vel, m["r"]["cls"])], assumes=ASSUMES)


def to_apyq(pos, prof, shape=()):
    """convert(3-D position, Astropy Quantity): the Cartesian coordinates on the last axis."""
    vs = posvars(pos, prof, shape=shape)

    def run(a, meta):
        q = mkpos(pos, a, prof)
        r = convert(q, apyu.Quantity)
        meta["unit"], meta["shape"] = str(r.unit), tuple(r.shape)
        outs = {"r": jnp.asarray(r.value)}
        put(outs, meta, "b", cx.CartesianPos3D.from_(r))
        return outs

    def ref(a, meta):
        outs = {}
        q = mkpos(pos, a, prof)
        put(outs, meta, "c", q if pos == "CartesianPos3D" else cx.represent_as(q, cx.CartesianPos3D))
        return outs

    def post(v, o, m):
        c, b, k = phys(o, m, "c"), phys(o, m, "b"), fac(m["unit"], "m")
        if o["r"].shape != (*shape, 3):
            return [("shape", tm.FALSE)]
        return [(f"value {i} is {x}", alleq(k * o["r"][..., i], c[x])) for i, x in enumerate("xyz")] + [(f"from_: {x}", alleq(b[x], c[x])) for x in "xyz"]

    return Contract(f"to Astropy Quantity[{pos} | {prof}{list(shape) or ''}]", ["vec_to_q(apyu)"], vs, run, post, lambda v: in_range(pos, v, prof), ref=ref, samples=sample_pos(vs, pos), assumes=ASSUMES)


def to_apyq_diff(name, shape=()):
    order = 1 if "Vel" in name else 2
    vs = dvars(name, "mixed", order)
    for x in vs:
        x.shape = tuple(shape)
    un = dunits(INT[name], "mixed", order, name)
    comps, dim = dcomps(name), "m/s" if order == 1 else "m/s2"

    def run(a, meta):
        r = convert(mkdiff(name, a, "mixed", order), apyu.Quantity)
        meta["unit"] = str(r.unit)
        outs = {"r": jnp.asarray(r.value)}
        put(outs, meta, "b", cls(name).from_(r))
        return outs

    def post(v, o, m):
        k = fac(m["unit"], dim)
        return [(f"value {i} is {c}", alleq(k * o["r"][..., i], fac(un[c], dim) * v[c])) for i, c in enumerate(comps)] + \
            [(f"from_: {c}", alleq(fac(m["b"]["comps"][c][0], dim) * o[f"b.{c}"], fac(un[c], dim) * v[c])) for c in comps]

    return Contract(f"to Astropy Quantity[{name}{list(shape) or ''}]", ["vec_diff_to_q(apyu)"], vs, run, post, assumes=ASSUMES)


def from_apyq(name, unit, full, comps):
    """Cartesian vectors from an Astropy Quantity: the i-th value is the i-th coordinate."""
    vs = [Var("a", full)]

    def run(a, meta):
        outs = {}
        put(outs, meta, "r", cls(name).from_(apyu.Quantity(a["a"], unit)))
        return outs

    def post(v, o, m):
        return [(c, alleq(o[f"r.{c}"], v["a"][..., i] if not c.endswith("q") else v["a"])) for i, c in enumerate(comps)]

    return Contract(f"from Astropy Quantity[{name}, {full} {unit}]", ["AbstractVector.from_(apyu.Quantity)"], vs, run, post, assumes=ASSUMES,
                    static=lambda m, w: [("class", m["r"]["cls"].startswith(name.replace("Abstract", "")) or name.startswith("Abstract"), m["r"]["cls"]), *[(f"unit[{c}]", u.unit(m["r"]["comps"][c][0]) == u.unit(unit), "") for c in comps]])


def from_apy_mapping(name, prof, shape=(), call="from_"):
    """Any class from a mapping of Astropy quantities."""
    order = 0 if name in COMPS else 1 if "Vel" in name else 2
    vs = posvars(name, prof, shape=shape) if not order else dvars(name, prof, order)
    if order:
        for x in vs:
            x.shape = tuple(shape)
    un = cunits(name, prof) if not order else dunits(INT[name], prof, order, name)
    comps = [c for c, _ in COMPS[name]] if not order else dcomps(name)

    def run(a, meta):
        f = {c: apyu.Quantity(a[c], un[c]) for c in reversed(comps)}
        if name == "ProlateSpheroidalPos":
            f["Delta"] = Q(a["Delta"], UNITS[prof]["L"])
        outs = {}
        put(outs, meta, "r", cls(name).from_(f) if call == "from_" else cls(name)(**f))
        return outs

    def post(v, o, m):
        if not order:
            return same_pos(name, phys(o, m, "r"), physin(v, name, prof))
        return [(c, alleq(o[f"r.{c}"], v[c])) for c in comps]

    def static(m, w):
        us = m["r"]["comps"]
        return [("class", m["r"]["cls"] == name, m["r"]["cls"]), *[(f"unit[{c}]", u.unit(us[c][0]) == u.unit(un[c]), us[c][0]) for c in comps]]

    return Contract(f"from Astropy mapping[{name} | {prof}{list(shape) or ''}, {call}]", ["AbstractVector.from_(Mapping[apyu])"], vs, run, post, lambda v: in_range(name, v, prof) if not order else [],
                    static=static, samples=sample_pos(vs, name) if not order else None, assumes=ASSUMES)


DK = {"Distance": (cx.Distance, ["kpc", "m", "AU", "lyr"], 0.0), "Parallax": (cx.distance.Parallax, ["mas", "rad", "arcsec"], 0.0), "DistanceModulus": (cx.distance.DistanceModulus, ["mag"], None)}


def distances(kind, unit, shape=()):
    """Distances and quantities: the value and the unit, both ways."""
    k, _, lo = DK[kind]
    vs = [Var("d", shape, lo=lo)]

    def run(a, meta):
        d = k(a["d"], unit)
        outs = {}

        def rec(p, q):
            outs[p] = jnp.asarray(q.value)
            meta[p] = (str(q.unit), type(q).__name__.split("[")[0])

        q = apyu.Quantity(a["d"], unit)
        rec("to", convert(d, apyu.Quantity))
        rec("back", convert(convert(d, apyu.Quantity), k))
        rec("from", convert(q, k))
        rec("from_", k.from_(q))
        rec("plain", convert(q, Q))
        rec("plain back", convert(convert(q, Q), apyu.Quantity))
        return outs

    def post(v, o, m):
        return [(f"value[{p}]", alleq(o[p], v["d"])) for p in o]

    def static(m, w):
        return [(f"unit[{p}]", u.unit(m[p][0]) == u.unit(unit), m[p][0]) for p in ("to", "back", "from", "from_", "plain", "plain back")] + \
            [(f"class[{p}]", m[p][1] == kind, m[p][1]) for p in ("back", "from", "from_")]

    return Contract(f"distance[{kind} in {unit}{list(shape) or ''}]", ["convert_astropy_quantity_to_unxt_distance", "convert_astropy_quantity_to_unxt_parallax", "convert_astropy_quantity_to_unxt_distmod"],
                    vs, run, post, lambda v: [tm.le(tm.ZERO, x) for x in v["d"].ravel()] if lo is not None else [], static=static, assumes=ASSUMES)


def galactocentric(units):
    """Galactocentric.from_(Astropy frame) has its parameters, whatever they are."""
    ra_u, dec_u, d_u, v_u, z_u, r_u = units
    one = {"deg": 180.0, "rad": np.pi, "arcmin": 10800.0}
    vs = [Var("ra", (), lo=-2 * one[ra_u], hi=2 * one[ra_u]), Var("dec", (), lo=-one[dec_u] / 2, hi=one[dec_u] / 2), Var("d", (), lo=0.0), Var("vx"), Var("vy"), Var("vz"), Var("z"), Var("roll")]

    def run(a, meta):
        AQ = apyu.Quantity
        f = ghost.galactocentric(galcen_coord=(AQ(a["ra"], ra_u), AQ(a["dec"], dec_u)), galcen_distance=AQ(a["d"], d_u), z_sun=AQ(a["z"], z_u), roll=AQ(a["roll"], r_u),
                                 galcen_v_sun=apyc.CartesianDifferential(*(AQ(a[k], v_u) for k in ("vx", "vy", "vz"))))
        g = cx.frames.Galactocentric.from_(f)
        outs = {}
        meta["cls"] = type(g).__name__
        put(outs, meta, "c", g.galcen)
        put(outs, meta, "v", g.galcen_v_sun)
        for n, q in (("roll", g.roll), ("z", g.z_sun)):
            outs[n], meta[n] = q.value, str(q.unit)
        return outs

    def post(v, o, m):
        c, d = phys(o, m, "c"), phys(o, m, "v")
        ra, dec = fac(ra_u, "rad") * v["ra"], fac(dec_u, "rad") * v["dec"]
        return [("cos ra", alleq(cos(c["lon"]), cos(ra))), ("sin ra", alleq(sin(c["lon"]), sin(ra))), ("dec", alleq(c["lat"], dec)), ("distance", alleq(c["distance"], fac(d_u, "m") * v["d"])),
                *[(f"v_sun {x}", alleq(d[f"d_{x}"], fac(v_u, "m/s") * v[f"v{x}"])) for x in "xyz"],
                ("z_sun", alleq(fac(m["z"], "m") * o["z"], fac(z_u, "m") * v["z"])), ("roll", alleq(fac(m["roll"], "rad") * o["roll"], fac(r_u, "rad") * v["roll"]))]

    def static(m, w):
        return [("classes", (m["cls"], m["c"]["cls"], m["v"]["cls"]) == ("Galactocentric", "LonLatSphericalPos", "CartesianVel3D"), str((m["cls"], m["c"]["cls"], m["v"]["cls"])))]

    def pre(v):
        x = fac(dec_u, "rad") * v["dec"][()]
        return [tm.le(tm.ZERO, v["d"][()]), tm.le(-(tm.PI / 2), x), tm.le(x, tm.PI / 2)]

    return Contract(f"Galactocentric from Astropy[{units}]", ["Galactocentric.from_(apyc.Galactocentric)"], vs, run, post, pre, static=static,
                    assumes=[*ASSUMES, "an Astropy Galactocentric frame returns the parameters it was built with"])


def icrs():
    def run(a, meta):
        meta["r"] = (type(cx.frames.ICRS.from_(apyc.ICRS())).__name__, cx.frames.ICRS.from_(apyc.ICRS()) == cx.frames.ICRS())
        g, h = cx.frames.Galactocentric.from_(apyc.Galactocentric()), None
        outs = {}
        put(outs, meta, "c", g.galcen)
        outs["x"] = a["x"]
        return outs

    return Contract("ICRS from Astropy", ["ICRS.from_(apyc.ICRS)"], [Var("x")], run, static=lambda m, w: [("class", m["r"] == ("ICRS", True), str(m["r"]))])


def refused(what, mk):
    def run(a, meta):
        r = mk(a)
        meta["r"] = type(r).__name__
        return {"x": a["x"]}

    return Contract(f"refused[{what}]", ["from_"], [Var("x", (), lo=0.1)], run, raises=lambda v: tm.TRUE)


def contracts(tier):
    out = []
    thorough = tier == "thorough"
    profs = list(UNITS)
    for pos in REP:
        for i, prof in enumerate(profs):
            for shape in ((), (2,), "mixed") if thorough or i == 2 else ((), (2,))[:1 + (i == 1)]:
                out.append(to_apy(pos, prof, shape))
        out.append(to_apy(pos, "kpc-deg", (2,), "base"))
        for prof in profs:
            for shape in ((), (2, 3)) if thorough or prof == "mixed" else ((2,),):
                for via in ("class", "base", "convert"):
                    out.append(from_apy(pos, pos, prof, shape, via))
        for dst in ("CartesianPos3D", "CylindricalPos", "SphericalPos", "LonLatSphericalPos", "MathSphericalPos"):
            if dst != pos:
                out.append(from_apy(pos, dst, "kpc-deg"))
                if thorough:
                    out += [from_apy(pos, dst, "mixed"), from_apy(pos, dst, "m-rad", (2,))]
    for pos in ("SphericalPos", "LonLatSphericalPos"):
        for kind in RKIND:
            for prof, shape in (("kpc-deg", ()), ("m-rad", (2,))):
                out.append(to_apy(pos, prof, shape, "own", kind))
            out.append(to_apy(pos, "mixed", (), "base", kind))
    for vel in DIFF:
        for i, prof in enumerate(profs):
            for shape in ((), (2,), "mixed"):
                out.append(to_apy_diff(vel, prof, shape))
            for via in ("class", "base", "convert"):
                out.append(from_apy_diff(vel, prof, ((), (2,), (2, 3))[i], via))
        out.append(to_apy_diff(vel, "mixed", (), "base"))
    for pos in POS3:
        for i, prof in enumerate(profs):
            out.append(to_apyq(pos, prof, () if i else (2,)))
    for name in ("CartesianVel3D", "CartesianAcc3D"):
        out += [to_apyq_diff(name), to_apyq_diff(name, (2,))]
    for name, unit, comps in (("CartesianPos1D", "kpc", ["x"]), ("CartesianPos2D", "km", ["x", "y"]), ("CartesianPos3D", "kpc", ["x", "y", "z"]), ("CartesianVel3D", "km/s", ["d_x", "d_y", "d_z"]), ("CartesianVel2D", "km/s", ["d_x", "d_y"]),
                              ("CartesianVel1D", "m/s", ["d_x"]), ("CartesianAcc1D", "m/s2", ["d2_x"]), ("CartesianAcc2D", "m/s2", ["d2_x", "d2_y"]), ("CartesianAcc3D", "km/s2", ["d2_x", "d2_y", "d2_z"]),
                              ("AbstractPos3D", "pc", ["x", "y", "z"]), ("AbstractVel3D", "km/s", ["d_x", "d_y", "d_z"]), ("CartesianGeneric3D", "kg m / s", ["x", "y", "z"]),
                              ("CartesianPosND", "kpc", ["q"]), ("CartesianVelND", "km/s", ["d_q"]), ("CartesianAccND", "km/s2", ["d2_q"])):
        n = 5 if comps[0].endswith("q") else len(comps)
        for sh in ((), (2,), (2, 3)):
            out.append(from_apyq(name, unit, (*sh, n), comps))
    for name in [*COMPS, *VEL.values(), "LonCosLatSphericalVel", *ACC.values()]:
        if hasattr(V, name):
            for i, call in enumerate(("from_", "init")):
                out.append(from_apy_mapping(name, profs[i] if not thorough else "mixed", () if i else (2,), call))
    for kind, (_, us, _lo) in DK.items():
        for un in us:
            for sh in ((), (2, 3)):
                out.append(distances(kind, un, sh))
    for units in (("deg", "deg", "kpc", "km/s", "pc", "deg"), ("rad", "rad", "pc", "m/s", "kpc", "rad"), ("arcmin", "deg", "Mpc", "pc/Myr", "m", "arcmin")):
        out.append(galactocentric(units))
    out.append(icrs())
    K = apyu.kpc
    out.append(refused("ICRS with data", lambda a: cx.frames.ICRS.from_(apyc.ICRS(ra=1 * apyu.deg, dec=2 * apyu.deg))))
    out.append(refused("Galactocentric with data", lambda a: cx.frames.Galactocentric.from_(apyc.Galactocentric(x=1 * K, y=2 * K, z=3 * K))))
    for s, t in (("CartesianVel3D", "CylindricalVel"), ("CylindricalVel", "SphericalVel"), ("LonLatSphericalVel", "LonCosLatSphericalVel"), ("LonCosLatSphericalVel", "LonLatSphericalVel"), ("SphericalVel", "LonLatSphericalVel")):
        un = dunits(INT[s], "m-rad", 1, s)
        out.append(refused(f"{DIFF[s].__name__} as {t}", lambda a, s=s, t=t, un=un: cls(t).from_(DIFF[s](**{c: apyu.Quantity(a["x"], un[c]) for c in dcomps(s)}))))
    for kind, bad in (("Distance", "mas"), ("Parallax", "kpc"), ("DistanceModulus", "kpc")):
        out.append(refused(f"{kind} from {bad}", lambda a, kind=kind, bad=bad: convert(apyu.Quantity(a["x"], bad), DK[kind][0])))
    return out
