"""C09: changing units never changes the quantity."""
from __future__ import annotations

from .lib import *  # noqa: F403
from .lib import cd

US1 = ("m", "s", "kg", "rad")
US2 = ("kpc", "Myr", "Msun", "deg")
US3 = ("pc", "yr", "Msun", "arcsec")


def expected(spec, dims, own):
    """Unit of each component: the spec's unit for the component's dimensions.

    dims: component -> (length power, angle power, time power)
    """
    if spec == "consistent":
        first = {}
        return {c: first.setdefault(dims[c], own[c]) for c in dims}
    L, T, _m, A = spec
    out = {}
    for c, (pl, pa, pt) in dims.items():
        un = u.unit("")
        for b, p in ((L, pl), (A, pa), (T, pt)):
            un = un * u.unit(b) ** p
        out[c] = un
    return out


def mapping(spec, dims, keys):
    """{physical type: unit} for the dimensions present."""
    e = expected(spec, dims, None)
    m = {}
    for c in dims:
        d = u.dimension_of(e[c])
        m[d if keys == "Dimension" else sorted(d._physical_type)[0] if hasattr(d, "_physical_type") else str(d).split("/")[0]] = e[c] if keys == "Dimension" else str(e[c])
    return m


def convert(form, spec, dims):
    if spec == "consistent":
        f = V.ToUnitsOptions.consistent
    elif "map" in form:
        f = mapping(spec, dims, "Dimension" if "Dimension" in form else "str")
    else:
        f = u.unitsystem(*spec)
    if form.startswith("u.uconvert"):
        return lambda x: u.uconvert(f, x)
    if form.startswith("jit"):
        return lambda x: jax.jit(lambda y: y.uconvert(f))(x)
    return lambda x: x.uconvert(f)


PW = {"L": (1, 0), "R": (1, 0), "MU": (2, 0), "NU": (2, 0)}


def dims_of(pos, order, names):
    return {n: (*PW.get(k, (0, 1)), -order) for n, (_c, k) in zip(names, COMPS[pos], strict=True)}


def contract(name, what, vs, build, form, spec, dims, targets, pre=None, kinds=None, samples=None):
    def run(a, meta):
        outs = {}
        x = build(a)
        put(outs, meta, "x", x)
        put(outs, meta, "r", convert(form, spec, dims)(x))
        return outs

    def vals(o, m, p):
        m = {**m, p: dict(m[p], comps={c: (un, "Quantity" if t == "Parallax" else t) for c, (un, t) in m[p]["comps"].items()})}
        return phys(o, m, p)

    def post(v, o, m):
        x, r = vals(o, m, "x"), vals(o, m, "r")
        return [(f"same-quantity[{c}]", alleq(r[c], x[c]) if np.shape(r[c]) == np.shape(x[c]) else tm.FALSE) for c in x]

    def static(m, w):
        a, b = m["x"], m["r"]
        own = {c: u.unit(a["comps"][c][0]) for c in dims}
        want = expected(spec, dims, own)
        return [("class", a["cls"] == b["cls"], f"{a['cls']} became {b['cls']}"),
                *[(f"kind[{c}]", a["comps"][c][1] == b["comps"][c][1], str(b["comps"][c])) for c in dims],
                *[(f"unit[{c}]", u.unit(b["comps"][c][0]) == want[c], f"{b['comps'][c][0]}, requested {want[c]}") for c in dims]]

    sp = spec if spec == "consistent" else ",".join((spec[0], spec[1], spec[3]))
    return Contract(f"{form}({sp}) [{what}]", targets, vs, run, post, pre, static=static, samples=samples)


def pos_c(pos, prof, form, spec, kind=None, shape=(), angle=False, perc=None):
    kinds = {radial_comp(pos): kind} if kind else {}
    un = cunits(pos, prof)
    mk = {c: (lambda x, ty=ty, unit=unit: getattr(cd, ty)(x, unit)) for c, (ty, unit) in kinds.items()}
    if angle:  # azimuths given as Angle objects keep any winding
        mk |= {c: (lambda x, c=c: cx.angle.Angle(x, un[c])) for c, k in COMPS[pos] if k == "A"}
    vs = kindvars(posvars(pos, prof, shape=shape), kinds)
    for x in vs:
        if perc and x.name in perc:
            x.shape = perc[x.name]
    names = [c for c, _ in COMPS[pos]]
    dims = dims_of(pos, 0, names)
    for c, (ty, _u) in kinds.items():
        dims[c] = (0, 1, 0) if ty == "Parallax" else (1, 0, 0)
    s = sample_pos(vs, pos)
    tag = (f"<{kind[0]}>" if kind else "") + (" Angle" if angle else "") + (f" shape{list(shape)}" if shape else "") + (f" {perc}" if perc else "")
    return contract(pos, f"{pos}{tag} | {prof}", vs, lambda a: mkpos(pos, a, prof, kinds=mk), form, spec, dims, [f"uconvert({pos})"],
                    lambda v: in_range(pos, v, prof) + kindpre(v, kinds), samples=s and (lambda rng: s(rng)))


def dm_c(form="uconvert"):
    """A distance modulus is kept as it is by the consistent-units option."""
    vs = kindvars(posvars("SphericalPos", "kpc-deg"), {"r": ("DistanceModulus", "mag")})

    def run(a, meta):
        outs = {}
        x = mkpos("SphericalPos", a, "kpc-deg", kinds={"r": lambda t: cd.DistanceModulus(t, "mag")})
        put(outs, meta, "x", x)
        put(outs, meta, "r", x.uconvert(V.ToUnitsOptions.consistent))
        return outs

    def post(v, o, m):
        return [("same[r]", tm.eq(el(o["r.r"]), el(o["x.r"]))), *[(f"same[{c}]", alleq(phys(o, m, "r")[c], phys(o, m, "x")[c])) for c in ("theta", "phi")]]

    return Contract(f"{form}(consistent) [SphericalPos<DistanceModulus>]", ["uconvert(SphericalPos)"], vs, run, post,
                    lambda v: [p for p in in_range("SphericalPos", v, "kpc-deg") if p is not tm.le(tm.ZERO, el(v["r"]))],
                    static=lambda m, w: [("kept", m["r"]["comps"]["r"] == ("mag", "DistanceModulus"), str(m["r"]))])


def diff_c(name, order, prof, form, spec, shape=()):
    vs = dvars(name, prof, order, shape=shape)
    dims = dims_of(INT[name], order, dcomps(name))
    if name == "LonCosLatSphericalVel":
        dims = {"d_lon_coslat": (0, 1, -1), "d_lat": (0, 1, -1), "d_distance": (1, 0, -1)}
    tag = f" shape{list(shape)}" if shape else ""
    return contract(name, f"{name}{tag} | {prof}", vs, lambda a: mkdiff(name, a, prof, order), form, spec, dims, [f"uconvert({name})"])


NDU = {"CartesianPosND": ("q", "km", 0), "CartesianVelND": ("d_q", "km / h", 1), "CartesianAccND": ("d2_q", "km / s2", 2)}


def nd_c(name, shape, form, spec):
    f, un, o = NDU[name]
    return contract(name, f"{name} {list(shape)}", [Var(f, shape)], lambda a: cls(name)(**{f: Q(a[f], un)}), form, spec, {f: (1, 0, -o)}, [f"uconvert({name})"])


SCAL = {"Distance": ("kpc", "m"), "Parallax": ("mas", "rad"), "Angle": ("deg", "arcmin")}


def scalar_c(ty, shape=()):
    """uconvert of a distance, parallax or angle object."""
    un, to = SCAL[ty]
    mk = cx.angle.Angle if ty == "Angle" else getattr(cd, ty)

    def run(a, meta):
        outs = {}
        x = mk(a["x"], un)
        put_q(outs, meta, "a", u.uconvert(to, x))
        put_q(outs, meta, "b", x.uconvert(to))
        put_q(outs, meta, "c", x.to(to))
        return outs

    def post(v, o, m):
        want = phys1(v["x"], un, "Quantity")
        return [(f"same-quantity[{k}]", alleq(phys1(o[k], m[k]["unit"], "Quantity"), want)) for k in "abc"]

    return Contract(f"uconvert [{ty} {un} -> {to} {list(shape)}]", [f"uconvert({ty})"], [Var("x", shape, lo=0.0 if ty == "Parallax" else None)], run, post,
                    (lambda v: [tm.le(tm.ZERO, t) for t in v["x"].ravel()]) if ty == "Parallax" else None,
                    static=lambda m, w: [(f"kind and unit [{k}]", m[k]["type"] == ty and u.unit(m[k]["unit"]) == u.unit(to), str(m[k])) for k in "abc"])


FORMS = [("uconvert", US1), ("uconvert", US2), ("u.uconvert", US3), ("map-str uconvert", US2), ("u.uconvert map-Dimension", US1), ("uconvert", "consistent"), ("jit uconvert", US2)]
FORMS = [(f if not f.startswith("map") else "uconvert map-str", s) for f, s in FORMS]


def contracts(tier):
    out = []
    for p in COMPS:
        for prof in ("mixed", "kpc-deg"):
            for form, spec in FORMS:
                out.append(pos_c(p, prof, form, spec))
        out.append(pos_c(p, "mixed", "u.uconvert", "consistent"))
        if any(k == "A" for _c, k in COMPS[p]):
            out.append(pos_c(p, "mixed", "uconvert", US1, angle=True))
            out.append(pos_c(p, "kpc-deg", "uconvert map-str", US3, angle=True))
        if p != "ProlateSpheroidalPos":
            out.append(pos_c(p, "mixed", "uconvert", US2, shape=(2,)))
            if len(COMPS[p]) > 1:
                out.append(pos_c(p, "mixed", "uconvert", "consistent", shape=(2,), perc={COMPS[p][0][0]: ()}))
                out.append(pos_c(p, "m-rad", "uconvert map-str", US2, shape=(2,), perc={COMPS[p][-1][0]: (2, 1)}))
    for p in ("RadialPos", "PolarPos", "SphericalPos", "MathSphericalPos", "LonLatSphericalPos"):
        for kind in (("Parallax", "mas"), ("Distance", "pc")):
            for form, spec in FORMS[:6]:
                out.append(pos_c(p, "m-rad", form, spec, kind=kind))
    out.append(dm_c())
    for name in [*VEL.values(), "LonCosLatSphericalVel", *ACC.values()]:
        order = 1 if "Vel" in name else 2
        for prof in ("mixed", "kpc-deg"):
            for form, spec in FORMS:
                out.append(diff_c(name, order, prof, form, spec))
        out.append(diff_c(name, order, "m-rad", "uconvert", US2, (2,)))
    for name in NDU:
        for form, spec in FORMS:
            out.append(nd_c(name, (3,), form, spec))
        out.append(nd_c(name, (2, 2), "uconvert", US2))
    for ty in SCAL:
        out += [scalar_c(ty), scalar_c(ty, (2,))]
    return out
