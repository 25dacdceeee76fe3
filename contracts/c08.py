"""C08: the norm is the Cartesian length of the vector."""
from __future__ import annotations

from .lib import *  # noqa: F403
from .lib import cd, norm2

FORMS = {"norm()": lambda x, *a: x.norm(*a), "abs()": lambda x, *a: abs(x), "jit(norm)": lambda x, *a: jax.jit(lambda y, *b: y.norm(*b))(x, *a)}


def goals(o, m, want, zero=tm.ZERO):
    n = phys1(o["n"], m["n"]["unit"], m["n"]["type"])
    sq = norm2(want)
    if np.broadcast_shapes(np.shape(n), np.shape(sq)) != np.shape(sq):
        return [(f"shape {np.shape(n)}, expected {np.shape(sq)}", tm.FALSE)]
    return [("square-is-sum-of-squares", alleq(n * n, sq)), ("non-negative", conj(tle(np.full(np.shape(n), zero, dtype=object), n)))]


def dims(dim):
    return lambda m, w: [("dimension", u.unit(m["n"]["unit"]).physical_type in dim, m["n"]["unit"])]


def kget(kinds):
    return {c: (lambda x, ty=ty, unit=unit: getattr(cd, ty)(x, unit)) for c, (ty, unit) in kinds.items()}


def pos_norm(pos, prof, form="norm()", kind=None, shape=(), perc=None):
    kinds = {radial_comp(pos): kind} if kind else {}
    vs = kindvars(posvars(pos, prof, shape=shape), kinds)
    for x in vs:
        if perc and x.name in perc:
            x.shape = perc[x.name]

    def run(a, meta):
        outs = {}
        put_q(outs, meta, "n", FORMS[form](mkpos(pos, a, prof, kinds=kget(kinds))))
        return outs

    def pre(v):
        ps = in_range(pos, v, prof)
        for c, (ty, _u) in kinds.items():
            if ty == "DistanceModulus":
                ps = [p for p in ps if p is not tm.le(tm.ZERO, el(v[c]))]
        return ps + kindpre(v, kinds)

    def post(v, o, m):
        return goals(o, m, to_cart(pos, physin(v, pos, prof, kinds=kinds)))

    tag = (f"<{kind[0]}>" if kind else "") + (f" shape{list(shape)}" if shape else "") + (f" {perc}" if perc else "")
    s = sample_pos(vs, pos)
    return Contract(f"{form} [{pos}{tag} | {prof}]", [f"{pos}.norm"], vs, run, post, pre, static=None if kind and kind[0] == "DistanceModulus" else dims(("length", "angle")),
                    samples=s and (lambda rng: s(rng)))


def diff_norm(name, order, prof, form="norm()", at=None, shape=()):
    """norm of a velocity/acceleration; `at`: representation of the supplied position."""
    ps = INT[name]
    cart = name.startswith("Cartesian")
    vs = dvars(name, prof, order, shape=shape)
    if at:
        vs = posvars(at, prof, shape=shape) + vs
        if order == 2:
            vs += dvars(VEL[ps], prof, 1, tag="v_", shape=shape)
    s = sample_pos(vs, at) if at else None

    def args(a):
        if not at:
            return ()
        p = mkpos(at, a, prof)
        # Cartesian accelerations' norm takes at most one further argument
        return (p,) if order == 1 or cart else (mkdiff(VEL[ps], a, prof, 1, tag="v_"), p)

    def run(a, meta):
        outs = {}
        put_q(outs, meta, "n", FORMS[form](mkdiff(name, a, prof, order), *args(a)))
        if at and at != ps:
            put(outs, meta, "q", mkpos(at, a, prof).represent_as(cls(ps)))
        return outs

    def pre(v):
        if not at:
            return []
        q = physin(v, at, prof)
        return in_range(at, v, prof) + interior(at, q) + regular_cart(to_cart(at, q), [ps] if ps != at else [])

    def post(v, o, m):
        d = strip_d(physd(v, name, prof, order))
        if cart:
            return goals(o, m, push(ps, None, d))
        q = physin(v, at, prof) if at == ps else phys(o, m, "q")
        return goals(o, m, push(ps, q, d))

    tag = (f" at {at}" if at else "") + (f" shape{list(shape)}" if shape else "")
    return Contract(f"{form} [{name}{tag} | {prof}]", [f"{name}.norm"], vs, run, post, pre,
                    static=dims(("speed/velocity", "velocity", "speed") if order == 1 else ("acceleration",)), samples=s and (lambda rng: s(rng)))


NDU = {"CartesianPosND": ("q", "km"), "CartesianVelND": ("d_q", "km / h"), "CartesianAccND": ("d2_q", "m / s2")}


def nd_norm(name, shape, form="norm()"):
    f, un = NDU[name]

    def run(a, meta):
        outs = {}
        put_q(outs, meta, "n", FORMS[form](cls(name)(**{f: Q(a["q"], un)})))
        return outs

    def post(v, o, m):
        x = phys1(v["q"], un, "Quantity")
        return goals(o, m, [x[..., i] for i in range(shape[-1])])

    return Contract(f"{form} [{name} {list(shape)}]", [f"{name}.norm"], [Var("q", shape)], run, post)


def normalize(what, shape, un=None):
    """normalize_vector: the unit vector along x."""

    def run(a, meta):
        x = a["x"] if what == "Array" else Q(a["x"], un) if what == "Quantity" else V.CartesianPos3D.from_(Q(a["x"], un))
        r = cx.vecs.normalize_vector(x)
        if what == "CartesianPos3D":
            r = Q(jnp.stack([r.x.value, r.y.value, r.z.value], axis=-1), r.x.unit)
        meta["unit"] = str(getattr(r, "unit", ""))
        return {"r": getattr(r, "value", r)}

    def rows(v):
        return v["x"].reshape(-1, shape[-1])

    def pre(v):
        return [tm.gt(norm2(list(r)), tm.ZERO) for r in rows(v)]

    def post(v, o, m):
        gs = [("dimensionless", tm.TRUE if m["unit"] in ("", "dimensionless") else tm.FALSE)]
        for k, (x, r) in enumerate(zip(rows(v), o["r"].reshape(-1, shape[-1]), strict=True)):
            n = tm.sqrt(norm2(list(x)))
            gs += [(f"unit-vector[{k},{i}]", tm.eq(r[i] * n, x[i])) for i in range(shape[-1])]
        return gs

    return Contract(f"normalize_vector [{what} {list(shape)}{' ' + un if un else ''}]", ["normalize_vector"], [Var("x", shape)], run, post, pre)


def contracts(tier):
    out = []
    for p in COMPS:
        if p == "TwoSpherePos":
            continue
        for prof in ("m-rad", "kpc-deg", "mixed"):
            for form in FORMS:
                if prof == "mixed" or form != "jit(norm)":
                    out.append(pos_norm(p, prof, form))
        if p != "ProlateSpheroidalPos":
            out.append(pos_norm(p, "mixed", shape=(2,)))
            if len(COMPS[p]) > 1:
                out.append(pos_norm(p, "kpc-deg", shape=(2,), perc={COMPS[p][0][0]: ()}))
                out.append(pos_norm(p, "kpc-deg", shape=(2,), perc={COMPS[p][-1][0]: (2, 1)}))
    for p in ("RadialPos", "PolarPos", "SphericalPos", "MathSphericalPos", "LonLatSphericalPos"):
        for kind in (("Parallax", "mas"), ("DistanceModulus", "mag"), ("Distance", "pc")):
            out.append(pos_norm(p, "m-rad", kind=kind))
            out.append(pos_norm(p, "m-rad", "abs()", kind=kind))
    for names, order in (([*VEL.values(), "LonCosLatSphericalVel"], 1), (ACC.values(), 2)):
        for name in names:
            ps = INT[name]
            if ps == "TwoSpherePos":
                continue
            if name.startswith("Cartesian"):
                for form in ("norm()", "abs()", "jit(norm)"):
                    out.append(diff_norm(name, order, "mixed" if form == "norm()" else "kpc-deg", form))
                out.append(diff_norm(name, order, "m-rad", shape=(2,)))
                out.append(diff_norm(name, order, "m-rad", at=ps))
                continue
            for prof in ("m-rad", "kpc-deg", "mixed"):
                if prof == "mixed" and "Prolate" in ps and tier == "quick":
                    continue
                out.append(diff_norm(name, order, prof, at=ps))
            out.append(diff_norm(name, order, "kpc-deg", "jit(norm)", at=ps))
            if DIM[ps] == 3 and "Prolate" not in ps:
                out.append(diff_norm(name, order, "mixed", at="CartesianPos3D"))
                out.append(diff_norm(name, order, "m-rad", at="CylindricalPos" if ps != "CylindricalPos" else "SphericalPos"))
            if "Prolate" not in ps:
                out.append(diff_norm(name, order, "m-rad", at=ps, shape=(2,)))
    for name in NDU:
        for form in ("norm()", "abs()"):
            out.append(nd_norm(name, (4,), form))
        out.append(nd_norm(name, (2, 3)))
        out.append(nd_norm(name, (2,), "jit(norm)"))
    for what in ("Array", "Quantity", "CartesianPos3D"):
        out.append(normalize(what, (3,), None if what == "Array" else "kpc"))
        out.append(normalize(what, (2, 3), None if what == "Array" else "m"))
    return out
