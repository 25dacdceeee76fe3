"""C06: vector arithmetic agrees with Cartesian vector arithmetic."""
from __future__ import annotations

import operator

import quaxed.numpy as qnp

from .lib import *  # noqa: F403
from .lib import cd, norm2

ANGULAR = {"SphericalPos", "MathSphericalPos", "LonLatSphericalPos"}


def resultpre(pos, xyz, v=None, delta=None):
    """The result is a point whose coordinates in `pos` are defined."""
    ps = []
    if pos in ANGULAR:
        ps += [tm.gt(x, tm.ZERO) for x in np.ravel(norm2(xyz))]
    if pos == "RadialPos":
        ps += [tm.ge(x, tm.ZERO) for x in np.ravel(xyz[0])]
    if pos == "ProlateSpheroidalPos":
        X, Y, Z = map(el, xyz)
        ps.append(tm.or_(tm.gt(X * X + Y * Y, tm.ZERO), tm.ne(Z * Z, delta * delta)))
    return ps


def mkk(kinds):
    return {c: (lambda x, ty=ty, unit=unit: getattr(cd, ty)(x, unit)) for c, (ty, unit) in kinds.items()}


def dmpre(ps, v, kinds):
    for c, (ty, _u) in kinds.items():
        if ty == "DistanceModulus":
            ps = [p for p in ps if p is not tm.le(tm.ZERO, el(v[c]))]
    return ps + kindpre(v, kinds)


SCAL = {
    "k*v": lambda k, x: k * x, "v*k": lambda k, x: x * k, "v/k": lambda k, x: x / k, "-v": lambda k, x: -x,
    "multiply(k,v)": lambda k, x: qnp.multiply(k, x), "divide(v,k)": lambda k, x: qnp.divide(x, k), "negative(v)": lambda k, x: qnp.negative(x),
    "-2.5*v": lambda k, x: -2.5 * x, "v*3": lambda k, x: x * 3, "v/(-4.0)": lambda k, x: x / -4.0, "jit(k*v)": lambda k, x: jax.jit(lambda k, x: k * x)(k, x),
}


def factor(form, v):
    if form in ("-v", "negative(v)"):
        return tm.num(-1)
    if "2.5" in form:
        return tm.num(-2.5)
    if form == "v*3":
        return tm.num(3)
    if form == "v/(-4.0)":
        return tm.num(-0.25)
    k = el(v["k"])
    return 1 / k if "/" in form or "divide" in form else k


def scale(pos, prof, form, kind=None, shape=(), by=None):
    """Scaling by a number.  `by`: proved equal to another form (or, for 'cartesian',
    to scaling the Cartesian form and re-representing), itself under contract."""
    kinds = {radial_comp(pos): kind} if kind else {}
    mk = mkk(kinds)
    vs = kindvars(posvars(pos, prof, shape=shape), kinds) + [Var("k", special=(-1.0, 2.0, -0.5))]
    s = sample_pos(vs, pos)

    def run(a, meta):
        outs = {}
        put(outs, meta, "r", SCAL[form](a["k"], mkpos(pos, a, prof, kinds=mk)))
        return outs

    def ref(a, meta):
        outs = {}
        x = mkpos(pos, a, prof, kinds=mk)
        if by == "cartesian":
            k = {"Delta": x.Delta} if pos == "ProlateSpheroidalPos" else {}
            put(outs, meta, "w", SCAL[form](a["k"], x.represent_as(cls(CART[DIM[pos]]))).represent_as(cls(pos), **k))
        else:
            put(outs, meta, "w", SCAL[by](a["k"], x))
        return outs

    def want(v):
        f = factor(form, v)
        return [f * x for x in to_cart(pos, physin(v, pos, prof, kinds=kinds))]

    def pre(v):
        ps = dmpre(in_range(pos, v, prof), v, kinds)
        if "/" in form or "divide" in form:
            ps.append(tm.ne(el(v["k"]), tm.ZERO))
        D = el(phys1(v["Delta"], UNITS[prof]["L"], "Quantity")) if "Delta" in v else None
        return ps + resultpre(pos, want(v), v, D)

    def full(v, o, m):
        q = phys(o, m, "r")
        gs = [(f"cartesian[{ax}]", alleq(g, w)) for ax, g, w in zip("xyz", to_cart(pos, q), want(v), strict=False)]
        if "Delta" in v:
            gs.append(("delta", alleq(q["Delta"], phys1(v["Delta"], UNITS[prof]["L"], "Quantity"))))
        return gs + range_goals(pos, q)

    def modular(v, o, m):
        r, w = phys(o, m, "r"), phys(o, m, "w")
        return [(f"as-{by}[{c}]", alleq(r[c], w[c])) for c in r]

    def static(m, w):
        return [("class", m["r"]["cls"] == pos, m["r"]["cls"])]

    tag = (f"<{kind[0]}>" if kind else "") + (f" shape{list(shape)}" if shape else "")
    return Contract(f"{form} [{pos}{tag} | {prof}]", [f"scale({pos})"], vs, run, modular if by else full, pre, static=static, samples=s and (lambda rng: s(rng)),
                    ref=ref if by else None, xpost=full if by else None,
                    assumes=[f"C06 scaling {form} of {pos} is proved equal to {by}, which has its own contracts"] if by else [])


OPS = {"+": operator.add, "-": operator.sub, "add": qnp.add, "subtract": qnp.subtract}


def binary(a_, b_, op, pa, pb, sa=(), sb=(), jit=False, direct=False):
    """lhs op rhs.

    Modular unless `direct`: the result is the Cartesian sum/difference of the
    operands' Cartesian forms (Cartesian contracts below), re-represented as
    the lhs's class (contracts of C01).  Executions check the direct form too.
    """
    vs = posvars(a_, pa, tag="a_", shape=sa) + posvars(b_, pb, tag="b_", shape=sb)
    f = f0 = OPS[op]
    if jit:
        f = jax.jit(f)
    direct = direct or a_.startswith("Cartesian") and b_.startswith("Cartesian")
    dim = DIM[a_]

    def samp(rng):
        out = {}
        for p, t in ((a_, "a_"), (b_, "b_")):
            mine = [x for x in vs if x.name.startswith(t)]
            s = sample_pos(mine, p, t)
            out |= s(rng) if s else {x.name: x.sample(rng) for x in mine}
        return out

    def run(a, meta):
        outs = {}
        x, y = mkpos(a_, a, pa, tag="a_"), mkpos(b_, a, pb, tag="b_")
        put(outs, meta, "r", f(x, y))
        return outs

    def ref(a, meta):
        outs = {}
        x, y = mkpos(a_, a, pa, tag="a_"), mkpos(b_, a, pb, tag="b_")
        C = cls(CART[dim])
        k = {"Delta": x.Delta} if a_ == "ProlateSpheroidalPos" else {}
        put(outs, meta, "w", f0(x.represent_as(C), y.represent_as(C)).represent_as(cls(a_), **k))
        return outs

    def want(v):
        x = to_cart(a_, physin(v, a_, pa, tag="a_"))
        y = to_cart(b_, physin(v, b_, pb, tag="b_"))
        g = (lambda s, t: s + t) if op in ("+", "add") else (lambda s, t: s - t)
        return [g(s, t) for s, t in zip(x, y, strict=True)]

    def pre(v):
        ps = in_range(a_, v, pa, tag="a_") + in_range(b_, v, pb, tag="b_")
        D = el(phys1(v["a_Delta"], UNITS[pa]["L"], "Quantity")) if "a_Delta" in v else None
        return ps + resultpre(a_, want(v), v, D)

    def full(v, o, m):
        q = phys(o, m, "r")
        gs = [(f"cartesian[{ax}]", alleq(g, w)) for ax, g, w in zip("xyz", to_cart(a_, q), want(v), strict=False)]
        if "a_Delta" in v:
            gs.append(("delta", alleq(q["Delta"], phys1(v["a_Delta"], UNITS[pa]["L"], "Quantity"))))
        return gs + range_goals(a_, q)

    def modular(v, o, m):
        r, w = phys(o, m, "r"), phys(o, m, "w")
        gs = [(f"as-cartesian-sum[{c}]", alleq(r[c], w[c])) for c in r]
        if "a_Delta" in v:
            gs.append(("delta", alleq(r["Delta"], phys1(v["a_Delta"], UNITS[pa]["L"], "Quantity"))))
        return gs

    def static(m, w):
        return [("class", m["r"]["cls"] == a_, m["r"]["cls"])]

    tag = (f" shapes{list(sa)}{list(sb)}" if sa or sb else "") + (" jit" if jit else "") + (" direct" if direct else "")
    return Contract(f"{op} [{a_} | {pa} , {b_} | {pb}{tag}]", [f"{op}({a_}, {b_})"], vs, run, full if direct else modular, pre, static=static,
                    samples=samp, xpost=None if direct else full, ref=None if direct else ref,
                    assumes=[] if direct else ["C06 binary arithmetic with a non-Cartesian operand is proved to be the composition of represent_as and Cartesian arithmetic; "
                                               "those are proved by the contracts of C01 and the Cartesian contracts of C06"])


def dunary(name, order, prof, form, shape=()):
    vs = dvars(name, prof, order, shape=shape) + [Var("k", special=(-1.0, 2.0))]

    def run(a, meta):
        outs = {}
        put(outs, meta, "r", SCAL[form](a["k"], mkdiff(name, a, prof, order)))
        return outs

    def pre(v):
        return [tm.ne(el(v["k"]), tm.ZERO)]

    def post(v, o, m):
        f = factor(form, v)
        a, b = physd(v, name, prof, order), phys(o, m, "r")
        return [(f"component[{c}]", alleq(b[c], a[c] * f if not isinstance(a[c], tm.T) else f * a[c])) for c in a]

    def static(m, w):
        return [("class", m["r"]["cls"] == name, m["r"]["cls"])]

    return Contract(f"{form} [{name} | {prof}{' shape' + str(list(shape)) if shape else ''}]", [f"scale({name})"], vs, run, post, pre, static=static)


def dbinary(name, order, op, pa, pb, sa=(), sb=()):
    vs = dvars(name, pa, order, tag="a_", shape=sa) + dvars(name, pb, order, tag="b_", shape=sb)

    def run(a, meta):
        outs = {}
        put(outs, meta, "r", OPS[op](mkdiff(name, a, pa, order, "a_"), mkdiff(name, a, pb, order, "b_")))
        return outs

    def post(v, o, m):
        a, b, r = physd(v, name, pa, order, "a_"), physd(v, name, pb, order, "b_"), phys(o, m, "r")
        return [(f"component[{c}]", alleq(r[c], a[c] + b[c] if op in ("+", "add") else a[c] - b[c])) for c in a]

    def static(m, w):
        return [("class", m["r"]["cls"] == name, m["r"]["cls"])]

    return Contract(f"{op} [{name} | {pa} , {pb}{f' shapes{list(sa)}{list(sb)}' if sa or sb else ''}]", [f"{op}({name})"], vs, run, post, static=static)


def timemul(name, order, prof, tunit, swap=False, shape=(), tshape=()):
    vs = dvars(name, prof, order, shape=shape) + [Var("t", tshape)]

    def run(a, meta):
        d, t = mkdiff(name, a, prof, order), Q(a["t"], tunit)
        outs = {}
        put(outs, meta, "r", t * d if swap else d * t)
        return outs

    def post(v, o, m):
        a, r = physd(v, name, prof, order), phys(o, m, "r")
        t = phys1(v["t"], tunit, "Quantity")
        pre = "d_" if order == 1 else "d2_"
        new = "" if order == 1 else "d_"
        gs = []
        for c in a:
            x = np.asarray(a[c], dtype=object) * np.asarray(t, dtype=object)
            gs.append((f"component[{c}]", alleq(r[new + c.removeprefix(pre)], x)))
        return gs

    def static(m, w):
        want = INT[name] if order == 1 else VEL[INT[name]]
        return [("class", m["r"]["cls"] == want, m["r"]["cls"])]

    return Contract(f"{'t*v' if swap else 'v*t'} [{name} | {prof}, {tunit}{f' shapes{list(shape)}{list(tshape)}' if shape or tshape else ''}]",
                    [f"mul({name}, time)"], vs, run, post, static=static)


NDU = {"CartesianPosND": ("q", ("m", "km"))}


def nd(name, form, n=4, batch=()):
    """CartesianPosND / VelND / AccND."""
    f, (u1, u2) = NDU[name]
    shape = (*batch, n)
    vs = [Var("a", shape), Var("b", shape), Var("k", special=(-1.0, 2.0))]

    def run(a, meta):
        x = cls(name)(**{f: Q(a["a"], u1)})
        y = cls(name)(**{f: Q(a["b"], u2)})
        r = OPS[form](x, y) if form in OPS else SCAL[form](a["k"], x)
        outs = {}
        put(outs, meta, "r", r)
        return outs

    def pre(v):
        return [tm.ne(el(v["k"]), tm.ZERO)]

    def post(v, o, m):
        a, b = phys1(v["a"], u1, "Quantity"), phys1(v["b"], u2, "Quantity")
        r = phys(o, m, "r")[f]
        if form in OPS:
            w = a + b if form in ("+", "add") else a - b
        else:
            w = factor(form, v) * a
        return [("components", alleq(r, w) if np.shape(r) == np.shape(w) else tm.FALSE)]

    def static(m, w):
        return [("class", m["r"]["cls"] == name, m["r"]["cls"])]

    return Contract(f"{form} [{name} {list(shape)}]", [f"{form}({name})"], vs, run, post, pre, static=static)


def contracts(tier):
    out = []
    thorough = tier == "thorough"
    for p in COMPS:
        if p == "TwoSpherePos":
            continue
        prol = p == "ProlateSpheroidalPos"
        same = {"v*k": "k*v", "multiply(k,v)": "k*v", "jit(k*v)": "k*v", "divide(v,k)": "v/k", "negative(v)": "-v"} if p in ANGULAR and not thorough else {}
        for form in SCAL:
            if p == "RadialPos" and form in ("-v", "negative(v)", "-2.5*v", "v/(-4.0)"):
                continue  # out of the representation's range
            if p in ("MathSphericalPos", "LonLatSphericalPos") and form in ("-2.5*v", "v*3") and not thorough:
                continue
            out.append(scale(p, "m-rad" if form in ("k*v", "v/k", "-v") else "kpc-deg", form, by="cartesian" if prol else same.get(form)))
        if prol and thorough:
            for form in ("k*v", "v/k", "-v"):
                out.append(scale(p, "mixed", form))
        if not prol:
            for form in ("v*k", "v/k", "-v"):
                if p in ANGULAR and form != "v*k" and not thorough:
                    continue
                if not (p == "RadialPos" and form == "-v"):
                    out.append(scale(p, "mixed", form, by=same.get(form)))
            if p != "LonLatSphericalPos" or thorough:
                out.append(scale(p, "m-rad", "k*v", shape=(2,)))
        if p in ("RadialPos", "PolarPos", *ANGULAR):
            for kind in (("Parallax", "mas"), ("DistanceModulus", "mag"), ("Distance", "pc")):
                for form in ("k*v", "v/k", "-v"):
                    if p in ANGULAR and form == "v/k" and not thorough:
                        continue
                    if not (p == "RadialPos" and form == "-v"):
                        out.append(scale(p, "m-rad", form, kind=kind))
    for group in (POS1, POS2, POS3):
        for a in group:
            for b in group:
                heavy = a == "ProlateSpheroidalPos"
                for i, op in enumerate(("+", "-", "add", "subtract")):
                    if (heavy or b == "ProlateSpheroidalPos") and i >= 2 and not thorough:
                        continue
                    pa, pb = (("m-rad", "m-rad"), ("m-rad", "kpc-deg"), ("kpc-deg", "m-rad"), ("mixed", "mixed"))[i]
                    out.append(binary(a, b, op, pa, pb))
        c = group[0]
        for op in ("+", "-"):
            out.append(binary(c, c, op, "m-rad", "mixed"))
            out.append(binary(c, c, op, "mixed", "kpc-deg"))
            out.append(binary(c, c, op, "m-rad", "kpc-deg", (2,), ()))
            out.append(binary(c, c, op, "m-rad", "kpc-deg", (), (2,)))
            out.append(binary(c, group[1], op, "m-rad", "kpc-deg", (2,), (2,)))
            out.append(binary(c, c, op, "m-rad", "kpc-deg", jit=True))
            out.append(binary(group[1], c, op, "m-rad", "kpc-deg", jit=True))
    for name in [*VEL.values(), "LonCosLatSphericalVel"]:
        out.append(dunary(name, 1, "m-rad", "-v"))
        out.append(dunary(name, 1, "mixed", "-v", (2,)))
    for name in ACC.values():
        out.append(dunary(name, 2, "m-rad", "-v"))
        out.append(dunary(name, 2, "mixed", "-v", (2,)))
    for name, order in (("CartesianVel1D", 1), ("CartesianVel2D", 1), ("CartesianAcc1D", 2), ("CartesianAcc2D", 2)):
        for form in ("k*v", "multiply(k,v)", "-2.5*v", "jit(k*v)"):
            out.append(dunary(name, order, "mixed", form))
    for name, order in (("CartesianVel1D", 1), ("CartesianVel2D", 1), ("CartesianVel3D", 1), ("CartesianAcc1D", 2), ("CartesianAcc2D", 2), ("CartesianAcc3D", 2)):
        out.append(dbinary(name, order, "+", "m-rad", "m-rad"))
        out.append(dbinary(name, order, "add", "kpc-deg", "mixed"))
        out.append(dbinary(name, order, "+", "mixed", "m-rad", (2,), ()))
        if name in ("CartesianVel3D", "CartesianAcc1D", "CartesianAcc3D"):
            out.append(dbinary(name, order, "-", "m-rad", "mixed"))
            out.append(dbinary(name, order, "subtract", "mixed", "kpc-deg", (), (2,)))
        out.append(timemul(name, order, "m-rad", "s"))
        out.append(timemul(name, order, "mixed", "h"))
        out.append(timemul(name, order, "mixed", "yr", shape=(2,), tshape=(2,)))
        if order == 2:
            out.append(timemul(name, order, "mixed", "h", swap=True))
    for name in NDU:
        for form in ("+", "-", "add", "subtract", "k*v", "v*k", "v/k", "-v", "multiply(k,v)", "-2.5*v"):
            out.append(nd(name, form))
            out.append(nd(name, form, n=2, batch=(2,)))
    return out
