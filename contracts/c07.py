"""C07: equality of vectors compares physical values."""
from __future__ import annotations

import quaxed.lax as qlax
import quaxed.numpy as qnp

from .lib import *  # noqa: F403
from .lib import cd

EQ = {
    "==": lambda x, y: x == y, "!=": lambda x, y: x != y, "equal": lambda x, y: qnp.equal(x, y), "lax.eq": lambda x, y: qlax.eq(x, y),
    "jit(==)": lambda x, y: jax.jit(lambda a, b: a == b)(x, y), "not_equal": lambda x, y: qnp.not_equal(x, y),
}
NEG = {"!=", "not_equal"}


def truth(t):
    return t if t.isbool else tm.ne(t, tm.ZERO)


def iff(a, b):
    return tm.and_(tm.or_(tm.not_(a), b), tm.or_(a, tm.not_(b)))


def comp_goals(o, m, x, y, r, neg, extra=(), last=False):
    """outs[r] is, element by element, the conjunction of component equalities."""
    a, b = phys(o, m, x), phys(o, m, y)
    shp = np.broadcast_shapes(*[np.shape(t) for t in (*a.values(), *b.values())])
    cond = np.full(shp, tm.TRUE, dtype=object)
    for c in a:
        e = np.broadcast_to(teq(a[c], b[c]), shp)
        for i in np.ndindex(shp):
            cond[i] = tm.and_(cond[i], e[i])
    for e in extra:
        for i in np.ndindex(shp):
            cond[i] = tm.and_(cond[i], np.broadcast_to(e, shp)[i])
    if last:  # N-D vectors: the components lie along the last axis
        new = np.empty(shp[:-1], dtype=object)
        for i in np.ndindex(shp[:-1]):
            new[i] = tm.and_(*cond[i].ravel().tolist())
        cond = new
    got = o[r]
    if np.shape(got) != np.shape(cond):
        return [(f"result shape {np.shape(got)}, expected {np.shape(cond)}", tm.FALSE)]
    gs = []
    for i in np.ndindex(cond.shape):
        t = truth(got[i])
        gs.append((f"iff-all-components-equal{list(i) if i else ''}", iff(tm.not_(t) if neg else t, cond[i])))
    return gs


def half(vs, tag):
    return [x for x in vs if x.name.startswith(tag)]


def copying(vs, exact):
    """Sampler: sometimes the second operand repeats (some of) the first's values."""

    def go(rng, base):
        a = base(rng)
        mode = rng.random()
        for x in vs:
            if not x.name.startswith("b_"):
                continue
            y = "a_" + x.name[2:]
            if y not in a:
                continue
            if mode < 0.45 or rng.random() < 0.6:
                a[x.name] = np.broadcast_to(np.asarray(a[y], float).ravel()[0] if np.shape(a[y]) != x.shape else a[y], x.shape) * exact
            if mode < 0.45 and x.shape and rng.random() < 0.5:
                b = np.array(a[x.name], float)
                b.ravel()[rng.randrange(b.size)] += 1.0 if b.ravel()[0] < 40 else -1.0
                a[x.name] = b
        return a

    return go


def eq_pos(pos, pa, pb, form="==", sa=(), sb=(), kind=None, ua=None, perca=None):
    kinds = {radial_comp(pos): kind} if kind else {}
    mk = {c: (lambda x, ty=ty, unit=unit: getattr(cd, ty)(x, unit)) for c, (ty, unit) in kinds.items()}
    vs = []
    for tag, prof, shape in (("a_", pa, sa), ("b_", pb, sb)):
        vv = posvars(pos, prof, tag=tag, shape=shape)
        if perca and tag == "a_":
            for x in vv:
                if x.name[2:] in perca:
                    x.shape = perca[x.name[2:]]
        vs += vv
    for x in vs:
        c = x.name[2:]
        if c in kinds:
            x.lo, x.hi, x.special = (0.01, 900.0, ()) if kinds[c][0] == "Parallax" else (0.0, 10.0, ())
    cp = copying(vs, 1.0)

    def base(rng):
        out = {}
        for t in ("a_", "b_"):
            mine = half(vs, t)
            s = sample_pos(mine, pos, t)
            out |= s(rng) if s else {x.name: x.sample(rng) for x in mine}
        return out

    def run(a, meta):
        k = {tagc: f for tagc, f in mk.items()}
        x, y = mkpos(pos, a, pa, tag="a_", kinds=k), mkpos(pos, a, pb, tag="b_", kinds=k)
        outs = {"eq": EQ[form](x, y)}
        put(outs, meta, "x", x)
        put(outs, meta, "y", y)
        return outs

    def pre(v):
        out = in_range(pos, v, pa, tag="a_") + in_range(pos, v, pb, tag="b_")
        for c, (ty, unit) in kinds.items():
            drop = [tm.le(tm.ZERO, t) for tag in ("a_", "b_") for t in np.ravel(v[tag + c])] if ty == "DistanceModulus" else []
            out = [p for p in out if not any(p is q for q in drop)]
            if ty == "Parallax":
                for tag in ("a_", "b_"):
                    for x in np.ravel(v[tag + c]):
                        out += [x > 0, fac(unit, "rad") * x < tm.PI / 2]
        return out

    def post(v, o, m):
        if kinds:  # distance kinds are injective in the distance: compare values of the same kind
            m = {**m}
            for z in ("x", "y"):
                m[z] = dict(m[z], comps={c: ((u_, "Quantity") if c in kinds and t in ("Parallax", "DistanceModulus") else (u_, t))
                                         for c, (u_, t) in m[z]["comps"].items()})
        return comp_goals(o, m, "x", "y", "eq", form in NEG)

    tag = f"<{kind[0]}>" if kind else ""
    sh = (f" shapes{list(sa)}{list(sb)}" if sa or sb else "") + (f" {perca}" if perca else "")
    return Contract(f"{form} [{pos}{tag} | {pa} , {pb}{sh}]", [f"eq({pos})"], vs, run, post, pre, samples=lambda rng: cp(rng, base))


def eq_diff(name, order, pa, pb, form="==", sa=(), sb=()):
    vs = dvars(name, pa, order, tag="a_", shape=sa) + dvars(name, pb, order, tag="b_", shape=sb)
    cp = copying(vs, 1.0)

    def run(a, meta):
        x, y = mkdiff(name, a, pa, order, "a_"), mkdiff(name, a, pb, order, "b_")
        outs = {"eq": EQ[form](x, y)}
        put(outs, meta, "x", x)
        put(outs, meta, "y", y)
        return outs

    def post(v, o, m):
        return comp_goals(o, m, "x", "y", "eq", form in NEG)

    sh = f" shapes{list(sa)}{list(sb)}" if sa or sb else ""
    return Contract(f"{form} [{name} | {pa} , {pb}{sh}]", [f"eq({name})"], vs, run, post,
                    samples=lambda rng: cp(rng, lambda r: {x.name: x.sample(r) for x in vs}))


NDU = {"CartesianPosND": ("q", ("m", "km")), "CartesianVelND": ("d_q", ("m / s", "km / h")), "CartesianAccND": ("d2_q", ("m / s2", "km / h2"))}


def eq_nd(name, form="==", sa=(3,), sb=(3,), same=False):
    f, (u1, u2) = NDU[name]
    u2 = u1 if same else u2
    vs = [Var("a_q", sa), Var("b_q", sb)]
    cp = copying(vs, 1.0)

    def run(a, meta):
        x, y = cls(name)(**{f: Q(a["a_q"], u1)}), cls(name)(**{f: Q(a["b_q"], u2)})
        outs = {"eq": EQ[form](x, y)}
        put(outs, meta, "x", x)
        put(outs, meta, "y", y)
        return outs

    def post(v, o, m):
        return comp_goals(o, m, "x", "y", "eq", form in NEG, last=True)

    return Contract(f"{form} [{name} {list(sa)}{list(sb)}{' same unit' if same else ''}]", [f"eq({name})"], vs, run, post,
                    samples=lambda rng: cp(rng, lambda r: {x.name: x.sample(r) for x in vs}))


def eq_4(qpos, pa, pb, form="==", sa=(), sb=(), ta=None, tb=None, ownc=False):
    ta, tb = (sa if ta is None else ta), (sb if tb is None else tb)
    vs = [*posvars(qpos, pa, tag="a_", shape=sa), *posvars(qpos, pb, tag="b_", shape=sb), Var("a_t", ta), Var("b_t", tb)]
    if ownc:
        vs += [Var("a_c", (), lo=1.0), Var("b_c", (), lo=1.0)]
    cp = copying(vs, 1.0)
    tu = {"kpc-deg": "Myr", "m-rad": "s", "mixed": "h"}

    def run(a, meta):
        vv = []
        for t, prof in (("a_", pa), ("b_", pb)):
            kw = {"c": Q(a[t + "c"], "km / s" if t == "a_" else "m / s")} if ownc else {}
            vv.append(V.FourVector(t=Q(a[t + "t"], tu[prof]), q=mkpos(qpos, a, prof, tag=t), **kw))
        outs = {"eq": EQ[form](*vv)}
        for z, w in zip("xy", vv, strict=True):
            put(outs, meta, z, w.q)
            put_q(outs, meta, z + "t", w.t)
            put_q(outs, meta, z + "c", w.c)
        return outs

    def pre(v):
        return in_range(qpos, v, pa, tag="a_") + in_range(qpos, v, pb, tag="b_")

    def post(v, o, m):
        ex = []
        for z in ("t", "c"):
            ex.append(teq(phys1(o["x" + z], m["x" + z]["unit"], ""), phys1(o["y" + z], m["y" + z]["unit"], "")))
        return comp_goals(o, m, "x", "y", "eq", form in NEG, extra=ex)

    sh = (f" shapes{list(sa)}{list(sb)} t{list(ta)}{list(tb)}" if sa or sb else "") + (" own c" if ownc else "")
    return Contract(f"{form} [FourVector({qpos}) | {pa} , {pb}{sh}]", ["eq(FourVector)"], vs, run, post, pre,
                    samples=lambda rng: cp(rng, lambda r: {x.name: x.sample(r) for x in vs}))


def eq_space(prof_a, prof_b, form="==", shape=()):
    names = [("length", "CartesianPos3D", 0), ("speed", "CartesianVel3D", 1), ("acceleration", "CartesianAcc3D", 2)]
    vs = []
    for t, prof in (("a_", prof_a), ("b_", prof_b)):
        for _k, n, o in names:
            vs += [Var(t + c, shape) for c in (cunits(n, prof) if o == 0 else dunits(INT[n], prof, o, n))]
    cp = copying(vs, 1.0)

    def run(a, meta):
        sp, outs = [], {}
        for z, t, prof in (("x", "a_", prof_a), ("y", "b_", prof_b)):
            mem = {}
            for k, n, o in names:
                mem[k] = mkpos(n, a, prof, tag=t) if o == 0 else mkdiff(n, a, prof, o, t)
                put(outs, meta, z + k, mem[k])
            sp.append(cx.Space(**mem))
        outs["eq"] = EQ[form](*sp)
        return outs

    def post(v, o, m):
        ex = []
        for k in ("speed", "acceleration"):
            a, b = phys(o, m, "x" + k), phys(o, m, "y" + k)
            ex += [teq(a[c], b[c]) for c in a]
        return comp_goals(o, m, "xlength", "ylength", "eq", form in NEG, extra=ex)

    return Contract(f"{form} [Space | {prof_a} , {prof_b}{f' shape{list(shape)}' if shape else ''}]", ["eq(Space)"], vs, run, post,
                    samples=lambda rng: cp(rng, lambda r: {x.name: x.sample(r) for x in vs}))


def unrelated(name, mk, what):
    """Unrelated types: never equal, never an exception."""

    def run(a, meta):
        x, y = mk(a)
        r, n = x == y, x != y
        meta["r"], meta["n"] = r, n
        return {}

    def post(v, o, m):
        return [("unequal", tm.TRUE)]

    def static(m, w):
        return [("== is False", m["r"] is False, f"{m['r']!r:.60}"), ("!= is True", m["n"] is True, f"{m['n']!r:.60}")]

    vs = [Var(c) for c in ("x", "y", "z", "d_x", "d_y", "d_z", "d2_x", "d2_y", "d2_z")]
    return Contract(f"unrelated [{name}]", [f"eq({what})"], vs, run, post, static=static)


def _p(a):
    return mkpos("CartesianPos3D", a)


def _v(a):
    return mkdiff("CartesianVel3D", a, "m-rad", 1)


def _a(a):
    return mkdiff("CartesianAcc3D", a, "m-rad", 2)


def crosspos(lhs, rhs):
    """Positions of different classes: equal iff re-represented alike."""
    vs = posvars(lhs, "m-rad", tag="a_") + posvars(rhs, "kpc-deg", tag="b_")

    def base(rng):
        out = {}
        for t, p in (("a_", lhs), ("b_", rhs)):
            mine = half(vs, t)
            s = sample_pos(mine, p, t)
            out |= s(rng) if s else {x.name: x.sample(rng) for x in mine}
        return out

    def run(a, meta):
        x, y = mkpos(lhs, a, "m-rad", tag="a_"), mkpos(rhs, a, "kpc-deg", tag="b_")
        outs = {"eq": x == y, "ne": x != y}
        put(outs, meta, "x", x)
        return outs

    def ref(a, meta):
        outs = {}
        put(outs, meta, "y", mkpos(rhs, a, "kpc-deg", tag="b_").represent_as(cls(lhs)))
        return outs

    def pre(v):
        return in_range(lhs, v, "m-rad", tag="a_") + in_range(rhs, v, "kpc-deg", tag="b_") + \
            regular_cart(to_cart(rhs, physin(v, rhs, "kpc-deg", tag="b_")), [lhs])

    def post(v, o, m):
        return comp_goals(o, m, "x", "y", "eq", False) + comp_goals(o, m, "x", "y", "ne", True)

    return Contract(f"== [{lhs} , {rhs}]", [f"eq({lhs}, {rhs})"], vs, run, post, pre, ref=ref, samples=base,
                    assumes=["C07 == across representations is proved to compare with represent_as of the right operand (contracts of C01)"])


def contracts(tier):
    out = []
    thorough = tier == "thorough"
    for p in COMPS:
        out.append(eq_pos(p, "m-rad", "m-rad"))
        out.append(eq_pos(p, "kpc-deg", "m-rad"))
        out.append(eq_pos(p, "m-rad", "mixed", "!="))
        if p != "TwoSpherePos":
            out.append(eq_pos(p, "m-rad", "kpc-deg", "equal"))
        out.append(eq_pos(p, "m-rad", "m-rad", "jit(==)"))
        if thorough:
            for f in ("lax.eq", "!=", "jit(==)"):
                out.append(eq_pos(p, "mixed", "kpc-deg", f))
        if p != "ProlateSpheroidalPos":
            heavy = p in ("SphericalPos", "MathSphericalPos", "LonLatSphericalPos") and not thorough
            if not (heavy and p != "SphericalPos"):
                out.append(eq_pos(p, "m-rad", "m-rad", "==", (2,), ()))
            out.append(eq_pos(p, "m-rad", "m-rad", "!=", (2,), (2,)))
            if len(COMPS[p]) > 1 and not (heavy and p != "SphericalPos"):
                c0 = COMPS[p][0][0]
                out.append(eq_pos(p, "m-rad", "m-rad", "==", (2,), (2,), perca={c0: ()}))
                c1 = COMPS[p][-1][0]
                out.append(eq_pos(p, "m-rad", "m-rad", "==", (2,), (), perca={c1: (2, 1)}))
    for p in ("RadialPos", "PolarPos", "SphericalPos", "MathSphericalPos", "LonLatSphericalPos"):
        for kind in (("Parallax", "mas"), ("DistanceModulus", "mag"), ("Distance", "pc")):
            out.append(eq_pos(p, "m-rad", "m-rad", "==", kind=kind))
    for name in [*VEL.values(), "LonCosLatSphericalVel", *ACC.values()]:
        order = 1 if "Vel" in name else 2
        out.append(eq_diff(name, order, "m-rad", "m-rad"))
        out.append(eq_diff(name, order, "kpc-deg", "mixed", "!="))
        if name.startswith("Cartesian") or name.startswith("Radial"):
            out.append(eq_diff(name, order, "kpc-deg", "m-rad", "equal"))
        out.append(eq_diff(name, order, "m-rad", "mixed", "jit(==)"))
        out.append(eq_diff(name, order, "m-rad", "mixed", "==", (2,), ()))
        out.append(eq_diff(name, order, "m-rad", "m-rad", "!=", (), (2,)))
    for name in NDU:
        for form in ("==", "!=", "equal"):
            if form == "equal" and name != "CartesianPosND":
                continue
            out.append(eq_nd(name, form))
            out.append(eq_nd(name, form, (2, 3), (2, 3), same=True))
        out.append(eq_nd(name, "==", (2, 2), (2,)))
        out.append(eq_nd(name, "!=", (2,), (2, 2)))
        out.append(eq_nd(name, "==", (1,), (1,)))
    for form in ("==", "!=", "jit(==)"):
        out.append(eq_4("CartesianPos3D", "m-rad", "kpc-deg", form))
    out.append(eq_4("CartesianPos3D", "m-rad", "m-rad", ownc=True))
    out.append(eq_4("CartesianPos3D", "m-rad", "m-rad", "!=", (2,), (2,)))
    out.append(eq_4("CartesianPos3D", "m-rad", "m-rad", "==", (2,), (), ta=()))
    out.append(eq_4("SphericalPos", "m-rad", "kpc-deg"))
    out.append(eq_4("CylindricalPos", "mixed", "m-rad", "!="))
    for form in ("==", "!="):
        out.append(eq_space("m-rad", "m-rad", form))
        out.append(eq_space("m-rad", "mixed", form))
        out.append(eq_space("m-rad", "m-rad", form, (2,)))
    for nm, mk in (("pos == vel", lambda a: (_p(a), _v(a))), ("vel == pos", lambda a: (_v(a), _p(a))), ("vel == acc", lambda a: (_v(a), _a(a))),
                   ("acc == pos", lambda a: (_a(a), _p(a))),
                   ("vel3 == vel1", lambda a: (_v(a), mkdiff("CartesianVel1D", a, "m-rad", 1))),
                   ("sph vel == cart vel", lambda a: (V.SphericalVel(d_r=Q(a["x"], "m/s"), d_theta=Q(a["y"], "rad/s"), d_phi=Q(a["z"], "rad/s")), _v(a))),
                   ("pos == str", lambda a: (_p(a), "x")), ("vel == None", lambda a: (_v(a), None))):
        out.append(unrelated(nm, mk, nm))
    for g in (POS1, POS2, POS3):
        for a in g:
            for b in g:
                if a != b and "Prolate" not in a:
                    if not thorough and len(g) > 2 and "CartesianPos3D" not in (a, b):
                        continue
                    out.append(crosspos(a, b))
    return out
