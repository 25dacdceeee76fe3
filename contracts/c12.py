"""C12: an operator's inverse undoes it.

Cartesian inputs: proved outright.  Other representations: proved equal to the
Cartesian round trip re-represented (and compared directly on executions).
"""
from __future__ import annotations

from . import c16 as frames
from .lib import *  # noqa: F403
from .lib import norm2
from .ops import *  # noqa: F403
from .ops import ANGULAR, AxisRot, Boost, Euler, Galilean, Ident, In, Pipe, Rot, Shift, Shift4, VBoost, call, cxo


class Improper(Euler):
    """An orthogonal matrix of determinant -1: minus a proper rotation."""

    name = "Rotation(improper)"

    def mk(self, a):
        return cxo.GalileanRotation(-super().mk(a).rotation)

    def mat(self, v):
        return -super().mat(v)



ORDERS = {
    "inverse(op(x))": lambda op: (op, op.inverse),
    "op(inverse(x))": lambda op: (op.inverse, op),
}


def seq(ops, args, jit=False):
    def go(ops, args):
        r = args
        for op in ops:
            r = call(op, r if isinstance(r, tuple) else (r,))
        return r

    return jax.jit(go)(ops, args) if jit else go(ops, args)


def unit(r):
    return r[0] if isinstance(r, tuple) and len(r) == 1 else r


def members(o):
    """Real operator -> its real members, in order of application."""
    if isinstance(o, cxo.Pipe):
        return [m for p in o.operators for m in members(p)]
    if isinstance(o, cxo.GalileanOperator):
        return [o.rotation, o.translation, o.velocity]
    return [o]


def cartop(o):
    """The same operator with its parameters in Cartesian form (C15 on non-Cartesian parameters)."""
    C = {1: V.CartesianPos1D, 2: V.CartesianPos2D, 3: V.CartesianPos3D}
    if isinstance(o, cxo.GalileanSpatialTranslation):
        return cxo.GalileanSpatialTranslation(o.translation.represent_as(C[len(o.translation.components)]))
    if isinstance(o, cxo.GalileanTranslation):
        f = o.translation
        return cxo.GalileanTranslation(V.FourVector(t=f.t, q=f.q.represent_as(V.CartesianPos3D), c=f.c))
    return o


def step(o, x, r, a):
    """The operator on the Cartesian form of `r`, in the representation of the input."""
    conv = (lambda y: y) if x.pos.startswith("Cart") else (lambda y: y.represent_as(cls(CART[x.dim])))
    if x.isq or x.kind == "p":
        return seq([cartop(o)], r if isinstance(r, tuple) else (r,))
    if isinstance(r, tuple) and len(r) == 1:
        r = r[0]
    if isinstance(o, cxo.Identity) or (isinstance(o, cxo.VelocityBoost) and x.kind != "vp"):
        return r  # C15: unchanged
    if x.kind == "v":
        c = (conv(r),)
    elif x.kind == "vt":
        c = (conv(r[0]), r[1])
    elif x.kind == "f":
        c = (V.FourVector(t=r.t, q=conv(r.q), c=r.c),)
    else:
        q = conv(r[0])
        c = (q, r[1] if x.vel.startswith("Cart") else r[1].represent_as(cls(VEL[CART[x.dim]]), r[0]))
    return x.back(seq([cartop(o)], c), a)


def flat(op):
    return [q for p in op.parts for q in flat(p)] if isinstance(op, Galilean) else [op]


def path(op, v, s0, order):
    """Spec: every state visited."""
    out = [s0]
    for which in (("f", "b") if order == "inverse(op(x))" else ("b", "f")):
        for p in flat(op) if which == "f" else reversed(flat(op)):
            out.append(p.act(v, out[-1]) if which == "f" else undo(p, v, out[-1]))
    return out


def undoes(op, x, order, jit=False, note=""):
    vs = op.vars() + x.vars()
    modular = not (x.cartesian and all(getattr(p, "pos", "Cart").startswith("Cart") for p in flat(op)))
    pair = ORDERS[order]

    def run(a, meta):
        outs = {}
        x.put(outs, meta, "r", seq(pair(op.mk(a)), x.args(a), jit))
        return outs

    def ref(a, meta):
        outs = {}
        r = x.args(a)
        fwd = [m for p in flat(op) for m in members(p.mk(a))]
        bwd = [m.inverse for m in reversed(fwd)]
        for m in (fwd + bwd) if order == "inverse(op(x))" else (bwd + fwd):
            r = step(m, x, r, a)
        x.put(outs, meta, "w", unit(r))
        return outs

    def pre(v):
        out = op.pre(v) + x.pre(v)
        for p in flat(op):  # an offset's coordinates are regular
            if hasattr(p, "off") and p.pos in ANGULAR:
                out += [tm.gt(norm2([el(c) for c in p.off(v)]), tm.ZERO)]
            elif hasattr(p, "pos") and p.pos in ANGULAR:
                z = {"q": [tm.ZERO] * 3, "t": tm.ZERO}
                out += [tm.gt(norm2([el(c) for c in p.act(v, z)["q"]]), tm.ZERO)]
        for s in path(op, v, x.state(v), order)[1:]:
            out += x.good(s, v)
        return out

    def full(v, o, m):
        return x.same_point(x.comps(o, m, "r"), x.given(v))

    def near(v, o, m):
        ss = path(op, v, x.state(v), order)
        r = x.read(o, m, "r")
        gs = x.near_state(r, ss[0], ss, v, o, m, "r")
        if "t" in r:
            size = sum((tabs(s["t"]) for s in ss[1:]), tabs(ss[0]["t"]))
            gs = [g for g in gs if g[0] != "t"] + [("t", conj(tle(tabs(r["t"] - ss[0]["t"]), tm.num(1e-6) * size)))]
        return gs

    def mod(v, o, m):
        r, w = x.comps(o, m, "r"), x.comps(o, m, "w")
        return [(f"stepwise-cartesian[{c}]", alleq(r[c], w[c])) for c in r]

    s = x.sampler(op.vars())
    return Contract(f"{order}: {op.name}{note} on {x.name}{' jit' if jit else ''}", [f"{op.target}.inverse", f"{op.target}.__call__"], vs, run, mod if modular else full, pre,
                    static=lambda m, w: x.static(m, "r"), ref=ref if modular else None, xpost=near, xonly=True, samples=s and (lambda rng: s(rng)),
                    assumes=["C12 on non-Cartesian inputs or parameters: proved equal to the members and their inverses on the Cartesian form, one by one; the round trip then follows from "
                             "C12 on Cartesian inputs and the round trips of C01, C02, C06"] if modular else [])


def undo_states(op, v, s):
    """Spec: the states visited while applying the inverse."""
    if isinstance(op, Galilean):
        out = []
        for p in reversed(op.parts):
            sub = undo_states(p, v, s)
            out += sub
            s = sub[-1] if sub else s
        return out
    return [undo(op, v, s)]


def undo(op, v, s):
    if isinstance(op, Rot):
        M = op.mat(v)
        return {**s, "q": [M[0, i] * s["q"][0] + M[1, i] * s["q"][1] + M[2, i] * s["q"][2] for i in range(3)]}
    if isinstance(op, VBoost):
        return {**s, "p": [x - d for x, d in zip(s["p"], op.vel(v), strict=True)]} if "p" in s else s
    if isinstance(op, Ident):
        return s
    if isinstance(op, Boost):
        return {**s, "q": [x - d * s["t"] for x, d in zip(s["q"], op.vel(v), strict=True)]}
    zero = {k: ([tm.ZERO] * len(y) if isinstance(y, list) else tm.ZERO) for k, y in s.items()}
    d = op.act(v, {**zero, "q": [x * 0 for x in s["q"]]} | ({"t": s["t"] * 0} if "t" in s else {}))
    out = {**s, "q": [x - y for x, y in zip(s["q"], d["q"], strict=True)]}
    if "t" in s:
        out["t"] = s["t"] - d["t"]
    return out


def acts_as(op, x, note=""):
    """op.inverse is what undoes op: its action is the spec's; and inverse of inverse acts as op."""
    vs = op.vars() + x.vars()

    def run(a, meta):
        outs = {}
        o = op.mk(a)
        x.put(outs, meta, "r", call(o.inverse.inverse, x.args(a)))
        x.put(outs, meta, "i", call(o.inverse, x.args(a)))
        return outs

    def pre(v):
        out = op.pre(v) + x.pre(v)
        s0 = x.state(v)
        for s in [*inter(op, v, s0), *undo_states(op, v, s0)]:
            out += x.good(s, v)
        return out

    def post(v, o, m):
        s0 = x.state(v)
        return ([("inverse.inverse: " + n, g) for n, g in x.same_state(x.read(o, m, "r"), op.act(v, s0), v, o, m, "r")]
                + [("inverse: " + n, g) for n, g in x.same_state(x.read(o, m, "i"), (undo_states(op, v, s0) or [s0])[-1], v, o, m, "i")])

    return Contract(f"inverse and inverse.inverse: {op.name}{note} on {x.name}", [f"{op.target}.inverse"], vs, run, post, pre,
                    static=lambda m, w: x.static(m, "r") + x.static(m, "i"))


def inputs(op, tier, order="inverse(op(x))"):
    out = []
    t, d = op.takes, op.dims[0]
    deep = tier == "thorough"
    comp = isinstance(op, Galilean)
    if d == 3:
        for k in ("q", "q4", "qt"):
            if k in t:
                out += [In(k)] + ([In(k, prof="kpc-deg")] if deep or not comp else [])
        for k in ("v", "vt", "f"):
            if k in t:
                first = order == "inverse(op(x))"
                ps = POS3 if deep or (k == "v" and not comp and first) else ["CartesianPos3D"] + ([] if comp and k == "vt" else ["CylindricalPos"] if k == "f" else ["LonLatSphericalPos"])
                out += [In(k, p) for p in ps]
                if deep or not comp:
                    out += [In(k, "CartesianPos3D", "mixed", shape=(2,))]
                if deep:
                    out += [In(k, p, prof) for p in ps for prof in ("kpc-deg", "mixed")]
        if "vp" in t:
            out += [In("vp"), In("vp", "CartesianPos3D", "mixed")]
            if not any(isinstance(p, VBoost) for p in flat(op)) and (deep or not comp):
                out += [In("vp", "CylindricalPos", vel="CartesianVel3D")] + ([In("vp", "CylindricalPos")] if deep else [])
        if "p" in t:
            out.append(In("p"))
    else:
        C = CART[d]
        out += [In(k, C) for k in ("q", "qt", "v", "vt")] + [In("vp", C)]
        out += [In(k, {1: "RadialPos", 2: "PolarPos"}[d], p) for k in ("v", "vt") for p in ("m-rad", "kpc-deg")]
    return out


def contracts(tier):
    out = []
    deep = tier == "thorough"
    sh, s4, bo, vb = Shift(prof="m-rad"), Shift4("m-rad", tunit="s"), Boost("m-rad"), VBoost("m-rad")

    def S(tag):
        return Shift(prof="m-rad", tag=tag)

    def T(tag):
        return Shift4("m-rad", tunit="s", tag=tag)

    def B(tag):
        return Boost("m-rad", tag=tag)

    go = Galilean(Euler("g_"), T("g_"), B("g_"))
    go1 = Galilean(AxisRot("y", "g_"), T("g_"), B("g_"))
    pipes = [Pipe(Euler("a"), S("b")), Pipe(S("b"), AxisRot("x", "a")), Pipe(T("a"), B("b")), Pipe(B("b"), T("a"), AxisRot("z", "c")),
             Pipe(S("a"), VBoost("m-rad", tag="b"), Ident()), Pipe(go1, S("b"))]
    for order in ORDERS:
        for op in (Euler("a"), Improper("a"), sh, s4, bo, vb, Ident()):
            xs = inputs(op, tier, order)
            out += [undoes(op, x, order) for x in xs if deep or op.name != "Rotation(improper)" or x.cartesian]
        for op in (go, *pipes):
            out += [undoes(op, x, order) for x in inputs(op, tier, order)]
        for op in (Shift(), Shift4(), Boost()):  # parameters in other units
            out += [undoes(op, x, order) for x in (In("vt"), In("vt", "LonLatSphericalPos", "kpc-deg"), In("q4"))]
        for op in (Shift("SphericalPos", "m-rad"), Shift("CylindricalPos", "m-rad"), Shift("LonLatSphericalPos", "mixed"), Shift4(pos="CylindricalPos", prof="m-rad", tunit="s"),
                   Shift4(pos="SphericalPos", prof="kpc-deg", tunit="Gyr")):
            out += [undoes(op, x, order) for x in ((In("v"), In("q", prof="kpc-deg")) if op.target == "GalileanSpatialTranslation" else (In("vt"), In("f"), In("q4")))]
        for op in (Shift("CartesianPos1D", "m-rad"), Shift("CartesianPos2D", "m-rad"), Shift("PolarPos", "m-rad")):
            out += [undoes(op, x, order) for x in inputs(op, tier, order) if op.pos.startswith("Cart") or x.kind != "vp"]
        for op in (Euler("a"), sh, s4, bo, go1):
            if "f" in op.takes:
                out += [undoes(op, In("f"), order, jit=True), undoes(op, In("q4"), order, jit=True)]
    for op in (Rot(), sh, s4, bo, vb, Ident(), Galilean(), Pipe(Rot("a"), Shift(tag="b")), Pipe(Shift4(tag="a"), Boost(tag="b"), Rot("c")), Pipe(Shift(tag="a"), VBoost(tag="b"))):
        for x in (In("q"), In("v", prof="kpc-deg"), In("vt", prof="mixed"), In("f"), In("q4"), In("qt"), In("vp"), In("p")):
            if x.kind in op.takes:
                out.append(acts_as(op, x))
    for fr in (frames.Frame("deg"), frames.Default()):  # frame transformations are operators too
        for way in ("fwd", "bwd"):
            out += [frames.roundtrip(fr, x, way, "inverse") for x in (frames.Arg("q"), frames.Arg("qp"), frames.Arg("vv"))]
    return out
