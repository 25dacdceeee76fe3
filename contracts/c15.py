"""C15: Galilean operators act by their definition on every kind of input."""
from __future__ import annotations

from .lib import *  # noqa: F403
from .ops import *  # noqa: F403
from .ops import Boost, Euler, Galilean, Ident, In, Rot, Shift, Shift4, VBoost, call, cxo


def acts(op, x, jit=False, mk=None, note=""):
    """op(input) is what the operator's definition says.

    Non-Cartesian inputs or parameters: modular -- the result is the operator's
    action on the Cartesian form (contracts here), re-represented (C01/C02)."""
    vs = op.vars() + x.vars()
    build = mk or op.mk
    cartop = getattr(op, "cart", op.mk)
    pos = getattr(op, "pos", "CartesianPos3D")
    same = isinstance(op, (Ident, VBoost)) and x.kind not in ("p", "vp")
    modular = same or not (x.cartesian and pos.startswith("Cart"))

    def run(a, meta):
        outs = {}
        x.put(outs, meta, "r", call(build(a), x.args(a), jit))
        return outs

    def ref(a, meta):
        outs = {}
        if same or isinstance(op, Ident):
            r = x.args(a)  # unchanged
            r = r if len(r) > 1 else r[0]
        elif isinstance(op, Galilean) and not x.cartesian:
            r = x.args(a)
            for p in op.parts:  # one member after another, each under its own contracts
                r = call(p.mk(a), r if isinstance(r, tuple) else (r,))
            r = r if not isinstance(r, tuple) or len(r) > 1 else r[0]
        else:
            r = call(cartop(a), x.args(a, cart=True))
            r = r if x.isq or x.kind == "p" else (x.args(a)[0], r[1]) if isinstance(op, VBoost) else x.back(r, a)
        x.put(outs, meta, "w", r)
        return outs

    def pre(v):
        out = op.pre(v) + x.pre(v)
        for s in inter(op, v, x.state(v)):
            out += x.good(s, v)
        return out

    def full(v, o, m):
        return x.same_state(x.read(o, m, "r"), op.act(v, x.state(v)), v, o, m, "r")

    def near(v, o, m):
        s0 = x.state(v)
        return x.near_state(x.read(o, m, "r"), op.act(v, s0), [s0, *inter(op, v, s0)], v, o, m, "r")

    def mod(v, o, m):
        r, w = x.comps(o, m, "r"), x.comps(o, m, "w")
        gs = [(f"as-cartesian[{c}]", alleq(r[c], w[c])) for c in r]
        if x.kind == "f":
            gs.append(("c", alleq(r["c"], phys1(v["c"], "km / s", "Quantity"))))
        return gs

    def static(m, w):
        return x.static(m, "r")

    s = x.sampler(op.vars())
    return Contract(f"{op.name}{note} on {x.name}{' jit' if jit else ''}", [f"{op.target}.__call__"], vs, run, mod if modular else full, pre, static=static,
                    ref=ref if modular else None, xpost=near if modular else None, samples=s and (lambda rng: s(rng)),
                    assumes=["C15 on non-Cartesian inputs: proved equal to the Cartesian action re-represented (contracts of C15 on Cartesian inputs, C01, C02)"] if modular else [])


def inputs(op, tier):
    """Inputs of every kind the operator takes."""
    out = []
    t = op.takes
    d = op.dims[0]
    profs = ("m-rad", "kpc-deg", "mixed")
    if d == 3:
        if "q" in t:
            out += [In("q"), In("q", prof="kpc-deg", shape=(2,)), In("q", shape=(2, 1))]
        if "q4" in t:
            out += [In("q4"), In("q4", prof="kpc-deg"), In("q4", shape=(2,))]
        if "qt" in t:
            out += [In("qt"), In("qt", prof="kpc-deg"), In("qt", shape=(2,)), In("qt", shape=(2,), tshape=(2,))]
        for k in ("v", "vt", "f"):
            if k not in t:
                continue
            for pos in POS3:
                out.append(In(k, pos, "m-rad"))
                if tier == "thorough" or pos == "CartesianPos3D" or (pos == "LonLatSphericalPos" and not isinstance(op, Galilean)):
                    out += [In(k, pos, p) for p in profs[1:]]
            out.append(In(k, "CylindricalPos", "m-rad", shape=(2,), tshape=(2,) if k == "vt" else ()))
            out.append(In(k, "CartesianPos3D", "mixed", shape=(2,)))
            if k != "v":
                out.append(In(k, "CartesianPos3D", "mixed", tunit="Gyr"))
            for pos, dist in (("LonLatSphericalPos", ("Parallax", "mas")), ("SphericalPos", ("DistanceModulus", "mag"))):
                if tier != "thorough" and (isinstance(op, Galilean) or k == "f"):
                    continue
                out.append(In(k, pos, "m-rad", dist=dist))
        if "vp" in t:
            out += [In("vp"), In("vp", "CartesianPos3D", "mixed")]
            if not isinstance(op, VBoost):
                out += [In("vp", "SphericalPos"), In("vp", "CylindricalPos"), In("vp", "CylindricalPos", vel="CartesianVel3D")]
            else:
                out += [In("vp", "SphericalPos", vel="CartesianVel3D")]
        if "p" in t:
            out += [In("p"), In("p", prof="mixed", shape=(2,))]
    else:
        C = CART[d]
        out += [In(k, C, p) for k in ("q", "qt", "v", "vt") for p in ("m-rad", "kpc-deg")]
        out += [In("q", C, shape=(2,)), In("v", C, "mixed", shape=(2,)), In("vp", C)]
        out += [In(k, {1: "RadialPos", 2: "PolarPos"}[d], p) for k in ("v", "vt") for p in ("m-rad", "kpc-deg")]
    return out


class FromEuler(Rot):
    """GalileanRotation.from_euler(seq, angles): extrinsic (lower case) or intrinsic (upper case) rotations."""

    def __init__(self, seq, unit, one=False):
        self.tag, self.seq, self.unit, self.one = "e", seq, unit, one
        self.name = f"from_euler({seq}, {unit})"

    def vars(self):
        hi = {"deg": 180.0, "rad": 3.1}[self.unit]
        return [Var("ea", () if self.one else (len(self.seq),), lo=-hi, hi=hi)]

    def mk(self, a):
        return cxo.GalileanRotation.from_euler(self.seq, Q(a["ea"], self.unit))

    def mat(self, v):
        ang = np.ravel(v["ea"])
        out = None
        for ch, t in zip(self.seq, ang, strict=True):
            t = fac(self.unit, "rad") * t
            c, s, z, o = tm.cos(t), tm.sin(t), tm.ZERO, tm.ONE
            m = np.array({"z": [[c, -s, z], [s, c, z], [z, z, o]], "x": [[o, z, z], [z, c, -s], [z, s, c]], "y": [[c, z, s], [z, o, z], [-s, z, c]]}[ch.lower()], dtype=object)
            out = m if out is None else (m @ out if self.seq.islower() else out @ m)
        return out


def contracts(tier):
    out = []
    rot, sh, s4, bo, vb, go = Rot(), Shift(), Shift4(), Boost(), VBoost(), Galilean()
    for op in (rot, sh, s4, bo, vb, go):
        out += [acts(op, x) for x in inputs(op, tier)]
    for pos in POS3[1:]:
        op = Shift(pos, "m-rad")
        out += [acts(op, In("v")), acts(op, In("q", prof="kpc-deg")), acts(op, In("vt"))]
        if pos in ("SphericalPos", "CylindricalPos"):
            out += [acts(op, In("v", "LonLatSphericalPos")), acts(op, In("f", "CylindricalPos"))]
    for op in (Shift4(pos="CylindricalPos", prof="m-rad"), Shift4(pos="SphericalPos", prof="kpc-deg", tunit="Gyr")):
        out += [acts(op, In("vt")), acts(op, In("f")), acts(op, In("q4")), acts(op, In("f", "LonLatSphericalPos"))]
    for op in (Shift("CartesianPos1D", "m-rad"), Shift("CartesianPos2D"), Shift("PolarPos", "m-rad")):
        out += [acts(op, x) for x in inputs(op, tier) if op.pos.startswith("Cart") or x.kind != "vp"]
    # a batch of operators' parameters
    out += [acts(Shift(shape=(2,)), In("v")), acts(Shift(shape=(2,)), In("v", shape=(2,))), acts(Shift4(shape=(2,)), In("f", shape=(2,)))]
    for op in (rot, sh, s4, bo, go):
        for x in (In("f", "SphericalPos"), In("vt"), In("q4")):
            out.append(acts(op, x, jit=True))
    out += [acts(rot, In("q"), jit=True), acts(rot, In("v", "LonLatSphericalPos"), jit=True), acts(sh, In("vp", "SphericalPos"), jit=True), acts(vb, In("vp"), jit=True)]
    for seq, unit, one in (("z", "deg", True), ("x", "rad", True), ("y", "deg", True), ("z", "rad", False), ("xyz", "deg", False), ("ZXZ", "rad", False), ("zy", "deg", False)):
        if len(seq) != 2:
            out.append(acts(FromEuler(seq, unit, one), In("q")))
    out += forms()
    out += [acts(Ident(), x) for x in (In("q"), In("v", "SphericalPos"), In("f", "CylindricalPos"), In("vt"), In("vp", "SphericalPos"), In("q4"), In("p"))]
    return out


def forms():
    """Other ways of building the operators."""
    out = []

    def arr(a, n):
        return jnp.stack([a[x] for x in n])

    s = Shift(prof="m-rad")
    for note, mk in ((" from_(quantity)", lambda a: cxo.GalileanSpatialTranslation.from_(Q(arr(a, ("s_x", "s_y", "s_z")), "m"))),
                     (" from_(array, unit)", lambda a: cxo.GalileanSpatialTranslation.from_(arr(a, ("s_x", "s_y", "s_z")), "m")),
                     ("(quantity)", lambda a: cxo.GalileanSpatialTranslation(Q(arr(a, ("s_x", "s_y", "s_z")), "m"))),
                     (" from_(operator)", lambda a: cxo.GalileanSpatialTranslation.from_(s.mk(a))),
                     (" neg neg", lambda a: -(-s.mk(a)))):
        out.append(acts(s, In("v"), mk=mk, note=note))
    s1, s2 = Shift("CartesianPos1D", "m-rad"), Shift("CartesianPos2D", "m-rad")
    out.append(acts(s1, In("v", "CartesianPos1D"), mk=lambda a: cxo.GalileanSpatialTranslation.from_(arr(a, ("s_x",)), "m"), note=" from_(array, unit)"))
    out.append(acts(s2, In("v", "CartesianPos2D"), mk=lambda a: cxo.GalileanSpatialTranslation.from_(arr(a, ("s_x", "s_y")), "m"), note=" from_(array, unit)"))
    b = Boost("m-rad")
    n = ("V_d_x", "V_d_y", "V_d_z")
    for note, mk in ((" from_(array, unit)", lambda a: cxo.GalileanBoost.from_(arr(a, n), "m/s")), ("(quantity)", lambda a: cxo.GalileanBoost(Q(arr(a, n), "m/s"))),
                     (" neg neg", lambda a: -(-b.mk(a)))):
        out.append(acts(b, In("vt"), mk=mk, note=note))
    vb = VBoost("m-rad")
    for note, mk in ((" from_(array, unit)", lambda a: cxo.VelocityBoost.from_(arr(a, n), "m/s")), ("(quantity)", lambda a: cxo.VelocityBoost(Q(arr(a, n), "m/s"))),
                     (" neg neg", lambda a: -(-vb.mk(a)))):
        out.append(acts(vb, In("vp"), mk=mk, note=note))
    r = Rot()
    for note, mk in (("(Quantity)", lambda a: cxo.GalileanRotation(Q(a["M"], ""))), (" from_(mapping)", lambda a: cxo.GalileanRotation.from_({"rotation": a["M"]})),
                     (" neg neg", lambda a: -(-r.mk(a)))):
        out.append(acts(r, In("v"), mk=mk, note=note))

    class Mat(Rot):
        name = "Rotation @ Rotation"

        def vars(self):
            return [Var("M", (3, 3)), Var("N", (3, 3))]

        def mk(self, a):
            return cxo.GalileanRotation(a["M"]) @ cxo.GalileanRotation(a["N"])

        def mat(self, v):
            return v["M"] @ v["N"]

    out.append(acts(Mat(), In("v")))
    t4 = Shift4("m-rad", tunit="s")
    out.append(acts(t4, In("vt"), mk=lambda a: cxo.GalileanTranslation(Q(jnp.stack([299792458.0 * a["tau"], a["T_x"], a["T_y"], a["T_z"]]), "m")), note="(quantity)"))
    out.append(acts(t4, In("vt"), mk=lambda a: cxo.GalileanTranslation.from_(jnp.stack([299792458.0 * a["tau"], a["T_x"], a["T_y"], a["T_z"]]), "m"), note=" from_(array, unit)"))
    g = Galilean(Rot("g_"), Shift4("m-rad", tag="g_", tunit="s"), Boost("m-rad", tag="g_"))
    gn = ("g_V_d_x", "g_V_d_y", "g_V_d_z")
    out.append(acts(g, In("f"), mk=lambda a: cxo.GalileanOperator(rotation=a["g_M"], translation=g.parts[1].mk(a), velocity=Q(arr(a, gn), "m/s")), note=" from parts"))
    # defaults
    for which in ((0,), (1,), (2,), (0, 1), (0, 2), (1, 2), ()):
        sub = Pipe_(*[g.parts[i] for i in which])
        names = ("rotation", "translation", "velocity")
        out.append(acts(sub, In("f"), mk=lambda a, w=which: cxo.GalileanOperator(**{names[i]: g.parts[i].mk(a) for i in w}), note=f" as GalileanOperator with only {which}"))
    return out


def Pipe_(*parts):
    from .ops import Pipe as P
    p = P(*parts)
    p.takes = ("f", "q4", "qt", "vt")
    p.dims = (3,)
    return p


_ = Euler, cd
