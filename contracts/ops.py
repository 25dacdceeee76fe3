"""Operators and the inputs they accept: builders and spec functions (C12-C15).

Spec state (SI): q -- Cartesian coordinates, t -- time, p -- Cartesian velocity.
"""
from __future__ import annotations

from coordinax import ops as cxo

from .lib import *  # noqa: F403
from .lib import cd, norm2

C0 = tm.num(299792458)
ANGULAR = {"SphericalPos", "MathSphericalPos", "LonLatSphericalPos"}


def secs(x, unit):
    return phys1(x, unit, "Quantity")


# -- operators -----------------------------------------------------------------


class Op:
    """An operator: `mk(a)` builds the real one, `act(v, s)` is what it must do."""

    takes = ()  # kinds of input

    def __init__(self, tag=""):
        self.tag = tag

    def pre(self, v):
        return []

    def sample(self, rng, out):
        pass


class Rot(Op):
    """x -> M x, with every entry of the matrix free."""

    target = "GalileanRotation"
    takes = ("q", "v", "f", "q4", "qt", "vt")
    dims = (3,)
    name = "Rotation"

    def vars(self):
        return [Var(self.tag + "M", (3, 3))]

    def mk(self, a):
        return cxo.GalileanRotation(a[self.tag + "M"])

    def mat(self, v):
        return v[self.tag + "M"]

    def act(self, v, s):
        M = self.mat(v)
        return {**s, "q": [M[i, 0] * s["q"][0] + M[i, 1] * s["q"][1] + M[i, 2] * s["q"][2] for i in range(3)]}


class Euler(Rot):
    """A proper rotation Rz(c) Rx(b) Rz(a): every element of SO(3) has this form."""

    name = "Rotation(Euler)"

    def vars(self):
        return [Var(self.tag + x, (), lo=-4.0, hi=4.0) for x in "abc"]

    def mk(self, a):
        def rz(t):
            c, s = jnp.cos(t), jnp.sin(t)
            z, o = jnp.zeros_like(c), jnp.ones_like(c)
            return jnp.stack([jnp.stack([c, -s, z]), jnp.stack([s, c, z]), jnp.stack([z, z, o])])

        def rx(t):
            c, s = jnp.cos(t), jnp.sin(t)
            z, o = jnp.zeros_like(c), jnp.ones_like(c)
            return jnp.stack([jnp.stack([o, z, z]), jnp.stack([z, c, -s]), jnp.stack([z, s, c])])

        return cxo.GalileanRotation(rz(a[self.tag + "c"]) @ rx(a[self.tag + "b"]) @ rz(a[self.tag + "a"]))

    def mat(self, v):
        def m(t, ax):
            c, s = tm.cos(el(t)), tm.sin(el(t))
            z, o = tm.ZERO, tm.ONE
            return np.array([[c, -s, z], [s, c, z], [z, z, o]] if ax == "z" else [[o, z, z], [z, c, -s], [z, s, c]], dtype=object)

        return m(v[self.tag + "c"], "z") @ m(v[self.tag + "b"], "x") @ m(v[self.tag + "a"], "z")


class AxisRot(Rot):
    """A rotation about a coordinate axis."""

    def __init__(self, ax="z", tag=""):
        self.tag, self.ax = tag, ax
        self.name = f"Rotation({ax})"

    def vars(self):
        return [Var(self.tag + "a", (), lo=-4.0, hi=4.0)]

    def mk(self, a):
        t = a[self.tag + "a"]
        c, s = jnp.cos(t), jnp.sin(t)
        z, o = jnp.zeros_like(c), jnp.ones_like(c)
        m = {"z": [[c, -s, z], [s, c, z], [z, z, o]], "x": [[o, z, z], [z, c, -s], [z, s, c]], "y": [[c, z, s], [z, o, z], [-s, z, c]]}[self.ax]
        return cxo.GalileanRotation(jnp.stack([jnp.stack(r) for r in m]))

    def mat(self, v):
        t = el(v[self.tag + "a"])
        c, s, z, o = tm.cos(t), tm.sin(t), tm.ZERO, tm.ONE
        return np.array({"z": [[c, -s, z], [s, c, z], [z, z, o]], "x": [[o, z, z], [z, c, -s], [z, s, c]], "y": [[c, z, s], [z, o, z], [-s, z, c]]}[self.ax], dtype=object)


class Shift(Op):
    """q -> q + s, with the offset given in any representation."""

    target = "GalileanSpatialTranslation"
    takes = ("q", "v", "f", "q4", "qt", "vt", "vp")

    def __init__(self, pos="CartesianPos3D", prof="mixed", tag="", shape=()):
        self.tag, self.pos, self.prof, self.shape = tag, pos, prof, shape
        self.dims = (DIM[pos],)
        self.name = f"Translation({pos}{list(shape) if shape else ''} {prof})"

    def vars(self):
        return posvars(self.pos, self.prof, tag=self.tag + "s_", shape=self.shape)

    def mk(self, a):
        return cxo.GalileanSpatialTranslation(mkpos(self.pos, a, self.prof, tag=self.tag + "s_"))

    def cart(self, a):
        return cxo.GalileanSpatialTranslation(mkpos(self.pos, a, self.prof, tag=self.tag + "s_").represent_as(cls(CART[DIM[self.pos]])))

    def pre(self, v):
        return in_range(self.pos, v, self.prof, tag=self.tag + "s_")

    def off(self, v):
        return to_cart(self.pos, physin(v, self.pos, self.prof, tag=self.tag + "s_"))

    def act(self, v, s):
        return {**s, "q": [x + d for x, d in zip(s["q"], self.off(v), strict=True)]}


class Shift4(Op):
    """(t, q) -> (t + tau, q + s)."""

    target = "GalileanTranslation"
    takes = ("f", "q4", "qt", "vt")
    dims = (3,)

    def __init__(self, prof="mixed", tag="", pos="CartesianPos3D", tunit="yr", shape=()):
        self.tag, self.prof, self.pos, self.tunit, self.shape = tag, prof, pos, tunit, shape
        self.name = f"Translation4({pos}{list(shape) if shape else ''} {prof} {tunit})"

    def vars(self):
        return [Var(self.tag + "tau", self.shape), *posvars(self.pos, self.prof, tag=self.tag + "T_", shape=self.shape)]

    def mk(self, a):
        return cxo.GalileanTranslation(V.FourVector(t=Q(a[self.tag + "tau"], self.tunit), q=mkpos(self.pos, a, self.prof, tag=self.tag + "T_")))

    def cart(self, a):
        return cxo.GalileanTranslation(V.FourVector(t=Q(a[self.tag + "tau"], self.tunit), q=mkpos(self.pos, a, self.prof, tag=self.tag + "T_").represent_as(cx.vecs.CartesianPos3D)))

    def pre(self, v):
        return in_range(self.pos, v, self.prof, tag=self.tag + "T_")

    def act(self, v, s):
        off = to_cart(self.pos, physin(v, self.pos, self.prof, tag=self.tag + "T_"))
        return {**s, "t": s["t"] + secs(v[self.tag + "tau"], self.tunit), "q": [x + d for x, d in zip(s["q"], off, strict=True)]}


class Boost(Op):
    """q -> q + V t."""

    target = "GalileanBoost"
    takes = ("f", "q4", "qt", "vt")
    dims = (3,)

    def __init__(self, prof="mixed", tag=""):
        self.tag, self.prof = tag, prof
        self.name = f"Boost({prof})"

    def vars(self):
        return dvars("CartesianVel3D", self.prof, 1, tag=self.tag + "V_")

    def mk(self, a):
        return cxo.GalileanBoost(mkdiff("CartesianVel3D", a, self.prof, 1, tag=self.tag + "V_"))

    def vel(self, v):
        d = strip_d(physd(v, "CartesianVel3D", self.prof, 1, tag=self.tag + "V_"))
        return [d[c] for c in "xyz"]

    def act(self, v, s):
        return {**s, "q": [x + d * s["t"] for x, d in zip(s["q"], self.vel(v), strict=True)]}


class VBoost(Boost):
    """p -> p + V, position and time unchanged."""

    target = "VelocityBoost"
    takes = ("q", "v", "f", "q4", "qt", "vt", "vp", "p")

    def __init__(self, prof="mixed", tag=""):
        super().__init__(prof, tag)
        self.name = f"VelocityBoost({prof})"

    def mk(self, a):
        return cxo.VelocityBoost(mkdiff("CartesianVel3D", a, self.prof, 1, tag=self.tag + "V_"))

    def act(self, v, s):
        if "p" not in s:
            return s
        return {**s, "p": [x + d for x, d in zip(s["p"], self.vel(v), strict=True)]}


class Ident(Op):
    target = "Identity"
    takes = ("q", "v", "f", "q4", "qt", "vt", "vp", "p")
    dims = (1, 2, 3)
    name = "Identity"

    def vars(self):
        return []

    def mk(self, a):
        return cxo.Identity()

    def act(self, v, s):
        return s


class Galilean(Op):
    """Rotation, then translation, then boost."""

    target = "GalileanOperator"
    takes = ("f", "q4", "qt", "vt")
    dims = (3,)

    def __init__(self, rot=None, tr=None, bo=None):
        self.tag = ""
        self.parts = [rot or Rot("g_"), tr or Shift4(tag="g_"), bo or Boost(tag="g_")]
        self.name = "Galilean(" + ", ".join(p.name for p in self.parts) + ")"

    def vars(self):
        return [x for p in self.parts for x in p.vars()]

    def mk(self, a):
        r, t, b = (p.mk(a) for p in self.parts)
        return cxo.GalileanOperator(rotation=r, translation=t, velocity=b)

    def pre(self, v):
        return [x for p in self.parts for x in p.pre(v)]

    def act(self, v, s):
        for p in self.parts:
            s = p.act(v, s)
        return s

    def states(self, v, s):
        out = [s]
        for p in self.parts:
            out.append(p.act(v, out[-1]))
        return out


class Pipe(Galilean):
    target = "Pipe"
    def __init__(self, *parts):
        self.tag = ""
        self.parts = list(parts)
        self.takes = tuple(k for k in ("q", "v", "f", "q4", "qt", "vt", "vp", "p") if all(k in p.takes for p in parts))
        self.dims = tuple(d for d in (1, 2, 3) if all(d in p.dims for p in parts))
        self.name = "Pipe(" + ", ".join(p.name for p in self.parts) + ")"

    def mk(self, a):
        return cxo.Pipe(tuple(p.mk(a) for p in self.parts))


def inter(op, v, s):
    """Intermediate states, the last one included."""
    if isinstance(op, Galilean):
        out = []
        for p in op.parts:
            sub = inter(p, v, s)
            out += sub
            s = sub[-1] if sub else s
        return out
    return [op.act(v, s)]


# -- inputs ----------------------------------------------------------------------


class In:
    """An input of kind q, v, f, q4, qt, vt, vp or p.

    pos: representation of the position ('Quantity' for plain arrays)."""

    def __init__(self, kind, pos="CartesianPos3D", prof="m-rad", dist=None, shape=(), tshape=(), vel=None, tunit=None):
        self.kind, self.pos, self.prof, self.shape, self.tshape = kind, pos, prof, tuple(shape), tuple(tshape)
        self.kinds = {radial_comp(pos): dist} if dist else {}
        self.vel = vel or (VEL[pos] if kind in ("vp", "p") else None)
        self.tunit = tunit or UNITS[prof]["T"]
        self.dim = DIM[pos]
        self.isq = kind in ("q", "qt", "q4")
        self.cartesian = pos == CART[self.dim] and (self.vel is None or self.vel.startswith("Cartesian"))
        self.unit = UNITS[prof]["L"]
        self.name = f"{kind}:{pos}{'<' + dist[0] + '>' if dist else ''}{' & ' + self.vel if self.vel else ''} {prof}" + (f" {list(self.shape)}" if shape else "") + (f" t{list(self.tshape)}" if tshape else "") + (f" {tunit}" if tunit else "")

    def vars(self):
        vs = []
        if self.kind == "q4":
            vs.append(Var("w", self.shape))
        if self.kind != "p":
            vs += kindvars(posvars(self.pos, self.prof, shape=self.shape), self.kinds)
        if self.kind in ("f", "qt", "vt"):
            vs.append(Var("t", self.tshape or (self.shape if self.kind == "f" else ())))
        if self.kind == "f":
            vs.append(Var("c", (), lo=0.5))
        if self.kind in ("vp", "p"):
            vs += dvars(self.vel, self.prof, 1, tag="p_", shape=self.shape)
        return vs

    def sampler(self, extra):
        vs = self.vars()
        s = None if self.kind == "p" else sample_pos(vs, self.pos)
        if s is None:
            return None

        def go(rng):
            return s(rng) | {x.name: x.sample(rng) for x in extra}

        return go

    def position(self, a):
        mk = {c: (lambda x, ty=ty, unit=unit: getattr(cd, ty)(x, unit)) for c, (ty, unit) in self.kinds.items()}
        return mkpos(self.pos, a, self.prof, kinds=mk)

    def args(self, a, cart=False):
        """The arguments; `cart`: the same point, with Cartesian position (and velocity)."""
        k = self.kind
        if k == "p":
            return (mkdiff(self.vel, a, self.prof, 1, tag="p_"),)
        if self.isq:
            q = jnp.stack([a[c] for c, _ in COMPS[self.pos]], axis=-1)
            if k == "q4":
                q = jnp.concatenate([a["w"][..., None], q], axis=-1)
            x = Q(q, self.unit)
        else:
            x = self.position(a)
            x0 = x
            if cart and not self.pos.startswith("Cart"):
                x = x.represent_as(cls(CART[self.dim]))
        if k in ("qt", "vt"):
            return (x, Q(a["t"], self.tunit))
        if k == "f":
            return (V.FourVector(t=Q(a["t"], self.tunit), q=x, c=Q(a["c"], "km/s")),)
        if k == "vp":
            p = mkdiff(self.vel, a, self.prof, 1, tag="p_")
            if cart and not self.vel.startswith("Cart"):
                p = p.represent_as(cls(VEL[CART[self.dim]]), x)
            return (x, p)
        return (x,)

    def back(self, r, a):
        """Re-represent the result of the Cartesian call in the input's representation."""
        x = self.position(a)
        k = {"Delta": x.Delta} if self.pos == "ProlateSpheroidalPos" else {}
        conv = (lambda y: y) if self.pos.startswith("Cart") else (lambda y: y.represent_as(cls(self.pos), **k))
        if self.kind == "v":
            return conv(r)
        if self.kind == "vt":
            return conv(r[0]), r[1]
        if self.kind == "f":
            return V.FourVector(t=r.t, q=conv(r.q), c=r.c)
        if self.kind == "vp":
            y = conv(r[0])
            return y, r[1] if self.vel.startswith("Cart") else r[1].represent_as(cls(self.vel), y)
        raise KeyError(self.kind)

    def pre(self, v):
        if self.kind == "p":
            return []
        ps = in_range(self.pos, v, self.prof)
        for c, (ty, _u) in self.kinds.items():
            if ty == "DistanceModulus":
                ps = [p for p in ps if p not in [tm.le(tm.ZERO, x) for x in v[c].ravel()]]
        ps += kindpre(v, self.kinds)
        if self.kind == "f":
            ps.append(el(v["c"]) > 0)
        if self.kind == "vp" and not self.cartesian:
            ps += interior(self.pos, physin(v, self.pos, self.prof, kinds=self.kinds))
        return ps

    def state(self, v):
        s = {}
        if self.kind == "p":
            d = strip_d(physd(v, self.vel, self.prof, 1, tag="p_"))
            return {"p": [d[c] for c, _ in COMPS[self.pos]]}
        q = physin(v, self.pos, self.prof, kinds=self.kinds)
        s["q"] = to_cart(self.pos, q)
        if self.kind == "q4":
            s["t"] = phys1(v["w"], self.unit, "Quantity") / C0
        if self.kind in ("qt", "vt", "f"):
            s["t"] = secs(v["t"], self.tunit)
        if self.kind == "vp":
            s["p"] = push(INT[self.vel], q, strip_d(physd(v, self.vel, self.prof, 1, tag="p_")))
        return s

    def good(self, s, v):
        """The state is a point at which this representation's coordinates are defined."""
        if self.kind == "p" or self.isq:
            return []
        ps = []
        xyz = [np.ravel(x) for x in np.broadcast_arrays(*[np.asarray(x, dtype=object) for x in s["q"]])]
        for x in zip(*xyz, strict=True):
            if self.kind == "vp" and not self.pos.startswith("Cart"):
                ps += regular_cart([np.asarray(c, dtype=object) for c in x], [self.pos])
            elif self.pos in ANGULAR:
                ps.append(tm.gt(norm2(x), tm.ZERO))
            elif self.pos == "RadialPos":
                ps.append(tm.ge(x[0], tm.ZERO))
            elif self.pos == "ProlateSpheroidalPos":
                D = el(phys1(v["Delta"], UNITS[self.prof]["L"], "Quantity"))
                ps.append(tm.or_(tm.gt(x[0] * x[0] + x[1] * x[1], tm.ZERO), tm.ne(x[2] * x[2], D * D)))
        return ps

    # observation of a result -------------------------------------------------

    def put(self, outs, meta, k, r):
        meta[k] = dict(n=type(r).__name__ if not isinstance(r, tuple) else tuple(type(x).__name__.split("[")[0] for x in r))
        kind = self.kind
        if kind in ("q", "q4"):
            put_q(outs, meta, k + ".q", r)
        elif kind == "qt":
            put_q(outs, meta, k + ".q", r[0])
            put_q(outs, meta, k + ".t", r[1])
        elif kind == "v":
            put(outs, meta, k + ".q", r)
        elif kind == "vt":
            put(outs, meta, k + ".q", r[0])
            put_q(outs, meta, k + ".t", r[1])
        elif kind == "f":
            put(outs, meta, k + ".q", r.q)
            put_q(outs, meta, k + ".t", r.t)
            put_q(outs, meta, k + ".c", r.c)
        elif kind == "vp":
            put(outs, meta, k + ".q", r[0])
            put(outs, meta, k + ".p", r[1])
        else:
            put(outs, meta, k + ".p", r)

    def static(self, m, k):
        """The result has the same form as the input."""
        kind = self.kind
        out = []
        if kind in ("q", "q4"):
            out.append(("form", m[k]["n"].split("[")[0] == "Quantity", str(m[k]["n"])))
        elif kind in ("qt", "vt", "vp"):
            out.append(("form", isinstance(m[k]["n"], tuple) and len(m[k]["n"]) == 2 and (kind != "qt" or m[k]["n"][0] == "Quantity"), str(m[k]["n"])))
        elif kind == "f":
            out.append(("form", m[k]["n"] == "FourVector", str(m[k]["n"])))
        if f"{k}.q" in m and not self.isq:
            out.append(("representation", m[k + ".q"]["cls"] == self.pos, m[k + ".q"]["cls"]))
        if f"{k}.p" in m:
            out.append(("vel-representation", m[k + ".p"]["cls"] == self.vel, m[k + ".p"]["cls"]))
        return out

    def comps(self, o, m, k):
        """Everything observed, in SI, by label."""
        out = {}
        if f"{k}.q" in m:
            if self.isq:
                x = phys1(o[k + ".q"], m[k + ".q"]["unit"], "Quantity")
                if self.kind == "q4":
                    out["w"] = x[..., 0]
                    x = x[..., 1:]
                for i, (c, _) in enumerate(COMPS[self.pos]):
                    out[c] = x[..., i]
                n = x.shape[-1]
                if n != self.dim:
                    raise ValueError(f"last axis has length {n}")
            else:
                out |= phys(o, m, k + ".q")
        if f"{k}.t" in m:
            out["t"] = secs(o[k + ".t"], m[k + ".t"]["unit"])
        if f"{k}.c" in m:
            out["c"] = phys1(o[k + ".c"], m[k + ".c"]["unit"], "Quantity")
        if f"{k}.p" in m:
            out |= {"d_" + c: x for c, x in strip_d(phys(o, m, k + ".p")).items()}
        return out

    def given(self, v):
        """The input itself, in SI, by label."""
        out = {}
        if self.kind != "p":
            out |= physin(v, self.pos, self.prof, kinds=self.kinds)
        if self.kind == "q4":
            out["w"] = phys1(v["w"], self.unit, "Quantity")
        if self.kind in ("qt", "vt", "f"):
            out["t"] = secs(v["t"], self.tunit)
        if self.kind == "f":
            out["c"] = phys1(v["c"], "km / s", "Quantity")
        if self.kind in ("vp", "p"):
            out |= {"d_" + c: x for c, x in strip_d(physd(v, self.vel, self.prof, 1, tag="p_")).items()}
        return out

    def read(self, o, m, k):
        """The state denoted by an observed result."""
        c = self.comps(o, m, k)
        s = {}
        if self.kind != "p":
            s["q"] = to_cart(self.pos, c)
        if "w" in c:
            s["t"] = c["w"] / C0
        if "t" in c:
            s["t"] = c["t"]
        if self.kind == "vp":
            s["p"] = push(INT[self.vel], c, {x.removeprefix("d_"): y for x, y in c.items() if x.startswith("d_")})
        if self.kind == "p":
            s["p"] = [c["d_" + x] for x, _ in COMPS[self.pos]]
        return s

    def same_state(self, s, w, v=None, o=None, m=None, k=None):
        """Goals: two states agree (and c is kept)."""
        gs = []
        for f in ("q", "p"):
            if f in s:
                gs += [(f"{f}[{ax}]", alleq(x, y)) for ax, x, y in zip("xyz", s[f], w[f], strict=False)]
        if "t" in s:
            gs.append(("t", alleq(s["t"], w["t"])))
        if self.kind == "f" and k:
            gs.append(("c", alleq(self.comps(o, m, k)["c"], phys1(v["c"], "km / s", "Quantity"))))
        return gs

    def near_state(self, s, w, states, v=None, o=None, m=None, k=None):
        """same_state for executions: positions to within rounding of the points involved."""
        gs = []
        for f in ("q", "p"):
            if f in s:
                size = None
                for st in [*states, w]:
                    for x in st[f]:
                        size = tabs(x) if size is None else size + tabs(x)
                gs += [(f"{f}[{ax}]", conj(tle(tabs(x - y), tm.num(1e-6) * size))) for ax, x, y in zip("xyz", s[f], w[f], strict=False)]
        return gs + [g for g in self.same_state(s, w, v, o, m, k) if g[0] in ("t", "c")]

    def same_point(self, c, d):
        """Goals: two sets of components (SI) describe the same input; azimuths modulo a turn."""
        az = {n for n, k in COMPS[self.pos] if k == "A"} if self.kind != "p" and not self.isq else set()
        gs = []
        for n in c:
            if n in az:
                gs.append((f"{n} (mod 2pi)", tm.and_(alleq(cos(c[n]), cos(d[n])), alleq(sin(c[n]), sin(d[n])))))
            else:
                gs.append((n, alleq(c[n], d[n])))
        return gs


ALLPOS = POS3


def call(op, args, jit=False):
    if jit:
        return jax.jit(lambda o, *x: o(*x))(op, *args)
    return op(*args)
