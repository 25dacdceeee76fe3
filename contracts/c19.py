"""C19: a space-time vector keeps its parts and the Minkowski interval."""
from __future__ import annotations

from plum import convert

from .c10 import chunks, ops_for
from .c10 import contract as shape_contract
from .lib import *  # noqa: F403
from .lib import norm2

TU = ("s", "Myr", "yr")
CU = ("m / s", "km / s", "kpc / Myr")
C0 = tm.num(299792458)  # m/s
PARTS = ["FourVector.__init__", "FourVector.__check_init__"]


class Ev:
    """An event: time, position (any representation) and possibly its own c."""

    def __init__(self, pos, prof="m-rad", tu="s", cu=None, tshape=(), percomp=None, tag=""):
        self.pos, self.prof, self.tu, self.cu, self.tshape, self.percomp, self.tag = pos, prof, tu, cu, tshape, percomp, tag

    @property
    def label(self):
        s = f"{self.pos} | {self.prof}, t in {self.tu}" + (f", c in {self.cu}" if self.cu else "")
        return s + (f", t{list(self.tshape)}" if self.tshape else "") + (f" q{self.percomp}" if self.percomp else "")

    def vars(self):
        vs = posvars(self.pos, self.prof, tag=self.tag)
        if self.percomp:
            for x, s in zip(vs, self.percomp, strict=False):
                x.shape = tuple(s)
        return [Var(self.tag + "t", self.tshape), *vs] + ([Var(self.tag + "c", lo=0.0)] if self.cu else [])

    def q(self, a):
        return mkpos(self.pos, a, self.prof, tag=self.tag)

    def mk(self, a):
        kw = {"c": Q(a[self.tag + "c"], self.cu)} if self.cu else {}
        return V.FourVector(t=Q(a[self.tag + "t"], self.tu), q=self.q(a), **kw)

    def pre(self, v):
        return in_range(self.pos, v, self.prof, tag=self.tag) + ([tm.lt(tm.ZERO, el(v[self.tag + "c"]))] if self.cu else [])

    def sampler(self, vs):
        s = sample_pos(vs, self.pos, tag=self.tag)
        return s and (lambda rng: s(rng))

    # SI
    def t(self, v):
        return fac(self.tu, "s") * v[self.tag + "t"]

    def c(self, v):
        return fac(self.cu, "m / s") * el(v[self.tag + "c"]) if self.cu else C0

    def cart(self, v):
        return to_cart(self.pos, physin(v, self.pos, self.prof, tag=self.tag))


def put4(outs, meta, p, w):
    put_q(outs, meta, p + ".t", w.t)
    put_q(outs, meta, p + ".c", w.c)
    put(outs, meta, p + ".q", w.q)
    with jax.ensure_compile_time_eval():
        meta[p] = dict(cls=type(w).__name__, shape=tuple(w.shape))


def si(o, m, k):
    return phys1(o[k], m[k]["unit"], "Quantity")


def parts(E, via="keywords"):
    """The vector reports the time, position and reference speed it was given."""
    vs = E.vars()

    def make(a):
        if via == "keywords":
            return E.mk(a)
        kw = {"c": Q(a["c"], E.cu)} if E.cu else {}
        t, q = Q(a["t"], E.tu), E.q(a)
        if via == "positional":
            return V.FourVector(t, q, **kw)
        if via == "mapping":
            return V.FourVector.from_({"t": t, "q": q, **kw})
        if via == "same":
            return V.FourVector.from_(E.mk(a))
        if via == "jit":
            return jax.jit(lambda x: x)(E.mk(a))
        if via == "array":
            return V.FourVector(t, Q(jnp.stack(jnp.broadcast_arrays(q.x.value, q.y.to(q.x.unit).value, q.z.to(q.x.unit).value), axis=-1), q.x.unit), **kw)
        raise KeyError(via)

    def run(a, meta):
        outs = {}
        w = make(a)
        put4(outs, meta, "w", w)
        # attributes of the position are reachable from the vector
        for c in w.q.components:
            put_q(outs, meta, "attr." + c, getattr(w, c))
        return outs

    def post(v, o, m):
        gs = [("t", alleq(si(o, m, "w.t"), E.t(v))), ("c", alleq(si(o, m, "w.c"), E.c(v)))]
        want, got = physin(v, E.pos, E.prof), phys(o, m, "w.q")
        for c, _ in COMPS[E.pos]:
            # azimuths may be wrapped (C04): compare points below instead
            if dict(COMPS[E.pos])[c] != "A":
                gs.append((f"q.{c}", alleq(got[c], want[c])))
            gs.append((f"attribute {c}", alleq(o["attr." + c], o["w.q." + c])))
        gs += [(f"same-point[{i}]", alleq(x, y)) for i, (x, y) in enumerate(zip(to_cart(E.pos, got), to_cart(E.pos, want), strict=True))]
        return gs

    def static(m, w):
        un = cunits(E.pos, E.prof)
        want = np.broadcast_shapes(E.tshape, *(E.percomp or [()]))
        return [("class", (m["w"]["cls"], m["w.q"]["cls"]) == ("FourVector", E.pos), str(m["w"])), ("t-unit", u.unit(m["w.t"]["unit"]) == u.unit(E.tu), m["w.t"]["unit"]),
                ("c-unit", u.unit(m["w.c"]["unit"]) == u.unit(E.cu or "km / s"), m["w.c"]["unit"]), ("shape", m["w"]["shape"] == tuple(want), f"{m['w']['shape']}, expected {want}"),
                *[(f"{c}-unit", via == "array" or u.unit(m["w.q"]["comps"][c][0]) == u.unit(un[c]), m["w.q"]["comps"][c][0]) for c, _ in COMPS[E.pos]]]

    return Contract(f"parts[{E.label}, {via}]", PARTS, vs, run, post, E.pre, static=static, samples=E.sampler(vs))


def interval(E, form):
    """_norm2 is (c t)^2 - |q|^2, and norm() its (complex) square root."""
    vs = E.vars()

    def run(a, meta):
        outs = {}
        w = E.mk(a)
        n2 = w._norm2() if form != "jit" else jax.jit(lambda x: x._norm2())(w)
        put_q(outs, meta, "n2", n2)
        n = abs(w) if form == "abs" else jax.jit(lambda x: x.norm())(w) if form == "jit" else w.norm()
        meta["n"] = dict(unit=str(n.unit))
        outs["re"], outs["im"] = jnp.real(n.value), jnp.imag(n.value)
        return outs

    def post(v, o, m):
        ct = E.c(v) * E.t(v)
        want = ct * ct - norm2(E.cart(v))
        n2 = phys1(o["n2"], m["n2"]["unit"], "Quantity")
        re, im = phys1(o["re"], m["n"]["unit"], "Quantity"), phys1(o["im"], m["n"]["unit"], "Quantity")
        z = np.full(np.shape(re), tm.ZERO, dtype=object)
        if np.shape(n2) != np.shape(want) or np.shape(re) != np.shape(want):
            return [(f"shape {np.shape(n2)} {np.shape(re)}, expected {np.shape(want)}", tm.FALSE)]
        return [("interval", alleq(n2, want)), ("norm^2, real part", alleq(re * re - im * im, n2)), ("norm is real or imaginary", alleq(re * im + re * re + im * im, re * re + im * im)),
                ("norm: non-negative parts", tm.and_(conj(tle(z, re)), conj(tle(z, im))))]

    def static(m, w):
        return [("dimension", u.unit(m["n2"]["unit"]).physical_type == "area" and u.unit(m["n"]["unit"]).physical_type == "length", f"{m['n2']['unit']}, {m['n']['unit']}")]

    return Contract(f"interval[{E.label}, {form}]", ["FourVector._norm2", "FourVector.norm", f"{E.pos}.norm"], vs, run, post, E.pre, static=static, samples=E.sampler(vs))


OPS = {"-": (lambda w: -w, -1), "/2": (lambda w: w / 2.0, 0.5), "+": (lambda w: +w, 1), "jit(-)": (lambda w: jax.jit(lambda x: -x)(w), -1), "--": (lambda w: -(-w), 1)}


def linear(E, op):
    """Negation and scaling act on time and position alike, and keep c."""
    vs = E.vars()
    f, k = OPS[op]
    k = tm.num(k) if k != 0.5 else tm.num(1) / 2

    def run(a, meta):
        outs = {}
        put4(outs, meta, "r", f(E.mk(a)))
        return outs

    def post(v, o, m):
        got = to_cart(m["r.q"]["cls"], phys(o, m, "r.q"))
        return [("t", alleq(si(o, m, "r.t"), k * E.t(v))), ("c", alleq(si(o, m, "r.c"), E.c(v))),
                *[(f"q[{i}]", alleq(x, k * y)) for i, (x, y) in enumerate(zip(got, E.cart(v), strict=True))]]

    def pre(v):
        return E.pre(v) + interior(E.pos, physin(v, E.pos, E.prof, tag=E.tag))

    def static(m, w):
        return [("class", m["r"]["cls"] == "FourVector", str(m["r"])), ("t-unit", u.unit(m["r.t"]["unit"]).physical_type == "time", m["r.t"]["unit"])]

    return Contract(f"{op}[{E.label}]", ["FourVector.__neg__", "_div_4v"], vs, run, post, pre, static=static, samples=E.sampler(vs))


def addsub(A, B, op):
    vs = A.vars() + B.vars()

    def run(a, meta):
        outs = {}
        x, y = A.mk(a), B.mk(a)
        put4(outs, meta, "r", x + y if op == "+" else x - y)
        return outs

    def post(v, o, m):
        s = (lambda x, y: x + y) if op == "+" else (lambda x, y: x - y)
        got = to_cart(m["r.q"]["cls"], phys(o, m, "r.q"))
        return [("t", alleq(si(o, m, "r.t"), s(A.t(v), B.t(v)))), ("c", alleq(si(o, m, "r.c"), A.c(v))),
                *[(f"q[{i}]", alleq(x, s(y, z))) for i, (x, y, z) in enumerate(zip(got, A.cart(v), B.cart(v), strict=True))]]

    def pre(v):
        out = A.pre(v) + B.pre(v)
        if not A.pos.startswith("Cartesian"):
            xyz = [(x + y) if op == "+" else (x - y) for x, y in zip(A.cart(v), B.cart(v), strict=True)]
            out += interior(A.pos, physin(v, A.pos, A.prof, tag=A.tag)) + regular_cart(xyz, [A.pos])
        return out

    return Contract(f"[{A.label}] {op} [{B.label}]", ["_add_4v4v", "_sub_4v_4v"], vs, run, post, pre)


def four(shape, un, form="Quantity"):
    """(ct, x, y, z): built, reported and converted back."""
    vs = [Var("x", (*shape, 4))]

    def make(a):
        if form == "Quantity":
            return V.FourVector.from_(Q(a["x"], un))
        if form == "array":
            return V.FourVector.from_(a["x"], un)
        if form == "jit":
            return jax.jit(V.FourVector.from_)(Q(a["x"], un))
        raise KeyError(form)

    def run(a, meta):
        outs = {}
        w = make(a)
        put4(outs, meta, "w", w)
        put_q(outs, meta, "back", convert(w, Q))
        put_q(outs, meta, "t_again", V.FourVector.from_(convert(w, Q)).t)
        return outs

    def post(v, o, m):
        x = fac(un, "m") * v["x"]
        q = phys(o, m, "w.q")
        return [("ct", alleq(si(o, m, "w.t") * C0, x[..., 0])), ("c", alleq(si(o, m, "w.c"), C0)),
                *[(c, alleq(q[c], x[..., i + 1])) for i, c in enumerate("xyz")],
                ("convert returns the quantities", alleq(si(o, m, "back"), x)), ("t again", alleq(si(o, m, "t_again"), si(o, m, "w.t")))]

    def static(m, w):
        return [("class", (m["w"]["cls"], m["w.q"]["cls"]) == ("FourVector", "CartesianPos3D"), str(m["w"])), ("shape", m["w"]["shape"] == tuple(shape), str(m["w"])),
                ("length", u.unit(m["back"]["unit"]).physical_type == "length", m["back"]["unit"])]

    return Contract(f"from_[{form} {list(vs[0].shape)} {un}]", ["FourVector.from_", "convert(FourVector, Quantity)"], vs, run, post, static=static)


def to_quantity(E):
    vs = E.vars()

    def run(a, meta):
        outs = {}
        put_q(outs, meta, "r", convert(E.mk(a), Q))
        return outs

    def post(v, o, m):
        r = si(o, m, "r")
        shape = np.broadcast_shapes(E.tshape, *(E.percomp or [()]))
        if np.shape(r) != (*shape, 4):
            return [(f"shape {np.shape(r)}, expected {(*shape, 4)}", tm.FALSE)]
        want = [E.c(v) * E.t(v), *E.cart(v)]
        return [(f"stack[{i}]", alleq(r[..., i], np.broadcast_to(w, shape))) for i, w in enumerate(want)]

    return Contract(f"convert[{E.label}]", ["convert(FourVector, Quantity)"], vs, run, post, E.pre, samples=E.sampler(vs))


def refused(what, mk, vs):
    def run(a, meta):
        outs = {}
        put4(outs, meta, "r", mk(a))
        return outs

    return Contract(f"refused[{what}]", PARTS, vs, run, raises=lambda v: tm.TRUE)


def contracts(tier):
    out = []
    thorough = tier == "thorough"
    for i, p in enumerate(POS3):
        tu, cu = TU[i % 3], CU[i % 3]
        for prof, t, c in (("m-rad", "s", None), ("kpc-deg", tu, cu), *([("mixed", "yr", "km / s")] if thorough else ())):
            E = Ev(p, prof, t, c)
            out.append(parts(E))
            out.append(interval(E, "norm"))
            for op in OPS if thorough or p == "CartesianPos3D" else ("-", "jit(-)" if c else "--"):
                if op == "/2" and p == "ProlateSpheroidalPos":
                    continue
                out.append(linear(E, op))
            if not (p == "ProlateSpheroidalPos" and False):
                out.append(to_quantity(E))
        E = Ev(p, "m-rad", "yr", CU[(i + 1) % 3])
        for form in ("abs", "jit"):
            out.append(interval(E, form))
    C3 = "CartesianPos3D"
    for via in ("positional", "mapping", "same", "jit", "array"):
        out.append(parts(Ev(C3, "mixed", "Myr", "km / s"), via))
        out.append(parts(Ev(C3, "m-rad", "s"), via))
    for via in ("positional", "mapping", "same", "jit"):
        out.append(parts(Ev("SphericalPos", "kpc-deg", "Myr", "km / s"), via))
    for p, ts, pc in ((C3, (2,), [(2,)] * 3), (C3, (), [(2,)] * 3), (C3, (1,), [(), (2,), (2,)]), (C3, (3,), [(2, 1), (3,), (2, 3)]), ("SphericalPos", (2,), [(), (2,), (2,)]),
                      ("CylindricalPos", (), [(2, 1), (3,), (3,)])):
        E = Ev(p, "m-rad", "s", "km / s", ts, pc)
        out += [parts(E), interval(E, "norm"), to_quantity(E)]
        if p == C3:
            out += [linear(E, "-"), linear(E, "/2")]
    # the indexing and reshaping of time and position together (the operations of C10)
    for p, shape, ts, pc in ((C3, (), (), [()] * 3), (C3, (2,), (2,), [(2,)] * 3), (C3, (2,), (), [(2,)] * 3), (C3, (2, 3), (3,), [(2, 1), (3,), (2, 3)]),
                             ("SphericalPos", (2,), (1,), [(), (2,), (2,)]), ("CylindricalPos", (2, 3), (2, 1), [(2, 1), (3,), (3,)])):
        E = Ev(p, "m-rad", "s", "m / s", ts, pc)
        for grp in chunks(list(ops_for(shape)), 8):
            out.append(shape_contract("FourVector", f"{p} {list(shape)} t{list(ts)} q{pc}", grp, E.vars(), E.mk, shape, [f"FourVector.{op}" for op in grp], E.pre,
                                      leaves=lambda x: {"t": x.t} | {c: getattr(x.q, c) for c in x.q.components} | {"c": x.c}))
    for op in "+-":
        out.append(addsub(Ev(C3, "m-rad", "s", "km / s", tag="a_"), Ev(C3, "kpc-deg", "yr", tag="b_"), op))
        out.append(addsub(Ev(C3, "mixed", "yr", tag="a_"), Ev("SphericalPos", "m-rad", "s", "km / s", tag="b_"), op))
        out.append(addsub(Ev(C3, "m-rad", "s", tag="a_", tshape=(2,), percomp=[(2,)] * 3), Ev(C3, "m-rad", "s", tag="b_"), op))
        out.append(addsub(Ev("CylindricalPos", "m-rad", "s", tag="a_"), Ev(C3, "m-rad", "s", "km / s", tag="b_"), op))
    for shape in ((), (2,), (2, 3), *([(1,), (2, 1, 3)] if thorough else ())):
        for un in ("m", "km", "kpc"):
            out.append(four(shape, un))
    for form in ("array", "jit"):
        out += [four((), "kpc", form), four((2,), "km", form)]
    for ts, pc in (((2,), [()] * 3), ((3,), [(2,)] * 3), ((2, 3), [(3,)] * 3), ((2, 1), [(3,)] * 3)):
        E = Ev(C3, "m-rad", "s", None, ts, pc)
        out.append(refused(f"t{list(ts)} q{pc}", E.mk, E.vars()))
    return out
