"""C16: ICRS <-> Galactocentric transformations, every frame parameter free.

Spec: R = Rx(roll - roll0) Ry(lat) Rz(-lon); H = Ry(asin(z_sun / d)); A = H R.
q' = A q - H (d, 0, 0), v' = A v + v_sun; the inverse is q = A^T (q' + H (d, 0, 0)),
v = A^T (v' - v_sun).
"""
from __future__ import annotations

from .lib import *  # noqa: F403
from .lib import norm2

F = cx.frames
from unxt.quantity import AbstractQuantity as Q0  # noqa: E402
FILE = "frame_transforms"
ROLL0 = "58.5986320306"  # deg, documented

# unit profiles of frame parameters: lon/lat, distance, roll, z_sun, v_sun
FU = {
    "deg": dict(ang="deg", d="kpc", roll="deg", z="pc", v="km / s"),
    "rad": dict(ang="rad", d="m", roll="rad", z="m", v="m / s"),
    "mix": dict(ang="deg", d="pc", roll="rad", z="kpc", v="kpc / Gyr"),
}


class Frame:
    """A Galactocentric frame with every parameter a free variable."""

    def __init__(self, prof="deg", tag="", build="init"):
        self.prof, self.tag, self.build, self.u = prof, tag, build, FU[prof]
        self.name = f"gcf[{prof}{'' if build == 'init' else ' ' + build}]"

    def vars(self):
        t, one = self.tag, {"deg": 180.0, "rad": np.pi}
        a, r = one[self.u["ang"]], one[self.u["roll"]]
        return [Var(t + "lon", (), lo=-a, hi=2 * a), Var(t + "lat", (), lo=-a / 2, hi=a / 2, special=(0.0, a / 2)), Var(t + "d", (), lo=0.0),
                Var(t + "roll", (), lo=-a, hi=a), Var(t + "zs", (), lo=-1.0, hi=1.0), Var(t + "vs", (3,))]

    def mk(self, a):
        t, U = self.tag, self.u
        gc = V.LonLatSphericalPos(lon=Q(a[t + "lon"], U["ang"]), lat=Q(a[t + "lat"], U["ang"]), distance=Q(a[t + "d"], U["d"]))
        kw = dict(galcen=gc, roll=Q(a[t + "roll"], U["roll"]), z_sun=Q(a[t + "zs"], U["z"]), galcen_v_sun=V.CartesianVel3D.from_(a[t + "vs"], U["v"]))
        if self.build == "from_":
            return F.Galactocentric.from_(kw)
        if self.build == "loose":  # parameters as given by a user: converters of the fields
            kw["galcen_v_sun"] = Q(a[t + "vs"], U["v"])
            kw["galcen"] = {"lon": gc.lon, "lat": gc.lat, "distance": gc.distance}
        return F.Galactocentric(**kw)

    def raw(self, v):
        t, U = self.tag, self.u
        f = {k: el(phys1(v[t + n], un, "Quantity")) for k, n, un in (("lon", "lon", U["ang"]), ("lat", "lat", U["ang"]), ("d", "d", U["d"]), ("roll", "roll", U["roll"]), ("z", "zs", U["z"]))}
        f["v"] = list(phys1(v[t + "vs"], U["v"], "Quantity"))
        return f

    def pre(self, v):
        f = self.raw(v)
        return [tm.gt(f["d"], tm.ZERO), tm.le(-(tm.PI / 2), f["lat"]), tm.le(f["lat"], tm.PI / 2), tm.le(tm.abs_(f["z"]), f["d"])]

    def geo(self, v):
        f = self.raw(v)
        z, o = tm.ZERO, tm.ONE
        a = f["roll"] - fac("deg", "rad") * tm.num(ROLL0)

        def c(x):
            return tm.cos(x)

        def s(x):
            return tm.sin(x)

        Rx = np.array([[o, z, z], [z, c(a), -s(a)], [z, s(a), c(a)]], dtype=object)
        Ry = np.array([[c(f["lat"]), z, s(f["lat"])], [z, o, z], [-s(f["lat"]), z, c(f["lat"])]], dtype=object)
        Rz = np.array([[c(f["lon"]), s(f["lon"]), z], [-s(f["lon"]), c(f["lon"]), z], [z, z, o]], dtype=object)
        st = f["z"] / f["d"]
        ct = tm.sqrt(1 - st * st)
        H = np.array([[ct, z, st], [z, o, z], [-st, z, ct]], dtype=object)
        return H @ Rx @ Ry @ Rz, [-(f["d"] * ct), z, f["z"]], f["v"]

    def fwd(self, v, q=None, p=None):
        A, off, vs = self.geo(v)
        return (None if q is None else [x + y for x, y in zip(mul(A, q), off, strict=True)]), (None if p is None else [x + y for x, y in zip(mul(A, p), vs, strict=True)])

    def bwd(self, v, q=None, p=None):
        A, off, vs = self.geo(v)
        return (None if q is None else mul(A.T, [x - y for x, y in zip(q, off, strict=True)])), (None if p is None else mul(A.T, [x - y for x, y in zip(p, vs, strict=True)]))


class Default(Frame):
    """The frame built with no arguments: the documented parameters."""

    def __init__(self):
        super().__init__("deg")
        self.name = "gcf[default]"

    def vars(self):
        return []

    def mk(self, a):
        return F.Galactocentric()

    def raw(self, v):
        rad = fac("deg", "rad")
        return dict(lon=rad * tm.num("266.4051"), lat=rad * tm.num("-28.936175"), d=fac("kpc", "m") * tm.num("8.122"), roll=tm.ZERO, z=fac("pc", "m") * tm.num("20.8"),
                    v=[1000 * tm.num(x) for x in ("12.9", "245.6", "7.78")])

    def pre(self, v):
        return []


def sampler(vs, frames, arg=None):
    """Inputs with |z_sun| <= d (any unit) and a position in its representation's range."""
    s = sample_pos(vs, arg.pos, tag=arg.tag) if arg is not None and arg.kind == "vv" else None

    def go(rng):
        a = s(rng) if s else {x.name: x.sample(rng) for x in vs}
        for f in frames:
            if f.tag + "d" in a:
                a[f.tag + "d"] = np.maximum(a[f.tag + "d"], 1e-3)
            if f.tag + "zs" in a:
                r = float(u.unit(f.u["d"]).to(u.unit(f.u["z"])))
                a[f.tag + "zs"] = np.asarray(float(a[f.tag + "d"]) * r * rng.choice([0.0, 0.003, -0.3, 0.7, 0.999, rng.uniform(-1, 1)]))
        return a

    return go


def mul(A, q):
    return [A[i, 0] * q[0] + A[i, 1] * q[1] + A[i, 2] * q[2] for i in range(3)]


class Arg:
    """An argument (q), (q, p) or (position vector, velocity vector)."""

    def __init__(self, kind, pos="CartesianPos3D", vel="CartesianVel3D", prof="m-rad", tag="", lu="kpc", vu="km / s"):
        self.kind, self.pos, self.vel, self.prof, self.tag, self.lu, self.vu = kind, pos, vel, prof, tag, lu, vu
        self.name = {"q": f"q {lu}", "qp": f"q {lu}, p {vu}", "vv": f"{pos} & {vel} {prof}"}[kind]

    def vars(self):
        t = self.tag
        if self.kind == "vv":
            return posvars(self.pos, self.prof, tag=t) + dvars(self.vel, self.prof, 1, tag=t + "p_")
        return [Var(t + "q", (3,))] + ([Var(t + "p", (3,))] if self.kind == "qp" else [])

    def args(self, a):
        t = self.tag
        if self.kind == "vv":
            return mkpos(self.pos, a, self.prof, tag=t), mkdiff(self.vel, a, self.prof, 1, tag=t + "p_")
        return (Q(a[t + "q"], self.lu),) + ((Q(a[t + "p"], self.vu),) if self.kind == "qp" else ())

    def pre(self, v):
        if self.kind != "vv":
            return []
        q = physin(v, self.pos, self.prof, tag=self.tag)
        return in_range(self.pos, v, self.prof, tag=self.tag) + interior(self.pos, q) + (
            regular_cart(to_cart(self.pos, q), [INT[self.vel]]) if INT[self.vel] != self.pos else [])

    def state(self, v):
        t = self.tag
        if self.kind == "vv":
            q = physin(v, self.pos, self.prof, tag=t)
            qc = to_cart(self.pos, q)
            d = strip_d(physd(v, self.vel, self.prof, 1, tag=t + "p_"))
            if INT[self.vel] != self.pos:  # a Cartesian velocity, or one at the same point in other coordinates
                assert self.vel == "CartesianVel3D"
                return [el(x) for x in qc], [el(d[c]) for c in "xyz"]
            return [el(x) for x in qc], [el(x) for x in push(self.pos, q, d)]
        return list(phys1(v[t + "q"], self.lu, "Quantity")), (list(phys1(v[t + "p"], self.vu, "Quantity")) if self.kind == "qp" else None)


def putr(outs, meta, k, r):
    rs = r if isinstance(r, tuple) else (r,)
    meta[k] = dict(n=tuple(type(x).__name__.split("[")[0] for x in rs))
    for nm, x in zip("qp", rs, strict=False):
        if isinstance(x, Q0):
            put_q(outs, meta, f"{k}.{nm}", x)
        else:
            put(outs, meta, f"{k}.{nm}", x)


def readr(o, m, k):
    out = []
    for nm in "qp":
        i = m.get(f"{k}.{nm}")
        if i is None:
            out.append(None)
        elif "cls" in i:
            d = strip_d(phys(o, m, f"{k}.{nm}"))
            out.append([el(d[c]) for c in "xyz"])
        else:
            out.append(list(phys1(o[f"{k}.{nm}"], i["unit"], "Quantity")))
    return out


def form(arg, m, k):
    want = {"q": ("Quantity",), "qp": ("Quantity", "Quantity"), "vv": ("CartesianPos3D", "CartesianVel3D")}[arg.kind]
    return ("form", m[k]["n"] == want, str(m[k]["n"]))


def same(tag, got, want):
    gs = []
    for nm, g, w in zip("qp", got, want, strict=True):
        if g is None or w is None:
            gs.append((f"{tag}{nm} present", tm.TRUE if g is w is None else tm.FALSE))
        else:
            gs += [(f"{tag}{nm}[{ax}]", tm.eq(x, y)) for ax, x, y in zip("xyz", g, w, strict=True)]
    return gs


def near(tag, got, want, sizes):
    """Execution form: to within rounding of the lengths and speeds involved."""
    gs = []
    for nm, g, w, sz in zip("qp", got, want, sizes, strict=False):
        if g is not None and w is not None:
            S = sum((tm.abs_(x) for x in sz), tm.ZERO)
            gs += [(f"{tag}{nm}[{ax}]", tm.le(tm.abs_(x - y), tm.num("1e-6") * S)) for ax, x, y in zip("xyz", g, w, strict=True)]
    return gs


def sizes(fr, v, *states):
    f = [x.raw(v) for x in fr]
    q = [x for s in states if s[0] is not None for x in s[0]] + [x["d"] for x in f]
    p = [x for s in states if s[1] is not None for x in s[1]] + [y for x in f for y in x["v"]]
    return q, p


ICRS = F.ICRS


def apply(x, y, args, how="function", jit=False):
    def go(x, y, args):
        op = F.frame_transform_op(x, y) if how == "function" else x.transform_op(y)
        return op(*args)

    return jax.jit(go)(x, y, args) if jit else go(x, y, args)


def definition(fr, arg, way, how="function", jit=False):
    vs = fr.vars() + arg.vars()

    def run(a, meta):
        g = fr.mk(a)
        outs = {}
        putr(outs, meta, "r", apply(*((ICRS(), g) if way == "fwd" else (g, ICRS())), arg.args(a), how, jit))
        return outs

    def want(v):
        return getattr(fr, way)(v, *arg.state(v))

    def post(v, o, m):
        return same("", readr(o, m, "r"), want(v))

    def xpost(v, o, m):
        return near("", readr(o, m, "r"), want(v), sizes([fr], v, arg.state(v)))

    return Contract(f"{'ICRS -> GC' if way == 'fwd' else 'GC -> ICRS'} {fr.name}: {arg.name}{' method' if how != 'function' else ''}{' jit' if jit else ''}",
                    ["frame_transform_op", f"_{'ICRS2GCF' if way == 'fwd' else 'GCF2ICRS'}Operator.__call__"], vs, run, post,
                    lambda v: fr.pre(v) + arg.pre(v), static=lambda m, w: [form(arg, m, "r")], xpost=xpost, xonly=True, samples=sampler(vs, [fr], arg))


def roundtrip(fr, arg, way, via="transform"):
    """There and back; `via` inverse: through the operator's own inverse."""
    vs = fr.vars() + arg.vars()

    def run(a, meta):
        g = fr.mk(a)
        x, y = (ICRS(), g) if way == "fwd" else (g, ICRS())
        outs = {}
        op = F.frame_transform_op(x, y)
        back = op.inverse if via == "inverse" else F.frame_transform_op(y, x)
        r = op(*arg.args(a))
        putr(outs, meta, "r", back(*(r if isinstance(r, tuple) else (r,))))
        return outs

    def post(v, o, m):
        return same("", readr(o, m, "r"), arg.state(v))

    def xpost(v, o, m):
        s = arg.state(v)
        return near("", readr(o, m, "r"), s, sizes([fr], v, s))

    return Contract(f"round trip {way} ({via}) {fr.name}: {arg.name}", ["_ICRS2GCFOperator", "_GCF2ICRSOperator", "_ICRS2GCFOperator.inverse", "_GCF2ICRSOperator.inverse"], vs, run, post,
                    lambda v: fr.pre(v) + arg.pre(v), static=lambda m, w: [form(arg, m, "r")], xpost=xpost, xonly=True, samples=sampler(vs, [fr], arg))


def isometry(fr, way, kind="q"):
    A, B = Arg("q", tag="a"), Arg("q", tag="b")
    vs = fr.vars() + A.vars() + B.vars()

    def run(a, meta):
        g = fr.mk(a)
        op = F.frame_transform_op(*((ICRS(), g) if way == "fwd" else (g, ICRS())))
        outs = {}
        putr(outs, meta, "a", op(*A.args(a)))
        putr(outs, meta, "b", op(*B.args(a)))
        return outs

    def post(v, o, m):
        x, y = readr(o, m, "a")[0], readr(o, m, "b")[0]
        p, q = A.state(v)[0], B.state(v)[0]
        return [("distance", tm.eq(norm2([s - t for s, t in zip(x, y, strict=True)]), norm2([s - t for s, t in zip(p, q, strict=True)])))]

    def xpost(v, o, m):
        x, y = readr(o, m, "a")[0], readr(o, m, "b")[0]
        p, q = A.state(v)[0], B.state(v)[0]
        S = norm2(p + q + [fr.raw(v)["d"]])
        return [("distance", tm.le(tm.abs_(norm2([s - t for s, t in zip(x, y, strict=True)]) - norm2([s - t for s, t in zip(p, q, strict=True)])), tm.num("1e-6") * S))]

    return Contract(f"distances kept {way} {fr.name}", ["_ICRS2GCFOperator.__call__", "_GCF2ICRSOperator.__call__"], vs, run, post, lambda v: fr.pre(v), xpost=xpost, xonly=True, samples=sampler(vs, [fr]))


def landmarks(fr, vel=False):
    """Galactic centre -> origin; Sun -> (-sqrt(d^2 - z^2), 0, z_sun), at v_sun; and back."""
    def run(a, meta):
        g = fr.mk(a)
        to, fro = F.frame_transform_op(ICRS(), g), F.frame_transform_op(g, ICRS())
        outs = {}
        gc = u.Quantity.from_(jnp.stack([getattr(g.galcen.represent_as(V.CartesianPos3D), c).to("kpc").value for c in "xyz"]), "kpc")
        o3, ov = Q(jnp.zeros(3), "kpc"), Q(jnp.zeros(3), "km/s")
        putr(outs, meta, "gc", to(gc))
        putr(outs, meta, "sun", to(o3, ov))
        putr(outs, meta, "back", fro(o3))
        putr(outs, meta, "gcx", gc)
        return outs

    def goals(v, o, m):
        f = fr.raw(v)
        sun, p = readr(o, m, "sun")
        c = to_cart("LonLatSphericalPos", dict(lon=f["lon"], lat=f["lat"], distance=f["d"]))
        return [("centre -> origin", readr(o, m, "gc")[0], [tm.ZERO] * 3, "q"), ("origin -> centre", readr(o, m, "back")[0], [el(x) for x in c], "q"),
                ("sun", sun, [-tm.sqrt(f["d"] * f["d"] - f["z"] * f["z"]), tm.ZERO, f["z"]], "q"), ("sun's velocity", p, f["v"], "p")]

    def post(v, o, m):
        return [(f"{n}[{ax}]", tm.eq(x, y)) for n, g, w, _k in goals(v, o, m) for ax, x, y in zip("xyz", g, w, strict=True)]

    def xpost(v, o, m):
        S = sizes([fr], v, (None, None))
        return [x for n, g, w, k in goals(v, o, m) for x in near(n, [g], [w], [S[k == "p"]])]

    return Contract(f"landmarks {fr.name}", ["_ICRS2GCFOperator.__call__", "_GCF2ICRSOperator.__call__", "Galactocentric"], fr.vars(), run, post, fr.pre, xpost=xpost, xonly=True, samples=sampler(fr.vars(), [fr]))


def between(f1, f2, arg):
    """Galactocentric -> Galactocentric is GC -> ICRS -> GC."""
    vs = f1.vars() + f2.vars() + arg.vars()

    def tup(r):
        return r if isinstance(r, tuple) else (r,)

    def run(a, meta):
        g1, g2 = f1.mk(a), f2.mk(a)
        outs = {}
        putr(outs, meta, "r", F.frame_transform_op(g1, g2)(*arg.args(a)))
        return outs

    def ref(a, meta):
        g1, g2 = f1.mk(a), f2.mk(a)
        outs = {}
        putr(outs, meta, "w", F.frame_transform_op(ICRS(), g2)(*tup(F.frame_transform_op(g1, ICRS())(*arg.args(a)))))
        return outs

    def post(v, o, m):
        return same("via ICRS ", readr(o, m, "r"), readr(o, m, "w"))

    def xpost(v, o, m):
        s = arg.state(v)
        w = f2.fwd(v, *f1.bwd(v, *s))
        return near("", readr(o, m, "r"), w, sizes([f1, f2], v, s))

    return Contract(f"GC -> GC {f1.name} {f2.name}: {arg.name}", ["frame_transform_op(Galactocentric, Galactocentric)", "Pipe.__call__"], vs, run, post,
                    lambda v: f1.pre(v) + f2.pre(v) + arg.pre(v), static=lambda m, w: [form(arg, m, "r")], ref=ref, xpost=xpost, xonly=True, samples=sampler(vs, [f1, f2], arg),
                    assumes=["C16 between Galactocentric frames: the two legs are those of the definition contracts"])


def selfop(which, arg, how):
    """A frame to itself: everything unchanged."""
    fr = Frame("deg")
    vs = (fr.vars() if which == "gcf" else []) + arg.vars()

    def run(a, meta):
        g = {"icrs": ICRS, "default": F.Galactocentric, "gcf": lambda: fr.mk(a)}[which]()
        h = {"icrs": ICRS, "default": F.Galactocentric, "gcf": lambda: g}[which]()
        outs = {}
        putr(outs, meta, "r", apply(g, h, arg.args(a), how))
        return outs

    def post(v, o, m):
        if arg.kind != "vv":
            return same("", readr(o, m, "r"), arg.state(v))
        gs = []
        for k, given in (("q", physin(v, arg.pos, arg.prof)), ("p", physd(v, arg.vel, arg.prof, 1, tag="p_"))):
            got = phys(o, m, "r." + k)
            for c in got:
                if k == "q" and dict(COMPS[arg.pos])[c] == "A":
                    gs += [(f"q.{c} mod 2pi", tm.and_(alleq(cos(got[c]), cos(given[c])), alleq(sin(got[c]), sin(given[c]))))]
                else:
                    gs.append((f"{k}.{c}", alleq(got[c], given[c])))
        return gs

    def xpost(v, o, m):
        if arg.kind != "vv":
            s = arg.state(v)
            return near("", readr(o, m, "r"), s, sizes([fr] if which == "gcf" else [Default()], v, s))
        return post(v, o, m)

    def static(m, w):
        return [("form", m["r"]["n"] == ((arg.pos, arg.vel) if arg.kind == "vv" else {"q": ("Quantity",), "qp": ("Quantity",) * 2}[arg.kind]), str(m["r"]["n"]))]

    return Contract(f"self {which} {how}: {arg.name}", ["frame_transform_op(same, same)", "Identity.__call__"], vs, run, post,
                    lambda v: (fr.pre(v) if which == "gcf" else []) + arg.pre(v), static=static, xpost=xpost, xonly=True, samples=sampler(vs, [fr] if which == "gcf" else [], arg))


def refused(x, y, how):
    """To or from the null frame."""
    fr = Frame("deg")
    mk = {"icrs": lambda a: ICRS(), "null": lambda a: F.NoFrame(), "gcf": fr.mk}

    def run(a, meta):
        f, t = mk[x](a), mk[y](a)
        meta["exc"] = "none"
        try:
            if how == "function":
                F.frame_transform_op(f, t)
            else:
                f.transform_op(t)
        except Exception as e:  # noqa: BLE001
            meta["exc"] = type(e).__name__
        return {"one": jnp.asarray(a["k"] * 0 + 1.0)}

    vs = [Var("k"), *fr.vars()]
    return Contract(f"refused {x} -> {y} {how}", ["frame_transform_op(NoFrame)", "AbstractReferenceFrame.transform_op"], vs, run,
                    lambda v, o, m: [("ran", tm.eq(el(o["one"]), tm.ONE))], fr.pre,
                    static=lambda m, w: [("refused with FrameTransformError", m["exc"] == "FrameTransformError", m["exc"])], samples=sampler(vs, [fr]))


def fields(build):
    """A frame keeps the parameters it is built with."""
    fr = Default() if build == "default" else Frame("mix", build=build)

    def run(a, meta):
        g = fr.mk(a)
        if build == "copy":
            g = F.Galactocentric.from_(g)
        outs = {}
        put(outs, meta, "gc", g.galcen)
        put(outs, meta, "v", g.galcen_v_sun)
        put_q(outs, meta, "roll", g.roll)
        put_q(outs, meta, "z", g.z_sun)
        put_q(outs, meta, "roll0", g.roll0)
        return outs

    def post(v, o, m):
        f = fr.raw(v)
        gc, vs = phys(o, m, "gc"), phys(o, m, "v")
        out = [(k, alleq(x, y)) for k, x, y in (("lat", gc["lat"], f["lat"]), ("distance", gc["distance"], f["d"]),
               ("roll", phys1(o["roll"], m["roll"]["unit"], "Quantity"), f["roll"]), ("z_sun", phys1(o["z"], m["z"]["unit"], "Quantity"), f["z"]),
               ("roll0", phys1(o["roll0"], m["roll0"]["unit"], "Quantity"), fac("deg", "rad") * tm.num(ROLL0)))]
        out += [("lon cos", alleq(cos(gc["lon"]), tm.cos(f["lon"]))), ("lon sin", alleq(sin(gc["lon"]), tm.sin(f["lon"])))]
        return out + [(f"v_sun[{c}]", alleq(vs["d_" + c], y)) for c, y in zip("xyz", f["v"], strict=True)]

    vs = [*fr.vars(), Var("k")]
    return Contract(f"frame parameters: {build}", ["Galactocentric", "AbstractReferenceFrame.from_"], vs, run, post, fr.pre, samples=sampler(vs, [fr]),
                    static=lambda m, w: [("classes", m["gc"]["cls"] == "LonLatSphericalPos" and m["v"]["cls"] == "CartesianVel3D", "")])


def contracts(tier):
    deep = tier == "thorough"
    out = [fields(b) for b in ("default", "init", "from_", "loose", "copy")]
    frames = [Frame("deg"), Frame("rad"), Default()] + ([Frame("mix"), Frame("mix", build="loose")] if deep else [])
    q, qp, vv = Arg("q"), Arg("qp"), Arg("vv")
    curv = [Arg("vv", p, v, prof) for p, v, prof in (("SphericalPos", "SphericalVel", "m-rad"), ("CylindricalPos", "CylindricalVel", "kpc-deg"), ("LonLatSphericalPos", "LonLatSphericalVel", "kpc-deg"),
            ("LonLatSphericalPos", "LonCosLatSphericalVel", "kpc-deg"), ("MathSphericalPos", "MathSphericalVel", "m-rad"), ("CylindricalPos", "CartesianVel3D", "m-rad"), ("CartesianPos3D", "CartesianVel3D", "mixed"))]
    for fr in frames:
        out.append(landmarks(fr))
        for way in ("fwd", "bwd"):
            out += [definition(fr, x, way) for x in (q, qp, vv)]
            out += [roundtrip(fr, x, way) for x in ((qp, vv) if not deep else (q, qp, vv))]
            out += [roundtrip(fr, qp, way, "inverse")]
            out.append(isometry(fr, way))
    fr = Frame("mix", build="loose")
    for way in ("fwd", "bwd"):
        out += [definition(fr, Arg("q", lu="pc"), way, "method"), definition(fr, Arg("qp", lu="m", vu="m / s"), way, jit=True)]
        out += [definition(f, x, way) for x in curv for f in ((Frame("deg"), Default()) if deep else (Default(),) if x.pos != "SphericalPos" else (Frame("deg"),))]
        out += [roundtrip(Frame("mix"), Arg("qp", lu="pc", vu="m / s"), way)]
        out += [roundtrip(Default(), x, way) for x in ([Arg("vv", "CylindricalPos", "CartesianVel3D", "m-rad")])]
    for f1, f2 in ((Frame("deg", "f"), Default()), (Default(), Frame("rad", "g")), (Frame("deg", "f"), Frame("mix", "g"))):
        out += [between(f1, f2, x) for x in (qp, vv)]
    for which in ("icrs", "default", "gcf"):
        for how in ("function", "method"):
            out += [selfop(which, x, how) for x in ((q, qp, vv, curv[0]) if which == "icrs" else (qp, vv, curv[0]))]
    for x, y in (("null", "icrs"), ("icrs", "null"), ("null", "gcf"), ("gcf", "null"), ("null", "null")):
        out += [refused(x, y, how) for how in ("function", "method")]
    return out
