"""C18: a collection of vectors is transformed member by member, at its own position.

The individually converted members (the reference) are covered by C01-C03 and
C10; here the collection's code is proved to agree with them for every value.
"""
from __future__ import annotations

from .c10 import IDX, MASK
from .lib import *  # noqa: F403

NAMES = {"length": ["length"], "speed": ["speed", "velocity"], "acceleration": ["acceleration"]}


class Members:
    """A position with a velocity and an acceleration, possibly in other representations."""

    def __init__(self, pos, vel=None, acc=None, prof="m-rad", shapes=((), (), ()), names=("length", "speed", "acceleration"), order=None):
        self.pos, self.prof, self.names = pos, prof, names
        self.vel = VEL[pos] if vel is True else vel
        self.acc = ACC[pos] if acc is True else acc
        self.shapes = shapes
        self.order = order

    @property
    def label(self):
        s = "+".join(x for x in (self.pos, self.vel, self.acc) if x)
        return s + (f" {'/'.join(str(list(x)) for x in self.shapes)}" if any(self.shapes) else "") + f" | {self.prof}"

    def vars(self):
        vs = posvars(self.pos, self.prof, shape=self.shapes[0])
        if self.vel:
            vs += dvars(self.vel, self.prof, 1, tag="v_", shape=self.shapes[1])
        if self.acc:
            vs += dvars(self.acc, self.prof, 2, tag="a_", shape=self.shapes[2])
        return vs

    def mk(self, a):
        out = {self.names[0]: mkpos(self.pos, a, self.prof)}
        if self.vel:
            out[self.names[1]] = mkdiff(self.vel, a, self.prof, 1, tag="v_")
        if self.acc:
            out[self.names[2]] = mkdiff(self.acc, a, self.prof, 2, tag="a_")
        return {k: out[k] for k in self.order} if self.order else out

    def pre(self, v, targets=()):
        q = physin(v, self.pos, self.prof)
        reps = [p for p in [*(INT[x] for x in (self.vel, self.acc) if x), *targets] if p != self.pos]
        return in_range(self.pos, v, self.prof) + interior(self.pos, q) + regular_cart(to_cart(self.pos, q), reps)

    def sampler(self, vs):
        s = sample_pos(vs, self.pos)
        return s and (lambda rng: s(rng))


KEYS = ("length", "speed", "acceleration")


def putspace(outs, meta, p, w):
    meta[p] = dict(keys=sorted(w), type=type(w).__name__)
    for k in w:
        put(outs, meta, f"{p}.{k}", w[k])
        meta[f"{p}.{k}.shape"] = tuple(w[k].shape)


def samespace(o, m, a, b):
    """Member-wise, component-wise equality of what was recorded under two prefixes."""
    gs = []
    for k in m[b]["keys"]:
        for c in [*m[f"{b}.{k}"]["comps"]]:
            x, y = o.get(f"{a}.{k}.{c}"), o[f"{b}.{k}.{c}"]
            if x is None:
                gs.append((f"member {k}.{c} is missing", tm.FALSE))
                continue
            try:
                full = np.broadcast_shapes(np.shape(x), np.shape(y))
            except ValueError:
                gs.append((f"shape[{k}.{c}] {np.shape(x)}, expected {np.shape(y)}", tm.FALSE))
                continue
            gs.append((f"same[{k}.{c}]", alleq(np.broadcast_to(x, full), np.broadcast_to(y, full))))
    return gs


def samestatic(m, a, b, joint=False):
    out = [("type", m[a]["type"] == "Space", m[a]["type"]), ("keys", m[a]["keys"] == m[b]["keys"], str(m[a]["keys"]))]
    for k in m[b]["keys"]:
        if k in m[a]["keys"]:
            out += [(f"{k}: class-units-kinds", m[f"{a}.{k}"] == m[f"{b}.{k}"], f"{m[f'{a}.{k}']}, expected {m[f'{b}.{k}']}"),
                    (f"{k}: shape", m[f"{a}.{k}.shape"] == m[f"{b}.{k}.shape"] or joint, str(m[f"{a}.{k}.shape"]))]
    return out


def refspace(q, v, a, T):
    """The individually converted members."""
    out = {"length": cx.represent_as(q, T)}
    if v is not None:
        out["speed"] = cx.represent_as(v, T.differential_cls, q)
    if a is not None:
        out["acceleration"] = cx.represent_as(a, T.differential_cls.differential_cls, v, q)
    return out


def represent(M, target, via="method"):
    vs = M.vars()
    T = cls(target)

    def run(a, meta):
        w = cx.Space(**M.mk(a)) if via != "dict" else cx.Space(M.mk(a))
        r = w.represent_as(T) if via in ("method", "dict") else jax.jit(lambda s: s.represent_as(T))(w) if via == "jit" else cx.represent_as(w, T)
        outs = {}
        putspace(outs, meta, "r", r)
        return outs

    def ref(a, meta):
        x = M.mk(a)
        if len(set(M.shapes)) > 1:
            joint = np.broadcast_shapes(*M.shapes)
            x = {k: full(y, joint) for k, y in x.items()}
        d = {k: x.get(n) for k, n in zip(KEYS, M.names, strict=True)}
        outs = {}
        w = refspace(d["length"], d["speed"], d["acceleration"], T)
        meta["w"] = dict(keys=sorted(w), type="Space")
        for k in w:
            put(outs, meta, f"w.{k}", w[k])
            meta[f"w.{k}.shape"] = tuple(w[k].shape)
        return outs

    return Contract(f"represent_as[{M.label} -> {target}, {via}{' ' + '/'.join(M.order or M.names) if M.order or M.names != KEYS else ''}]", ["represent_as(Space, vector class)", "temp_represent_as", "Space.__init__"], vs, run,
                    lambda v, o, m: samespace(o, m, "r", "w"), lambda v: M.pre(v, [target]), static=lambda m, w: samestatic(m, "r", "w", joint=len(set(M.shapes)) > 1), samples=M.sampler(vs),
                    ref=ref)


SHAPE_OPS = {
    "[0]": lambda x: x[0], "[-1]": lambda x: x[-1], "[1:]": lambda x: x[1:], "[...]": lambda x: x[...], "[None]": lambda x: x[None], "[..., None]": lambda x: x[..., None],
    "[mask]": lambda x: x[MASK], "[array]": lambda x: x[IDX], "reshape(-1)": lambda x: x.reshape(-1), "reshape(2, 1)": lambda x: x.reshape(2, 1), "flatten": lambda x: x.flatten(),
    "ravel": lambda x: x.ravel(), "T": lambda x: x.T, "+": lambda x: +x,
}
SHAPE_OPS2 = {
    "[0]": SHAPE_OPS["[0]"], "[0, 1]": lambda x: x[0, 1], "[:, 1]": lambda x: x[:, 1], "[(1, 2)]": lambda x: x[(1, 2)], "[..., 0]": lambda x: x[..., 0], "reshape(3, 2)": lambda x: x.reshape(3, 2),
    "reshape(6, 1)": lambda x: x.reshape(6, 1), "flatten": lambda x: x.flatten(), "T": lambda x: x.T, "mT": lambda x: x.mT, "jit(mT)": None, "[mask]": SHAPE_OPS["[mask]"],
}


def full(x, shape):
    """A member broadcast to the collection's shape, component by component."""
    return type(x)(**{c: qb(getattr(x, c), shape) for c in x.components}, **({"Delta": x.Delta} if hasattr(x, "Delta") else {}))


def qb(q, shape):
    return type(q)(jnp.broadcast_to(q.value, shape), q.unit)


def shapeop(M, shape, ops, table):
    vs = M.vars()

    def app(op, x):
        return jax.jit(lambda y: y.mT)(x) if op == "jit(mT)" else table[op](x)

    def run(a, meta):
        w = cx.Space(**M.mk(a))
        outs = {}
        with jax.ensure_compile_time_eval():
            meta["own"] = dict(shape=tuple(w.shape), ndim=w.ndim, len=len(w), size=int(w.size), shapes={k: tuple(s) for k, s in w.shapes.items()}, sizes={k: int(s) for k, s in w.sizes.items()})
        for op in ops:
            putspace(outs, meta, op, app(op, w))
        return outs

    def ref(a, meta):
        outs = {}
        x = M.mk(a)
        for op in ops:
            w = {k: app(op, full(x[k], shape)) for k in x}
            p = "w:" + op
            meta[p] = dict(keys=sorted(w), type="Space")
            for k in w:
                put(outs, meta, f"{p}.{k}", w[k])
                meta[f"{p}.{k}.shape"] = tuple(w[k].shape)
        return outs

    def post(v, o, m):
        return [(f"{op}: {lab}", g) for op in ops for lab, g in samespace(o, m, op, "w:" + op)]

    def static(m, w):
        own = m["own"]
        ss = {k: tuple(np.broadcast_shapes(*[tuple(s)])) for k, s in zip(KEYS, M.shapes, strict=True)}
        ss = {k: ss[k] for k in own["shapes"]}
        out = [("own-shape", own["shape"] == tuple(shape), str(own)), ("own-ndim", own["ndim"] == len(shape), str(own)), ("own-len", own["len"] == (shape[0] if shape else 0), str(own)),
               ("own-size", own["size"] == int(np.prod(shape, dtype=int)), str(own)), ("own-shapes", own["shapes"] == ss, f"{own['shapes']}, expected {ss}"),
               ("own-sizes", own["sizes"] == {k: int(np.prod(s, dtype=int)) for k, s in ss.items()}, str(own["sizes"]))]
        for op in ops:
            if op == "+":
                out.append((f"{op}: keys", m[op]["keys"] == m["w:+"]["keys"], str(m[op]["keys"])))
                continue
            out += [(f"{op}: {a}", b, c) for a, b, c in samestatic(m, op, "w:" + op)]
        return out

    return Contract(f"shape[{M.label}]: {' '.join(ops)}", ["Space." + o for o in ops], vs, run, post, lambda v: in_range(M.pos, v, M.prof), static=static, samples=M.sampler(vs), ref=ref)


def negate(M):
    vs = M.vars()

    def run(a, meta):
        outs = {}
        putspace(outs, meta, "r", -cx.Space(**M.mk(a)))
        return outs

    def ref(a, meta):
        outs = {}
        x = M.mk(a)
        meta["w"] = dict(keys=sorted(x), type="Space")
        for k in x:
            put(outs, meta, f"w.{k}", -x[k])
            meta[f"w.{k}.shape"] = tuple(x[k].shape)
        return outs

    return Contract(f"-space[{M.label}]", ["Space.__neg__"], vs, run, lambda v, o, m: samespace(o, m, "r", "w"), lambda v: M.pre(v),
                    static=lambda m, w: samestatic(m, "r", "w"), samples=M.sampler(vs), ref=ref)


def lookup(pos, given, form):
    """Every accepted name of a dimension finds the member it was given under any name."""
    M = Members(pos, True, True, names=given)
    vs = M.vars()

    def make(x):
        if form == "kwargs":
            return cx.Space(**x)
        if form == "dict":
            return cx.Space(x)
        if form == "items":
            return cx.Space(list(x.items()))
        if form == "dimensions":
            return cx.Space({u.dimension(k): y for k, y in x.items()})
        if form == "mixed":
            (k0, v0), *rest = x.items()
            return cx.Space({k0: v0}, **dict(rest))
        if form == "jit":
            return jax.jit(lambda s: s)(cx.Space(**x))
        if form == "replace":
            from dataclassish import replace
            ks = list(x)
            return replace(cx.Space({ks[0]: x[ks[0]], ks[1]: -x[ks[1]], ks[2]: x[ks[2]]}), speed=x[ks[1]])
        raise KeyError(form)

    def run(a, meta):
        x = M.mk(a)
        w = make(x)
        outs = {}
        meta["ks"] = (sorted(w), len(list(w.items())), type(w).__name__)
        for k, g in zip(KEYS, given, strict=True):
            put(outs, meta, f"in.{k}", x[g])
            for n in NAMES[k]:
                put(outs, meta, f"str.{n}", w[n])
                put(outs, meta, f"dim.{n}", w[u.dimension(n)])
        put(outs, meta, "vals", dict(w.asdict())["speed"])
        return outs

    def post(v, o, m):
        gs = []
        for k in KEYS:
            for c in m[f"in.{k}"]["comps"]:
                for n in NAMES[k]:
                    for how in ("str", "dim"):
                        r = o.get(f"{how}.{n}.{c}")
                        gs.append((f"{how}[{n}].{c}", alleq(r, o[f"in.{k}.{c}"]) if r is not None else tm.FALSE))
        for c in m["in.speed"]["comps"]:
            gs.append((f"asdict.{c}", alleq(o[f"vals.{c}"], o[f"in.speed.{c}"])))
        return gs

    def static(m, w):
        out = [("canonical-keys", m["ks"] == (sorted(KEYS), 3, "Space"), str(m["ks"]))]
        for k in KEYS:
            for n in NAMES[k]:
                for how in ("str", "dim"):
                    out.append((f"{how}[{n}]: same class, kinds, units", m[f"{how}.{n}"] == m[f"in.{k}"], str(m[f"{how}.{n}"])))
        return out

    return Contract(f"lookup[{pos}, given as {'/'.join(given)} in {form}]", ["Space.__init__", "Space.__getitem__", "_get_dimension_name"], vs, run, post,
                    lambda v: in_range(pos, v, M.prof), static=static, samples=M.sampler(vs))


def refused(what, mk, vs):
    def run(a, meta):
        w = mk(a)
        outs = {}
        putspace(outs, meta, "r", w)
        return outs

    return Contract(f"refused[{what}]", ["Space.__init__"], vs, run, raises=lambda v: tm.TRUE)


def from_pos(pos, prof):
    vs = posvars(pos, prof)

    def run(a, meta):
        outs = {}
        q = mkpos(pos, a, prof)
        w = cx.Space.from_(q)
        put(outs, meta, "r", w["length"])
        put(outs, meta, "s", cx.Space.from_(w)["length"])
        put(outs, meta, "t", w.represent_as(cx.Space)["length"])
        put(outs, meta, "q", q)
        meta["keys"] = (list(w), list(cx.Space.from_(w)))
        return outs

    def post(v, o, m):
        return [(f"{p}.{c}", alleq(o[f"{p}.{c}"], o[f"q.{c}"])) for p in "rst" for c in m["q"]["comps"]]

    def static(m, w):
        return [("keys", m["keys"] == (["length"], ["length"]), str(m["keys"]))] + [(f"same[{p}]", m[p] == m["q"], str(m[p])) for p in "rst"]

    return Contract(f"Space.from_[{pos} | {prof}]", ["Space.from_"], vs, run, post, lambda v: in_range(pos, v, prof), static=static, samples=sample_pos(vs, pos))


def contracts(tier):
    out = []
    thorough = tier == "thorough"
    NOPRO = [p for p in POS3 if p != "ProlateSpheroidalPos"]
    for group in (POS1, POS2, NOPRO):
        for s in group:
            for t in group:
                if s != t or thorough or s in ("SphericalPos", "CartesianPos3D"):
                    out.append(represent(Members(s, True, True), t, "method" if s != t else "function"))
                if s != t and thorough:
                    out.append(represent(Members(s, True, True, "kpc-deg"), t, "function"))
    for s in NOPRO[1:]:
        out.append(represent(Members(s, True, None, "kpc-deg"), "CartesianPos3D", "function"))
        out.append(represent(Members("CartesianPos3D", True, None, "kpc-deg"), s, "function"))
        out.append(represent(Members(s), "CylindricalPos"))
    out.append(represent(Members("ProlateSpheroidalPos", True, True), "CartesianPos3D"))
    out.append(represent(Members("ProlateSpheroidalPos", True), "SphericalPos"))
    # members in different representations
    for p, v, a, t in (("CartesianPos3D", "SphericalVel", "CylindricalAcc", "LonLatSphericalPos"), ("SphericalPos", "CartesianVel3D", "CartesianAcc3D", "CylindricalPos"),
                       ("LonLatSphericalPos", "LonCosLatSphericalVel", None, "CartesianPos3D"), ("LonLatSphericalPos", "LonCosLatSphericalVel", "LonLatSphericalAcc", "SphericalPos"),
                       ("CylindricalPos", "MathSphericalVel", "SphericalAcc", "CartesianPos3D"), ("PolarPos", "CartesianVel2D", "CartesianAcc2D", "PolarPos"),
                       ("CartesianPos2D", "PolarVel", "PolarAcc", "CartesianPos2D")):
        out.append(represent(Members(p, v, a), t))
    # names, member order, jit, mappings
    for via in ("jit", "dict"):
        out.append(represent(Members("SphericalPos", True, True), "CartesianPos3D", via))
        out.append(represent(Members("CartesianPos3D", True, True), "CylindricalPos", via))
    out.append(represent(Members("CartesianPos3D", True, True, names=("length", "velocity", "acceleration")), "SphericalPos"))
    out.append(represent(Members("CylindricalPos", True, True, order=("acceleration", "speed", "length")), "CartesianPos3D"))
    # shapes: the members broadcast against each other
    for shapes in (((2,), (2,), (2,)), ((2, 1), (2, 1), (2, 1)), ((2,), (), ()), ((), (2,), (2,)), ((2, 1), (1, 2), (2, 2)), ((2,), (2, 1), (2,))):
        for s, t in (("CartesianPos3D", "SphericalPos"), ("CylindricalPos", "CartesianPos3D"), ("PolarPos", "CartesianPos2D"))[0 if len(set(shapes)) == 1 or thorough else 1:]:
            out.append(represent(Members(s, True, True, shapes=shapes), t))
    for pos in ("CartesianPos3D", "SphericalPos", "PolarPos", "CartesianPos1D", *([p for p in COMPS if p != "TwoSpherePos"] if thorough else ())):
        main = thorough or pos == "CartesianPos3D"
        for shapes in (((2,), (2,), (2,)), ((2,), (), (2,)), ((), (2,), (1,)))[0 if main else 1:3 if main else 2]:
            ks = list(SHAPE_OPS)
            for i in range(0, len(ks), 7):
                out.append(shapeop(Members(pos, True, True, shapes=shapes), (2,), ks[i:i + 7], SHAPE_OPS))
        for shapes in (((2, 3), (2, 3), (2, 3)), ((2, 3), (3,), ()), ((2, 1), (3,), (2, 3)))[0 if main else 2:]:
            ks = list(SHAPE_OPS2)
            for i in range(0, len(ks), 6):
                out.append(shapeop(Members(pos, True, True, shapes=shapes), (2, 3), ks[i:i + 6], SHAPE_OPS2))
        out.append(shapeop(Members(pos, True, True), (), ["[None]", "[...]", "flatten", "T", "+"], SHAPE_OPS))
    for pos in ("CartesianPos3D", "CylindricalPos", "CartesianPos2D", "CartesianPos1D", "SphericalPos", "PolarPos", "LonLatSphericalPos"):
        out.append(negate(Members(pos, True, True, "mixed")))
    out.append(negate(Members("CartesianPos3D", "SphericalVel", "CylindricalAcc", shapes=((2,), (), (2,)))))
    for given in (("length", "speed", "acceleration"), ("length", "velocity", "acceleration")):
        for form in ("kwargs", "dict", "items", "dimensions", "mixed", "jit", "replace"):
            out.append(lookup("CartesianPos3D", given, form))
        out.append(lookup("SphericalPos", given, "kwargs"))
    M = Members("CartesianPos3D", True, True)
    vs = M.vars()

    def two(k1, k2):
        def mk(a):
            x = M.mk(a)
            return cx.Space({k1: x["speed"], "length": x["length"], k2: -x["speed"]})
        return mk

    for k1, k2 in (("speed", "velocity"), ("velocity", "speed"), (u.dimension("speed"), "velocity"), ("speed", u.dimension("velocity"))):
        out.append(refused(f"{k1!r} with {k2!r}", two(k1, k2), vs))
    out.append(refused("length given by name and by dimension", lambda a: cx.Space({"length": M.mk(a)["length"], u.dimension("length"): M.mk(a)["length"]}), vs))
    out.append(refused("speed= and velocity= keywords", lambda a: cx.Space(speed=M.mk(a)["speed"], velocity=M.mk(a)["speed"]), vs))
    for sh in (((2,), (3,), ()), ((2,), (2,), (3,)), ((2, 3), (2,), ())):
        N = Members("CartesianPos3D", True, True, shapes=sh)
        out.append(refused(f"shapes {sh}", lambda a, N=N: cx.Space(**N.mk(a)), N.vars()))
    for pos in COMPS:
        out.append(from_pos(pos, "kpc-deg"))
    return out
