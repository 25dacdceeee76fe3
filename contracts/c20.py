"""C20: constructors and converters agree on component order and units."""
from __future__ import annotations

import collections
import types

from plum import convert
from unxt.quantity import AbstractQuantity, UncheckedQuantity

from .lib import *  # noqa: F403

FROM = "AbstractVector.from_"
_put = put  # noqa: F405


def put(outs, meta, prefix, vec):
    """As in the library, with the shape of the vector."""
    _put(outs, meta, prefix, vec)
    meta[prefix]["shape"] = tuple(vec.shape)


# class -> (components, unit of the array); N-D classes keep the feature axis
CARTS = {}
for _n in (1, 2, 3):
    for _k, _pre, _u in (("Pos", "", "kpc"), ("Vel", "d_", "km/s"), ("Acc", "d2_", "km/s2")):
        CARTS[f"Cartesian{_k}{_n}D"] = ([_pre + c for c in "xyz"[:_n]], _u)
CARTS |= {"RadialPos": (["r"], "kpc"), "RadialVel": (["d_r"], "km/s"), "RadialAcc": (["d2_r"], "km/s2"), "CartesianGeneric3D": (["x", "y", "z"], "kg m / s")}
NDS = {"CartesianPosND": ("q", "kpc"), "CartesianVelND": ("d_q", "km/s"), "CartesianAccND": ("d2_q", "km/s2")}
ABS = {"CartesianPos3D": "AbstractPos3D", "CartesianVel3D": "AbstractVel3D", "CartesianAcc3D": "AbstractAcc3D"}


def nest(x):
    return [nest(y) for y in x] if x.ndim else x


FORMS = {
    "array, unit": lambda k, x, un: k.from_(x, un),
    "array, Unit": lambda k, x, un: k.from_(x, u.unit(un)),
    "list, unit": lambda k, x, un: k.from_(nest(x), un),
    "Quantity": lambda k, x, un: k.from_(Q(x, un)),
    "UncheckedQuantity": lambda k, x, un: k.from_(UncheckedQuantity(x, un)),
    "Distance": lambda k, x, un: k.from_(cx.Distance(x, un)),
    "jit": lambda k, x, un: jax.jit(k.from_)(Q(x, un)),
}


def from_array(name, form, shape, unit=None, cls_name=None):
    """The i-th value along the last axis is the i-th coordinate, with its unit."""
    comps, un = CARTS[name]
    un = unit or un
    n = len(comps)
    full = (*shape, n)
    if form.startswith("flat "):  # 1-D classes also take arrays without the component axis
        full, form = shape, form.removeprefix("flat ")
    flat = len(full) == len(shape)
    lo = 0.0 if name == "RadialPos" or form == "Distance" else None
    vs = [Var("a", full, lo=lo)]

    def run(a, meta):
        outs = {}
        put(outs, meta, "r", FORMS[form](cls(cls_name or name), a["a"], un))
        return outs

    def post(v, o, m):
        return [(f"coordinate {i} is {c}", alleq(o[f"r.{c}"], v["a"] if flat else v["a"][..., i])) for i, c in enumerate(comps)]

    def static(m, w):
        us = m["r"]["comps"]
        return [("class", m["r"]["cls"] == name, m["r"]["cls"]), ("components", [*us] == comps, str(list(us))),
                *[(f"unit[{c}]", u.unit(us[c][0]) == u.unit(un), us[c][0]) for c in comps],
                ("shape", tuple(m["r"]["shape"]) == tuple(shape), str(m["r"]["shape"]))]

    def pre(v):
        return [tm.le(tm.ZERO, x) for x in v["a"].ravel()] if lo is not None else []

    return Contract(f"from array[{cls_name or name}: {form}{' ' + unit if unit else ''}, shape {full}]", [f"{name}.from_", FROM], vs, run, post, pre, static=static)


def from_array_nd(name, form, full, unit=None):
    c, un = NDS[name]
    un = unit or un
    vs = [Var("a", full)]

    def run(a, meta):
        outs = {}
        put(outs, meta, "r", FORMS[form](cls(name), a["a"], un))
        return outs

    def post(v, o, m):
        return [("features", alleq(o[f"r.{c}"], v["a"] if full else v["a"].reshape(1)))]

    def static(m, w):
        us = m["r"]["comps"]
        return [("class", m["r"]["cls"] == name, m["r"]["cls"]), ("unit", u.unit(us[c][0]) == u.unit(un), us[c][0]),
                ("shape", tuple(m["r"]["shape"]) == tuple(full[:-1]), str(m["r"]["shape"]))]

    return Contract(f"from array[{name}: {form}{' ' + unit if unit else ''}, shape {full}]", [f"{name}.from_", FROM], vs, run, post, static=static)


def same(o, m, c):
    """r.c = w.c; angles up to rounding relative to a radian."""
    un = m["w"]["comps"][c][0]
    k = 4 if u.unit(un).is_equivalent("rad") else 0
    return alleq(o[f"r.{c}"] + k, o[f"w.{c}"] + k)


def from_array_curv(name, form, shape):
    """A curvilinear 3-D class takes the array as Cartesian coordinates (C01 converts them)."""
    vs = [Var("a", (*shape, 3))]

    def run(a, meta):
        outs = {}
        put(outs, meta, "r", FORMS[form](cls(name), a["a"], "kpc"))
        return outs

    def ref(a, meta):
        outs = {}
        put(outs, meta, "w", cx.represent_as(V.CartesianPos3D(*(Q(a["a"][..., i], "kpc") for i in range(3))), cls(name)))
        return outs

    def post(v, o, m):
        return [(c, same(o, m, c)) for c in m["r"]["comps"]]

    def static(m, w):
        return [("class, units, kinds", m["r"] == m["w"], str(m["r"]))]

    def pre(v):
        x = v["a"]
        return regular_cart([x[..., 0], x[..., 1], x[..., 2]], [name])

    return Contract(f"from array[{name}: {form}, shape {(*shape, 3)}]", ["AbstractPos3D.from_"], vs, run, post, pre, static=static, ref=ref)


MAPS = {
    "keywords": lambda k, f: k(**f),
    "keywords, reversed": lambda k, f: k(**dict(reversed(f.items()))),
    "dict": lambda k, f: k.from_(f),
    "dict, reversed": lambda k, f: k.from_(dict(reversed(f.items()))),
    "mappingproxy": lambda k, f: k.from_(types.MappingProxyType(f)),
    "OrderedDict": lambda k, f: k.from_(collections.OrderedDict(f)),
    "positional": lambda k, f: k(*f.values()),
    "jit": lambda k, f: jax.jit(lambda g: k.from_(g))(f),
}


def comp_shapes(comps, shape):
    """Different, broadcastable component shapes when shape is the string 'mixed'."""
    return [((2, 1), (3,), ())[i % 3] for i in range(len(comps))] if shape == "mixed" else [shape] * len(comps)


def from_map_pos(pos, form, prof, shape=()):
    vs = posvars(pos, prof)
    for x, s in zip(vs, comp_shapes(COMPS[pos], shape), strict=False):
        if x.name != "Delta":
            x.shape = tuple(s)
    un = cunits(pos, prof)

    def run(a, meta):
        f = {c: Q(a[c], un[c]) for c, _ in COMPS[pos]}
        if pos == "ProlateSpheroidalPos":
            f["Delta"] = Q(a["Delta"], UNITS[prof]["L"])
        if form == "positional" and pos == "ProlateSpheroidalPos":
            d = f.pop("Delta")
            r = cls(pos)(*f.values(), Delta=d)
        else:
            r = MAPS[form](cls(pos), f)
        outs = {}
        put(outs, meta, "r", r)
        return outs

    def post(v, o, m):
        q, w = phys(o, m, "r"), physin(v, pos, prof)
        gs = []
        for c, k in COMPS[pos]:
            if k == "A":
                gs += [(f"cos {c}", alleq(cos(q[c]), cos(w[c]))), (f"sin {c}", alleq(sin(q[c]), sin(w[c])))]
            else:
                gs.append((c, alleq(q[c], w[c])))
        if pos == "ProlateSpheroidalPos":
            gs.append(("Delta", alleq(q["Delta"], w["Delta"])))
        return gs

    def static(m, w):
        us = m["r"]["comps"]
        return [("class", m["r"]["cls"] == pos, m["r"]["cls"]), *[(f"unit[{c}]", u.unit(us[c][0]) == u.unit(un[c]), us[c][0]) for c, _ in COMPS[pos]],
                *([("shape", tuple(m["r"]["shape"]) == np.broadcast_shapes(*comp_shapes(COMPS[pos], shape)), str(m["r"]["shape"]))])]

    return Contract(f"from mapping[{pos}: {form} | {prof}, {shape}]", [FROM, f"{pos}.__init__"], vs, run, post, lambda v: in_range(pos, v, prof), static=static, samples=sample_pos(vs, pos))


def from_map_diff(name, form, prof, order, shape=()):
    vs = dvars(name, prof, order)
    comps = dcomps(name)
    for x, s in zip(vs, comp_shapes(comps, shape), strict=True):
        x.shape = tuple(s)
    un = dunits(INT[name], prof, order, name)

    def run(a, meta):
        f = {c: Q(a[c], un[c]) for c in (un if name == "LonCosLatSphericalVel" else comps)}
        outs = {}
        put(outs, meta, "r", MAPS[form](cls(name), f))
        return outs

    def post(v, o, m):
        return [(c, alleq(o[f"r.{c}"], v[c])) for c in comps]

    def static(m, w):
        us = m["r"]["comps"]
        return [("class", m["r"]["cls"] == name, m["r"]["cls"]), *[(f"unit[{c}]", u.unit(us[c][0]) == u.unit(un[c]), us[c][0]) for c in comps],
                ("shape", tuple(m["r"]["shape"]) == np.broadcast_shapes(*comp_shapes(comps, shape)), str(m["r"]["shape"]))]

    return Contract(f"from mapping[{name}: {form} | {prof}, {shape}]", [FROM, f"{name}.__init__"], vs, run, post, static=static)


KINDS = {"Quantity": Q, "UncheckedQuantity": UncheckedQuantity, "AbstractQuantity": AbstractQuantity, "Distance": cx.Distance}


def to_quantity(pos, to, prof, shape=(), jit=False):
    """convert(position, quantity) stacks the Cartesian coordinates on the last axis."""
    vs = posvars(pos, prof)
    for x, s in zip(vs, comp_shapes(COMPS[pos], shape), strict=False):
        if x.name != "Delta":
            x.shape = tuple(s)
    n = DIM[pos]
    cart = CART[n]

    def conv(q):
        return convert(q, KINDS[to])

    def run(a, meta):
        q = mkpos(pos, a, prof)
        r = (jax.jit(conv) if jit else conv)(q)
        meta["unit"], meta["type"], meta["shape"], meta["want"] = str(r.unit), type(r).__name__, tuple(r.shape), tuple(q.shape)
        return {"r": r.value}

    def ref(a, meta):
        outs = {}
        q = mkpos(pos, a, prof)
        put(outs, meta, "c", q if pos == cart else cx.represent_as(q, cls(cart)))
        return outs

    def post(v, o, m):
        c, k = phys(o, m, "c"), fac(m["unit"], "m")
        if o["r"].shape != (*m["want"], n):
            return [("one value per coordinate", tm.FALSE)]
        return [(f"value {i} is {x}", alleq(k * o["r"][..., i], c[x])) for i, x in enumerate("xyz"[:n])]

    def static(m, w):
        return [("type", to == "AbstractQuantity" or m["type"].split("[")[0] == to, m["type"]), ("length", u.unit(m["unit"]).is_equivalent("m"), m["unit"]),
                ("shape", m["shape"] == (*m["want"], n), str(m["shape"]))]

    def pre(v):
        out = in_range(pos, v, prof)
        if to == "Distance":
            out += [tm.le(tm.ZERO, x) for c, _ in COMPS[pos] for x in v[c].ravel()]
        return out

    def samples(rng):
        return {x.name: np.abs(x.sample(rng)) for x in vs}

    return Contract(f"to quantity[{pos} -> {to}{' in jit' if jit else ''} | {prof}, {shape}]", ["convert_pos_to_absquantity", "convert_pos_to_q"], vs, run, post, pre, static=static, ref=ref,
                    samples=samples if to == "Distance" else sample_pos(vs, pos))


def to_quantity_diff(name, to, prof, shape=(), jit=False):
    """The same for Cartesian and radial velocities and accelerations; from_ gives them back."""
    order = 1 if "Vel" in name else 2
    vs = dvars(name, prof, order)
    comps = dcomps(name)
    for x, s in zip(vs, comp_shapes(comps, shape), strict=True):
        x.shape = tuple(s)
    un = dunits(INT[name], prof, order, name)
    if prof == "mixed":
        un = {c: (x if i != 1 else f"pc / {'yr' if order == 1 else 'Myr2'}") for i, (c, x) in enumerate(un.items())}
    dim = "m/s" if order == 1 else "m/s2"

    def go(x):
        r = convert(x, KINDS[to])
        return r, cls(name).from_(r if to == "Quantity" else convert(r, Q))

    def run(a, meta):
        x = cls(name)(**{c: Q(a[c], un[c]) for c in comps})
        r, b = (jax.jit(go) if jit else go)(x)
        meta["unit"], meta["type"], meta["shape"], meta["want"] = str(r.unit), type(r).__name__, tuple(r.shape), tuple(x.shape)
        outs = {"r": r.value}
        put(outs, meta, "b", b)
        return outs

    def post(v, o, m):
        k = fac(m["unit"], dim)
        if o["r"].shape != (*m["want"], len(comps)):
            return [("one value per coordinate", tm.FALSE)]
        q = phys(o, m, "b")
        return [(f"value {i} is {c}", alleq(k * o["r"][..., i], fac(un[c], dim) * v[c])) for i, c in enumerate(comps)] + \
            [(f"and back: {c}", alleq(q[c], fac(un[c], dim) * v[c])) for c in comps]

    def static(m, w):
        return [("type", m["type"].split("[")[0] == to, m["type"]), ("dimension", u.unit(m["unit"]).is_equivalent(dim), m["unit"]), ("class back", m["b"]["cls"] == name, m["b"]["cls"])]

    return Contract(f"to quantity[{name} -> {to}{' in jit' if jit else ''} | {prof}, {shape}]", ["vec_diff_to_q", "vec_diff1d_to_uncheckedq"], vs, run, post, static=static)


def to_quantity_nd(to, full):
    vs = [Var("a", full, lo=0.0 if to == "Distance" else None)]

    def run(a, meta):
        x = V.CartesianPosND(Q(a["a"], "kpc"))
        r = convert(x, KINDS[to])
        outs = {"r": r.value}
        meta["unit"], meta["type"] = str(r.unit), type(r).__name__
        put(outs, meta, "b", V.CartesianPosND.from_(convert(r, Q)))
        return outs

    def post(v, o, m):
        if o["r"].shape != full:
            return [("one value per feature", tm.FALSE)]
        return [("value", alleq(o["r"], v["a"])), ("and back", alleq(o["b.q"], v["a"]))]

    def static(m, w):
        return [("type", m["type"].split("[")[0] == to, m["type"]), ("unit", m["unit"] == "kpc", m["unit"])]

    def pre(v):
        return [tm.le(tm.ZERO, x) for x in v["a"].ravel()] if to == "Distance" else []

    return Contract(f"to quantity[CartesianPosND -> {to}, {full}]", ["CartesianPosND: convert"], vs, run, post, pre, static=static)


def round_trip(pos, prof, shape=()):
    """Building from the quantity returns the vector."""
    vs = posvars(pos, prof)
    for x, s in zip(vs, comp_shapes(COMPS[pos], shape), strict=False):
        x.shape = tuple(s)

    def run(a, meta):
        outs = {}
        put(outs, meta, "r", cls(pos).from_(convert(mkpos(pos, a, prof), Q)))
        return outs

    def post(v, o, m):
        q, w = phys(o, m, "r"), physin(v, pos, prof)
        return [(c, alleq(q[c], w[c])) for c, _ in COMPS[pos]]

    return Contract(f"quantity round trip[{pos} | {prof}, {shape}]", [FROM, "convert_pos_to_q"], vs, run, post, lambda v: in_range(pos, v, prof),
                    static=lambda m, w: [("class", m["r"]["cls"] == pos, m["r"]["cls"])])


def from_vector(src, dst, prof, shape=()):
    """T.from_(position) is the position converted to T (C01)."""
    vs = posvars(src, prof, shape=shape)

    def run(a, meta):
        q = mkpos(src, a, prof)
        outs = {}
        put(outs, meta, "r", cls(dst).from_(q))
        return outs

    def ref(a, meta):
        outs = {}
        q = mkpos(src, a, prof)
        put(outs, meta, "w", q if src == dst else cx.represent_as(q, cls(dst)))
        return outs

    def post(v, o, m):
        return [(c, same(o, m, c)) for c in m["w"]["comps"]] if m["r"]["cls"] == dst else [("class", tm.FALSE)]

    def pre(v):
        q = physin(v, src, prof)
        return in_range(src, v, prof) + interior(src, q) + regular_cart(to_cart(src, q), [dst])

    return Contract(f"from vector[{src} -> {dst} | {prof}{list(shape) or ''}]", ["AbstractPos3D.from_", FROM], vs, run, post, pre, ref=ref,
                    static=lambda m, w: [("class, units, kinds", m["r"] == m["w"], str(m["r"]))], samples=sample_pos(vs, src))


def same_vector(name, bases):
    """A vector is built from itself unchanged, by its class and its 3-D base class."""
    order = 0 if name in COMPS else 1 if "Vel" in name else 2
    vs = posvars(name, "m-rad") if not order else dvars(name, "m-rad", order)

    def run(a, meta):
        x = mkpos(name, a) if not order else mkdiff(name, a, "m-rad", order)
        outs = {}
        put(outs, meta, "x", x)
        for b in bases:
            put(outs, meta, b, getattr(V, b).from_(x))
        return outs

    def post(v, o, m):
        return [(f"{b}: {c}", alleq(o[f"{b}.{c}"], o[f"x.{c}"])) for b in bases for c in m["x"]["comps"]]

    return Contract(f"from itself[{name}]", [FROM], vs, run, post, lambda v: in_range(name, v) if not order else [], samples=sample_pos(vs, name) if not order else None,
                    static=lambda m, w: [(f"{b}: same class, units, kinds", m[b] == m["x"], str(m[b])) for b in bases])


def refused(what, vs, mk, pre=None):
    def run(a, meta):
        outs = {}
        put(outs, meta, "r", mk(a))
        return outs

    return Contract(f"refused[{what}]", [FROM], vs, run, pre=pre, raises=lambda v: tm.TRUE)


def contracts(tier):
    out = []
    thorough = tier == "thorough"
    SH = [(), (2,), (2, 3)]
    for name, (comps, _) in CARTS.items():
        one = len(comps) == 1
        pos = "Pos" in name
        forms = ["array, unit", "list, unit", "Quantity", "array, Unit"] + ([] if one else ["UncheckedQuantity"]) + (["Distance"] if pos and not one else [])
        for form in forms:
            for shape in SH if form in ("Quantity", "array, unit") or thorough else SH[:2]:
                out.append(from_array(name, form, shape))
        out.append(from_array(name, "jit", (2,)))
        if one:
            for shape in ((), (2,), (3, 2)):
                out.append(from_array(name, "flat Quantity", shape))
                out.append(from_array(name, "flat array, unit", shape))
            if thorough:
                out.append(from_array(name, "flat jit", (2,)))
        alt = {"Pos": "km", "Vel": "pc/Myr", "Acc": "m/s2"}.get(name.strip("123D")[-3:])
        if alt:
            out.append(from_array(name, "Quantity", (2,), alt))
        if name in ABS:
            for form in ("array, unit", "Quantity", "list, unit", "jit"):
                out.append(from_array(name, form, (2,), cls_name=ABS[name]))
    for name in NDS:
        for form in ("array, unit", "list, unit", "Quantity", "array, Unit", "jit"):
            for full in ((4,), (2, 5), (1,), (2, 3, 2), ()):
                if not (form == "list, unit" and not full):
                    out.append(from_array_nd(name, form, full))
    for name in POS3:
        if name not in ("CartesianPos3D", "ProlateSpheroidalPos"):
            for form, shape in (("Quantity", ()), ("array, unit", (2,)), *([("list, unit", ()), ("jit", (2,))] if thorough else ())):
                out.append(from_array_curv(name, form, shape))
    for pos in COMPS:
        for i, form in enumerate(MAPS):
            for prof in UNITS if thorough else (list(UNITS)[i % 3],):
                out.append(from_map_pos(pos, form, prof, () if i % 2 else (2,)))
        out.append(from_map_pos(pos, "dict", "mixed", "mixed"))
    for order, tab in ((1, {**VEL, "lc": "LonCosLatSphericalVel"}), (2, ACC)):
        for name in tab.values():
            if not hasattr(V, name):
                continue
            for i, form in enumerate(MAPS):
                for prof in UNITS if thorough else (list(UNITS)[i % 3],):
                    out.append(from_map_diff(name, form, prof, order, () if i % 2 else (2,)))
            out.append(from_map_diff(name, "dict", "mixed", order, "mixed"))
    for pos in COMPS:
        if pos == "TwoSpherePos":
            continue
        for i, to in enumerate(("Quantity", "UncheckedQuantity", "AbstractQuantity")):
            for prof, shape in (((list(UNITS)[i], (2,) if i else ()),) if not thorough else [(p, s) for p in UNITS for s in ((), (2,), "mixed")]):
                out.append(to_quantity(pos, to, prof, shape))
        if not thorough:
            out.append(to_quantity(pos, "Quantity", "mixed", "mixed"))
        out.append(to_quantity(pos, "Quantity", "mixed", (2,), jit=True))
        if pos in CART.values():
            for prof in UNITS:
                out.append(to_quantity(pos, "Distance", prof, (2,)))
                out += [round_trip(pos, prof, shape) for shape in ((), (2,), "mixed")]
    for name in ("CartesianVel1D", "RadialVel", "CartesianVel2D", "CartesianVel3D", "CartesianAcc1D", "RadialAcc", "CartesianAcc2D", "CartesianAcc3D"):
        for to in ("Quantity", "UncheckedQuantity"):
            for prof, shape in (("m-rad", ()), ("kpc-deg", (2,)), ("mixed", "mixed"), ("mixed", ())):
                out.append(to_quantity_diff(name, to, prof, shape))
        out.append(to_quantity_diff(name, "Quantity", "mixed", "mixed", jit=True))
    for to in ("Quantity", "UncheckedQuantity", "Distance"):
        for full in ((3,), (2, 4), (2, 1, 2)):
            out.append(to_quantity_nd(to, full))
    NP = [p for p in POS3 if p != "ProlateSpheroidalPos"]
    for s in POS3:
        for t in NP:
            if s != t:
                out.append(from_vector(s, t, "kpc-deg"))
                if thorough:
                    out += [from_vector(s, t, p, sh) for p, sh in (("mixed", ()), ("m-rad", (2,)))]
    for p in COMPS:
        out.append(same_vector(p, [p] + (["AbstractPos3D"] if p in POS3 else [])))
        for k, tab in (("Vel", VEL), ("Acc", ACC)):
            if hasattr(V, tab[p]):
                out.append(same_vector(tab[p], [tab[p]] + ([f"Abstract{k}3D"] if p in POS3 else [])))
    # refusals: another class, another kind of vector, the wrong number of values
    for s, t in (("CartesianPos2D", "PolarPos"), ("PolarPos", "CartesianPos2D"), ("CartesianPos1D", "RadialPos"), ("RadialPos", "CartesianPos1D"), ("PolarPos", "CartesianPos3D"),
                 ("CartesianPos3D", "CartesianVel3D"), ("SphericalPos", "SphericalVel"), ("CartesianPos3D", "CartesianPos2D")):
        vs = posvars(s)
        out.append(refused(f"{s} as {t}", vs, lambda a, s=s, t=t: cls(t).from_(mkpos(s, a)), lambda v, s=s: in_range(s, v)))
    for s, t in (("SphericalVel", "CartesianVel3D"), ("CartesianVel3D", "SphericalVel"), ("LonLatSphericalVel", "LonCosLatSphericalVel"), ("CartesianVel3D", "CartesianPos3D"), ("CartesianVel3D", "AbstractAcc3D"),
                 ("CartesianVel3D", "CartesianAcc3D"), ("PolarVel", "CartesianVel2D"), ("SphericalVel", "SphericalPos")):
        out.append(refused(f"{s} as {t}", dvars(s, "m-rad", 1), lambda a, s=s, t=t: cls(t).from_(mkdiff(s, a, "m-rad", 1))))
    for s, t in (("SphericalAcc", "CartesianAcc3D"), ("CartesianAcc3D", "SphericalAcc"), ("CartesianAcc3D", "CartesianVel3D")):
        out.append(refused(f"{s} as {t}", dvars(s, "m-rad", 2), lambda a, s=s, t=t: cls(t).from_(mkdiff(s, a, "m-rad", 2))))
    for name, (comps, un) in CARTS.items():
        n = len(comps)
        if n > 1:
            for k in (n - 1, n + 1):
                for shape in ((), (4,)):
                    out.append(refused(f"{name}: array of {(*shape, k)}", [Var("a", (*shape, k))], lambda a, name=name, un=un: cls(name).from_(a["a"], un)))
    for name in ("SphericalVel", "CylindricalVel", "LonLatSphericalVel", "SphericalAcc", "CylindricalAcc"):
        un = "km/s" if "Vel" in name else "km/s2"
        out.append(refused(f"{name}: Cartesian array", [Var("a", (3,))], lambda a, name=name, un=un: cls(name).from_(a["a"], un)))
    for name, un in (("CartesianPos3D", "km/s"), ("CartesianVel3D", "km"), ("CartesianAcc3D", "km/s"), ("CartesianPos2D", "s"), ("CartesianPos1D", "m2"), ("CartesianPosND", "km/s"), ("CartesianVelND", "km")):
        n = len(CARTS[name][0]) if name in CARTS else 4
        out.append(refused(f"{name} in {un}", [Var("a", (n,))], lambda a, name=name, un=un: cls(name).from_(a["a"], un)))
    return out
