"""C11: distance, parallax and distance modulus are inverse views of one distance."""
from __future__ import annotations

import plum

from .lib import *  # noqa: F403
from .lib import cd

LEN = {"pc": (1e-3, 1e6), "kpc": (1e-5, 1e4), "m": (1e9, 1e20), "AU": (1e-2, 1e9), "km": (1e7, 1e17)}
ANG = ("mas", "arcsec", "rad", "deg")
LN10 = tm.log(tm.num(10))
TEN_PC = 10 * units.term(*units.LEN["pc"])


def length(o, m, k):
    return phys1(o[k], m[k]["unit"], "Quantity")


def wrapj(f, jit):
    return jax.jit(f) if jit else f


TO_P = {".parallax": lambda d: d.parallax, "from_": lambda d: cd.Parallax.from_(d), "from_(Quantity)": lambda d: cd.Parallax.from_(Q(d.value, d.unit)),
        "from_(dtype)": lambda d: cd.Parallax.from_(d, dtype=float), "jit(.parallax)": jax.jit(lambda d: d.parallax)}
FROM_P = {".distance": lambda p: p.distance, "from_": lambda p: cd.Distance.from_(p), "from_(Quantity)": lambda p: cd.Distance.from_(Q(p.value, p.unit)),
          "from_(dtype)": lambda p: cd.Distance.from_(p, dtype=float), "jit(.distance)": jax.jit(lambda p: p.distance)}
FROM_M = {".distance": lambda p: p.distance, "from_": lambda p: cd.Distance.from_(p), "from_(Quantity)": lambda p: cd.Distance.from_(Q(p.value, p.unit)),
          "from_(dtype)": lambda p: cd.Distance.from_(p, dtype=float), "jit(.distance)": jax.jit(lambda p: p.distance)}


def pos(v):
    return [tm.gt(t, tm.ZERO) for t in v["d"].ravel()]


def kinds(**want):
    return lambda m, w: [(f"kind[{k}]", m[k]["type"] == ty, str(m[k])) for k, ty in want.items()]


def same_p(got, want):
    """got = want for angles in (0, pi/2): tan is injective there."""
    z = np.full(np.shape(got), tm.ZERO, dtype=object)
    return tm.and_(alleq(tan(got), tan(want)), conj(tlt(z, got)), conj(tlt(got, z + tm.PI / 2)))


def d_to_p(un, form, shape=()):
    def run(a, meta):
        outs = {}
        d = cd.Distance(a["d"], un)
        p = TO_P[form](d)
        put_q(outs, meta, "p", p)
        put_q(outs, meta, "back", p.distance)
        put_q(outs, meta, "same", d.distance)
        put_q(outs, meta, "pp", p.parallax)
        return outs

    def post(v, o, m):
        d, p = phys1(v["d"], un, "Quantity"), length(o, m, "p")
        z = np.full(np.shape(p), tm.ZERO, dtype=object)
        return [("d-tan-p-is-1AU", alleq(d * tan(p), np.full(np.shape(p), AU_M, dtype=object))), ("p-in-(0,pi/2)", tm.and_(conj(tlt(z, p)), conj(tlt(p, z + tm.PI / 2)))),
                ("back", alleq(length(o, m, "back"), d)), ("distance-is-itself", alleq(length(o, m, "same"), d)), ("parallax-is-itself", alleq(length(o, m, "pp"), p))]

    return Contract(f"Distance -> Parallax {form} [{un} {list(shape)}]", ["Distance.parallax", "Parallax.distance", "Parallax.from_"], [Var("d", shape, lo=LEN[un][0], hi=LEN[un][1])], run, post, pos,
                    static=kinds(p="Parallax", back="Distance", same="Distance", pp="Parallax"))


def p_to_d(un, form, shape=(), neg=False):
    def run(a, meta):
        outs = {}
        p = cd.Parallax(a["p"], un, check_negative=not neg)
        d = FROM_P[form](p)
        put_q(outs, meta, "d", d)
        if not neg:
            put_q(outs, meta, "back", d.parallax)
        return outs

    def pre(v):
        out = []
        for t in v["p"].ravel():
            t = fac(un, "rad") * t
            out += [tm.lt(t, tm.ZERO), tm.lt(-(tm.PI / 2), t)] if neg else [tm.lt(t, tm.PI / 2), tm.gt(t, tm.ZERO)]
        return out

    def post(v, o, m):
        p, d = phys1(v["p"], un, "Quantity"), length(o, m, "d")
        gs = [("d-tan-p-is-1AU", alleq(d * tan(p), np.full(np.shape(p), AU_M, dtype=object)))]
        return gs if neg else [*gs, ("back", same_p(length(o, m, "back"), p))]

    hi = {"mas": 900.0, "arcsec": 900.0, "rad": 1.5, "deg": 89.0}[un]
    return Contract(f"Parallax -> Distance {form} [{un} {list(shape)}{' unchecked sign' if neg else ''}]", ["Parallax.distance", "Distance.parallax", "Distance.from_"],
                    [Var("p", shape, lo=-hi if neg else 0.001 * hi, hi=-0.001 * hi if neg else hi)], run, post, pre, static=kinds(**({"d": "Distance"} | ({} if neg else {"back": "Parallax"}))))


def d_to_m(un, shape=(), jit=False):
    def run(a, meta):
        outs = {}
        d = cd.Distance(a["d"], un)
        x = wrapj(lambda q: q.distance_modulus, jit)(d)
        put_q(outs, meta, "m", x)
        put_q(outs, meta, "back", x.distance)
        put_q(outs, meta, "mm", x.distance_modulus)
        return outs

    def post(v, o, m):
        d = phys1(v["d"], un, "Quantity")
        want = np.frompyfunc(lambda t: 5 * tm.log(t / TEN_PC) / LN10, 1, 1)(d)
        return [("m-is-5log10(d/10pc)", alleq(o["m"], want)), ("back", alleq(length(o, m, "back"), d)), ("itself", alleq(o["mm"], o["m"]))]

    return Contract(f"Distance -> DistanceModulus{' jit' if jit else ''} [{un} {list(shape)}]", ["Distance.distance_modulus", "DistanceModulus.distance"], [Var("d", shape, lo=LEN[un][0], hi=LEN[un][1])], run, post, pos,
                    static=lambda m, w: [*kinds(m="DistanceModulus", back="Distance", mm="DistanceModulus")(m, w), ("mag", m["m"]["unit"] == "mag", m["m"]["unit"])])


def m_to_d(form, shape=()):
    def run(a, meta):
        outs = {}
        x = cd.DistanceModulus(a["m"], "mag")
        d = FROM_M[form](x)
        put_q(outs, meta, "d", d)
        put_q(outs, meta, "back", d.distance_modulus)
        return outs

    def post(v, o, m):
        d = length(o, m, "d")
        want = np.frompyfunc(lambda t: TEN_PC * tm.pow_(tm.num(10), t / 5), 1, 1)(v["m"])
        return [("d-is-10pc*10^(m/5)", alleq(d, want)), ("back", alleq(o["back"], v["m"]))]

    return Contract(f"DistanceModulus -> Distance {form} [{list(shape)}]", ["DistanceModulus.distance", "Distance.distance_modulus", "Distance.from_"], [Var("m", shape, lo=-10.0, hi=40.0)], run, post,
                    static=kinds(d="Distance", back="DistanceModulus"))


def p_and_m(un, shape=(), jit=False):
    """Parallax <-> DistanceModulus, through the distance."""

    def run(a, meta):
        outs = {}
        p = cd.Parallax(a["p"], un)
        f = wrapj(lambda q: q.distance_modulus, jit)
        g = wrapj(lambda q: q.parallax, jit)
        x = f(p)
        put_q(outs, meta, "m", x)
        put_q(outs, meta, "back", g(x))
        put_q(outs, meta, "d", x.distance)
        return outs

    def pre(v):
        return [q for t in v["p"].ravel() for q in (tm.lt(fac(un, "rad") * t, tm.PI / 2), tm.gt(t, tm.ZERO))]

    def post(v, o, m):
        p = phys1(v["p"], un, "Quantity")
        d = length(o, m, "d")
        want = np.frompyfunc(lambda t: 5 * tm.log(AU_M / tm.tan(t) / TEN_PC) / LN10, 1, 1)(p)
        return [("m", alleq(o["m"], want)), ("same-distance", alleq(d * tan(p), np.full(np.shape(p), AU_M, dtype=object))), ("back", same_p(length(o, m, "back"), p))]

    hi = {"mas": 900.0, "arcsec": 900.0, "rad": 1.5, "deg": 89.0}[un]
    return Contract(f"Parallax <-> DistanceModulus{' jit' if jit else ''} [{un} {list(shape)}]", ["Parallax.distance_modulus", "DistanceModulus.parallax"], [Var("p", shape, lo=0.001 * hi, hi=hi)], run, post, pre,
                    static=kinds(m="DistanceModulus", back="Parallax", d="Distance"))


def ctor(ty, un, via="init"):
    """Which values a constructor accepts."""
    mk = getattr(cd, ty)

    def run(a, meta):
        x = {"init": lambda: mk(a["x"], un), "from_": lambda: mk.from_(a["x"], un), "from_(Quantity)": lambda: mk.from_(Q(a["x"], un)),
             "unchecked": lambda: mk(a["x"], un, check_negative=False), "convert": lambda: plum.convert(Q(a["x"], un), mk)}[via]()
        outs = {}
        put_q(outs, meta, "r", x)
        return outs

    raises = (lambda v: tm.or_(*[tm.lt(t, tm.ZERO) for t in v["x"].ravel()])) if ty == "Parallax" and via != "unchecked" else None
    return Contract(f"{ty} {via} [{un}]", [f"{ty}.__check_init__"], [Var("x", (2,), special=(0.0, 1e-12, -1e-12, -1.0))], run,
                    lambda v, o, m: [("keeps-value", alleq(length(o, m, "r"), phys1(v["x"], un, "Quantity")) if un != "mag" else alleq(o["r"], v["x"]))], raises=raises,
                    static=kinds(r=ty))


def wrong(ty, un):
    def run(a, meta):
        getattr(cd, ty)(a["x"], un)
        return {"x": a["x"]}

    return Contract(f"{ty} refuses [{un}]", [f"{ty}.__check_init__"], [Var("x")], run, raises=lambda v: tm.TRUE)


def contracts(tier):
    out = []
    for un in LEN:
        for form in TO_P:
            out.append(d_to_p(un, form))
        out += [d_to_p(un, ".parallax", (2,)), d_to_m(un), d_to_m(un, (2,)), d_to_m(un, jit=True)]
    for un in ANG:
        for form in FROM_P:
            out.append(p_to_d(un, form))
        out += [p_to_d(un, ".distance", (2,)), p_to_d(un, ".distance", neg=True), p_to_d(un, "from_(Quantity)", (2,)), p_and_m(un), p_and_m(un, (2,)), p_and_m(un, jit=True)]
    for form in FROM_M:
        out += [m_to_d(form), m_to_d(form, (2,))]
    for ty, uns in (("Distance", ("pc", "m")), ("Parallax", ("mas", "rad")), ("DistanceModulus", ("mag",))):
        for un in uns:
            for via in ("init", "from_", "convert") + (("from_(Quantity)",) if ty != "Distance" else ("from_(Quantity)",)) + (("unchecked",) if ty == "Parallax" else ()):
                out.append(ctor(ty, un, via))
    for ty, uns in (("Distance", ("s", "deg", "mag", "")), ("Parallax", ("pc", "mag", "km / s")), ("DistanceModulus", ("pc", "rad", "", "dex"))):
        out += [wrong(ty, un) for un in uns]
    return out
