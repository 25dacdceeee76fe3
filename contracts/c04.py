"""C04: positions outside a representation's range cannot be constructed."""
from __future__ import annotations

import math

from dataclasses import replace

from .lib import *  # noqa: F403
from .lib import cd


def freevars(pos, prof, kinds, shape=()):
    """Unconstrained inputs, biased towards the boundaries of the range."""
    un = cunits(pos, prof)
    out = []
    for x in posvars(pos, prof, shape=shape):
        k = dict(COMPS[pos]).get(x.name)
        if x.name in kinds:
            sp = (0.0, 1.0, -1.0)
        elif k in ("P", "B", "A"):
            one = 180.0 / {"deg": 1.0, "rad": 180 / math.pi, "arcmin": 1 / 60}[un[x.name]]
            sp = tuple(one * f for f in (0, 0.25, 0.5, 0.75, 1, -0.25, -0.5, -1, 1.5, 2, 2.25, 3, -2.25))
        else:
            sp = (0.0, 1.0, -1.0, 1e-3, -1e-3)
        out.append(Var(x.name, x.shape, special=sp))
    return out


def angle_kinds(pos, prof):
    """The azimuths given as Angle rather than as a plain quantity."""
    un = cunits(pos, prof)
    return {c: (lambda x, u=un[c]: cx.angle.Angle(x, u)) for c, k in COMPS[pos] if k == "A"}


def ctor(pos, prof, kinds=None, shape=(), angle=False, via="init", jit=False):
    kinds = kinds or {}
    mk = {c: (lambda x, ty=ty, unit=unit: getattr(cd, ty)(x, unit)) for c, (ty, unit) in kinds.items()}
    if angle:
        mk.update(angle_kinds(pos, prof))
    vs = freevars(pos, prof, kinds, shape)

    def run(a, meta):
        if via == "init":
            p = mkpos(pos, a, prof, kinds=mk)
        elif via == "kw":
            p = cls(pos).from_(**{c: (mk[c](a[c]) if c in mk else Q(a[c], cunits(pos, prof)[c])) for c, _ in COMPS[pos]},
                               **({"Delta": Q(a["Delta"], UNITS[prof]["L"])} if "Delta" in a else {}))
        elif via == "dict":
            p = cls(pos).from_({c: (mk[c](a[c]) if c in mk else Q(a[c], cunits(pos, prof)[c])) for c, _ in COMPS[pos]}
                               | ({"Delta": Q(a["Delta"], UNITS[prof]["L"])} if "Delta" in a else {}))
        elif via == "replace":
            base = {"m-rad": 1.0}
            un = cunits(pos, prof)
            safe = {c: Q(jnp.full(shape, {"MU": 3.0, "NU": 0.5}.get(k, 1.0)), un[c]) for c, k in COMPS[pos]}
            if "Delta" in a:
                safe["Delta"] = Q(1.0, UNITS[prof]["L"])
            p = replace(cls(pos)(**safe), **{c: (mk[c](a[c]) if c in mk else Q(a[c], un[c])) for c, _ in COMPS[pos]},
                        **({"Delta": Q(a["Delta"], UNITS[prof]["L"])} if "Delta" in a else {}))
            _ = base
        outs = {}
        put(outs, meta, "p", p)
        return outs

    def raises(v):
        ps = []
        for c in in_range(pos, {k: (x if k not in kinds else x) for k, x in v.items()}, prof):
            ps.append(c)
        for c, (ty, _u) in kinds.items():
            drop = {tm.le(tm.ZERO, x) for x in v[c].ravel()}
            if ty == "DistanceModulus":
                ps = [p for p in ps if p not in drop]
        return tm.not_(tm.and_(*ps)) if ps else tm.FALSE

    def pre(v):
        # a parallax at exactly zero is at infinity: outside this property
        return [tm.lt(fac(u, "rad") * x, tm.PI / 2) for c, (ty, u) in kinds.items() if ty == "Parallax" for x in v[c].ravel()]

    def post(v, o, m):
        gs = []
        un = cunits(pos, prof)
        for c, k in COMPS[pos]:
            unit, ty = m["p"]["comps"][c]
            if c in kinds:
                gs.append((f"keeps[{c}]", alleq(phys1(o[f"p.{c}"], unit, "Quantity"), phys1(v[c], kinds[c][1], "Quantity")) if ty == kinds[c][0] else tm.FALSE))
                continue
            x, y = phys1(v[c], un[c], "Quantity"), phys1(o[f"p.{c}"], unit, ty)
            x, y = np.broadcast_arrays(x, y)
            if k == "A":
                gs += [(f"direction[{c}]", tm.and_(alleq(cos(y), cos(x)), alleq(sin(y), sin(x))))]
                if not angle:
                    z = np.full(y.shape, tm.ZERO, dtype=object)
                    gs.append((f"0<={c}<2pi", tm.and_(conj(tle(z, y)), conj(tlt(y, z + 2 * tm.PI)))))
            else:
                gs.append((f"keeps[{c}]", alleq(x, y)))
        return gs

    def static(m, w):
        return [("class", m["p"]["cls"] == pos, str(m["p"]["cls"]))]

    def samp(rng):
        a = {x.name: x.sample(rng) for x in vs}
        inside = rng.random() < 0.5
        if inside:
            good = {x.name: x for x in posvars(pos, prof, shape=shape)}
            a = {n: (good[n].sample(rng) if n not in kinds else np.abs(x)) for n, x in a.items()}
            s = sample_pos(list(good.values()), pos)
            if s:
                a = s(rng)
        return a

    tag = "".join(f"<{k[0]} {k[1]}>" for k in kinds.values()) + (f" shape{list(shape)}" if shape else "") + (" Angle" if angle else "")
    return Contract(f"{pos}.{via}{tag} | {prof}", [f"{pos}.__init__", f"{pos}.__check_init__"], vs, run, post, pre, raises=raises,
                    static=static, samples=samp)


def normalising(pos, prof, kind=None, shapes=None, angle=False):
    """from_(r=..., theta=..., phi=...): any distance and angles, same point."""
    rc = radial_comp(pos)
    kinds = {rc: kind} if kind else {}
    mk = {c: (lambda x, ty=ty, unit=unit: getattr(cd, ty)(x, unit)) for c, (ty, unit) in kinds.items()}
    if angle:
        mk.update(angle_kinds(pos, prof))
    vs = [Var(x.name, (shapes or {}).get(x.name, ()), special=x.special) for x in freevars(pos, prof, kinds)]
    un = cunits(pos, prof)

    def run(a, meta):
        p = cls(pos).from_(**{c: (mk[c](a[c]) if c in mk else Q(a[c], un[c])) for c, _ in COMPS[pos]})
        outs = {}
        put(outs, meta, "p", p)
        return outs

    def pre(v):
        out = []
        for c, (ty, u) in kinds.items():
            if ty == "Parallax":
                for x in v[c].ravel():
                    out += [tm.lt(fac(u, "rad") * x, tm.PI / 2), x > 0]
        return out

    def post(v, o, m):
        q = phys(o, m, "p")
        want = to_cart(pos, physin(v, pos, prof, kinds=kinds))
        got = to_cart(pos, q)
        gs = [(f"same-point[{ax}]", alleq(g, w)) for ax, g, w in zip("xyz", got, want, strict=True)]
        rg = range_goals(pos, q)
        if angle:  # an azimuth given as an Angle may be kept unwrapped
            rg = [g for g in rg if "2pi" not in g[0]]
        return gs + rg

    tag = (f"<{kind[0]}>" if kind else "") + (f" shapes{shapes}" if shapes else "") + (" Angle" if angle else "")
    return Contract(f"{pos}.from_(normalise){tag} | {prof}", [f"{pos}.from_"], vs, run, post, pre)


def contracts(tier):
    out = []
    allpos = [p for p in COMPS]
    for p in allpos:
        for prof in ("m-rad", "kpc-deg", "mixed"):
            out.append(ctor(p, prof))
        out.append(ctor(p, "m-rad", shape=(2,)))
        out.append(ctor(p, "kpc-deg", via="replace"))
        if p not in ("SphericalPos", "MathSphericalPos", "LonLatSphericalPos"):
            out.append(ctor(p, "m-rad", via="dict"))
        if any(k == "A" for _, k in COMPS[p]):
            out.append(ctor(p, "kpc-deg", angle=True))
        if any(k == "R" for _, k in COMPS[p]) and p != "CylindricalPos":
            for kind in (("Parallax", "mas"), ("Parallax", "arcsec"), ("DistanceModulus", "mag"), ("Distance", "pc")):
                out.append(ctor(p, "m-rad", kinds={radial_comp(p): kind}))
    for p in ("SphericalPos", "MathSphericalPos", "LonLatSphericalPos"):
        for prof in ("m-rad", "kpc-deg", "mixed") if tier == "thorough" else ("kpc-deg", "mixed"):
            out.append(normalising(p, prof))
        for kind in (("Parallax", "mas"), ("DistanceModulus", "mag"), ("Distance", "pc")):
            out.append(normalising(p, "kpc-deg", kind=kind))
        out.append(normalising(p, "kpc-deg", angle=True))
        if tier == "thorough" or p == "SphericalPos":
            out.append(normalising(p, "kpc-deg", shapes={radial_comp(p): (2,)}))
        out.append(normalising(p, "kpc-deg", shapes={c: (2,) for c, k in COMPS[p] if k == "A"}))
    return out
