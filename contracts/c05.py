"""C05: conversions between dimensions embed and project consistently."""
from __future__ import annotations

from .lib import *  # noqa: F403
from .lib import cd

DOWN = {"CartesianPos2D": ["CartesianPos1D", "RadialPos"], "PolarPos": ["CartesianPos1D", "RadialPos"]}
for _p in ("CartesianPos3D", "CylindricalPos", "SphericalPos", "MathSphericalPos", "ProlateSpheroidalPos"):
    DOWN[_p] = ["CartesianPos1D", "RadialPos", "CartesianPos2D", "PolarPos"]
UP1 = {"CartesianPos2D": {"y": "L"}, "PolarPos": {"phi": "A"}, "CartesianPos3D": {"y": "L", "z": "L"}, "CylindricalPos": {"phi": "A", "z": "L"},
       "SphericalPos": {"theta": "P", "phi": "A"}, "MathSphericalPos": {"theta": "A", "phi": "P"}}
UP = {"CartesianPos1D": UP1, "RadialPos": UP1,
      "CartesianPos2D": {p: {"z": "L"} for p in ("CartesianPos3D", "CylindricalPos", "SphericalPos", "MathSphericalPos")},
      "PolarPos": {"CartesianPos3D": {"z": "L"}, "CylindricalPos": {"z": "L"}, "SphericalPos": {"theta": "P"}, "MathSphericalPos": {"phi": "P"}}}


def srcvars(src, prof, kinds, shape):
    return kindvars(posvars(src, prof, shape=shape), kinds)


def mkk(kinds):
    return {c: (lambda x, ty=ty, unit=unit: getattr(cd, ty)(x, unit)) for c, (ty, unit) in kinds.items()}


def srcpre(src, v, prof, kinds):
    ps = in_range(src, v, prof)
    for c, (ty, _u) in kinds.items():
        if ty == "DistanceModulus":
            ps = [p for p in ps if p is not tm.le(tm.ZERO, el(v[c]))]
    return ps + kindpre(v, kinds)


def pairmap(f, *xs):
    xs = np.broadcast_arrays(*[np.asarray(x, dtype=object) for x in xs])
    out = np.empty(xs[0].shape, dtype=object)
    for i in np.ndindex(out.shape):
        out[i] = f(*[x[i] for x in xs])
    return out


def down(src, dst, prof, kind=None, shape=(), via="function", extra=False, jit=False):
    kinds = {radial_comp(src): kind} if kind else {}
    mk = mkk(kinds)
    vs = srcvars(src, prof, kinds, shape)
    f = cx.represent_as
    if jit:
        f = jax.jit(cx.represent_as, static_argnums=1)

    def run(a, meta):
        p = mkpos(src, a, prof, kinds=mk)
        kw = {"z": Q(3.0, "m")} if extra else {}
        r = f(p, cls(dst), **kw) if via == "function" else p.represent_as(cls(dst), **kw)
        outs = {}
        put(outs, meta, "r", r)
        return outs

    def pre(v):
        return srcpre(src, v, prof, kinds)

    def post(v, o, m):
        q = physin(v, src, prof, kinds=kinds)
        xyz = to_cart(src, q)
        r = phys(o, m, "r")
        if dst == "CartesianPos1D":
            return [("x", alleq(r["x"], xyz[0]))]
        if dst == "RadialPos":
            if src in ("CylindricalPos", "PolarPos", "SphericalPos", "MathSphericalPos"):
                want = q[radial_comp(src)]
            else:
                want = sqrt(norm2(xyz))
            return [("r", alleq(r["r"], want))]
        got = to_cart(dst, r)
        gs = [("x", alleq(got[0], xyz[0])), ("y", alleq(got[1], xyz[1]))]
        return gs + range_goals(dst, r)

    def static(m, w):
        return [("class", m["r"]["cls"] == dst, m["r"]["cls"]),
                ("warns", bool([x for x in w if x[0] == "IrreversibleDimensionChange"]) or jit, "no irreversible-dimension warning")]

    tag = (f"<{kind[0]}>" if kind else "") + (f" shape{list(shape)}" if shape else "") + (" method" if via != "function" else "") + \
        (" kw" if extra else "") + (" jit" if jit else "")
    s = sample_pos(vs, src)
    return Contract(f"project[{src} -> {dst}{tag} | {prof}]", [f"represent_as({src}, {dst})"], vs, run, post, pre, static=static,
                    samples=s and (lambda rng: s(rng)))


def up(src, dst, prof, given=True, kind=None, shape=(), via="function", back=False, jit=False):
    kinds = {radial_comp(src): kind} if kind else {}
    mk = mkk(kinds)
    missing = UP[src][dst]
    units_ = {"L": {"m-rad": "km", "kpc-deg": "pc", "mixed": "m"}[prof], "A": {"m-rad": "deg", "kpc-deg": "rad", "mixed": "arcmin"}[prof]}
    units_["P"] = units_["A"]
    vs = srcvars(src, prof, kinds, shape)
    if given:
        for c, k in missing.items():
            one = {"deg": 180.0, "rad": np.pi, "arcmin": 10800.0}[units_["A"]]
            if k == "L":
                vs.append(Var("k_" + c))
            elif k == "A":
                vs.append(Var("k_" + c, lo=-3 * one, hi=3 * one, special=tuple(one * f for f in (0, 0.5, 1, 1.5, 2, -0.5, -1))))
            else:
                vs.append(Var("k_" + c, lo=0.0, hi=one, special=(0.0, one / 2, one)))

    def run(a, meta):
        p = mkpos(src, a, prof, kinds=mk)
        kw = {c: Q(a["k_" + c], units_[k]) for c, k in missing.items()} if given else {}
        f = (lambda t: cx.represent_as(p, t, **kw)) if via == "function" else (lambda t: p.represent_as(t, **kw))
        if jit:
            r = jax.jit(lambda p, kw: cx.represent_as(p, cls(dst), **kw))(p, kw)
        else:
            r = f(cls(dst))
        outs = {}
        if back:
            r = cx.represent_as(r, cls(src))
        put(outs, meta, "r", r)
        return outs

    def kwval(v, c, k):
        if not given:
            return tm.ZERO
        return fac(units_[k], "rad" if k in "AP" else "m") * el(v["k_" + c])

    def want(v):
        """Cartesian coordinates of the lifted point."""
        q = dict(physin(v, src, prof, kinds=kinds))
        kk = {c: kwval(v, c, k) for c, k in missing.items()}
        if src in ("CartesianPos1D", "RadialPos"):
            x = q["x" if src == "CartesianPos1D" else "r"]
            full = dict(kk)
            full[{"CartesianPos2D": "x", "CartesianPos3D": "x", "CylindricalPos": "rho"}.get(dst, "r")] = x
            return to_cart(dst, full)
        if dst in ("SphericalPos", "MathSphericalPos") and src == "PolarPos":
            full = {"r": q["r"], **kk}
            full["phi" if dst == "SphericalPos" else "theta"] = q["phi"]
            return to_cart(dst, full)
        x, y = to_cart(src, q)
        return [x, y, kk["z"]]

    def pre(v):
        ps = srcpre(src, v, prof, kinds)
        if given:
            for c, k in missing.items():
                if k == "P":
                    x = kwval(v, c, k)
                    ps += [tm.le(tm.ZERO, x), tm.le(x, tm.PI)]
        if src == "CartesianPos1D" and dst in ("PolarPos", "CylindricalPos"):
            ps += [tm.le(tm.ZERO, x) for x in v["x"].ravel()]  # the range of a radius
        if src == "CartesianPos2D" and dst in ("SphericalPos", "MathSphericalPos"):
            w = want(v)
            ps += [tm.gt(x, tm.ZERO) for x in np.ravel(norm2(w))]
        return ps

    def post(v, o, m):
        r = phys(o, m, "r")
        if back:
            a = to_cart(src, physin(v, src, prof, kinds=kinds))
            b = to_cart(src, r)
            gs = [(f"returns[{ax}]", alleq(x, y)) for ax, x, y in zip("xy", a, b, strict=False)]
            return gs + (range_goals(src, r) if src == "PolarPos" else [])
        w = want(v)
        gs = [(f"lifts[{ax}]", alleq(x, y)) for ax, x, y in zip("xyz", to_cart(dst, r), w, strict=False)]
        return gs + range_goals(dst, r)

    def static(m, w):
        out = [("class", m["r"]["cls"] == (src if back else dst), m["r"]["cls"])]
        if not back:
            out.append(("no-warning", not [x for x in w if x[0] == "IrreversibleDimensionChange"], str(w)))
        return out

    tag = (f"<{kind[0]}>" if kind else "") + (f" shape{list(shape)}" if shape else "") + (" method" if via != "function" else "") + \
        (" defaults" if not given else "") + (" and back" if back else "") + (" jit" if jit else "")
    return Contract(f"lift[{src} -> {dst}{tag} | {prof}]", [f"represent_as({src}, {dst})"], vs, run, post, pre, static=static)


def contracts(tier):
    out = []
    for s, ds in DOWN.items():
        for d in ds:
            out.append(down(s, d, "m-rad"))
            out.append(down(s, d, "kpc-deg", via="method"))
            out.append(down(s, d, "mixed", extra=True))
            if s in ("CartesianPos3D", "SphericalPos", "PolarPos") or tier == "thorough":
                out.append(down(s, d, "m-rad", shape=(2,)))
                out.append(down(s, d, "m-rad", jit=True))
            if s in ("PolarPos", "SphericalPos", "MathSphericalPos"):
                for kind in (("Parallax", "mas"), ("DistanceModulus", "mag"), ("Distance", "pc")):
                    out.append(down(s, d, "m-rad", kind=kind))
    for s, ds in UP.items():
        for d in ds:
            out.append(up(s, d, "m-rad"))
            out.append(up(s, d, "kpc-deg", given=False))
            out.append(up(s, d, "mixed", via="method"))
            out.append(up(s, d, "m-rad", shape=(2,), given=False))
            out.append(up(s, d, "kpc-deg", jit=True))
            if s in ("PolarPos", "RadialPos"):
                for kind in (("Parallax", "mas"), ("DistanceModulus", "mag"), ("Distance", "pc")):
                    out.append(up(s, d, "m-rad", kind=kind))
    for s, d in (("CartesianPos1D", "CartesianPos2D"), ("CartesianPos1D", "CartesianPos3D"), ("CartesianPos2D", "CartesianPos3D"),
                 ("CartesianPos2D", "CylindricalPos"), ("CartesianPos2D", "SphericalPos"), ("CartesianPos2D", "MathSphericalPos"),
                 ("PolarPos", "CartesianPos3D"), ("PolarPos", "CylindricalPos")):
        out.append(up(s, d, "kpc-deg", back=True))
        out.append(up(s, d, "m-rad", back=True, given=False))
    for s, d in (("RadialPos", "CartesianPos2D"), ("RadialPos", "CartesianPos3D"), ("RadialPos", "PolarPos"), ("RadialPos", "CylindricalPos"),
                 ("RadialPos", "SphericalPos"), ("RadialPos", "MathSphericalPos")):
        out.append(up(s, d, "m-rad", back=True, given=False))
    return out


_ = pairmap
