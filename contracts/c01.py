"""C01: position conversions keep the point."""
from __future__ import annotations

import numpy as np

from dv import terms as tm
from dv.contract import Contract, Var

from .lib import *  # noqa: F403
from .lib import AU_M, cd

ANGULAR = {"SphericalPos", "MathSphericalPos", "LonLatSphericalPos"}


def nonorigin(pos, q):
    """r > 0 for the targets whose angles are undefined at the origin."""
    return tm.gt(el(norm2(to_cart(pos, q))), tm.ZERO)


def convert_contract(src, dst, prof, kinds=None, name="", kw=None, via="function", sphi_angle=False):
    """represent_as[src -> dst] at a unit profile."""
    from .lib import V
    vs = posvars(src, prof)
    kindmap = {}
    mk = {}
    if kinds:
        for c, (ty, unit) in kinds.items():
            kindmap[c] = (ty, unit)
            mk[c] = lambda x, ty=ty, unit=unit: getattr(cd, ty)(x, unit)
        vs = [Var(x.name, x.shape, lo=0.01 if kinds[x.name][0] == "Parallax" else 0.0, hi=900.0 if kinds[x.name][0] == "Parallax" else 10.0)
              if x.name in kinds else x for x in vs]
    if dst == "ProlateSpheroidalPos" and src != dst or kw == "Delta":
        vs = [*vs, Var("Delta2", (), lo=0.0)]

    def run(a, meta):
        p = mkpos(src, a, prof, kinds=mk)
        k = {}
        if "Delta2" in a:
            k["Delta"] = Q(a["Delta2"], UNITS[prof]["L"])
        outs = {}
        if via == "function":
            r = cx.represent_as(p, cls(dst), **k)
        else:
            r = p.represent_as(cls(dst), **k)
        put(outs, meta, "r", r)
        return outs

    def pre(v):
        q = physin(v, src, prof, kinds=kindmap)
        ps = in_range(src, v, prof)
        for c, (ty, unit) in kindmap.items():
            x = el(v[c])
            ps = [p for p in ps if p is not tm.le(tm.ZERO, x)]
            if ty == "Parallax":
                ps += [x > 0, fac(unit, "rad") * x < tm.PI / 2]
        if dst in ANGULAR and src not in ANGULAR:
            ps.append(nonorigin(src, q))
        elif dst in ANGULAR and src in ANGULAR and src != dst and not kinds:
            # conversions between spherical forms may route through Cartesian
            ps.append(tm.gt(el(q["r"] if "r" in q else q["distance"]), tm.ZERO))
        if src == "CartesianPos1D" and dst == "RadialPos":
            ps.append(tm.ge(el(v["x"]), tm.ZERO))
        if "Delta2" in v:
            ps.append(el(v["Delta2"]) > 0)
            if True:
                # away from the focal segment's ends (rho = 0 and |z| = Delta)
                D = el(phys1(v["Delta2"], UNITS[prof]["L"], "Quantity"))
                X, Y, Z = map(el, to_cart(src, q))
                ps.append(tm.or_(tm.gt(X * X + Y * Y, tm.ZERO), tm.ne(Z * Z, D * D)))
        return ps

    def post(v, o, m):
        q = phys(o, m, "r")
        want = to_cart(src, physin(v, src, prof, kinds=kindmap))
        got = to_cart(dst, q)
        gs = [(f"same-point[{ax}]", alleq(g, w)) for ax, g, w in zip("xyz", got, want, strict=False)]
        if src != dst:
            gs += range_goals(dst, q)
        if "Delta2" in v:
            gs.append(("delta", alleq(q["Delta"], phys1(v["Delta2"], UNITS[prof]["L"], "Quantity"))))
        return gs

    def static(m, w):
        return [("class", m["r"]["cls"] == dst, f"returned {m['r']['cls']}"),
                ("no-warning", not [x for x in w if x[0] == "IrreversibleDimensionChange"], str(w))]

    return Contract(name or f"represent_as[{src} -> {dst} | {prof}]", [f"represent_as({src}, {dst})"], vs, run, post, pre, static=static,
                    samples=sample_pos(vs, src) and (lambda rng, s=sample_pos(vs, src): s(rng)))


def contracts(tier):
    out = []
    for group in (POS1, POS2, POS3):
        for s in group:
            for d in group:
                out.append(convert_contract(s, d, "m-rad"))
                if s != d or tier == "thorough":
                    out.append(convert_contract(s, d, "kpc-deg", via="method"))
                if (tier == "thorough" or "Cartesian" in s or "Cartesian" in d):
                    out.append(convert_contract(s, d, "mixed"))
    out.append(convert_contract("ProlateSpheroidalPos", "ProlateSpheroidalPos", "m-rad", kw="Delta",
                                name="represent_as[Prolate -> Prolate, new Delta]"))
    for s in ("SphericalPos", "MathSphericalPos", "LonLatSphericalPos"):
        c = "distance" if s.startswith("Lon") else "r"
        for ty, unit in (("Parallax", "mas"), ("DistanceModulus", "mag")):
            for d in POS3:
                if d == "ProlateSpheroidalPos":
                    continue
                out.append(convert_contract(s, d, "m-rad", kinds={c: (ty, unit)}, name=f"represent_as[{s}<{ty}> -> {d}]"))
    return out


_ = np, AU_M
