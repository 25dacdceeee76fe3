"""Specification vocabulary shared by the contracts (spec functions, builders)."""
from __future__ import annotations

import itertools

import coordinax as cx
import jax
import jax.numpy as jnp
import numpy as np
import unxt as u

from dv import terms as tm
from dv import units
from dv.contract import Contract, Var

units.register()
V = cx.vecs
cd = cx.distance
Q = u.Quantity


def vec1(f):
    g = np.frompyfunc(f, 1, 1)

    def go(a):
        r = g(a)
        return r

    return go


def vec2(f):
    return np.frompyfunc(f, 2, 1)


sin, cos, tan, sqrt, tabs = map(vec1, (tm.sin, tm.cos, tm.tan, tm.sqrt, tm.abs_))
tsign = vec1(tm.sign)
teq = vec2(tm.eq)
tle = vec2(tm.le)
tlt = vec2(tm.lt)


def conj(a):
    """Conjunction of all elements of an array of goals."""
    a = np.asarray(a, dtype=object)
    return tm.and_(*a.ravel().tolist()) if a.size else tm.TRUE


def alleq(a, b):
    a, b = np.asarray(a, dtype=object), np.asarray(b, dtype=object)
    if a.shape != b.shape:
        a, b = np.broadcast_arrays(a, b)
    return conj(teq(a, b))


# -- classes -----------------------------------------------------------------
# component kinds: L length, A azimuth (any angle), P polar [0,180], B latitude
COMPS = {
    "CartesianPos1D": [("x", "L")],
    "RadialPos": [("r", "R")],
    "CartesianPos2D": [("x", "L"), ("y", "L")],
    "PolarPos": [("r", "R"), ("phi", "A")],
    "TwoSpherePos": [("theta", "P"), ("phi", "A")],
    "CartesianPos3D": [("x", "L"), ("y", "L"), ("z", "L")],
    "CylindricalPos": [("rho", "R"), ("phi", "A"), ("z", "L")],
    "SphericalPos": [("r", "R"), ("theta", "P"), ("phi", "A")],
    "MathSphericalPos": [("r", "R"), ("theta", "A"), ("phi", "P")],
    "LonLatSphericalPos": [("lon", "A"), ("lat", "B"), ("distance", "R")],
    "ProlateSpheroidalPos": [("mu", "MU"), ("nu", "NU"), ("phi", "A")],
}
DIM = {"CartesianPos1D": 1, "RadialPos": 1, "CartesianPos2D": 2, "PolarPos": 2, "TwoSpherePos": 2, "CartesianPos3D": 3,
       "CylindricalPos": 3, "SphericalPos": 3, "MathSphericalPos": 3, "LonLatSphericalPos": 3, "ProlateSpheroidalPos": 3}
POS1 = ["CartesianPos1D", "RadialPos"]
POS2 = ["CartesianPos2D", "PolarPos"]
POS3 = ["CartesianPos3D", "CylindricalPos", "SphericalPos", "MathSphericalPos", "LonLatSphericalPos", "ProlateSpheroidalPos"]
CART = {1: "CartesianPos1D", 2: "CartesianPos2D", 3: "CartesianPos3D"}
VEL = {"CartesianPos1D": "CartesianVel1D", "RadialPos": "RadialVel", "CartesianPos2D": "CartesianVel2D", "PolarPos": "PolarVel",
       "TwoSpherePos": "TwoSphereVel",
       "CartesianPos3D": "CartesianVel3D", "CylindricalPos": "CylindricalVel", "SphericalPos": "SphericalVel",
       "MathSphericalPos": "MathSphericalVel", "LonLatSphericalPos": "LonLatSphericalVel",
       "ProlateSpheroidalPos": "ProlateSpheroidalVel"}
ACC = {k: v.replace("Vel", "Acc") for k, v in VEL.items()}
INT = {**{v: k for k, v in VEL.items()}, **{v: k for k, v in ACC.items()}, "LonCosLatSphericalVel": "LonLatSphericalPos"}


def cls(name):
    return getattr(V, name)


# unit profiles: kind -> unit
UNITS = {
    "kpc-deg": {"L": "kpc", "R": "kpc", "ang": "deg", "T": "Myr"},
    "m-rad": {"L": "m", "R": "m", "ang": "rad", "T": "s"},
    "mixed": {"L": "km", "R": "kpc", "ang": "arcmin", "T": "yr", "L2": "pc"},
}


def cunits(pos, prof):
    """Component units of position class `pos` in a unit profile."""
    U = UNITS[prof]
    out = {}
    nl = 0
    for c, k in COMPS[pos]:
        if k in ("L", "R"):
            out[c] = U[k]
            if k == "L" and prof == "mixed" and nl % 2:
                out[c] = U["L2"]
            nl += 1
        elif k in ("MU", "NU"):
            out[c] = U["L"] + "2"
        else:
            # one component in degrees, the other in the profile's unit
            out[c] = U["ang"] if not (prof == "mixed" and k in ("P", "B")) else "deg"
    return out


def dunits(pos, prof, order, velname=None):
    """Differential component units (order 1: velocity, 2: acceleration)."""
    U = UNITS[prof]
    t = U["T"] if order == 1 else U["T"] + "2"
    pre = "d_" if order == 1 else "d2_"
    out = {}
    nl = na = 0
    for c, k in COMPS[pos]:
        if prof == "mixed":  # no two components share a unit
            if k in ("L", "R"):
                out[pre + c] = f"{('km', 'pc', 'm')[nl]} / {t}"
                nl += 1
            elif k in ("MU", "NU"):
                out[pre + c] = f"{'pc' if k == 'NU' else U['L']}2 / {t}"
            else:
                out[pre + c] = f"{(U['ang'], 'deg')[na]} / {t}"
                na += 1
        elif k in ("L", "R"):
            base = U["L"] if prof != "kpc-deg" or order == 2 else "km"
            tt = t if prof != "kpc-deg" or order == 2 else "s"
            out[pre + c] = f"{base} / {tt}"
        elif k in ("MU", "NU"):
            out[pre + c] = f"{U['L']}2 / {t}"
        else:
            out[pre + c] = f"{U['ang']} / {t}"
    if velname == "LonCosLatSphericalVel":
        out = {("d_lon_coslat" if k == "d_lon" else k): v for k, v in out.items()}
    return out


def dcomps(velname):
    if velname == "LonCosLatSphericalVel":
        return ["d_lon_coslat", "d_lat", "d_distance"]
    pre = "d_" if velname.endswith(("Vel", "Vel1D", "Vel2D", "Vel3D")) else "d2_"
    return [pre + c for c, _ in COMPS[INT[velname]]]


def fac(unit, to):
    return units.factor(unit, to)


# -- inputs --------------------------------------------------------------------


def posvars(pos, prof="m-rad", tag="", shape=()):
    """Variables for the components of a position."""
    un = cunits(pos, prof)
    vs = []
    for c, k in COMPS[pos]:
        n = tag + c
        if k == "L":
            vs.append(Var(n, shape))
        elif k == "R":
            vs.append(Var(n, shape, lo=0.0, special=(0.0, 1.0)))
        elif k == "MU":
            vs.append(Var(n, shape, lo=0.0))
        elif k == "NU":
            vs.append(Var(n, shape))
        else:
            vs.append(_angvar(n, shape, k, un[c]))
    if pos == "ProlateSpheroidalPos":
        vs.append(Var(tag + "Delta", (), lo=0.0))
    return vs


def _angvar(n, shape, k, unit):
    one = {"deg": 180.0, "rad": np.pi, "arcmin": 180.0 * 60, "arcsec": 180 * 3600.0}[unit]
    if k == "P":
        return Var(n, shape, lo=0.0, hi=one, special=(0.0, one / 2, one))
    if k == "B":
        return Var(n, shape, lo=-one / 2, hi=one / 2, special=(0.0, -one / 2, one / 2))
    return Var(n, shape, lo=-3 * one, hi=3 * one, special=tuple(one * f for f in (0, 0.5, 1, 1.5, 2, -0.5, -1, -2)))


def mkpos(pos, a, prof="m-rad", tag="", kinds=None, **kw):
    """Build the position from traced/concrete arrays, through its constructor."""
    un = cunits(pos, prof)
    kinds = kinds or {}
    f = {}
    for c, k in COMPS[pos]:
        x = a[tag + c]
        if c in kinds:
            f[c] = kinds[c](x)
        else:
            f[c] = Q(x, un[c])
    if pos == "ProlateSpheroidalPos":
        f["Delta"] = Q(a[tag + "Delta"], UNITS[prof]["L"])
    return cls(pos)(**f, **kw)


def in_range(pos, v, prof="m-rad", tag="", strict=False):
    """The representation's range, as assumptions on the input variables."""
    un = cunits(pos, prof)
    out = []
    lt = tlt if strict else tle
    zero = tm.ZERO
    for c, k in COMPS[pos]:
        x = v[tag + c]
        if k == "R":
            out += list(lt(np.full(x.shape, zero, dtype=object), x).ravel()) if x.shape else [lt(zero, x[()])]
        elif k in ("P", "B"):
            f = fac(un[c], "rad")
            lo, hi = (tm.ZERO, tm.PI) if k == "P" else (-(tm.PI / 2), tm.PI / 2)
            for t in x.ravel():
                out += [lt(lo, f * t), lt(f * t, hi)]
    if pos == "ProlateSpheroidalPos":
        D = v[tag + "Delta"][()]
        out.append(D > 0)
        for t in v[tag + "mu"].ravel():
            out.append((D * D < t) if strict else (D * D <= t))
        for t in v[tag + "nu"].ravel():
            out += [(t < D * D) if strict else (t <= D * D), (-(D * D) < t) if strict else (-(D * D) <= t)]
    return out


def sample_pos(vars, pos, tag=""):
    """Sampler drawing prolate components inside their coupled range."""
    if pos != "ProlateSpheroidalPos":
        return None

    def go(rng):
        a = {x.name: x.sample(rng) for x in vars}
        D = abs(float(a[tag + "Delta"])) + 0.1
        a[tag + "Delta"] = np.asarray(D)
        mu, nu = a[tag + "mu"], a[tag + "nu"]
        a[tag + "mu"] = D * D * (1 + np.vectorize(lambda _: rng.choice([0.0, 0.5, 2.0]) + rng.random() * 3)(mu))
        a[tag + "nu"] = D * D * np.vectorize(lambda _: rng.choice([-1.0, 1.0]) * rng.choice([0.25, 0.9, rng.random()]))(nu)
        return a

    return go


# -- observations ----------------------------------------------------------------


def put(outs, meta, prefix, vec):
    """Record a vector's components, units and types."""
    comps = {}
    for c in vec.components:
        q = getattr(vec, c)
        outs[f"{prefix}.{c}"] = q.value
        comps[c] = (str(q.unit), type(q).__name__)
    if type(vec).__name__ == "ProlateSpheroidalPos":
        outs[f"{prefix}.Delta"] = vec.Delta.value
        comps["Delta"] = (str(vec.Delta.unit), "Quantity")
    meta[prefix] = dict(cls=type(vec).__name__, comps=comps)


def put_q(outs, meta, prefix, q):
    outs[prefix] = q.value
    meta[prefix] = dict(unit=str(q.unit), type=type(q).__name__.split("[")[0])


SI = {"L": "m", "A": "rad"}


def phys(o, meta, prefix):
    """Components in SI (m, s, rad); distance kinds turned into lengths."""
    out = {}
    for c, (unit, ty) in meta[prefix]["comps"].items():
        out[c] = phys1(o[f"{prefix}.{c}"], unit, ty)
    return out


AU_M = tm.num(149597870700)
PC_M = units.term(*units.LEN["pc"])


def phys1(x, unit, ty):
    if ty == "Parallax":
        return np.frompyfunc(lambda t: AU_M / tm.tan(fac(unit, "rad") * t), 1, 1)(x)
    if ty == "DistanceModulus":
        return np.frompyfunc(lambda t: PC_M * tm.pow_(tm.num(10), t / 5 + 1), 1, 1)(x)
    e = units.exact(unit)
    if e is None:
        raise ValueError(unit)
    k = units.term(e[1], e[2])
    if x.dtype == object:
        return np.frompyfunc(lambda t: tm.mul(k, t), 1, 1)(x)
    return x


def physin(v, pos, prof="m-rad", tag="", kinds=()):
    """Input variables in SI."""
    un = cunits(pos, prof)
    out = {}
    for c, _k in COMPS[pos]:
        ty, unit = (dict(kinds).get(c) or ("Quantity", un[c]))
        out[c] = phys1(v[tag + c], unit, ty)
    if pos == "ProlateSpheroidalPos":
        out["Delta"] = phys1(v[tag + "Delta"], UNITS[prof]["L"], "Quantity")
    return out


def physd(v, velname, prof, order, tag=""):
    un = dunits(INT[velname], prof, order, velname)
    return {c: phys1(v[tag + c], un[c], "Quantity") for c in un}


# -- spec functions: what a representation denotes -----------------------------


def to_cart(pos, q):
    """Cartesian coordinates (SI) denoted by components q (SI)."""
    if pos in ("CartesianPos1D",):
        return [q["x"]]
    if pos == "RadialPos":
        return [q["r"]]
    if pos == "CartesianPos2D":
        return [q["x"], q["y"]]
    if pos == "PolarPos":
        return [q["r"] * cos(q["phi"]), q["r"] * sin(q["phi"])]
    if pos == "CartesianPos3D":
        return [q["x"], q["y"], q["z"]]
    if pos == "CylindricalPos":
        return [q["rho"] * cos(q["phi"]), q["rho"] * sin(q["phi"]), q["z"]]
    if pos == "SphericalPos":
        s = q["r"] * sin(q["theta"])
        return [s * cos(q["phi"]), s * sin(q["phi"]), q["r"] * cos(q["theta"])]
    if pos == "MathSphericalPos":
        s = q["r"] * sin(q["phi"])
        return [s * cos(q["theta"]), s * sin(q["theta"]), q["r"] * cos(q["phi"])]
    if pos == "LonLatSphericalPos":
        c = q["distance"] * cos(q["lat"])
        return [c * cos(q["lon"]), c * sin(q["lon"]), q["distance"] * sin(q["lat"])]
    if pos == "TwoSpherePos":
        s = sin(q["theta"])
        return [s * cos(q["phi"]), s * sin(q["phi"]), cos(q["theta"])]
    if pos == "ProlateSpheroidalPos":
        R, z = prolate_Rz(q)
        return [R * cos(q["phi"]), R * sin(q["phi"]), z]
    raise KeyError(pos)


def prolate_Rz(q):
    D2 = q["Delta"] * q["Delta"]
    an = tabs(q["nu"])
    R = sqrt((q["mu"] - D2) * (1 - an / D2))
    z = sqrt(q["mu"] * an / D2) * tsign(q["nu"])
    return R, z


def push(pos, q, d):
    """Cartesian components of the tangent vector with components d at q (SI).

    d is keyed by coordinate name (no d_ prefix); 'lon_coslat' is accepted.
    """
    if pos.startswith("Cartesian"):
        return [d[c] for c, _ in COMPS[pos]]
    if pos == "RadialPos":
        return [d["r"]]
    if pos == "PolarPos":
        c, s = cos(q["phi"]), sin(q["phi"])
        return [d["r"] * c - q["r"] * s * d["phi"], d["r"] * s + q["r"] * c * d["phi"]]
    if pos == "CylindricalPos":
        c, s = cos(q["phi"]), sin(q["phi"])
        return [d["rho"] * c - q["rho"] * s * d["phi"], d["rho"] * s + q["rho"] * c * d["phi"], d["z"]]
    if pos == "SphericalPos":
        return _push_sph(q["r"], q["theta"], q["phi"], d["r"], d["theta"], d["phi"])
    if pos == "MathSphericalPos":
        return _push_sph(q["r"], q["phi"], q["theta"], d["r"], d["phi"], d["theta"])
    if pos == "LonLatSphericalPos":
        cl, sl = cos(q["lat"]), sin(q["lat"])
        co, so = cos(q["lon"]), sin(q["lon"])
        D = q["distance"]
        dcl = -(sl * d["lat"])
        if "lon_coslat" in d:
            lonc = d["lon_coslat"]  # = d_lon cos(lat)
        else:
            lonc = d["lon"] * cl
        return [d["distance"] * cl * co + D * dcl * co - D * lonc * so,
                d["distance"] * cl * so + D * dcl * so + D * lonc * co,
                d["distance"] * sl + D * cl * d["lat"]]
    if pos == "ProlateSpheroidalPos":
        # from R^2 = (mu-D2)(1-|nu|/D2),  z^2 = mu|nu|/D2
        D2 = q["Delta"] * q["Delta"]
        R, z = prolate_Rz(q)
        an = tabs(q["nu"])
        dan = tsign(q["nu"]) * d["nu"]
        dR = (d["mu"] * (1 - an / D2) - (q["mu"] - D2) * dan / D2) / (2 * R)
        dz = (d["mu"] * an + q["mu"] * dan) / D2 / (2 * z)
        c, s = cos(q["phi"]), sin(q["phi"])
        return [dR * c - R * s * d["phi"], dR * s + R * c * d["phi"], dz]
    raise KeyError(pos)


def _push_sph(r, th, ph, dr, dth, dph):
    st, ct, sp, cp = sin(th), cos(th), sin(ph), cos(ph)
    return [dr * st * cp + r * ct * cp * dth - r * st * sp * dph,
            dr * st * sp + r * ct * sp * dth + r * st * cp * dph,
            dr * ct - r * st * dth]


def strip_d(d):
    return {k.removeprefix("d2_").removeprefix("d_"): x for k, x in d.items()}


def range_goals(pos, q):
    """Goals: components q (SI) obey the representation's ranges."""
    gs = []
    for c, k in COMPS[pos]:
        x = q[c]
        z = np.full(np.shape(x), tm.ZERO, dtype=object)
        if k == "R":
            gs.append((f"range:{c}>=0", conj(tle(z, x))))
        elif k == "P":
            gs.append((f"range:0<={c}<=pi", tm.and_(conj(tle(z, x)), conj(tle(x, z + tm.PI)))))
        elif k == "B":
            gs.append((f"range:|{c}|<=pi/2", tm.and_(conj(tle(z - tm.PI / 2, x)), conj(tle(x, z + tm.PI / 2)))))
        elif k == "A":
            gs.append((f"range:0<={c}<2pi", tm.and_(conj(tle(z, x)), conj(tlt(x, z + 2 * tm.PI)))))
    if pos == "ProlateSpheroidalPos":
        D2 = q["Delta"] * q["Delta"]
        gs.append(("range:mu>=Delta^2", conj(tle(D2, q["mu"]))))
        gs.append(("range:|nu|<=Delta^2", conj(tle(tabs(q["nu"]), D2))))
    return gs


def el(a):
    """Scalar of a 0-d array."""
    return a[()] if isinstance(a, np.ndarray) else a


def norm2(xs):
    r = None
    for x in xs:
        r = x * x if r is None else r + x * x
    return r


_ = itertools, Contract


# -- conversion of differentials -------------------------------------------------


def interior(pos, q):
    """The point is a regular point of the representation (SI components)."""
    out = []
    for c, k in COMPS[pos]:
        for x in np.ravel(q[c]):
            if k == "R":
                out.append(x > 0)
            elif k == "P":
                out += [x > 0, tm.lt(x, tm.PI)]
            elif k == "B":
                out += [tm.lt(-(tm.PI / 2), x), tm.lt(x, tm.PI / 2)]
    if pos == "ProlateSpheroidalPos":
        D = el(q["Delta"])
        out.append(D > 0)
        for x in np.ravel(q["mu"]):
            out.append(tm.lt(D * D, x))
        for x in np.ravel(q["nu"]):
            out += [tm.lt(tm.abs_(x), D * D), tm.ne(x, tm.ZERO)]
    return out


def regular_cart(xyz, poss, delta=None):
    """The Cartesian point is regular for every representation in poss."""
    out = []
    xyz = [np.ravel(np.asarray(x, dtype=object)) for x in xyz]
    for i in range(len(xyz[0])):
        x = [c[i] for c in xyz]
        for p in poss:
            if p == "RadialPos":
                out.append(tm.gt(x[0], tm.ZERO))
            elif p == "PolarPos":
                out.append(tm.gt(x[0] * x[0] + x[1] * x[1], tm.ZERO))
            elif p in ("CylindricalPos", "SphericalPos", "MathSphericalPos", "LonLatSphericalPos"):
                out.append(tm.gt(x[0] * x[0] + x[1] * x[1], tm.ZERO))
            elif p == "ProlateSpheroidalPos":
                out += [tm.gt(x[0] * x[0] + x[1] * x[1], tm.ZERO), tm.ne(x[2], tm.ZERO)]
    return out


def mkdiff(name, a, prof, order, tag=""):
    un = dunits(INT[name] if order == 1 else INT[name], prof, order, name)
    return cls(name)(**{c: Q(a[tag + c], un[c]) for c in un})


def dvars(name, prof, order, tag="", shape=()):
    return [Var(tag + c, shape) for c in dunits(INT[name], prof, order, name)]


def kindvars(vs, kinds):
    return [Var(x.name, x.shape, lo=0.01 if kinds[x.name][0] == "Parallax" else 0.0,
                hi=900.0 if kinds[x.name][0] == "Parallax" else 10.0) if x.name in kinds else x for x in vs]


def kindpre(v, kinds):
    out = []
    for c, (ty, unit) in kinds.items():
        if ty == "Parallax":
            for x in v[c].ravel():
                out += [x > 0, fac(unit, "rad") * x < tm.PI / 2]
    return out


def radial_comp(pos):
    return {"LonLatSphericalPos": "distance", "CylindricalPos": "rho"}.get(pos, "r")


def conv_diff_contract(src, dst, pos, prof, order, via="function", kind=None, shape=(), vel=None, jit=False, quantity=False):
    """represent_as(differential src -> dst, at a position given as `pos`)."""
    ps, pd_ = INT[src], INT[dst]
    if order == 2 and vel is None:
        vel = VEL[ps]
    kinds = {radial_comp(pos): kind} if kind else {}
    mk = {c: (lambda x, ty=ty, unit=unit: getattr(cd, ty)(x, unit)) for c, (ty, unit) in kinds.items()}
    vs = kindvars(posvars(pos, prof, shape=shape), kinds) + dvars(src, prof, order, shape=shape)
    delta = pos != "ProlateSpheroidalPos" and "ProlateSpheroidalPos" in (ps, pd_)
    if delta:
        vs.append(Var("Delta2", (), lo=0.0))
    if vel:  # the velocity an acceleration is converted with
        vs += dvars(vel, prof, 1, tag="v_", shape=shape)
    conv = jax.jit(lambda d, t, *p: cx.represent_as(d, t, *p), static_argnums=1) if jit else cx.represent_as

    def run(a, meta):
        p = pp = mkpos(pos, a, prof, kinds=mk)
        if quantity:
            pp = Q(jnp.stack([getattr(p, c).to(cunits(pos, prof)[COMPS[pos][0][0]]).value for c, _ in COMPS[pos]], axis=-1),
                   cunits(pos, prof)[COMPS[pos][0][0]])
        d = mkdiff(src, a, prof, order)
        k = {"Delta": Q(a["Delta2"], UNITS[prof]["L"])} if delta else {}
        outs = {}
        at = (pp,) if order == 1 else (mkdiff(vel, a, prof, 1, tag="v_"), pp)
        r = conv(d, cls(dst), *at, **k) if via == "function" else d.represent_as(cls(dst), *at, **k)
        put(outs, meta, "r", r)
        qs = p.represent_as(cls(ps), **(k if ps == "ProlateSpheroidalPos" else {})) if ps != pos else p
        qd = p.represent_as(cls(pd_), **(k if pd_ == "ProlateSpheroidalPos" else {})) if pd_ != pos else p
        put(outs, meta, "qs", qs)
        put(outs, meta, "qd", qd)
        return outs

    def pre(v):
        q = physin(v, pos, prof, kinds=kinds)
        out = [p for p in in_range(pos, v, prof) if not (kinds and p is tm.le(tm.ZERO, el(v[radial_comp(pos)])))]
        out += [p for p in interior(pos, q) if not (kinds and p in [])]
        out += kindpre(v, kinds)
        rest = [p for p in (ps, pd_) if p != pos]
        out += regular_cart(to_cart(pos, q), rest)
        if delta:
            out.append(el(v["Delta2"]) > 0)
        return out

    def post(v, o, m):
        din = strip_d(physd(v, src, prof, order))
        dout = strip_d(phys(o, m, "r"))
        qs, qd = phys(o, m, "qs"), phys(o, m, "qd")
        want = push(ps, qs if ps != pos else physin(v, pos, prof, kinds=kinds), din)
        got = push(pd_, qd if pd_ != pos else physin(v, pos, prof, kinds=kinds), dout)
        return [(f"same-tangent[{ax}]", alleq(g, w)) for ax, g, w in zip("xyz", got, want, strict=False)]

    def static(m, w):
        return [("class", m["r"]["cls"] == dst, f"returned {m['r']['cls']}"),
                ("no-warning", not [x for x in w if x[0] == "IrreversibleDimensionChange"], str(w))]

    tag = f"<{kind[0]}>" if kind else ""
    tag += (f" & {vel}" if vel else "") + (f" shape{list(shape)}" if shape else "") + (" jit" if jit else "") + (" quantity" if quantity else "")
    return Contract(f"represent_as[{src} -> {dst} at {pos}{tag} | {prof}]", [f"represent_as({src}, {dst})"], vs, run, post, pre, static=static,
                    samples=sample_pos(vs, pos) and (lambda rng, s=sample_pos(vs, pos): s(rng)))


def roundtrip_diff(src, dst, pos, prof, order):
    """src -> dst -> src at one position returns the original components."""
    ps, pd_ = INT[src], INT[dst]
    vel = VEL[ps]
    vs = posvars(pos, prof) + dvars(src, prof, order) + (dvars(vel, prof, 1, tag="v_") if order == 2 else [])

    def run(a, meta):
        p = mkpos(pos, a, prof)
        d = mkdiff(src, a, prof, order)
        at = (p,) if order == 1 else (mkdiff(vel, a, prof, 1, tag="v_"), p)
        outs = {}
        put(outs, meta, "r", cx.represent_as(cx.represent_as(d, cls(dst), *at), cls(src), *at))
        return outs

    def pre(v):
        q = physin(v, pos, prof)
        return in_range(pos, v, prof) + interior(pos, q) + regular_cart(to_cart(pos, q), [p for p in (ps, pd_) if p != pos])

    def post(v, o, m):
        a, b = physd(v, src, prof, order), phys(o, m, "r")
        return [(f"returns[{c}]", alleq(b[c], a[c])) for c in a]

    return Contract(f"roundtrip[{src} -> {dst} -> {src} at {pos} | {prof}]", [f"represent_as({src}, {dst})", f"represent_as({dst}, {src})"],
                    vs, run, post, pre, samples=sample_pos(vs, pos) and (lambda rng, s=sample_pos(vs, pos): s(rng)))
