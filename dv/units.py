"""Exact unit factors.

The code under test multiplies by machine literals produced by astropy/unxt unit
conversion.  `register()` teaches terms.lit the exact real each literal stands
for (1 pc = 648000/pi AU, 1 AU = 149597870700 m, 1 yr = 365.25 d), so that a
conversion there and back is exactly 1.
"""
from __future__ import annotations

import math
from fractions import Fraction

from . import terms as tm

AU = Fraction(149597870700)
_PC = (Fraction(648000) * AU, -1)  # coefficient * pi^k
LEN = {"m": (Fraction(1), 0), "cm": (Fraction(1, 100), 0), "mm": (Fraction(1, 1000), 0), "km": (Fraction(1000), 0), "AU": (AU, 0), "pc": _PC,
       "kpc": (_PC[0] * 1000, -1), "Mpc": (_PC[0] * 10**6, -1), "Gpc": (_PC[0] * 10**9, -1)}
YR = Fraction(31557600)
TIME = {"s": (Fraction(1), 0), "ms": (Fraction(1, 1000), 0), "min": (Fraction(60), 0), "h": (Fraction(3600), 0), "d": (Fraction(86400), 0),
        "yr": (YR, 0), "kyr": (YR * 1000, 0), "Myr": (YR * 10**6, 0), "Gyr": (YR * 10**9, 0)}
ANG = {"rad": (Fraction(1), 0), "deg": (Fraction(1, 180), 1), "arcmin": (Fraction(1, 180 * 60), 1), "arcsec": (Fraction(1, 180 * 3600), 1),
       "mas": (Fraction(1, 180 * 3600000), 1), "hourangle": (Fraction(1, 12), 1), "uas": (Fraction(1, 180 * 3600000000), 1)}
BASE = {**{k: ("L", v) for k, v in LEN.items()}, **{k: ("T", v) for k, v in TIME.items()}, **{k: ("A", v) for k, v in ANG.items()}}


def exact(unit) -> tuple[dict, Fraction, int] | None:
    """unit -> (dimension exponents, coefficient, power of pi), in m, s, rad."""
    import astropy.units as au
    u = au.Unit(str(unit)) if not hasattr(unit, "decompose") else unit
    dims: dict = {}
    c, k = Fraction(str(u.scale)) if hasattr(u, "scale") and u.scale != 1 else Fraction(1), 0
    bases, powers = getattr(u, "bases", [u]), getattr(u, "powers", [1])
    for b, p in zip(bases, powers, strict=True):
        n = b.name
        if n not in BASE:
            if n in ("mag", "dimensionless", ""):
                dims[n] = dims.get(n, 0) + p
                continue
            return None
        p = Fraction(p)
        if p.denominator != 1:
            return None
        p = int(p)
        d, (cc, kk) = BASE[n]
        dims[d] = dims.get(d, 0) + p
        c *= cc**p
        k += kk * p
    return dims, c, k


def term(c, k):
    return tm.mul(tm.num(c), tm.ipow(tm.PI, k) if k >= 0 else tm.div(tm.ONE, tm.ipow(tm.PI, -k)))


def factor(src, dst):
    """Exact term for the number of `dst` in one `src` (angles are radians)."""
    a, b = exact(src), exact(dst)
    if a is None or b is None:
        raise ValueError(f"no exact factor {src} -> {dst}")
    da, db = ({k: v for k, v in x[0].items() if v and k != "A"} for x in (a, b))
    if da != db:
        raise ValueError(f"{src} and {dst} differ in dimension")
    return term(a[1] / b[1], a[2] - b[2])


_TABLE: dict = {}


def _put(c, k):
    v = float(c) * math.pi**k
    if v != 0 and math.isfinite(v):
        key = f"{v:.13e}"
        _TABLE.setdefault(key, (c, k, v))


def register():
    if _TABLE:
        return
    for tab in (LEN, TIME, ANG):
        for a in tab.values():
            for b in tab.values():
                for p in (1, 2):
                    _put((a[0] / b[0]) ** p, (a[1] - b[1]) * p)
    sp = [(l[0] / t[0] ** p, l[1], p) for l in LEN.values() for t in TIME.values() for p in (1, 2)]
    for a in sp:
        for b in sp:
            if a[2] == b[2]:
                _put(a[0] / b[0], a[1] - b[1])
    sq = [((l[0] ** 2) / t[0] ** p, 2 * l[1], p) for l in LEN.values() for t in TIME.values() for p in (1, 2)]
    for a in sq:
        for b in sq:
            if a[2] == b[2]:
                _put(a[0] / b[0], a[1] - b[1])
    an = [(l[0] / t[0] ** p, l[1], p) for l in ANG.values() for t in TIME.values() for p in (1, 2)]
    for a in an:
        for b in an:
            if a[2] == b[2]:
                _put(a[0] / b[0], a[1] - b[1])
    tm.UNIT_TABLE = _TABLE


def lookup(v: float):
    s = -1 if v < 0 else 1
    w = abs(v)
    for key in (f"{w:.13e}", f"{w * (1 + 3e-14):.13e}", f"{w * (1 - 3e-14):.13e}"):
        h = _TABLE.get(key)
        if h is not None and abs(h[2] - w) <= 1.2e-15 * w:
            return term(s * h[0], h[1])
    return None
