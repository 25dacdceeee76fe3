"""C03: accelerations are converted with the position's Jacobian."""
from __future__ import annotations

from .lib import *  # noqa: F403
from .lib import conv_diff_contract, roundtrip_diff


def contracts(tier):
    out = []
    for dim, group in {1: POS1, 2: POS2, 3: POS3}.items():
        accs = [ACC[p] for p in group]
        for s in accs:
            for d in accs:
                out.append(conv_diff_contract(s, d, INT[s], "m-rad", 2))
                if s != d:
                    out.append(conv_diff_contract(s, d, INT[s], "kpc-deg", 2, via="method", vel=None if "Prolate" in s else VEL[CART[dim]]))
                for p in group:
                    if p != INT[s] and (tier == "thorough" or (p.startswith("Cartesian") and "Prolate" not in d)):
                        out.append(conv_diff_contract(s, d, p, "m-rad", 2))
    for ty, unit in (("Parallax", "mas"), ("DistanceModulus", "mag")):
        for s, p in (("CartesianAcc3D", "LonLatSphericalPos"), ("SphericalAcc", "SphericalPos"), ("MathSphericalAcc", "MathSphericalPos")):
            for d in ("CartesianAcc3D", "SphericalAcc", "LonLatSphericalAcc"):
                if s != d:
                    out.append(conv_diff_contract(s, d, p, "m-rad", 2, kind=(ty, unit)))
    for s, d, p in (("SphericalAcc", "CartesianAcc3D", "SphericalPos"), ("CartesianAcc3D", "CylindricalAcc", "CartesianPos3D"),
                    ("PolarAcc", "CartesianAcc2D", "PolarPos"), ("CartesianAcc2D", "PolarAcc", "CartesianPos2D"),
                    ("LonLatSphericalAcc", "SphericalAcc", "LonLatSphericalPos"), ("CartesianAcc1D", "RadialAcc", "CartesianPos1D")):
        for shape in ((2,), (2, 1)):
            if shape == (2,) or tier == "thorough":
                out.append(conv_diff_contract(s, d, p, "m-rad", 2, shape=shape))
        out.append(conv_diff_contract(s, d, p, "mixed", 2))
        out.append(conv_diff_contract(s, d, p, "m-rad", 2, jit=True))
        if p.startswith("Cart"):
            out.append(conv_diff_contract(s, d, p, "m-rad", 2, quantity=True))
    for s, d in (("SphericalAcc", "CartesianAcc3D"), ("CylindricalAcc", "CartesianAcc3D"), ("LonLatSphericalAcc", "MathSphericalAcc"),
                 ("PolarAcc", "CartesianAcc2D")):
        out.append(roundtrip_diff(s, d, INT[s], "m-rad", 2))
        out.append(roundtrip_diff(s, d, INT[d], "m-rad", 2))
    return out
