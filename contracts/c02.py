"""C02: velocities are converted as tangent vectors."""
from __future__ import annotations

from .lib import *  # noqa: F403
from .lib import cd, conv_diff_contract, interior, roundtrip_diff

VPOS = {1: POS1, 2: POS2, 3: POS3}


def contracts(tier):
    out = []
    for dim, group in VPOS.items():
        vels = [VEL[p] for p in group] + (["LonCosLatSphericalVel"] if dim == 3 else [])
        for s in vels:
            for d in vels:
                if {s, d} == {"CartesianVel1D", "RadialVel"}:
                    pass
                # the position supplied in the source's own representation
                out.append(conv_diff_contract(s, d, INT[s], "m-rad", 1))
                if s != d:
                    out.append(conv_diff_contract(s, d, INT[s], "kpc-deg", 1, via="method"))
                # the position supplied in some other representation
                for p in group:
                    if p != INT[s] and (tier == "thorough" or p.startswith("Cartesian")):
                        out.append(conv_diff_contract(s, d, p, "m-rad", 1))
    for ty, unit in (("Parallax", "mas"), ("DistanceModulus", "mag")):
        for s, p in (("CartesianVel3D", "LonLatSphericalPos"), ("SphericalVel", "SphericalPos"), ("LonCosLatSphericalVel", "LonLatSphericalPos"),
                     ("MathSphericalVel", "MathSphericalPos")):
            for d in ("CartesianVel3D", "SphericalVel", "LonLatSphericalVel"):
                if s != d:
                    out.append(conv_diff_contract(s, d, p, "m-rad", 1, kind=(ty, unit)))
    for s, d, p in (("SphericalVel", "CartesianVel3D", "SphericalPos"), ("CartesianVel3D", "CylindricalVel", "CartesianPos3D"),
                    ("PolarVel", "CartesianVel2D", "PolarPos"), ("CartesianVel2D", "PolarVel", "CartesianPos2D"),
                    ("LonCosLatSphericalVel", "SphericalVel", "LonLatSphericalPos"), ("CartesianVel1D", "RadialVel", "CartesianPos1D"),
                    ("CylindricalVel", "LonCosLatSphericalVel", "CartesianPos3D")):
        for shape in ((2,), (2, 1)):
            if shape == (2,) or tier == "thorough":
                out.append(conv_diff_contract(s, d, p, "m-rad", 1, shape=shape))
        out.append(conv_diff_contract(s, d, p, "mixed", 1))
        out.append(conv_diff_contract(s, d, p, "m-rad", 1, jit=True))
        if p.startswith("Cart"):
            out.append(conv_diff_contract(s, d, p, "m-rad", 1, quantity=True))
    for s, d in (("SphericalVel", "CartesianVel3D"), ("CylindricalVel", "CartesianVel3D"), ("LonLatSphericalVel", "LonCosLatSphericalVel"),
                 ("LonCosLatSphericalVel", "MathSphericalVel"), ("PolarVel", "CartesianVel2D")):
        out.append(roundtrip_diff(s, d, INT[s], "m-rad", 1))
        if INT[d] != INT[s]:
            out.append(roundtrip_diff(s, d, INT[d], "m-rad", 1))
    return out


_ = cd, interior
