#!/opt/venv/bin/python
"""Self-test of the verifier: true goals must be proved, false ones must not."""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from dv import terms as tm  # noqa: E402
from dv.decide import Prover  # noqa: E402

x, y, z = (tm.var(n) for n in "xyz")
r = tm.sqrt(x * x + y * y + z * z)
nz = tm.gt(x * x + y * y + z * z, tm.ZERO)
TRUE = [
    ([], tm.eq((x + y) * (x - y), x * x - y * y)),
    ([nz], tm.eq(r * tm.cos(tm.acos(z / r)), z)),
    ([nz], tm.eq(r * tm.sin(tm.acos(z / r)) * tm.cos(tm.atan2(y, x)), x)),
    ([], tm.eq(tm.cos(x + y), tm.cos(x) * tm.cos(y) - tm.sin(x) * tm.sin(y))),
    ([x > 0], tm.le(tm.ZERO, x * tm.abs_(y))),
    ([], tm.le(tm.ZERO, r)),
]
FALSE = [
    ([], tm.eq(r * tm.cos(tm.acos(z / r)), z)),  # undefined at the origin
    ([nz], tm.eq(r * tm.sin(tm.acos(z / r)) * tm.sin(tm.atan2(y, x)), x)),
    ([], tm.le(tm.ZERO, x * y)),
    ([], tm.eq(tm.sqrt(x * x), x)),
    ([x > 0], tm.lt(tm.ONE, x)),
    ([], tm.eq(tm.atan2(tm.sin(x), tm.cos(x)), x)),
]
bad = 0
for want, cases in ((True, TRUE), (False, FALSE)):
    for k, (a, g) in enumerate(cases):
        s = Prover(a, time_limit=60).prove(g)
        ok = (s["status"] == "proved") == want
        bad += not ok
        if not ok:
            print("SELFTEST", want, k, s)
print("selftest:", "ok" if not bad else f"{bad} failures")
sys.exit(bool(bad))
