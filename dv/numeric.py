"""Float evaluation of terms with a running bound on the rounding error.

Used only to replay contracts on concrete executions (a test oracle), never to
discharge an obligation.
"""
from __future__ import annotations

import math

from . import terms as tm

EPS = 2.3e-16
NAN = float("nan")


def evalm(roots, env, ufs=None, errs=None):
    """id -> (value, err) for numbers, (truth, uncertain) for booleans."""
    errs = errs or {}
    m = {}
    for t in tm.topo(roots):
        o = t.op
        a = [m[x.id] for x in t.args]
        try:
            m[t.id] = _ev(t, o, a, env, ufs, errs)
        except (ValueError, OverflowError, ZeroDivisionError):
            m[t.id] = (NAN, 0.0)
    return m


def _ev(t, o, a, env, ufs, errs):
    if o == "num":
        v = float(t.val)
        return v, (0.0 if t.val == int(v) else abs(v) * EPS) if not math.isinf(v) else 0.0
    if o == "var":
        return env[t.val], errs.get(t.val, 0.0)
    if o == "bvar":
        return env[t.val], False
    if o == "pi":
        return math.pi, math.pi * EPS
    if o == "nan":
        return NAN, 0.0
    if o == "inf":
        return math.inf, 0.0
    if o == "ninf":
        return -math.inf, 0.0
    if o == "true":
        return True, False
    if o == "false":
        return False, False
    if o == "add":
        (x, ex), (y, ey) = a
        v = x + y
        return v, ex + ey + EPS * abs(v)
    if o == "mul":
        (x, ex), (y, ey) = a
        v = x * y
        return v, abs(x) * ey + abs(y) * ex + ex * ey + EPS * abs(v)
    if o == "neg":
        return -a[0][0], a[0][1]
    if o == "div":
        (x, ex), (y, ey) = a
        if y == 0:
            return (NAN if x == 0 or x != x else math.copysign(math.inf, x)), math.inf if ey else 0.0
        v = x / y
        if abs(y) <= 2 * ey:
            return v, math.inf
        return v, (ex + abs(v) * ey) / (abs(y) - ey) + EPS * abs(v)
    if o == "ipow":
        x, ex = a[0]
        v = x ** t.val
        return v, (t.val * abs(x) ** (t.val - 1) * ex if t.val else 0.0) + EPS * abs(v) * t.val
    if o == "sqrt":
        x, ex = a[0]
        if x < 0:
            if -x <= 16 * ex:
                return 0.0, math.sqrt(20 * ex)
            return NAN, 0.0
        v = math.sqrt(x)
        return v, (min(ex / (2 * v), math.sqrt(ex)) if v > 0 else math.sqrt(ex)) + EPS * v
    if o in ("sin", "cos"):
        x, ex = a[0]
        return getattr(math, o)(x), ex + EPS * (1 + abs(x) * 0)
    if o == "tan":
        x, ex = a[0]
        v = math.tan(x)
        return v, (1 + v * v) * (ex + EPS * abs(x))
    if o in ("acos", "asin"):
        x, ex = a[0]
        if abs(x) > 1:
            if abs(x) - 1 > 16 * ex:
                return NAN, 0.0
            x = math.copysign(1.0, x)
        v = getattr(math, o)(x)
        q = max(1 - x * x, 0.0)
        return v, (min(ex / math.sqrt(q), math.sqrt(2 * ex)) if q > 0 else math.sqrt(2 * ex)) + EPS * 4
    if o == "atan":
        x, ex = a[0]
        return math.atan(x), ex / (1 + x * x) + EPS
    if o == "exp":
        x, ex = a[0]
        v = math.exp(x)
        return v, v * (ex + EPS)
    if o == "log":
        x, ex = a[0]
        if x <= 0:
            return (-math.inf if x == 0 else NAN), 0.0
        return math.log(x), ex / x + EPS * abs(math.log(x))
    if o == "atan2":
        (y, ey), (x, ex) = a
        r2 = x * x + y * y
        v = math.atan2(y, x)
        if r2 == 0 or math.sqrt(r2) <= 2 * (ex + ey):
            return v, (math.inf if ex + ey > 0 else 0.0)
        e = (abs(x) * ey + abs(y) * ex) / r2 + 4 * EPS
        if x < 0 and abs(y) <= ey:
            e += 2 * math.pi
        return v, e
    if o == "pow":
        (x, ex), (y, ey) = a
        v = x ** y
        if isinstance(v, complex):
            return NAN, 0.0
        lx = abs(math.log(abs(x))) if x else 0.0
        return v, abs(v) * ((abs(y) * ex / abs(x) if x else 0.0) + lx * ey + EPS)
    if o == "abs":
        return abs(a[0][0]), a[0][1]
    if o == "sign":
        x, ex = a[0]
        return float((x > 0) - (x < 0)), (2.0 if abs(x) <= ex and ex > 0 else 0.0)
    if o == "floor":
        x, ex = a[0]
        v = float(math.floor(x))
        return v, (1.0 if ex > 0 and (x - ex < v or x + ex >= v + 1) else 0.0)
    if o == "ite":
        c, unc = a[0]
        s = a[1] if c else a[2]
        if not unc:
            return s
        if isinstance(s[0], bool):
            return s[0], s[1] or a[1][0] != a[2][0]
        d = abs(a[1][0] - a[2][0])
        if d != d:
            d = 0.0
        return s[0], max(a[1][1], a[2][1]) + d
    if o in ("lt", "le", "eq"):
        (x, ex), (y, ey) = a
        if isinstance(x, bool):
            return x == y, ex or ey
        e = ex + ey
        unc = abs(x - y) <= e and e > 0
        return (x < y if o == "lt" else x <= y if o == "le" else x == y), unc
    if o == "and":
        v = all(q[0] for q in a)
        return v, any(q[1] for q in a if q[0] or q[1]) and not any((not q[0]) and not q[1] for q in a)
    if o == "or":
        v = any(q[0] for q in a)
        return v, any(q[1] for q in a) and not any(q[0] and not q[1] for q in a)
    if o == "not":
        return (not a[0][0]), a[0][1]
    if o in ("uf", "buf"):
        xs = [q[0] for q in a]
        e = sum(q[1] for q in a) * 10
        if ufs is None:
            h = math.sin(sum((i + 1.37) * x for i, x in enumerate(xs)) + hash(t.val[0]) % 97 + 3.1 * t.val[1])
            return 1.0 + 2.0 * h, e
        return ufs(t.val, xs), e
    raise NotImplementedError(o)


class Evaluator:
    def __init__(self, roots, env, ufs=None, errs=None):
        self.m = evalm(roots, env, ufs, errs)

    def __call__(self, t):
        return self.m[t.id][0]

    def err(self, t):
        return self.m[t.id][1]

    def truth(self, t):
        return bool(self.m[t.id][0])


def holds(t, ev, rtol):
    """Tolerant truth of a goal: True, False, or None (undefined)."""
    o = t.op
    if o == "true":
        return True
    if o == "false":
        return False
    if o in ("and", "or"):
        rs = [holds(a, ev, rtol) for a in t.args]
        if o == "and":
            return False if any(r is False for r in rs) else (None if any(r is None for r in rs) else True)
        return True if any(r is True for r in rs) else (None if any(r is None for r in rs) else False)
    if o == "not":
        v, unc = ev.m[t.args[0].id]
        return True if unc else not v
    if o in ("eq", "le", "lt"):
        if t.args[0].isbool:
            return ev(t.args[0]) == ev(t.args[1]) or bool(ev.err(t.args[0]) or ev.err(t.args[1]))
        a, b = ev(t.args[0]), ev(t.args[1])
        if a != a or b != b or math.isinf(a) or math.isinf(b):
            return None
        e = ev.err(t.args[0]) + ev.err(t.args[1])
        if e != e:
            return True
        tol = rtol * max(abs(a), abs(b)) + 100 * e + 1e-300
        if o == "eq":
            return abs(a - b) <= tol
        return a <= b + tol
    if o == "ite":
        c, unc = ev.m[t.args[0].id]
        if unc:
            rs = [holds(t.args[1], ev, rtol), holds(t.args[2], ev, rtol)]
            return True if True in rs else rs[0]
        return holds(t.args[1] if c else t.args[2], ev, rtol)
    return bool(ev(t))


def admits(t, ev):
    """Precondition, with a margin on its strict parts."""
    o = t.op
    if o == "true":
        return True
    if o == "false":
        return False
    if o == "and":
        return all(admits(a, ev) for a in t.args)
    if o == "or":
        return any(admits(a, ev) for a in t.args)
    if o == "not" and t.args[0].op == "eq":
        a, b = t.args[0].args
        if a.isbool:
            return ev(a) != ev(b)
        x, y = ev(a), ev(b)
        return abs(x - y) > 1e-9 * max(abs(x), abs(y)) + 100 * (ev.err(a) + ev.err(b))
    if o == "lt":
        a, b = t.args
        x, y = ev(a), ev(b)
        return y - x > 1e-9 * max(abs(x), abs(y)) + 100 * (ev.err(a) + ev.err(b))
    if o == "le":
        a, b = t.args
        return ev(a) <= ev(b) + 4 * (ev.err(a) + ev.err(b))
    if o == "eq" and not t.args[0].isbool:
        a, b = t.args
        return abs(ev(a) - ev(b)) <= 4 * (ev.err(a) + ev.err(b)) + 1e-14 * abs(ev(a))
    if o == "ite":
        return admits(t.args[1] if ev(t.args[0]) else t.args[2], ev)
    return bool(ev(t))
