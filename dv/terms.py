"""Hash-consed terms over the reals and booleans."""
from __future__ import annotations

from numpy import ndarray as _nd

import math
from fractions import Fraction

__all__ = ["T"]


class T:
    __slots__ = ("op", "args", "val", "id", "isbool", "__weakref__")
    _tab: dict = {}
    _n = 0

    def __repr__(self):
        return show(self)

    # arithmetic sugar (used by contracts)
    def __add__(self, o): return NotImplemented if isinstance(o, _nd) else add(self, wrap(o))
    def __radd__(self, o): return add(wrap(o), self)
    def __sub__(self, o): return NotImplemented if isinstance(o, _nd) else sub(self, wrap(o))
    def __rsub__(self, o): return sub(wrap(o), self)
    def __mul__(self, o): return NotImplemented if isinstance(o, _nd) else mul(self, wrap(o))
    def __rmul__(self, o): return mul(wrap(o), self)
    def __truediv__(self, o): return NotImplemented if isinstance(o, _nd) else div(self, wrap(o))
    def __rtruediv__(self, o): return div(wrap(o), self)
    def __neg__(self): return neg(self)
    def __pos__(self): return self
    def __pow__(self, k):
        assert isinstance(k, int), "only integer powers in contracts"
        return ipow(self, k)
    def __lt__(self, o): return lt(self, wrap(o))
    def __le__(self, o): return le(self, wrap(o))
    def __gt__(self, o): return lt(wrap(o), self)
    def __ge__(self, o): return le(wrap(o), self)
    def __and__(self, o): return and_(self, o)
    def __or__(self, o): return or_(self, o)
    def __invert__(self): return not_(self)
    def __bool__(self):
        if self is TRUE:
            return True
        if self is FALSE:
            return False
        raise TypeError("symbolic term used as a Python bool")


BOOL_OPS = {"true", "false", "lt", "le", "eq", "and", "or", "not", "bvar", "buf"}


def mk(op, args=(), val=None):
    key = (op, tuple(a.id for a in args), val)
    t = T._tab.get(key)
    if t is None:
        t = object.__new__(T)
        t.op = op
        t.args = tuple(args)
        t.val = val
        T._n += 1
        t.id = T._n
        t.isbool = op in BOOL_OPS or (op == "ite" and args[1].isbool)
        T._tab[key] = t
    return t


TRUE = mk("true")
FALSE = mk("false")
PI = mk("pi")


def num(x) -> T:
    return mk("num", (), Fraction(x))


ZERO = num(0)
ONE = num(1)
HALF = num(Fraction(1, 2))


def var(name: str) -> T:
    return mk("var", (), name)


def bvar(name: str) -> T:
    return mk("bvar", (), name)


def isnum(t):
    return t.op == "num"


def boolc(b) -> T:
    return TRUE if b else FALSE


# ---------------------------------------------------------------------------
# literals


class Undefined(Exception):
    pass


def _rational_near(v: float, maxden: int):
    f = Fraction(v).limit_denominator(maxden)
    if f == 0:
        return None
    if abs(float(f) - v) <= 2e-16 * abs(v):
        return f
    return None


_LIT: dict = {}
UNIT_TABLE = None


def lit(v) -> T:
    """The real constant denoted by a machine literal.

    Recognised exactly: integers, short decimals, small fractions, and rational
    multiples of pi**k, |k|<=2 (degree/radian/arcsecond and parsec/AU factors).
    Everything else denotes its shortest decimal representation.
    """
    if isinstance(v, bool):
        return boolc(v)
    v = float(v)
    if v in _LIT:
        return _LIT[v]
    if math.isnan(v) or math.isinf(v):
        t = mk("nan" if math.isnan(v) else ("inf" if v > 0 else "ninf"))
        return t
    t = None
    if v == int(v) and abs(v) < 2**53:
        t = num(int(v))
    if t is None:
        s = repr(v)
        digits = s.lstrip("-").split("e")[0].replace(".", "").strip("0")
        if len(digits) <= 13:
            t = num(Fraction(s))
    if t is None and UNIT_TABLE is not None:
        from . import units
        t = units.lookup(v)
    if t is None:
        f = _rational_near(v, 1000)
        if f is not None:
            t = num(f)
    if t is None:
        for k in (1, -1, 2, -2):
            w = v / math.pi**k
            for maxden in (1, 4096, 3600 * 180, 3600000 * 180, 3600000000 * 180):
                f = Fraction(w).limit_denominator(maxden)
                if f == 0:
                    continue
                # significance: numerator*denominator must be far below 2^53
                if f.numerator * f.denominator > 10**11:
                    continue
                if abs(float(f) * math.pi**k - v) <= 9e-16 * abs(v):
                    t = mul(num(f), ipow(PI, k))
                    break
            if t is not None:
                break
    if t is None:
        t = num(Fraction(repr(v)))
    _LIT[v] = t
    return t


def wrap(x) -> T:
    if isinstance(x, T):
        return x
    if isinstance(x, bool):
        return boolc(x)
    if isinstance(x, (int, Fraction)):
        return num(x)
    if isinstance(x, float):
        return lit(x)
    try:
        return lit(float(x))
    except TypeError:
        pass
    raise TypeError(type(x))


# ---------------------------------------------------------------------------
# constructors with light simplification


def add(a, b):
    if isnum(a) and isnum(b):
        return num(a.val + b.val)
    if a is ZERO:
        return b
    if b is ZERO:
        return a
    return mk("add", (a, b))


def sub(a, b):
    if a is b:
        return ZERO
    return add(a, neg(b))


def neg(a):
    if isnum(a):
        return num(-a.val)
    if a.op == "neg":
        return a.args[0]
    return mk("neg", (a,))


def mul(a, b):
    if isnum(a) and isnum(b):
        return num(a.val * b.val)
    if a is ZERO or b is ZERO:
        return ZERO
    if a is ONE:
        return b
    if b is ONE:
        return a
    return mk("mul", (a, b))


def div(a, b):
    if b is ONE:
        return a
    if isnum(a) and isnum(b) and b.val != 0:
        return num(a.val / b.val)
    return mk("div", (a, b))


def ipow(a, k: int):
    if k == 0:
        return ONE
    if k == 1:
        return a
    if k < 0:
        return div(ONE, ipow(a, -k))
    if isnum(a):
        return num(a.val**k)
    return mk("ipow", (a,), k)


def _isqrt_exact(n):
    r = math.isqrt(n)
    return r if r * r == n else None


def sqrt(a):
    if isnum(a) and a.val >= 0:
        p, q = _isqrt_exact(a.val.numerator), _isqrt_exact(a.val.denominator)
        if p is not None and q is not None:
            return num(Fraction(p, q))
    return mk("sqrt", (a,))


def f1(op):
    def go(a):
        if a is ZERO and op in ("sin", "tan", "atan", "asin"):
            return ZERO
        if a is ZERO and op in ("cos", "exp"):
            return ONE
        if a is ONE and op == "log":
            return ZERO
        return mk(op, (a,))

    return go


sin, cos, tan, acos, asin, atan, log, exp = map(
    f1, ("sin", "cos", "tan", "acos", "asin", "atan", "log", "exp")
)


def atan2(y, x):
    return mk("atan2", (y, x))


def pow_(a, b):
    if isnum(b) and b.val.denominator == 1 and abs(b.val) < 20:
        return ipow(a, int(b.val))
    if isnum(b) and b.val == Fraction(1, 2):
        return sqrt(a)
    if isnum(b) and b.val == Fraction(-1, 2):
        return div(ONE, sqrt(a))
    return mk("pow", (a, b))


def abs_(a):
    if isnum(a):
        return num(abs(a.val))
    if a.op in ("sqrt", "abs"):
        return a
    return mk("abs", (a,))


def sign(a):
    if isnum(a):
        return num((a.val > 0) - (a.val < 0))
    return mk("sign", (a,))


def floor(a):
    if isnum(a):
        return num(math.floor(a.val))
    return mk("floor", (a,))


def mod(a, m):
    """Floored modulo."""
    if isnum(a) and isnum(m) and m.val != 0:
        return num(a.val - m.val * math.floor(a.val / m.val))
    return sub(a, mul(m, floor(div(a, m))))


def rem(a, m):
    """C-style remainder (sign of the dividend)."""
    q = div(a, m)
    tr = ite(lt(q, ZERO), neg(floor(neg(q))), floor(q))
    return sub(a, mul(m, tr))


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a.isbool:
        if a is TRUE and b is FALSE:
            return c
        if a is FALSE and b is TRUE:
            return not_(c)
        return or_(and_(c, a), and_(not_(c), b))
    return mk("ite", (c, a, b))


def max_(a, b):
    return ite(lt(a, b), b, a)


def min_(a, b):
    return ite(lt(b, a), b, a)


def lt(a, b):
    if a is b:
        return FALSE
    if isnum(a) and isnum(b):
        return boolc(a.val < b.val)
    return mk("lt", (a, b))


def le(a, b):
    if a is b:
        return TRUE
    if isnum(a) and isnum(b):
        return boolc(a.val <= b.val)
    return mk("le", (a, b))


def gt(a, b):
    return lt(b, a)


def ge(a, b):
    return le(b, a)


def eq(a, b):
    if a is b:
        return TRUE
    if a.isbool or b.isbool:
        return or_(and_(a, b), and_(not_(a), not_(b)))
    if isnum(a) and isnum(b):
        return boolc(a.val == b.val)
    return mk("eq", (a, b) if a.id <= b.id else (b, a))


def ne(a, b):
    return not_(eq(a, b))


def not_(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == "not":
        return a.args[0]
    if a.op == "lt":
        return le(a.args[1], a.args[0])
    if a.op == "le":
        return lt(a.args[1], a.args[0])
    return mk("not", (a,))


def and_(*xs):
    out = []
    for x in xs:
        for y in x.args if x.op == "and" else (x,):
            if y is FALSE:
                return FALSE
            if y is TRUE or y in out:
                continue
            out.append(y)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return mk("and", tuple(out))


def or_(*xs):
    out = []
    for x in xs:
        for y in x.args if x.op == "or" else (x,):
            if y is TRUE:
                return TRUE
            if y is FALSE or y in out:
                continue
            out.append(y)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return mk("or", tuple(out))


def implies(a, b):
    return or_(not_(a), b)


def uf(name, idx, args):
    """Uninterpreted function application, output number `idx`."""
    return mk("uf", tuple(args), (name, idx))


DEG = div(PI, num(180))

# ---------------------------------------------------------------------------
# printing, traversal, evaluation


def show(t, depth=12):
    if t.op == "num":
        return str(t.val)
    if t.op in ("var", "bvar"):
        return t.val
    if t.op in ("pi", "true", "false", "nan", "inf", "ninf"):
        return t.op
    if depth == 0:
        return f"#{t.id}"
    a = [show(x, depth - 1) for x in t.args]
    inf = {"add": "+", "mul": "*", "div": "/", "lt": "<", "le": "<=", "eq": "=", "and": "&", "or": "|"}
    if t.op in inf:
        return "(" + f" {inf[t.op]} ".join(a) + ")"
    if t.op == "neg":
        return f"-{a[0]}"
    if t.op == "ipow":
        return f"{a[0]}^{t.val}"
    if t.op == "uf":
        return f"{t.val[0]}.{t.val[1]}({', '.join(a)})"
    return f"{t.op}({', '.join(a)})"


def topo(roots):
    """All subterms of `roots`, children first."""
    seen = set()
    out = []
    stack = [(r, False) for r in reversed(list(roots))]
    while stack:
        t, done = stack.pop()
        if done:
            out.append(t)
            continue
        if t.id in seen:
            continue
        seen.add(t.id)
        stack.append((t, True))
        for a in t.args:
            if a.id not in seen:
                stack.append((a, False))
    return out


def subst(roots, mapping):
    """Replace terms (by identity) and rebuild with simplification."""
    memo = dict((k.id, v) for k, v in mapping.items())
    for t in topo(roots):
        if t.id in memo:
            continue
        if not t.args:
            memo[t.id] = t
            continue
        args = [memo[a.id] for a in t.args]
        if all(x is y for x, y in zip(args, t.args)):
            memo[t.id] = t
        else:
            memo[t.id] = rebuild(t, args)
    return [memo[r.id] for r in roots]


_B2 = {"add": add, "mul": mul, "div": div, "atan2": atan2, "pow": pow_, "lt": lt, "le": le, "eq": eq}
_B1 = {"neg": neg, "sqrt": sqrt, "sin": sin, "cos": cos, "tan": tan, "acos": acos, "asin": asin,
       "atan": atan, "log": log, "exp": exp, "abs": abs_, "sign": sign, "floor": floor, "not": not_}


def rebuild(t, args):
    if t.op in _B2:
        return _B2[t.op](*args)
    if t.op in _B1:
        return _B1[t.op](*args)
    if t.op == "ipow":
        return ipow(args[0], t.val)
    if t.op == "ite":
        return ite(*args)
    if t.op == "and":
        return and_(*args)
    if t.op == "or":
        return or_(*args)
    return mk(t.op, args, t.val)


def evalf(roots, env, ufs=None):
    """Float evaluation of terms; env: var name -> float."""
    m = {}
    nan = float("nan")
    for t in topo(roots):
        o = t.op
        a = [m[x.id] for x in t.args]
        try:
            if o == "num":
                v = float(t.val)
            elif o in ("var", "bvar"):
                v = env[t.val]
            elif o == "pi":
                v = math.pi
            elif o == "nan":
                v = nan
            elif o == "inf":
                v = math.inf
            elif o == "ninf":
                v = -math.inf
            elif o == "true":
                v = True
            elif o == "false":
                v = False
            elif o == "add":
                v = a[0] + a[1]
            elif o == "mul":
                v = a[0] * a[1]
            elif o == "neg":
                v = -a[0]
            elif o == "div":
                v = a[0] / a[1] if a[1] != 0 else (nan if a[0] == 0 or a[0] != a[0] else math.copysign(math.inf, a[0]))
            elif o == "ipow":
                v = a[0] ** t.val
            elif o == "sqrt":
                v = math.sqrt(a[0]) if a[0] >= 0 else nan
            elif o in ("sin", "cos", "tan", "acos", "asin", "atan", "exp"):
                v = getattr(math, o)(a[0])
            elif o == "log":
                v = math.log(a[0]) if a[0] > 0 else (-math.inf if a[0] == 0 else nan)
            elif o == "atan2":
                v = math.atan2(a[0], a[1])
            elif o == "pow":
                v = a[0] ** a[1]
                if isinstance(v, complex):
                    v = nan
            elif o == "abs":
                v = abs(a[0])
            elif o == "sign":
                v = float((a[0] > 0) - (a[0] < 0))
            elif o == "floor":
                v = float(math.floor(a[0]))
            elif o == "ite":
                v = a[1] if a[0] else a[2]
            elif o == "lt":
                v = a[0] < a[1]
            elif o == "le":
                v = a[0] <= a[1]
            elif o == "eq":
                v = a[0] == a[1]
            elif o == "and":
                v = all(a)
            elif o == "or":
                v = any(a)
            elif o == "not":
                v = not a[0]
            elif o in ("uf", "buf"):
                if ufs is None:
                    h = math.sin(sum((i + 1.37) * x for i, x in enumerate(a)) + hash(t.val[0]) % 97 + 3.1 * t.val[1])
                    v = 1.0 + 2.0 * h
                else:
                    v = ufs(t.val, a)
            else:
                raise NotImplementedError(o)
        except (ValueError, OverflowError):
            v = nan
        m[t.id] = v
    return [m[r.id] for r in roots]


def free_vars(roots):
    return {t.val for t in topo(roots) if t.op in ("var", "bvar")}
