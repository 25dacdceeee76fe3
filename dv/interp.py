"""Meaning of a jaxpr: arrays of terms, plus the guards the program checks.

Every JAX primitive gets its real-number meaning.  Data-movement primitives
(gather, reshape, slice, ...) are not re-modelled: the primitive itself is run
on an array of element numbers and the elements are permuted accordingly.
"""
from __future__ import annotations

import itertools
from fractions import Fraction

import jax
import numpy as np
from jax import core as jcore
from jax import lax

from . import terms as tm

try:
    from jax.extend import core as xcore  # noqa: F401
except ImportError:
    pass


class Unsupported(Exception):
    """The extraction cannot give this construct a meaning."""


def to_obj(x):
    """numpy/jax constant -> object array of terms."""
    a = np.asarray(x)
    out = np.empty(a.shape, dtype=object)
    kind = a.dtype.kind
    for i in np.ndindex(a.shape):
        v = a[i]
        if kind == "b":
            out[i] = tm.boolc(bool(v))
        elif kind in "iu":
            out[i] = tm.num(int(v))
        elif kind == "f":
            if a.dtype == np.float32:
                v = float(repr(v)) if False else float(np.format_float_positional(v, unique=True)) if np.isfinite(v) else float(v)
            out[i] = tm.lit(float(v))
        else:
            try:
                out[i] = tm.lit(float(v))
            except Exception as e:  # noqa: BLE001
                raise Unsupported(f"constant of dtype {a.dtype}") from e
    return out


def concrete(a, dtype=None):
    """object array of constants -> numpy array, or None."""
    out = np.empty(a.shape, dtype=object)
    for i in np.ndindex(a.shape):
        t = a[i]
        if t is tm.TRUE:
            out[i] = True
        elif t is tm.FALSE:
            out[i] = False
        elif t.op == "num":
            out[i] = int(t.val) if t.val.denominator == 1 else float(t.val)
        else:
            return None
    if dtype is None:
        return np.array(out.tolist()) if out.size else np.zeros(out.shape)
    return np.array(out.tolist(), dtype=dtype).reshape(out.shape)


def _elementwise(f):
    uf = {}

    def go(*args):
        n = len(args)
        if n not in uf:
            uf[n] = np.frompyfunc(f, n, 1)
        r = uf[n](*args)
        if not isinstance(r, np.ndarray):
            o = np.empty((), dtype=object)
            o[()] = r
            r = o
        return r

    return go


def _truth(a):
    if a.isbool:
        return a
    return tm.ne(a, tm.ZERO)


def _b2n(a):
    return tm.ite(a, tm.ONE, tm.ZERO) if a.isbool else a


def _and(a, b):
    if a.isbool and b.isbool:
        return tm.and_(a, b)
    raise Unsupported("bitwise and on numbers")


def _or(a, b):
    if a.isbool and b.isbool:
        return tm.or_(a, b)
    raise Unsupported("bitwise or on numbers")


def _xor(a, b):
    if a.isbool and b.isbool:
        return tm.not_(tm.eq(a, b))
    raise Unsupported("xor")


def _eq(a, b):
    bad = ("inf", "ninf", "nan")
    if (a.op in bad[:2]) != (b.op in bad[:2]) and "nan" not in (a.op, b.op):
        return tm.FALSE  # a real number is not infinite
    return tm.eq(a, b)


def _max(a, b):
    if a.op == "ninf":
        return b
    if b.op == "ninf":
        return a
    return tm.max_(a, b)


def _min(a, b):
    if a.op == "inf":
        return b
    if b.op == "inf":
        return a
    return tm.min_(a, b)


def _trunc(a):
    return tm.ite(tm.lt(a, tm.ZERO), tm.neg(tm.floor(tm.neg(a))), tm.floor(a))


ELEM = {
    "add": tm.add, "sub": tm.sub, "mul": tm.mul, "div": tm.div, "neg": tm.neg,
    "add_any": tm.add,
    "sign": tm.sign, "abs": tm.abs_, "floor": tm.floor,
    "ceil": lambda a: tm.neg(tm.floor(tm.neg(a))),
    "sqrt": tm.sqrt, "rsqrt": lambda a: tm.div(tm.ONE, tm.sqrt(a)),
    "square": lambda a: tm.ipow(a, 2), "exp": tm.exp, "log": tm.log,
    "log1p": lambda a: tm.log(tm.add(tm.ONE, a)),
    "exp2": lambda a: tm.pow_(tm.num(2), a),
    "sin": tm.sin, "cos": tm.cos, "tan": tm.tan, "asin": tm.asin, "acos": tm.acos,
    "atan": tm.atan, "atan2": tm.atan2, "pow": tm.pow_,
    "max": _max, "min": _min, "rem": tm.rem,
    "lt": tm.lt, "le": tm.le, "gt": tm.gt, "ge": tm.ge, "eq": _eq, "ne": lambda a, b: tm.not_(_eq(a, b)),
    "and": _and, "or": _or, "xor": _xor, "not": tm.not_,
    "is_finite": lambda a: tm.FALSE if a.op in ("nan", "inf", "ninf") else tm.TRUE,
    "real": lambda a: a, "stop_gradient": lambda a: a,
    "eq_to": _eq, "le_to": tm.le, "lt_to": tm.lt,
}
ELEM = {k: _elementwise(v) for k, v in ELEM.items()}


# complex numbers: pairs of terms, as elements of the same arrays
def _parts(a):
    return a.args if a.op == "cplx" else (a, tm.ZERO)


def _cplx(re, im):
    return tm.mk("cplx", (re, im))


def _csqrt(a):
    re, im = _parts(a)
    if im is not tm.ZERO:
        raise Unsupported("square root of a non-real complex number")
    neg = tm.lt(re, tm.ZERO)
    root = tm.sqrt(tm.abs_(re))
    return _cplx(tm.ite(neg, tm.ZERO, root), tm.ite(neg, root, tm.ZERO))


def _cmul(a, b):
    (x, y), (z, w) = _parts(a), _parts(b)
    return _cplx(tm.sub(tm.mul(x, z), tm.mul(y, w)), tm.add(tm.mul(x, w), tm.mul(y, z)))


def _cpairwise(f):
    return lambda a, b: _cplx(f(_parts(a)[0], _parts(b)[0]), f(_parts(a)[1], _parts(b)[1]))


def _cdiv(a, b):
    if _parts(b)[1] is not tm.ZERO:
        raise Unsupported("division by a complex number")
    x, y = _parts(a)
    return _cplx(tm.div(x, _parts(b)[0]), tm.div(y, _parts(b)[0]))


CELEM = {k: _elementwise(v) for k, v in {
    "sqrt": _csqrt, "mul": _cmul, "div": _cdiv, "add": _cpairwise(tm.add), "sub": _cpairwise(tm.sub), "neg": lambda a: _cplx(*[tm.neg(x) for x in _parts(a)]),
    "real": lambda a: _parts(a)[0], "imag": lambda a: _parts(a)[1], "complex": _cplx,
}.items()}


def _iscomplex(v):
    d = getattr(v.aval, "dtype", None)
    try:
        return d is not None and np.dtype(d).kind == "c"
    except TypeError:
        return False

MOVE = {
    "broadcast_in_dim", "reshape", "squeeze", "expand_dims", "transpose", "rev", "slice",
    "concatenate", "copy", "copy_p", "device_put", "optimization_barrier", "sharding_constraint",
    "pad", "gather", "dynamic_slice", "dynamic_update_slice", "scatter", "sort_none",
}
CALLS = {"pjit": "jaxpr", "closed_call": "call_jaxpr", "core_call": "call_jaxpr", "remat": "jaxpr",
         "custom_jvp_call": "call_jaxpr", "custom_vjp_call": "call_jaxpr", "custom_vjp_call_jaxpr": "fun_jaxpr",
         "checkpoint": "jaxpr", "custom_lin": None, "jit": "jaxpr", "xla_call": "call_jaxpr"}


class Interp:
    def __init__(self):
        self.path = tm.TRUE
        self.guards = []  # (cond under which the program raises)
        self.prims = set()
        self.neqns = 0
        self.contract_calls = []
        self.fresh = itertools.count()

    # -- helpers -----------------------------------------------------------
    def run(self, closed, args):
        consts = [self._const(c) for c in closed.consts]
        return self.eval(closed.jaxpr, consts, args)

    def _const(self, c):
        if isinstance(c, np.ndarray) and c.dtype == object:
            return c
        return to_obj(c)

    def eval(self, jaxpr, consts, args):
        env = {}

        def read(v):
            if isinstance(v, jcore.Literal):
                return to_obj(v.val)
            return env[v]

        for v, c in zip(jaxpr.constvars, consts, strict=True):
            env[v] = c
        for v, a in zip(jaxpr.invars, args, strict=True):
            env[v] = a
        for eqn in jaxpr.eqns:
            self.neqns += 1
            ins = [read(v) for v in eqn.invars]
            outs = self.eqn(eqn, ins)
            for v, o in zip(eqn.outvars, outs, strict=True):
                if not isinstance(o, np.ndarray):
                    w = np.empty((), dtype=object)
                    w[()] = o
                    o = w
                env[v] = o
        return [read(v) for v in jaxpr.outvars]

    # -- one equation ------------------------------------------------------
    def eqn(self, eqn, ins):
        name = eqn.primitive.name
        p = eqn.params
        self.prims.add(name)
        if (name in ELEM or name in CELEM) and any(_iscomplex(v) for v in [*eqn.invars, *eqn.outvars]):
            if name not in CELEM:
                raise Unsupported(f"complex {name}")
            return [CELEM[name](*ins)]
        if name in ELEM:
            if name in ("add", "mul", "max", "min", "sub") and any(a.size and a.flat[0].isbool for a in ins):
                if name == "add" or name == "max":
                    return [ELEM["or"](*ins)]
                if name in ("mul", "min"):
                    return [ELEM["and"](*ins)]
            if name == "div" and np.dtype(eqn.outvars[0].aval.dtype).kind in "iu":
                return [_elementwise(lambda a, b: _trunc(tm.div(a, b)))(*ins)]
            return [ELEM[name](*ins)]
        if name in MOVE:
            return [self.move(eqn, ins)]
        if name in CALLS and CALLS[name]:
            j = p[CALLS[name]]
            if isinstance(j, jcore.ClosedJaxpr):
                return self.run(j, ins)
            return self.eval(j, [], ins)
        h = getattr(self, "p_" + name.replace("-", "_"), None)
        if h is None:
            raise Unsupported(f"primitive {name}")
        r = h(eqn, ins, p)
        return r if isinstance(r, list) else [r]

    def move(self, eqn, ins):
        """Run a data-movement primitive on element numbers."""
        name = eqn.primitive.name
        flat = []
        ids = []
        if name in ("gather", "scatter", "dynamic_slice", "dynamic_update_slice", "pad"):
            nid = {"gather": (0,), "scatter": (0, 2), "dynamic_slice": (0,), "dynamic_update_slice": (0, 1), "pad": (0, 1)}[name]
        else:
            nid = tuple(range(len(ins)))
        if name == "gather":
            # element -1 : fill value of out-of-bounds indices
            pass
        for k, a in enumerate(ins):
            if k in nid:
                n0 = len(flat)
                flat.extend(a.ravel().tolist())
                ids.append(np.arange(n0, n0 + a.size, dtype=np.int32).reshape(a.shape))
            else:
                c = concrete(a)
                if c is None:
                    raise Unsupported(f"{name} with a symbolic index")
                ids.append(np.asarray(c, dtype=eqn.invars[k].aval.dtype))
        params = dict(eqn.params)
        if "sharding" in params and params["sharding"] is not None:
            params["sharding"] = None
        with jax.ensure_compile_time_eval():
            if name in ("copy", "copy_p", "device_put", "optimization_barrier", "sharding_constraint"):
                res = ids[0]
            else:
                if name == "gather":
                    params["fill_value"] = -1
                res = eqn.primitive.bind(*[jax.numpy.asarray(i) for i in ids], **params)
                if isinstance(res, (list, tuple)):
                    res = res[0]
        res = np.asarray(res)
        out = np.empty(res.shape, dtype=object)
        for i in np.ndindex(res.shape):
            k = int(res[i])
            out[i] = flat[k] if 0 <= k < len(flat) else tm.mk("nan")
        return out

    # -- specific primitives -----------------------------------------------
    def p_convert_element_type(self, eqn, ins, p):
        new = np.dtype(p["new_dtype"]) if p["new_dtype"] != jax.dtypes.float0 else None
        (a,) = ins
        old = eqn.invars[0].aval.dtype if not isinstance(eqn.invars[0], jcore.Literal) else np.asarray(eqn.invars[0].val).dtype
        if new is None:
            return a
        if new.kind == "c":
            return a if np.dtype(old).kind == "c" else _elementwise(lambda t: _cplx(_b2n(t), tm.ZERO))(a)
        if np.dtype(old).kind == "c":
            a = CELEM["real"](a)
            return self.p_convert_element_type_real(a, new)
        if new.kind == "b":
            return _elementwise(_truth)(a)
        if np.dtype(old).kind == "b":
            return _elementwise(_b2n)(a)
        if new.kind in "iu" and np.dtype(old).kind == "f":
            return _elementwise(_trunc)(a)
        if new.kind in "iuf":
            return a
        raise Unsupported(f"conversion to {new}")

    def p_convert_element_type_real(self, a, new):
        if new.kind == "f":
            return a
        raise Unsupported(f"conversion of a complex number to {new}")

    def p_reduce_precision(self, eqn, ins, p):
        return ins[0]

    def p_integer_pow(self, eqn, ins, p):
        return _elementwise(lambda a: tm.ipow(a, p["y"]))(ins[0])

    def p_select_n(self, eqn, ins, p):
        w, *cases = ins
        if len(cases) == 2:
            def sel(c, a, b):
                c = _truth(c)
                return tm.ite(c, b, a)
            return _elementwise(sel)(w, *cases)
        if len(cases) == 1:
            return cases[0]
        def seln(c, *cs):
            r = cs[-1]
            for k in range(len(cs) - 2, -1, -1):
                r = tm.ite(tm.eq(c, tm.num(k)), cs[k], r)
            return r
        return _elementwise(seln)(w, *cases)

    def p_clamp(self, eqn, ins, p):
        return _elementwise(lambda lo, x, hi: tm.min_(tm.max_(x, lo), hi))(*ins)

    def p_iota(self, eqn, ins, p):
        return to_obj(np.asarray(lax.iota_p.bind(*[], **p)) if False else _iota(p))

    def _reduce(self, a, axes, f, init):
        axes = tuple(axes)
        keep = [i for i in range(a.ndim) if i not in axes]
        out = np.empty(tuple(a.shape[i] for i in keep), dtype=object)
        at = a.transpose(keep + list(axes)) if a.ndim else a
        for i in np.ndindex(out.shape):
            sub = at[i]
            r = init
            for x in sub.ravel().tolist() if isinstance(sub, np.ndarray) else [sub]:
                r = x if r is None else f(r, x)
            out[i] = r
        return out

    def p_reduce_sum(self, eqn, ins, p):
        return self._reduce(ins[0], p["axes"], tm.add, tm.ZERO)

    def p_reduce_prod(self, eqn, ins, p):
        return self._reduce(ins[0], p["axes"], tm.mul, tm.ONE)

    def p_reduce_max(self, eqn, ins, p):
        return self._reduce(ins[0], p["axes"], _max, None)

    def p_reduce_min(self, eqn, ins, p):
        return self._reduce(ins[0], p["axes"], _min, None)

    def p_reduce_and(self, eqn, ins, p):
        return self._reduce(ins[0], p["axes"], tm.and_, tm.TRUE)

    def p_reduce_or(self, eqn, ins, p):
        return self._reduce(ins[0], p["axes"], tm.or_, tm.FALSE)

    def p_cumsum(self, eqn, ins, p):
        a = ins[0]
        ax = p["axis"]
        out = a.copy()
        rng = range(a.shape[ax])
        if p.get("reverse"):
            rng = list(reversed(rng))
        acc = None
        for k in rng:
            sl = tuple(slice(None) if i != ax else k for i in range(a.ndim))
            acc = a[sl] if acc is None else ELEM["add"](acc, a[sl])
            out[sl] = acc
        return out

    def p_unvmap_any(self, eqn, ins, p):
        a = ins[0]
        return self._reduce(a, range(a.ndim), tm.or_, tm.FALSE)

    def p_unvmap_all(self, eqn, ins, p):
        a = ins[0]
        return self._reduce(a, range(a.ndim), tm.and_, tm.TRUE)

    def p_unvmap_max(self, eqn, ins, p):
        a = ins[0]
        return self._reduce(a, range(a.ndim), _max, None)

    def p_dot_general(self, eqn, ins, p):
        a, b = ins
        (ca, cb), (ba, bb) = p["dimension_numbers"]
        fa = [i for i in range(a.ndim) if i not in ca and i not in ba]
        fb = [i for i in range(b.ndim) if i not in cb and i not in bb]
        at = a.transpose(list(ba) + fa + list(ca))
        bt = b.transpose(list(bb) + fb + list(cb))
        nb = len(ba)
        bshape = at.shape[:nb]
        fashape = at.shape[nb:nb + len(fa)]
        fbshape = bt.shape[nb:nb + len(fb)]
        out = np.empty(bshape + fashape + fbshape, dtype=object)
        for i in np.ndindex(bshape):
            for j in np.ndindex(fashape):
                for k in np.ndindex(fbshape):
                    x = at[i + j]
                    y = bt[i + k]
                    x = x.ravel().tolist() if isinstance(x, np.ndarray) else [x]
                    y = y.ravel().tolist() if isinstance(y, np.ndarray) else [y]
                    r = tm.ZERO
                    for u, v in zip(x, y, strict=True):
                        r = tm.add(r, tm.mul(u, v))
                    out[i + j + k] = r
        return out

    def p_cond(self, eqn, ins, p):
        idx, *ops = ins
        branches = p["branches"]
        t = idx[()]
        c = concrete(idx)
        if c is not None:
            k = int(np.clip(int(c), 0, len(branches) - 1))
            return self.run(branches[k], ops)
        if len(branches) != 2:
            raise Unsupported("n-way symbolic switch")
        b = _truth(t)
        if t.op == "ite" and t.args[1] is tm.ONE and t.args[2] is tm.ZERO:
            b = t.args[0]
        save = self.path
        outs = []
        raised = []
        for k, cond in ((0, tm.not_(b)), (1, b)):
            self.path = tm.and_(save, cond)
            n0 = len(self.guards)
            outs.append(self.run(branches[k], ops))
            raised.append(any(g is self.path for g in self.guards[n0:]))
            self.path = save
        if raised[0] and not raised[1]:
            return outs[1]
        if raised[1] and not raised[0]:
            return outs[0]
        return [_elementwise(lambda x, y: tm.ite(b, y, x))(o0, o1) for o0, o1 in zip(*outs, strict=True)]

    def p_pure_callback(self, eqn, ins, p):
        cb = p.get("callback")
        fn = getattr(cb, "callback_func", None)
        nm = getattr(fn, "__qualname__", str(fn))
        if "_error" in nm:
            if "raises" in nm or True:
                if not any(g is self.path for g in self.guards):
                    self.guards.append(self.path)
            outs = []
            for v in eqn.outvars:
                o = np.empty(v.aval.shape, dtype=object)
                for i in np.ndindex(o.shape):
                    o[i] = tm.mk("nan")
                outs.append(o)
            return outs
        raise Unsupported(f"pure_callback to {nm}")

    def p_dv_opaque(self, eqn, ins, p):
        """Opaque (uninterpreted) function declared by a contract."""
        flat = [x for a in ins for x in a.ravel().tolist()]
        outs = []
        n = 0
        for v in eqn.outvars:
            o = np.empty(v.aval.shape, dtype=object)
            for i in np.ndindex(o.shape):
                o[i] = tm.uf(p["fname"], n, flat)
                n += 1
            outs.append(o)
        return outs

    def p_dv_call(self, eqn, ins, p):
        """A call replaced by its contract (see trace.contract_call)."""
        from . import trace
        return trace.apply_contract(self, eqn, ins, p)

    def p_split(self, eqn, ins, p):
        sizes, axis = p["sizes"], p["axis"]
        cuts = np.cumsum(sizes)[:-1]
        return list(np.split(ins[0], cuts, axis=axis))

    def p_while(self, eqn, ins, p):
        raise Unsupported("while loop")

    def p_argmax(self, eqn, ins, p):
        raise Unsupported("argmax")

    def p_scatter_add(self, eqn, ins, p):
        raise Unsupported("scatter-add")

    def p_round(self, eqn, ins, p):
        raise Unsupported("round")

    def p_nextafter(self, eqn, ins, p):
        # real-number meaning: the next float is the same real
        return ins[0]

    def p_zeros_like(self, eqn, ins, p):
        return _elementwise(lambda a: tm.ZERO)(ins[0])


def _iota(p):
    shape = tuple(p["shape"])
    d = p["dimension"]
    a = np.arange(shape[d])
    sh = [1] * len(shape)
    sh[d] = shape[d]
    return np.broadcast_to(a.reshape(sh), shape)


_ = Fraction
