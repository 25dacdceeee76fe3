"""Extraction: run the real Python code on symbolic arrays and read off its jaxpr.

``extract(run, specs)`` calls ``run(arrays, meta)`` -- which calls public
functions of the package imported from /repo -- once per *path*: a Python-level
``if`` on a traced boolean is a fork, and every combination of outcomes is
explored.  Nothing of the code under test is re-written by hand.
"""
from __future__ import annotations

import contextlib
import threading
import warnings

import jax
import jax.numpy as jnp
import numpy as np
from jax import core as jcore
from jax.interpreters import batching, mlir

from . import terms as tm
from .interp import Interp, Unsupported

_state = threading.local()


class _Forks:
    def __init__(self, decisions):
        self.decisions = decisions
        self.tracers = []
        self.taken = []

    def ask(self, tracer):
        k = len(self.tracers)
        d = self.decisions[k] if k < len(self.decisions) else False
        self.tracers.append(tracer)
        self.taken.append(d)
        if k > 40:
            raise Unsupported("too many Python-level branches")
        return d


_orig_bool = jcore.Tracer.__bool__


def _tracer_bool(self):
    f = getattr(_state, "forks", None)
    if f is not None and np.shape(self) == () and type(self).__name__ == "DynamicJaxprTracer":
        return f.ask(self)
    if f is not None and np.size(self) == 1 and type(self).__name__ == "DynamicJaxprTracer":
        return f.ask(jnp.reshape(self, ()))
    return _orig_bool(self)


jcore.Tracer.__bool__ = _tracer_bool


class PathResult:
    """One Python-level path: cond, ("ok", outs) or ("raise", exc), guards, meta."""

    def __init__(self, cond, status, outs, exc, guards, meta, neqns, prims, warns):
        self.cond, self.status, self.outs, self.exc = cond, status, outs, exc
        self.guards, self.meta, self.neqns, self.prims, self.warns = guards, meta, neqns, prims, warns


def is_library_error(e):
    return isinstance(e, Exception)


def extract(run, specs, max_paths=64):
    """specs: list of (name, object array of terms | T).  Returns [PathResult]."""
    names = [n for n, _ in specs]
    arrs = []
    for _, a in specs:
        if not isinstance(a, np.ndarray):
            o = np.empty((), dtype=object)
            o[()] = a
            a = o
        arrs.append(a)
    results = []
    todo = [()]
    while todo:
        dec = todo.pop()
        box = {}

        def traced(*xs, _dec=dec, _box=box):
            forks = _Forks(_dec)
            prev = getattr(_state, "forks", None)
            _state.forks = forks
            meta = {}
            outs = {}
            try:
                try:
                    outs = run(dict(zip(names, xs, strict=True)), meta)
                    status, exc = "ok", None
                except Unsupported:
                    raise
                except (jax.errors.TracerBoolConversionError, jax.errors.ConcretizationTypeError,
                        jax.errors.TracerArrayConversionError, jax.errors.TracerIntegerConversionError) as e:
                    raise Unsupported(f"concretisation: {str(e)[:200]}") from e
                except Exception as e:  # noqa: BLE001  -- an outcome of the code under test
                    if "Tracer" in type(e).__name__:
                        raise Unsupported(str(e)) from e
                    status, exc = "raise", e
            finally:
                _state.forks = prev
            _box.update(status=status, exc=exc, meta=meta, forks=forks, keys=list(outs))
            return [jnp.asarray(v) for v in outs.values()], [jnp.asarray(t) for t in forks.tracers]

        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter("always")
            closed, shape = jax.make_jaxpr(traced, return_shape=True)(
                *[jax.ShapeDtypeStruct(a.shape, np.float64) for a in arrs])
        it = Interp()
        flat = it.run(closed, arrs)
        no = len(shape[0])
        outs = dict(zip(box["keys"], flat[:no], strict=True))
        forks = [f[()] for f in flat[no:]]
        taken = box["forks"].taken
        cond = tm.TRUE
        for t, d in zip(forks, taken, strict=True):
            t = t if t.isbool else tm.ne(t, tm.ZERO)
            cond = tm.and_(cond, t if d else tm.not_(t))
        # schedule siblings
        for k in range(len(dec), len(taken)):
            todo.append(tuple(taken[:k]) + (True,))
        if cond is not tm.FALSE:
            results.append(PathResult(cond, box["status"], outs, box["exc"], it.guards, box["meta"], it.neqns,
                                      it.prims, [(w.category.__name__, str(w.message)) for w in ws]))
        if len(results) > max_paths:
            raise Unsupported("too many paths")
    return results


# -- opaque functions ---------------------------------------------------------

dv_opaque_p = jcore.Primitive("dv_opaque")
dv_opaque_p.multiple_results = True


def _opaque_impl(*xs, fname, shapes):
    # a fixed, smooth, injective-looking numeric stand-in used by replay
    flat = np.concatenate([np.ravel(np.asarray(x, dtype=float)) for x in xs])
    seed = sum(ord(c) for c in fname)
    outs = []
    n = 0
    for s in shapes:
        size = int(np.prod(s)) if s else 1
        v = []
        for _ in range(size):
            w = np.sin(np.arange(1, flat.size + 1) * (1.3 + 0.1 * n) + seed)
            v.append(float(flat @ w) + 0.31 * n + 0.7 + seed % 7)
            n += 1
        outs.append(jnp.asarray(np.array(v).reshape(s)))
    return outs


dv_opaque_p.def_impl(_opaque_impl)
dv_opaque_p.def_abstract_eval(lambda *xs, fname, shapes: [jcore.ShapedArray(s, np.float64) for s in shapes])


def _no_batch(*a, **k):
    raise Unsupported("opaque function under vmap")


batching.primitive_batchers[dv_opaque_p] = _no_batch


def _opaque_jnp(*xs, fname, shapes):
    # the same stand-in for compiled executions
    flat = jnp.concatenate([jnp.ravel(x) for x in xs])
    seed = sum(ord(c) for c in fname)
    outs, n = [], 0
    for s in shapes:
        v = []
        for _ in range(int(np.prod(s)) if s else 1):
            w = np.sin(np.arange(1, flat.size + 1) * (1.3 + 0.1 * n) + seed)
            v.append(flat @ w + 0.31 * n + 0.7 + seed % 7)
            n += 1
        outs.append(jnp.stack(v).reshape(s))
    return outs


mlir.register_lowering(dv_opaque_p, mlir.lower_fun(_opaque_jnp, multiple_results=True))


def opaque(fname, shapes, *xs):
    return dv_opaque_p.bind(*[jnp.asarray(x, dtype=float) for x in xs], fname=fname, shapes=tuple(map(tuple, shapes)))


@contextlib.contextmanager
def no_forks():
    prev = getattr(_state, "forks", None)
    _state.forks = None
    try:
        yield
    finally:
        _state.forks = prev
