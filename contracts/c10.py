"""C10: array-shape operations act on a vector as on the array of its points."""
from __future__ import annotations

import math

import quaxed.numpy as qnp

from .lib import *  # noqa: F403

# name -> (on the vector, on an array of the batch shape)
MASK = np.array([True, False])
IDX = np.array([1, 0, 1])
OPS = {
    "[0]": (lambda x: x[0], lambda a: a[0]),
    "[-1]": (lambda x: x[-1], lambda a: a[-1]),
    "[1:]": (lambda x: x[1:], lambda a: a[1:]),
    "[::-1]": (lambda x: x[::-1], lambda a: a[::-1]),
    "[...]": (lambda x: x[...], lambda a: a[...]),
    "[None]": (lambda x: x[None], lambda a: a[None]),
    "[None, 1]": (lambda x: x[None, 1], lambda a: a[None, 1]),
    "[..., None]": (lambda x: x[..., None], lambda a: a[..., None]),
    "[..., 0]": (lambda x: x[..., 0], lambda a: a[..., 0]),
    "[mask]": (lambda x: x[MASK], lambda a: a[MASK]),
    "[array]": (lambda x: x[IDX], lambda a: a[IDX]),
    "[2-d array]": (lambda x: x[IDX.reshape(3, 1)], lambda a: a[IDX.reshape(3, 1)]),
    "reshape(-1)": (lambda x: x.reshape(-1), lambda a: a.reshape(-1)),
    "flatten": (lambda x: x.flatten(), lambda a: a.ravel()),
    "ravel": (lambda x: x.ravel(), lambda a: a.ravel()),
    "T": (lambda x: x.T, lambda a: a.T),
    "+": (lambda x: +x, lambda a: a),
    "jit([1])": (lambda x: jax.jit(lambda y: y[1])(x), lambda a: a[1]),
    "jit(T)": (lambda x: jax.jit(lambda y: y.T)(x), lambda a: a.T),
}
OPS0 = {"[()]": (lambda x: x[()], lambda a: a[()]), "[None]": OPS["[None]"], "[...]": OPS["[...]"], "reshape(1)": (lambda x: x.reshape(1), lambda a: a.reshape(1)),
        "reshape(1, 1)": (lambda x: x.reshape(1, 1), lambda a: a.reshape(1, 1)), "flatten": OPS["flatten"], "ravel": OPS["ravel"], "T": OPS["T"], "+": OPS["+"]}
OPS2 = {
    "[0, 1]": (lambda x: x[0, 1], lambda a: a[0, 1]),
    "[:, 1]": (lambda x: x[:, 1], lambda a: a[:, 1]),
    "[1, ::2]": (lambda x: x[1, ::2], lambda a: a[1, ::2]),
    "[..., 1:]": (lambda x: x[..., 1:], lambda a: a[..., 1:]),
    "[array, array]": (lambda x: x[np.array([0, 1]), np.array([2, 0])], lambda a: a[np.array([0, 1]), np.array([2, 0])]),
    "[:, mask]": (lambda x: x[:, np.array([True, False, True])], lambda a: a[:, np.array([True, False, True])]),
    "reshape(3, 2)": (lambda x: x.reshape(3, 2), lambda a: a.reshape(3, 2)),
    "reshape(3, -1)": (lambda x: x.reshape(3, -1), lambda a: a.reshape(3, -1)),
    "reshape(1, 6)": (lambda x: x.reshape(1, 6), lambda a: a.reshape(1, 6)),
    "reshape(2, 1, 3)": (lambda x: x.reshape(2, 1, 3), lambda a: a.reshape(2, 1, 3)),
    "mT": (lambda x: x.mT, lambda a: np.swapaxes(a, -1, -2)),
    "jit(mT)": (lambda x: jax.jit(lambda y: y.mT)(x), lambda a: np.swapaxes(a, -1, -2)),
    "jit(reshape)": (lambda x: jax.jit(lambda y: y.reshape(3, 2))(x), lambda a: a.reshape(3, 2)),
    **{k: OPS[k] for k in ("[0]", "[-1]", "[1:]", "[None]", "[..., 0]", "[mask]", "[array]", "reshape(-1)", "flatten", "ravel", "T", "+")},
}
OPS3 = {
    "mT": OPS2["mT"], "T": OPS["T"], "flatten": OPS["flatten"], "[0]": OPS["[0]"], "[..., 0]": OPS["[..., 0]"],
    "[1, ..., 0]": (lambda x: x[1, ..., 0], lambda a: a[1, ..., 0]),
    "[:, 0, 1:]": (lambda x: x[:, 0, 1:], lambda a: a[:, 0, 1:]),
    "reshape(6, 2)": (lambda x: x.reshape(6, 2), lambda a: a.reshape(6, 2)),
    "reshape(4, 3)": (lambda x: x.reshape(4, 3), lambda a: a.reshape(4, 3)),
}
TUPLE = {"reshape((3, 2))": (lambda x: x.reshape((3, 2)), lambda a: a.reshape(3, 2))}
FORDER = {"reshape(3, 2, order=F)": (lambda x: x.reshape(3, 2, order="F"), lambda a: a.reshape(3, 2, order="F"))}


def ops_for(shape, nd=False):
    n = len(shape)
    d = OPS0 if n == 0 else OPS if n == 1 else OPS2 if n == 2 else OPS3
    if n == 2 and not nd:
        d = d | TUPLE | FORDER
    return d


def build_pos(pos, prof, percomp, angle=False):
    """(vars, build) for a position with per-component shapes."""
    vs = posvars(pos, prof)
    for x, s in zip(vs, percomp, strict=False):
        if x.name != "Delta":
            x.shape = tuple(s)
    return vs, (lambda a: mkpos(pos, a, prof))


def contract(name, what, ops, vs, build, shape, targets, pre=None, samples=None, last=None, leaves=None, own=None):
    """Each operation's result, leaf by leaf, is the numpy operation on the broadcast leaf.

    last: trailing (feature) axes per leaf name, kept as they are.
    own: the component shapes the vector must report.
    """
    table = ops_for(shape, last is not None)
    leaves = leaves or (lambda x: {c: getattr(x, c) for c in x.components} | ({"Delta": x.Delta} if hasattr(x, "Delta") else {}))

    def rec(outs, meta, p, x):
        info = {}
        for c, q in leaves(x).items():
            outs[f"{p}.{c}"] = q.value
            info[c] = (str(q.unit), type(q).__name__)
        with jax.ensure_compile_time_eval():
            meta[p] = dict(cls=type(x).__name__, comps=info, shape=tuple(x.shape), ndim=x.ndim, len=len(x), shapes={k: tuple(s) for k, s in x.shapes.items()},
                           size=int(x.size), sizes={k: int(s) for k, s in x.sizes.items()})

    def run(a, meta):
        outs = {}
        x = build(a)
        rec(outs, meta, "x", x)
        for op in ops:
            rec(outs, meta, op, table[op][0](x))
        return outs

    k = last or {}
    want_shape = {op: np.shape(table[op][1](np.zeros(shape))) for op in ops}

    def post(v, o, m):
        gs = []
        for op in ops:
            g = table[op][1]
            for c in m["x"]["comps"]:
                x, r = o[f"x.{c}"], o[f"{op}.{c}"]
                if c in ("Delta", "c"):
                    gs.append((f"{op}: kept[{c}]", alleq(r, x)))
                    continue
                n = k.get(c, 0)
                tail = np.shape(x)[len(np.shape(x)) - n:]
                full = np.broadcast_to(x, (*shape, *tail))
                if n:
                    cols = [g(full[(..., *i)]) for i in np.ndindex(*tail)]
                    want = np.empty((*np.shape(cols[0]), len(cols)), dtype=object)
                    for j, col in enumerate(cols):
                        want[..., j] = col
                else:
                    want = np.asarray(g(full), dtype=object)
                try:
                    got = np.broadcast_to(r, np.shape(want))
                except ValueError:
                    gs.append((f"{op}: shape[{c}] {np.shape(r)}, expected {np.shape(want)}", tm.FALSE))
                    continue
                gs.append((f"{op}: points[{c}]", alleq(got, want)))
        return gs

    def static(m, w):
        x = m["x"]
        out = []
        for p, s in (("x", shape), *want_shape.items()):
            y = m[p]
            t = "" if p == "x" else f"{p}: "
            out += [(t + "class", x["cls"] == y["cls"], str(y["cls"])), (t + "kinds-and-units", x["comps"] == y["comps"], str(y["comps"])),
                    (t + "reported-shape", y["shape"] == tuple(s), f"{y['shape']}, expected {tuple(s)}"), (t + "reported-ndim", y["ndim"] == len(s), str(y["ndim"])),
                    (t + "reported-len", y["len"] == (s[0] if s else 0), str(y["len"])), (t + "reported-size", y["size"] == math.prod(s), str(y["size"])),
                    (t + "reported-sizes", y["sizes"] == {k: math.prod(z) for k, z in y["shapes"].items()}, str(y["sizes"]))]
        if own is not None:
            out.append(("reported-shapes", x["shapes"] == own, str(x["shapes"])))
        return out

    return Contract(f"{name} {what}: {' '.join(ops)}", targets, vs, run, post, pre, static=static, samples=samples)


NDU = {"CartesianPosND": ("q", "km"), "CartesianVelND": ("d_q", "km / h"), "CartesianAccND": ("d2_q", "m / s2")}


def four(pos, tshape, percomp, prof="m-rad", ownc=False):
    vs, mk = build_pos(pos, prof, percomp)
    vs = [Var("t", tshape), *vs]
    if ownc:
        vs.append(Var("c", lo=0.0))
    kw = (lambda a: {"c": Q(a["c"], "m / s")}) if ownc else (lambda a: {})
    return vs, (lambda a: V.FourVector(t=Q(a["t"], "s"), q=mk(a), **kw(a)))


def four_leaves(x):
    return {"t": x.t} | {c: getattr(x.q, c) for c in x.q.components} | {"c": x.c}


def generic(percomp):
    vs = [Var("x", percomp[0]), Var("y", percomp[1]), Var("z", percomp[2])]
    return vs, (lambda a: V.CartesianGeneric3D(x=Q(a["x"], "km / s"), y=Q(a["y"], "m / s"), z=Q(a["z"], "m / s")))


PP = {"rho": "km", "pp_phi": "km / s(1/2)", "z": "m", "d_rho": "km / s", "d_pp_phi": "km / s(1/2)", "d_z": "m / s"}


def poincare(percomp):
    vs = [Var(c, s, lo=0.01 if c == "rho" else None) for c, s in zip(PP, percomp, strict=True)]
    return vs, (lambda a: V.PoincarePolarVector(**{c: Q(a[c], un) for c, un in PP.items()}))


# component-shape patterns per batch shape
def patterns(n, shape):
    """Per-component shapes whose broadcast is `shape`."""
    out = [("full", [shape] * n)]
    if n > 1 and shape:
        out.append(("first scalar", [()] + [shape] * (n - 1)))
        if len(shape) == 2:
            out.append(("outer", [(shape[0], 1)] + [(shape[1],)] * (n - 1)))
            out.append(("row last", [shape] * (n - 1) + [(shape[1],)]))
        else:
            out.append(("last (1,)", [shape] * (n - 1) + [(1,)]))
    return out


def chunks(ops, n):
    ops = list(ops)
    return [ops[i:i + n] for i in range(0, len(ops), n)]


def contracts(tier):
    out = []
    thorough = tier == "thorough"

    def add(name, what, ops, mk, shape, own, pre=None, pos=None, prof="kpc-deg", **kw):
        for grp in chunks(ops, 8):
            vs, build = mk()
            s = sample_pos(vs, pos) if pos else None
            out.append(contract(name, what, grp, vs, build, shape, [f"{name}.{op}" for op in grp], pre or (pos and (lambda v: in_range(pos, v, prof))), s and (lambda rng: s(rng)),
                                own=own, **kw))

    def pos_case(p, shape, ops=None, pats=None):
        for label, pc in patterns(len(COMPS[p]), shape):
            if pats and label not in pats:
                continue
            own = {c: tuple(q) for (c, _), q in zip(COMPS[p], pc, strict=True)}
            add(p, f"{list(shape)} {label}", ops or ops_for(shape), lambda p=p, pc=pc: build_pos(p, "kpc-deg", pc), shape, own, pos=p)

    def diff_case(name, shape, ops=None, pats=None):
        order, comps = (1 if "Vel" in name else 2), dcomps(name)

        def mk(pc):
            vs = dvars(name, "kpc-deg", order)
            for x, s in zip(vs, pc, strict=True):
                x.shape = tuple(s)
            return vs, (lambda a: mkdiff(name, a, "kpc-deg", order))

        for label, pc in patterns(len(comps), shape):
            if pats and label not in pats:
                continue
            add(name, f"{list(shape)} {label}", ops or ops_for(shape), lambda pc=pc: mk(pc), shape, {c: tuple(s) for c, s in zip(comps, pc, strict=True)})

    few0 = ["[None]", "reshape(1)", "T"]
    few1 = ["[0]", "[1:]", "[mask]", "[..., None]", "reshape(-1)", "flatten", "T"]
    few2 = ["[0, 1]", "[:, 1]", "reshape(3, 2)", "flatten", "ravel", "T", "mT"]
    main = ("CartesianPos3D", "CylindricalPos", "PolarPos", "SphericalPos")
    for p in COMPS:
        full = p in main or thorough
        pos_case(p, (), None if full else few0)
        pos_case(p, (2,), None if full else few1, None if full else ("first scalar",))
        pos_case(p, (2, 3), None if full else few2, None if full else ("outer",))
    for p in ("CartesianPos3D",) + (("CylindricalPos", "SphericalPos", "ProlateSpheroidalPos") if thorough else ()):
        pos_case(p, (2, 3, 2), None, ("full", "first scalar"))
    for name in [*VEL.values(), "LonCosLatSphericalVel", *ACC.values()]:
        full = thorough or name in ("CartesianVel3D", "SphericalVel")
        diff_case(name, (), few0)
        diff_case(name, (2,), None if full else few1, None if full or len(dcomps(name)) < 2 else ("first scalar",))
        diff_case(name, (2, 3), None if full else few2, None if full or len(dcomps(name)) < 2 else ("outer",))
    for name, (f, un) in NDU.items():
        for shape in ((), (2,), (2, 3), (2, 3, 2)):
            ops = [op for op in ops_for(shape, nd=True) if op != "[()]"]
            add(name, f"{list(shape)} x 2", ops, lambda name=name, shape=shape, f=f, un=un: ([Var(f, (*shape, 2))], lambda a: cls(name)(**{f: Q(a[f], un)})), shape, None, last={f: 1})
    for pos, cases in (("CartesianPos3D", [((), (), [()] * 3), ((2,), (2,), [(2,)] * 3), ((2,), (), [(2,)] * 3), ((2,), (1,), [(), (2,), (2,)]),
                                           ((2, 3), (3,), [(2, 1), (3,), (2, 3)]), ((2, 3), (2, 1), [(2, 3)] * 3)]),
                       ("SphericalPos", [((2,), (2,), [(), (2,), (2,)]), ((2, 3), (), [(2, 1), (3,), (3,)])])):
        for shape, ts, pc in cases:
            ops = [op for op in ops_for(shape) if op != "jit(T)" or pos == "CartesianPos3D"]
            add("FourVector", f"{pos} {list(shape)} t{list(ts)} q{pc}", ops, lambda pos=pos, ts=ts, pc=pc: four(pos, ts, pc, ownc=True), shape, None,
                lambda v, pos=pos: [*in_range(pos, v, "m-rad"), tm.lt(tm.ZERO, el(v["c"]))], leaves=four_leaves)
    add("PoincarePolarVector", "[2]", [op for op in OPS if op != "+"], lambda: poincare([(2,)] * 5 + [()]), (2,), None, lambda v: [tm.le(tm.ZERO, t) for t in v["rho"].ravel()])
    add("CartesianGeneric3D", "[2]", OPS, lambda: generic([(2,), (), (2,)]), (2,), None)
    return out
