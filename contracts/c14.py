"""C14: simplifying an operator does not change what it does.

Every Python-level branch of the simplifier (is this member trivial?) is a path
of the proof; on each the simplified operator must act as the original one with
some set of members left out, all of them trivial to within the closeness
tolerance.
"""
from __future__ import annotations

import itertools

from dv.numeric import Evaluator

from .lib import *  # noqa: F403
from .ops import *  # noqa: F403
from .ops import C0, Boost, Euler, Galilean, Ident, In, Pipe, Rot, Shift, Shift4, VBoost, call, cxo

SLACK = tm.num(1.000001)


def le(x, tol):
    return [tle(tabs(e), tol * SLACK) for e in np.ravel(np.asarray(x, dtype=object))]


def flat(op):
    if isinstance(op, list):
        return [q for p in op for q in flat(p)]
    return [q for p in op.parts for q in flat(p)] if isinstance(op, Galilean) else [op]


def trivial(op, v):
    """The operator does nothing, to within the closeness tolerance (absolute 1e-8 in the parameter's unit, relative 1e-5)."""
    if isinstance(op, Ident):
        return tm.TRUE
    if isinstance(op, Rot):
        M = op.mat(v)
        return tm.and_(*[g for i in range(3) for j in range(3) for g in le(M[i, j] - (1 if i == j else 0), tm.num(1e-8) + tm.num(1e-5 if i == j else 0))])
    if isinstance(op, Boost):
        un = max((fac(x, "m / s") for x in dunits("CartesianPos3D", op.prof, 1, "CartesianVel3D").values()), key=tmval)
        return tm.and_(*[g for x in op.vel(v) for g in le(x, tm.num(1e-8) * un)])
    un = max((fac(x, "m") for c, x in cunits(op.pos, op.prof).items() if dict(COMPS[op.pos])[c] in "LR"), key=tmval, default=None)
    if un is None:
        un = fac(UNITS[op.prof]["L"], "m")
    xs = to_cart(op.pos, physin(v, op.pos, op.prof, tag=op.tag + ("T_" if isinstance(op, Shift4) else "s_")))
    if isinstance(op, Shift4):
        time = le(v[op.tag + "tau"], tm.num(1e-8))
    else:
        time = []
    return tm.and_(*time, *[g for x in xs for g in le(x, tm.num(1e-8) * un)])


def tmval(x):
    return float(Evaluator([x], {})(x))


def kinds(o):
    """Names of the real operator's members, flattened."""
    if isinstance(o, cxo.Pipe):
        return [k for p in o.operators for k in kinds(p)]
    if isinstance(o, cxo.GalileanOperator):
        return [k for p in o.operators for k in kinds(p)]
    return [type(o).__name__]


def some_zero(vs, ops, base):
    """Inputs among which some members do nothing."""
    def go(rng):
        a = base(rng) if base else {x.name: x.sample(rng) for x in vs}
        for p in ops:
            if rng.random() < 0.35:
                for x in p.vars():
                    a[x.name] = np.eye(3) if x.name.endswith("M") else np.zeros(np.shape(a[x.name]))
        return a

    return go


def simplifies(op, x, how="simplify()", note=""):
    """op: an Op, or a list of Ops given to simplify_op one after another."""
    ops = flat(op)
    vs = [y for p in ops for y in p.vars()] + x.vars()
    modular = not (x.cartesian and all(getattr(p, "pos", "Cart").startswith("Cart") for p in ops))

    def build(a):
        return [p.mk(a) for p in op] if isinstance(op, list) else op.mk(a)

    def run(a, meta):
        o = build(a)
        if how == "simplify()":
            r = o.simplify()
        elif how == "simplify_op(op)":
            r = cxo.simplify_op(o)
        elif how == "simplify_op(op, op)":
            r = cxo.simplify_op(*o)
        elif how == "(op | op).simplify()":
            r = o[0] | o[1]
            for y in o[2:]:
                r = r | y
            r = r.simplify()
        else:
            raise KeyError(how)
        meta["kept"] = kinds(r)
        outs = {}
        x.put(outs, meta, "r", call(r, x.args(a)))
        return outs

    def pre(v):
        out = x.pre(v)
        s = x.state(v)
        for p in ops:
            out += p.pre(v)
            s = p.act(v, s)
            out += x.good(s, v)
        return out

    def alternatives(v, m):
        """Sets of members that may have been left out, the likeliest first."""
        kept = list(m["kept"])
        hint = []
        for i, p in enumerate(ops):
            if p.target in kept:
                if sum(q.target == p.target for q in ops[i:]) <= kept.count(p.target) or True:
                    continue
            elif not isinstance(p, Ident):
                hint.append(i)
        idx = [i for i, p in enumerate(ops) if not isinstance(p, Ident)]
        alls = [list(d) for n in range(len(idx) + 1) for d in itertools.combinations(idx, n)]
        return [hint, *[d for d in alls if d != hint]]

    def post(v, o, m):
        r = x.read(o, m, "r")
        alts = []
        for d in alternatives(v, m):
            s = x.state(v)
            for i, p in enumerate(ops):
                if i not in d:
                    s = p.act(v, s)
            g = [g for _, g in x.same_state(r, s, v, o, m, "r")]
            alts.append(tm.and_(*[trivial(ops[i], v) for i in d], *g))
        return [("acts-the-same", tm.or_(*alts))]

    return Contract(f"{how}: {' ; '.join(p.name for p in op) if isinstance(op, list) else op.name}{note} on {x.name}", ["simplify_op", *{p.target for p in ops}], vs, run, post, pre,
                    static=lambda m, w: x.static(m, "r"), samples=some_zero(vs, ops, x.sampler([y for p in ops for y in p.vars()])))


def curvilinear(pos, prof, x):
    """A translation whose offset is given in another representation."""
    op = Shift(pos, prof)
    vs = op.vars() + x.vars()

    def run(a, meta):
        r = op.mk(a).simplify()
        outs = {}
        x.put(outs, meta, "r", call(r, x.args(a)))
        return outs

    def ref(a, meta):
        outs = {}
        x.put(outs, meta, "w", call(op.mk(a), x.args(a)))
        return outs

    def post(v, o, m):
        r, w, g = x.comps(o, m, "r"), x.comps(o, m, "w"), x.given(v)
        same = tm.and_(*[alleq(r[c], w[c]) for c in r])
        return [("acts-the-same", tm.or_(same, tm.and_(trivial(op, v), *[alleq(r[c], g[c]) for c in r])))]

    def pre(v):
        return op.pre(v) + x.pre(v) + x.good(op.act(v, x.state(v)), v)

    return Contract(f"simplify(): {op.name} on {x.name}", ["simplify_op", "GalileanSpatialTranslation"], vs, run, post, pre, ref=ref, static=lambda m, w: x.static(m, "r"),
                    samples=some_zero(vs, [Shift(pos, prof)] if pos.startswith("Cart") else [], x.sampler(op.vars())))


def sums(pos1, pos2, x):
    """Two translations given in other representations combine into their sum."""
    o1, o2 = Shift(pos1, "m-rad", tag="a"), Shift(pos2, "kpc-deg" if pos1.startswith("Cart") else "m-rad", tag="b")
    vs = [*o1.vars(), *o2.vars(), *x.vars()]

    def run(a, meta):
        outs = {}
        x.put(outs, meta, "r", call(cxo.simplify_op(o1.mk(a), o2.mk(a)), x.args(a)))
        return outs

    def ref(a, meta):
        outs = {}
        q = o1.mk(a).translation + o2.mk(a).translation
        x.put(outs, meta, "w", call(cxo.GalileanSpatialTranslation(q), x.args(a)))
        return outs

    def mod(v, o, m):
        r, w = x.comps(o, m, "r"), x.comps(o, m, "w")
        return [(f"sum[{c}]", alleq(r[c], w[c])) for c in r]

    def near(v, o, m):
        s0 = x.state(v)
        s1 = o1.act(v, s0)
        s2 = o2.act(v, s1)
        return x.near_state(x.read(o, m, "r"), s2, [s0, s1], v, o, m, "r")

    def pre(v):
        out = o1.pre(v) + o2.pre(v) + x.pre(v)
        s = x.state(v)
        z = {**s, "q": [c * 0 for c in s["q"]]}
        both = o2.act(v, o1.act(v, z))
        k = In("v", pos1)
        return out + k.good(both, v) + x.good(o2.act(v, o1.act(v, s)), v) if pos1 != "ProlateSpheroidalPos" else out

    return Contract(f"simplify_op: {o1.name} ; {o2.name} on {x.name}", ["simplify_op", "GalileanSpatialTranslation"], vs, run, mod, pre, ref=ref, xpost=near, static=lambda m, w: x.static(m, "r"),
                    assumes=["sum of two positions in any representation is their vector sum (C06)", "C15 on non-Cartesian parameters"])


def contracts(tier):
    out = []
    deep = tier == "thorough"
    P, A, PA = "simplify()", "simplify_op(op)", "(op | op).simplify()"
    for prof in ("m-rad", "kpc-deg", "mixed"):
        for op in (Shift(prof=prof), Shift4(prof, tunit="s"), Shift4(prof, tunit="Gyr"), Boost(prof), VBoost(prof), *([Rot(), Ident()] if prof == "mixed" else [])):
            k = "vp" if isinstance(op, VBoost) else "f" if "f" in op.takes and not isinstance(op, (Shift, Rot)) else "v"
            out.append(simplifies(op, In(k)))
            out.append(simplifies(op, In(k, prof=prof), A))
    for d, C in ((1, "CartesianPos1D"), (2, "CartesianPos2D")):
        for prof in ("m-rad", "mixed"):
            out += [simplifies(Shift(C, prof), In("v", C)), simplifies([Shift(C, prof, tag="a"), Shift(C, "kpc-deg", tag="b")], In("q", C), PA)]
    for op in (Shift(), Shift4(), Boost(), Rot()):
        for k in ("q", "v", "qt", "vt", "f", "q4"):
            if k in op.takes:
                out.append(simplifies(op, In(k)))
    # Galilean operators: every subset of members may be trivial
    g = Galilean(Rot("g_"), Shift4("m-rad", tag="g_", tunit="s"), Boost("m-rad", tag="g_"))
    out += [simplifies(Galilean(), In("f")), simplifies(g, In("vt")), simplifies(g, In("q4"), A), simplifies(g, In("qt"))]
    # ordered pairs

    def members(tag):
        return [Rot(tag), Shift(tag=tag), Shift4("m-rad", tunit="s", tag=tag), Boost("m-rad", tag=tag), VBoost(tag=tag), Ident()]

    def some(ops, how, only=None):
        for k in (only or ("f", "vp", "q")):
            if all(k in p.takes for p in ops):
                return [simplifies(list(ops), In(k), how)]
        return []

    for p in members("a"):
        for q in members("b"):
            how = "simplify_op(op, op)"
            out += some((p, q), how, ("vp", "f"))
            out += some((p, q), PA, ("f",))
            if type(p) is type(q) or deep:
                out += some((p, q), PA, ("q",)) + some((p, q), how, ("v",)) + some((p, q), PA, ("vp",))
    # the same class with other units
    out += [simplifies([Shift4("m-rad", tunit="s", tag="a"), Shift4("kpc-deg", tunit="Gyr", tag="b")], In("f"), PA),
            simplifies([Boost("kpc-deg", tag="a"), Boost("mixed", tag="b")], In("vt"), PA), simplifies([VBoost("kpc-deg", tag="a"), VBoost("mixed", tag="b")], In("vp"), PA)]
    # triples and nestings
    ms, ns, ks = members("a"), members("b"), members("c")
    trip = [(0, 0, 0), (0, 1, 0), (0, 0, 1), (1, 0, 0), (1, 1, 1), (1, 5, 1), (2, 3, 2), (3, 2, 2), (5, 0, 0), (2, 2, 3), (3, 3, 0), (0, 5, 0), (1, 4, 1), (4, 4, 1), (1, 4, 4)]
    if deep:
        trip = list(itertools.product(range(6), repeat=3))
    for i, j, k in trip:
        t = (ms[i], ns[j], ks[k])
        out += some(t, PA, ("vp", "f") if 4 in (i, j, k) else ("f",))
    R, S, T = ms[0], ns[1], ks[2]
    for op in (Pipe(Pipe(R, S), T), Pipe(R, Pipe(S, T)), Pipe(Pipe(R), Pipe(S, ks[1])), Pipe(Pipe(R, Ident()), Ident()), Pipe(Galilean(Rot("g_"), Shift4("m-rad", tag="g_", tunit="s"), Boost("m-rad", tag="g_")), S),
               Pipe(S, Galilean(Rot("g_"), Shift4("m-rad", tag="g_", tunit="s"), Boost("m-rad", tag="g_"))), Pipe(Ident()), Pipe(Ident(), Ident()), Pipe(), Pipe(R)):
        op.takes = op.takes or ("f",)
        out.append(simplifies(op, In("f")))
        if not isinstance(op.parts and op.parts[0], Galilean):
            out.append(simplifies(op, In("f"), A))
    for pos in POS3[1:]:
        out.append(curvilinear(pos, "m-rad", In("v")))
        out.append(curvilinear(pos, "kpc-deg", In("q")))
    out += [curvilinear("PolarPos", "m-rad", In("v", "CartesianPos2D")), curvilinear("RadialPos", "m-rad", In("v", "RadialPos"))]
    for p, q in (("SphericalPos", "SphericalPos"), ("CylindricalPos", "CartesianPos3D"), ("CartesianPos3D", "LonLatSphericalPos"), ("CylindricalPos", "SphericalPos")):
        out.append(sums(p, q, In("v")))
    return list({c.name: c for c in out}.values())
