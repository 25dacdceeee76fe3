"""C13: composition applies operators in order.

The members are *uninterpreted* operators (any functions of the input), so the
proof holds for every operator; some contracts use the real ones as well.
"""
from __future__ import annotations

from typing import Any

import equinox as eqx
from coordinax._src.operators.base import AbstractOperator

from dv.trace import opaque

from .lib import *  # noqa: F403
from .ops import *  # noqa: F403
from .ops import Boost, Euler, Galilean, In, Rot, Shift, Shift4, VBoost, cxo


class Opq(AbstractOperator):
    """An arbitrary operator, known by name only; its inverse is the one named with a prime."""

    name: str = eqx.field(static=True)

    @property
    def is_inertial(self):
        return True

    @property
    def inverse(self):
        return Opq(self.name[:-1]) if self.name.endswith("'") else Opq(self.name + "'")


def xyz(x):
    c = x.represent_as(V.CartesianPos3D)
    return [c.x.ustrip("m"), c.y.ustrip("m"), c.z.ustrip("m")]


def vel3(p):
    return [getattr(p, c).ustrip("m / s") if c == "d_x" or "Cart" in type(p).__name__ else getattr(p, c).value for c in p.components]


def mkv(o):
    return V.CartesianPos3D(x=Q(o[0], "m"), y=Q(o[1], "m"), z=Q(o[2], "m"))


@AbstractOperator.__call__.dispatch
def call(self: Opq, x: V.AbstractPos3D, /, **kw: Any) -> V.AbstractPos3D:
    return mkv(opaque(f"{self.name}:v", [x.shape] * 3, *xyz(x)))


@AbstractOperator.__call__.dispatch
def call(self: Opq, x: V.AbstractPos3D, t: u.Quantity["time"], /, **kw: Any) -> tuple[V.AbstractPos3D, u.Quantity["time"]]:  # noqa: F811
    o = opaque(f"{self.name}:vt", [x.shape] * 3 + [t.shape], *xyz(x), t.ustrip("s"))
    return mkv(o), Q(o[3], "s")


@AbstractOperator.__call__.dispatch
def call(self: Opq, x: V.AbstractPos3D, p: V.AbstractVel3D, /, **kw: Any) -> tuple[V.AbstractPos3D, V.AbstractVel3D]:  # noqa: F811
    o = opaque(f"{self.name}:vp", [x.shape] * 6, *xyz(x), *vel3(p))
    return mkv(o), V.CartesianVel3D(d_x=Q(o[3], "m / s"), d_y=Q(o[4], "m / s"), d_z=Q(o[5], "m / s"))


A, B, C, D = (Opq(n) for n in "abcd")
P = cxo.Pipe
I = cxo.Identity()  # noqa: E741


class Res(In):
    """Observation of results that are Cartesian whatever the input was."""

    def __init__(self, base):
        self.__dict__.update(base.__dict__)
        self.real = base

    def put(self, outs, meta, k, r):
        if self.isq or self.kind == "p":
            return In.put(self, outs, meta, k, r)
        return In.put(self, outs, meta, k, r)


def flat(o, m, k):
    """Every observed number of result k (SI where it carries units)."""
    out = {}
    for n, a in o.items():
        if n.startswith(k + "."):
            out[n[len(k) + 1:]] = a
    return out


def units_of(m, k):
    return {n[len(k) + 1:]: x for n, x in m.items() if n.startswith(k + ".")}


def tup(x):
    return x if isinstance(x, tuple) else (x,)


def sequence(ops, args):
    for op in ops:
        args = tup(op(*args))
    return args if len(args) > 1 else args[0]


def same(name, target, x, form, members, vars_=(), jit=False, pre=None, note=""):
    """form(args) is the members applied one after another."""
    vs = x.vars() + list(vars_)

    def run(a, meta):
        outs = {}
        args = x.args(a)
        f = form(a)
        x.put(outs, meta, "r", jax.jit(lambda o, *y: o(*y))(f, *args) if jit else f(*args))
        return outs

    def ref(a, meta):
        outs = {}
        x.put(outs, meta, "w", sequence(members(a), x.args(a)))
        return outs

    def post(v, o, m):
        r, w = flat(o, m, "r"), flat(o, m, "w")
        gs = []
        if set(r) != set(w) or m["r"] != m["w"] or units_of(m, "r") != units_of(m, "w"):
            return [("same-form", tm.FALSE)]
        for n in r:
            gs.append((f"same[{n}]", alleq(r[n], w[n])))
        return gs

    s = x.sampler(list(vars_))
    return Contract(f"{name} on {x.name}{' jit' if jit else ''}{note}", [target], vs, run, post, lambda v: x.pre(v) + (pre(v) if pre else []), ref=ref, samples=s and (lambda rng: s(rng)))


# name -> (composition, members in order of application)
FORMS = {
    "Pipe(a, b)": (lambda: P((A, B)), "ab"),
    "Pipe(a, b, c)": (lambda: P((A, B, C)), "abc"),
    "Pipe([a, b, c])": (lambda: P([A, B, C]), "abc"),
    "Pipe(a, a, b, a)": (lambda: P((A, A, B, A)), "aaba"),
    "Pipe(a)": (lambda: P((A,)), "a"),
    "Pipe(operator)": (lambda: P(A), "a"),
    "Pipe(pipe)": (lambda: P(P((A, B))), "ab"),
    "Pipe()": (lambda: P(()), ""),
    "a | b": (lambda: A | B, "ab"),
    "(a | b) | c": (lambda: (A | B) | C, "abc"),
    "a | (b | c)": (lambda: A | (B | C), "abc"),
    "(a | b) | (c | d)": (lambda: (A | B) | (C | D), "abcd"),
    "a | (b | (c | d))": (lambda: A | (B | (C | D)), "abcd"),
    "a | ((b | c) | d)": (lambda: A | ((B | C) | D), "abcd"),
    "(a | (b | c)) | d": (lambda: (A | (B | C)) | D, "abcd"),
    "a | Pipe()": (lambda: A | P(()), "a"),
    "Pipe() | a": (lambda: P(()) | A, "a"),
    "Pipe() | Pipe()": (lambda: P(()) | P(()), ""),
    "Pipe(a, b) | c": (lambda: P((A, B)) | C, "abc"),
    "a | Pipe(b, c)": (lambda: A | P((B, C)), "abc"),
    "Pipe(a, Pipe(b, c), d)": (lambda: P((A, P((B, C)), D)), "abcd"),
    "Pipe(Pipe(a, b), Pipe(c, Pipe(d)))": (lambda: P((P((A, B)), P((C, P((D,)))))), "abcd"),
    "Pipe(Pipe(a), b)": (lambda: P((P((A,)), B)), "ab"),
    "Identity": (lambda: I, ""),
    "Pipe(Identity)": (lambda: P((I,)), ""),
    "a | Identity": (lambda: A | I, "a"),
    "Identity | a": (lambda: I | A, "a"),
    "Pipe(Identity, a, Identity, b)": (lambda: P((I, A, I, B)), "ab"),
    "Identity | Identity": (lambda: I | I, ""),
    "(a | b).inverse": (lambda: (A | B).inverse, "b'a'"),
    "Pipe(a, b, c).inverse": (lambda: P((A, B, C)).inverse, "c'b'a'"),
    "Pipe(a, Pipe(b, c)).inverse": (lambda: P((A, P((B, C)))).inverse, "c'b'a'"),
    "(a | (b | c)).inverse": (lambda: (A | (B | C)).inverse, "c'b'a'"),
    "Pipe(a, b).inverse.inverse": (lambda: P((A, B)).inverse.inverse, "ab"),
    "Pipe(a, b) | Pipe(a, b).inverse": (lambda: P((A, B)) | P((A, B)).inverse, "abb'a'"),
    "Pipe().inverse": (lambda: P(()).inverse, ""),
    "Pipe(Identity, a).inverse": (lambda: P((I, A)).inverse, "a'"),
    "Identity.inverse": (lambda: I.inverse, ""),
    "p[0]": (lambda: P((A, B, C, D))[0], "a"),
    "p[1]": (lambda: P((A, B, C, D))[1], "b"),
    "p[-1]": (lambda: P((A, B, C, D))[-1], "d"),
    "p[1:3]": (lambda: P((A, B, C, D))[1:3], "bc"),
    "p[:2]": (lambda: P((A, B, C, D))[:2], "ab"),
    "p[2:]": (lambda: P((A, B, C, D))[2:], "cd"),
    "p[-3:-1]": (lambda: P((A, B, C, D))[-3:-1], "bc"),
    "p[::2]": (lambda: P((A, B, C, D))[::2], "ac"),
    "p[::-1]": (lambda: P((A, B, C, D))[::-1], "dcba"),
    "p[1:2]": (lambda: P((A, B, C, D))[1:2], "b"),
    "p[3:1]": (lambda: P((A, B, C, D))[3:1], ""),
    "(a | b | c)[1:]": (lambda: (A | B | C)[1:], "bc"),
    "Pipe(*p)": (lambda: P(tuple(P((A, B, C)))), "abc"),
    "Pipe(reversed)": (lambda: P(tuple(reversed(list(P((A, B, C)))))), "cba"),
    "Pipe.from_(operators)": (lambda: P.from_({"operators": (A, B)}), "ab"),
}


def names(s):
    out = []
    for ch in s:
        if ch == "'":
            out[-1] += "'"
        else:
            out.append(ch)
    return [Opq(n) for n in out]


ABCD = (A, B, C, D)
_ENDS = (None, *range(-5, 6))
SLICES = [slice(i, j, k) for i in _ENDS for j in _ENDS for k in (None, -3, -2, -1, 1, 2, 3)]


def structure():
    """Facts about compositions settled by running them."""
    def run(a, meta):
        p = P((A, B, C, D))
        g = cxo.GalileanOperator()
        parts = (g.rotation, g.translation, g.velocity)
        meta["s"] = {
            "index": [p[i] is o or p[i] == o for i, o in enumerate((A, B, C, D))] + [p[-1] == D, p[-4] == A],
            "slice-is-pipe": [type(p[1:3]) is P, type(p[:0]) is P, type(p[2:3]) is P],
            "slice": [tuple(p[1:3]) == (B, C), tuple(p[::-1]) == (D, C, B, A), tuple(p[5:]) == ()],
            "every-slice": [f"{x} {n}" for n in range(5) for x in SLICES if type(P(ABCD[:n])[x]) is not P or tuple(P(ABCD[:n])[x]) != ABCD[:n][x]],
            "galilean-every-slice": [f"{x}" for x in SLICES if type(g[x]) is not P or [id(o) for o in g[x]] != [id(o) for o in parts[x]]],
            "every-index": [f"{i} {n}" for n in range(1, 5) for i in range(-n, n) if P(ABCD[:n])[i] is not ABCD[:n][i]] + [f"galilean {i}" for i in range(-3, 3) if g[i] is not parts[i]],
            "iter": [list(p) == [A, B, C, D], list(iter(A | B)) == [A, B]],
            "or-is-pipe": [type(A | B) is P, type((A | B) | C) is P, type(A | (B | C)) is P, tuple((A | B) | (C | D)) == (A, B, C, D), tuple(A | (B | C)) == (A, B, C)],
            "operators": [(A | B).operators == (A, B), P([A, B]).operators == (A, B), P(A).operators == (A,), P(P((A, B))).operators == (A, B)],
            "inertial": [p.is_inertial is True, (A | B).is_inertial is True],
            "galilean-index": [type(g[0]) is cxo.GalileanRotation, type(g[1]) is cxo.GalileanTranslation, type(g[2]) is cxo.GalileanBoost, type(g[-1]) is cxo.GalileanBoost],
            "galilean-slice": [[type(x) for x in g[0:2]] == [cxo.GalileanRotation, cxo.GalileanTranslation], [type(x) for x in g[1:]] == [cxo.GalileanTranslation, cxo.GalileanBoost]],
            "galilean-iter": [[type(x) for x in g] == [cxo.GalileanRotation, cxo.GalileanTranslation, cxo.GalileanBoost]],
        }
        return {"x": a["x"]}

    def static(m, w):
        return [(k, not v if k.startswith(("every", "galilean-every")) else all(v), str(v)) for k, v in m["s"].items()]

    return Contract("structure of compositions", ["AbstractCompositeOperator.__getitem__", "AbstractCompositeOperator.__iter__", "AbstractOperator.__or__", "Pipe.__or__", "GalileanOperator.__getitem__"],
                    [Var("x")], run, lambda v, o, m: [("x", alleq(o["x"], v["x"]))], static=static)


KINDS = [In("v"), In("v", "SphericalPos", "kpc-deg"), In("vt"), In("vt", "CylindricalPos"), In("f"), In("f", "LonLatSphericalPos"), In("vp"), In("vp", "CylindricalPos"), In("q"), In("q", shape=(2,)),
         In("qt"), In("q4"), In("v", "CylindricalPos", shape=(2,))]


def contracts(tier):
    out = [structure()]
    for n, (f, ms) in FORMS.items():
        kinds = KINDS if tier == "thorough" or n in ("Pipe(a, b, c)", "a | (b | c)", "(a | b) | c", "Pipe(a, Pipe(b, c), d)", "Pipe(a, b, c).inverse", "Pipe()", "Identity", "Pipe(a)", "Pipe(a, a, b, a)",
                                                    "Pipe(Identity, a, Identity, b)") else [KINDS[k] for k in (0, 2, 5, 6, 8)]
        for x in kinds:
            out.append(same(n, "Pipe.__call__" if "|" not in n else "AbstractOperator.__or__", x, lambda a, f=f: f(), lambda a, ms=ms: names(ms)))
        if n in ("Pipe(a, b, c)", "a | (b | c)", "Pipe(a, b, c).inverse", "p[1:3]"):
            for x in (In("v"), In("vt"), In("f"), In("q")):
                out.append(same(n, "Pipe.__call__", x, lambda a, f=f: f(), lambda a, ms=ms: names(ms), jit=True))
    # compositions of the real operators, with each other and with arbitrary ones
    r, s, t, b, g = Rot("r_"), Shift(tag="s_"), Shift4(tag="t_"), Boost(tag="b_"), Galilean()
    vb = VBoost(tag="w_")
    real = {
        "R | S": ((r, s), lambda r, s: r | s, "rs"), "S | R": ((r, s), lambda r, s: s | r, "sr"), "R | S | R": ((r, s), lambda r, s: r | s | r, "rsr"),
        "Pipe(R, S, Identity)": ((r, s), lambda r, s: P((r, s, I)), "rs"),
        "R | a | S": ((r, s), lambda r, s: r | A | s, "ras"), "a | (R | S)": ((r, s), lambda r, s: A | (r | s), "ars"), "S | VB": ((s, vb), lambda s, v: s | v, "sv"),
    }
    for n, (parts, f, ms) in real.items():
        xs = [In("v"), In("f"), In("vt"), In("q"), In("v", "SphericalPos")] if "VB" not in n else [In("v"), In("vp"), In("f")]
        for x in xs:
            if "a" in n.replace("Translation", "") and x.pos != "CartesianPos3D":
                continue
            vs = [y for p in parts for y in p.vars()]

            def form(a, parts=parts, f=f):
                return f(*[p.mk(a) for p in parts])

            def members(a, parts=parts, ms=ms):
                table = dict(zip("rs" if parts[0] is r else "sv", [p.mk(a) for p in parts], strict=True)) | {"a": A}
                return [table[c] for c in ms]

            out.append(same(n, "AbstractOperator.__or__", x, form, members, vs))
    galkinds = [In("f"), In("vt"), In("qt"), In("q4"), In("f", "CylindricalPos")]
    for x in galkinds:
        def mem(a):
            return [p.mk(a) for p in g.parts]

        vs = g.vars()
        for n, f, ms in (("GalileanOperator", lambda a: g.mk(a), lambda a: mem(a)),
                         ("GalileanOperator.inverse", lambda a: g.mk(a).inverse, lambda a: [o.inverse for o in reversed(mem(a))]),
                         ("GalileanOperator | a", lambda a: g.mk(a) | A, lambda a: [*mem(a), A]),
                         ("a | GalileanOperator", lambda a: A | g.mk(a), lambda a: [A, *mem(a)]),
                         ("GalileanOperator[0:2]", lambda a: g.mk(a)[0:2], lambda a: mem(a)[:2]),
                         ("GalileanOperator[1:]", lambda a: g.mk(a)[1:], lambda a: mem(a)[1:]),
                         ("GalileanOperator[1]", lambda a: g.mk(a)[1], lambda a: mem(a)[1:2]),
                         ("GalileanOperator[-1]", lambda a: g.mk(a)[-1], lambda a: mem(a)[-1:]),
                         ("Pipe(*GalileanOperator)", lambda a: P(tuple(g.mk(a))), lambda a: mem(a))):
            out.append(same(n, "GalileanOperator.__call__", x, f, ms, vs))
    return out


_ = Euler
