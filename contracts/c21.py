"""C21: the Poincare-polar form determines the planar phase-space point (rho > 0, phi_dot > 0)."""
from __future__ import annotations

from .lib import *  # noqa: F403

PP = V.PoincarePolarVector
FWD, BACK = "represent_as(Space, PoincarePolarVector)", "represent_as(PoincarePolarVector, Space)"
PPC = ("rho", "pp_phi", "z", "d_rho", "d_pp_phi", "d_z")
KIND = {"rho": "length", "z": "length", "d_rho": "speed", "d_z": "speed"}


def sq(unit):
    """SI factor of the square of a quantity (Poincare units have half powers)."""
    e = units.exact(u.unit(unit) ** 2)
    return units.term(e[1], e[2])


def putpp(outs, meta, p, w):
    meta[p] = dict(cls=type(w).__name__, units={})
    for c in PPC:
        q = getattr(w, c)
        outs[f"{p}.{c}"] = q.value
        meta[p]["units"][c] = str(q.unit)


def sip(o, m, p, c):
    return phys1(o[f"{p}.{c}"], m[p]["units"][c], "Quantity")


def same_phase(q, d, qq, dd):
    """Goals: two cylindrical phase-space points (SI) are the same."""
    return [("rho", alleq(qq["rho"], q["rho"])), ("z", alleq(qq["z"], q["z"])), ("cos phi", alleq(cos(qq["phi"]), cos(q["phi"]))), ("sin phi", alleq(sin(qq["phi"]), sin(q["phi"]))),
            *[(f"d_{c}", alleq(dd[c], d[c])) for c in ("rho", "phi", "z")]]


class Phase:
    def __init__(self, pos, vel, prof="m-rad", shape=(), keys=("length", "speed"), acc=False, vprof=None):
        self.pos, self.vel, self.prof, self.shape, self.keys, self.acc, self.vprof = pos, vel, prof, shape, keys, acc, vprof or prof

    @property
    def label(self):
        return f"{self.pos}+{self.vel} | {self.prof}{'/' + self.vprof if self.vprof != self.prof else ''}{list(self.shape) or ''}" + ("" if self.keys == ("length", "speed") else f" {self.keys}") + (" with an acceleration" if self.acc else "")

    def vars(self):
        return posvars(self.pos, self.prof, shape=self.shape) + dvars(self.vel, self.vprof, 1, tag="v_", shape=self.shape)

    def qv(self, a):
        return mkpos(self.pos, a, self.prof), mkdiff(self.vel, a, self.vprof, 1, tag="v_")

    def space(self, a):
        q, v = self.qv(a)
        d = {self.keys[0]: q, self.keys[1]: v}
        if self.acc:
            d["acceleration"] = cx.vecs.CartesianAcc3D.from_(jnp.stack([jnp.zeros(self.shape), jnp.ones(self.shape), jnp.ones(self.shape)], axis=-1), "m/s2")
        return cx.Space(**d)

    def cyl(self, a, outs, meta):
        """The reference: the same point in cylindrical coordinates (C01, C02)."""
        q, v = self.qv(a)
        put(outs, meta, "cq", cx.represent_as(q, V.CylindricalPos) if self.pos != "CylindricalPos" else q)
        put(outs, meta, "cv", cx.represent_as(v, V.CylindricalVel, q) if self.vel != "CylindricalVel" else v)

    def pre(self, v):
        q = physin(v, self.pos, self.prof)
        out = in_range(self.pos, v, self.prof) + interior(self.pos, q)
        return out + regular_cart(to_cart(self.pos, q), ["CylindricalPos", *([INT[self.vel]] if INT[self.vel] != self.pos else [])])

    def sampler(self, vs):
        s = sample_pos(vs, self.pos)
        return s and (lambda rng: s(rng))


def forward(P, via="function"):
    """rho, z and their rates are kept; the pair has norm sqrt(2 rho^2 |phi_dot|) and direction phi."""
    vs = P.vars()

    def run(a, meta):
        w = P.space(a)
        outs = {}
        r = jax.jit(lambda s: cx.represent_as(s, PP))(w) if via == "jit" else w.represent_as(PP) if via == "method" else cx.represent_as(w, PP)
        putpp(outs, meta, "r", r)
        return outs

    def ref(a, meta):
        outs = {}
        P.cyl(a, outs, meta)
        return outs

    def post(v, o, m):
        q, d = phys(o, m, "cq"), strip_d(phys(o, m, "cv"))
        A, B = o["r.pp_phi"], o["r.d_pp_phi"]
        ka, kb = sq(m["r"]["units"]["pp_phi"]), sq(m["r"]["units"]["d_pp_phi"])
        same = m["r"]["units"]["pp_phi"] == m["r"]["units"]["d_pp_phi"]
        z = np.full(np.shape(A), tm.ZERO, dtype=object)
        gs = [("norm: a^2 + b^2 = 2 rho^2 |phi_dot|", alleq(ka * A * A + kb * B * B, 2 * q["rho"] * q["rho"] * tabs(d["phi"]))),
              *[(c, alleq(sip(o, m, "r", c), q[c])) for c in ("rho", "z")], *[(f"d_{c}", alleq(sip(o, m, "r", f"d_{c}"), d[c])) for c in ("rho", "z")]]
        if same:
            c, s = cos(q["phi"]), sin(q["phi"])
            gs += [("direction is along phi", alleq(A * s, B * c)), ("direction points to phi", conj(tle(z, A * c + B * s)))]
        else:
            gs.append(("pair in one unit", tm.FALSE))
        return gs

    def static(m, w):
        un = m["r"]["units"]
        return [("class", m["r"]["cls"] == "PoincarePolarVector", m["r"]["cls"]),
                *[(f"{c} dimension", k in str(u.unit(un[c]).physical_type), un[c]) for c, k in KIND.items()],
                *[(f"{c} dimension", u.unit(un[c]) ** 2 == u.unit(un[c]) ** 2 and (u.unit(un[c]) ** 2).is_equivalent(u.unit("m2 rad / s")), un[c]) for c in ("pp_phi", "d_pp_phi")]]

    return Contract(f"Space to Poincare[{P.label}, {via}]", [FWD], vs, run, post, P.pre, static=static, samples=P.sampler(vs), ref=ref)


def roundtrip(P, via="function", twice=False):
    """Space -> Poincare -> Space returns the phase-space point."""
    vs = P.vars()

    def there(w):
        return cx.represent_as(cx.represent_as(w, PP), cx.Space)

    def run(a, meta):
        w = P.space(a)
        outs = {}
        r = jax.jit(there)(w) if via == "jit" else there(w) if via == "function" else w.represent_as(PP).represent_as(cx.Space)
        meta["keys"] = sorted(r)
        put(outs, meta, "q", r["length"])
        put(outs, meta, "v", r["speed"])
        meta["shape"] = (tuple(r["length"].shape), tuple(r["speed"].shape))
        return outs

    def ref(a, meta):
        outs = {}
        P.cyl(a, outs, meta)
        return outs

    def pre(v):
        out = P.pre(v)
        if P.vel == "CylindricalVel":
            return out + [tm.lt(tm.ZERO, x) for x in v["v_d_phi"].ravel()]
        # x v_y - y v_x > 0
        q = physin(v, P.pos, P.prof)
        d = strip_d(physd({k.removeprefix("v_"): x for k, x in v.items() if k.startswith("v_")}, P.vel, P.vprof, 1))
        X = to_cart(P.pos, q)
        W = push(INT[P.vel], q, d)
        return out + [tm.lt(tm.ZERO, t) for t in np.ravel(np.asarray(X[0] * W[1] - X[1] * W[0], dtype=object))]

    def post(v, o, m):
        return same_phase(phys(o, m, "cq"), strip_d(phys(o, m, "cv")), phys(o, m, "q"), strip_d(phys(o, m, "v")))

    def static(m, w):
        return [("classes", (m["q"]["cls"], m["v"]["cls"]) == ("CylindricalPos", "CylindricalVel"), str((m["q"]["cls"], m["v"]["cls"]))), ("keys", m["keys"] == ["length", "speed"], str(m["keys"])),
                ("shape", m["shape"] == (tuple(P.shape),) * 2, str(m["shape"]))]

    return Contract(f"Space to Poincare and back[{P.label}, {via}]", [FWD, BACK], vs, run, post, pre, static=static, samples=P.sampler(vs), ref=ref)


UN = {"si": ("m", "m rad(1/2) / s(1/2)", "m rad(1/2) / s(1/2)", "m / s"), "gal": ("kpc", "kpc deg(1/2) / Myr(1/2)", "kpc deg(1/2) / Myr(1/2)", "km / s"),
      "mixed": ("km", "km rad(1/2) / s(1/2)", "m rad(1/2) / s(1/2)", "km / s")}


def ppvars(shape=()):
    return [Var("rho", shape, lo=0.01), *[Var(c, shape) for c in PPC[1:]]]


def mkpp(a, un):
    L, A, B, S = UN[un]
    return PP(rho=Q(a["rho"], L), pp_phi=Q(a["pp_phi"], A), z=Q(a["z"], L), d_rho=Q(a["d_rho"], S), d_pp_phi=Q(a["d_pp_phi"], B), d_z=Q(a["d_z"], S))


def backward(un, shape=(), via="function"):
    """phi is the direction of the pair and phi_dot = (a^2 + b^2) / (2 rho^2)."""
    vs = ppvars(shape)
    L, A_, B_, S = UN[un]

    def run(a, meta):
        w = mkpp(a, un)
        outs = {}
        r = jax.jit(lambda s: cx.represent_as(s, cx.Space))(w) if via == "jit" else w.represent_as(cx.Space) if via == "method" else cx.represent_as(w, cx.Space)
        meta["keys"] = sorted(r)
        put(outs, meta, "q", r["length"])
        put(outs, meta, "v", r["speed"])
        return outs

    def pre(v):
        return [tm.lt(tm.ZERO, x) for x in v["rho"].ravel()]

    def post(v, o, m):
        q, d = phys(o, m, "q"), strip_d(phys(o, m, "v"))
        k = fac("m", "m") if A_ == B_ else tm.num(1000)  # both in the second unit
        a, b = k * v["pp_phi"], v["d_pp_phi"]
        rho = fac(L, "m") * v["rho"]
        zero = np.full(np.shape(a), tm.ZERO, dtype=object)
        c, s = cos(q["phi"]), sin(q["phi"])
        return [("rho", alleq(q["rho"], rho)), ("z", alleq(q["z"], fac(L, "m") * v["z"])), ("d_rho", alleq(d["rho"], fac(S, "m / s") * v["d_rho"])),
                ("d_z", alleq(d["z"], fac(S, "m / s") * v["d_z"])), ("phi along the pair", alleq(a * s, b * c)), ("phi points along the pair", conj(tle(zero, a * c + b * s))),
                ("2 rho^2 phi_dot = a^2 + b^2", alleq(2 * rho * rho * d["phi"], sq(B_) * (a * a + b * b)))]

    def static(m, w):
        return [("classes", (m["q"]["cls"], m["v"]["cls"]) == ("CylindricalPos", "CylindricalVel"), str((m["q"]["cls"], m["v"]["cls"]))), ("keys", m["keys"] == ["length", "speed"], str(m["keys"]))]

    return Contract(f"Poincare to Space[{un} {list(shape)}, {via}]", [BACK], vs, run, post, pre, static=static)


def pp_roundtrip(un, shape=()):
    """Poincare -> Space -> Poincare returns the components."""
    vs = ppvars(shape)
    L, A_, B_, S = UN[un]

    def run(a, meta):
        outs = {}
        r = cx.represent_as(cx.represent_as(mkpp(a, un), cx.Space), PP)
        putpp(outs, meta, "r", r)
        return outs

    def post(v, o, m):
        ur = m["r"]["units"]
        gs = [(c, alleq(sip(o, m, "r", c), fac(L if c in ("rho", "z") else S, "m" if c in ("rho", "z") else "m / s") * v[c])) for c in ("rho", "z", "d_rho", "d_z")]
        k = tm.ONE if A_ == B_ else tm.num(1000)
        N = sq(B_) * (k * k * v["pp_phi"] * v["pp_phi"] + v["d_pp_phi"] * v["d_pp_phi"])  # the scale of either term
        for c, x in (("pp_phi", k * v["pp_phi"]), ("d_pp_phi", v["d_pp_phi"])):
            y = o[f"r.{c}"]
            # the units have half powers: compare squares in SI, and the signs
            gs += [(f"{c}^2", alleq(N + sq(ur[c]) * y * y, N + sq(B_) * x * x)), (f"{c} sign", conj(tle(np.full(np.shape(x), tm.ZERO, dtype=object), x * y)))]
        return gs

    return Contract(f"Poincare to Space and back[{un} {list(shape)}]", [FWD, BACK], vs, run, post, lambda v: [tm.lt(tm.ZERO, x) for x in v["rho"].ravel()])


def contracts(tier):
    out = []
    cyl = ("CylindricalPos", "CylindricalVel")
    for prof in UNITS:
        P = Phase(*cyl, prof)
        for via in ("function", "method", "jit"):
            if prof == "m-rad" or via == "function" or tier == "thorough":
                out += [forward(P, via), roundtrip(P, via)]
    for vprof in ("kpc-deg", "mixed"):
        P = Phase(*cyl, "m-rad", vprof=vprof)
        out += [forward(P), roundtrip(P)]
    P = Phase(*cyl, "kpc-deg", vprof="m-rad")
    out += [forward(P), roundtrip(P)]
    for shape in ((2,), (2, 1)):
        P = Phase(*cyl, "kpc-deg", shape)
        out += [forward(P), roundtrip(P)]
    P = Phase(*cyl, "m-rad", keys=("length", "velocity"))
    out += [forward(P), roundtrip(P)]
    P = Phase(*cyl, "m-rad", acc=True)
    out += [forward(P), roundtrip(P)]
    # other representations of the point: re-represented first (C01, C02)
    for p, v in (("CartesianPos3D", "CartesianVel3D"), ("SphericalPos", "SphericalVel"), ("LonLatSphericalPos", "LonLatSphericalVel"), ("MathSphericalPos", "MathSphericalVel"),
                 ("CartesianPos3D", "SphericalVel"), ("LonLatSphericalPos", "LonCosLatSphericalVel"), ("CylindricalPos", "CartesianVel3D"), ("SphericalPos", "CylindricalVel"),
                 ("ProlateSpheroidalPos", "CylindricalVel")):
        out.append(forward(Phase(p, v)))
        if v == "CylindricalVel" or (INT[v] == p and p != "ProlateSpheroidalPos"):
            out.append(roundtrip(Phase(p, v)))
    for un in UN:
        out += [backward(un), backward(un, (2,)), pp_roundtrip(un), pp_roundtrip(un, (2,))]
    out += [backward("si", via="method"), backward("si", via="jit"), backward("gal", (2, 3))]
    return out
