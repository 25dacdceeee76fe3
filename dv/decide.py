"""Deciding proof obligations over the reals.

Two back ends, tried in this order for every leaf of the case analysis:

  field : canonical normal form in a tower  Q(vars)(sin,cos,sqrt,...)  -- an
          equality is discharged when the numerator of lhs-rhs is the zero
          polynomial modulo the defining relations of the tower;
  smt   : z3 (QF_NRA), for order facts, feasibility of cases, and the
          equalities that need order reasoning.

Every partial operation (division, square root, acos, log ...) met on the way
must be shown to be defined, so a discharged obligation also shows that the
values involved are not NaN.
"""
from __future__ import annotations

import math
import sys
import time
from fractions import Fraction

from . import terms as tm
from .poly import (ONE_M, _VT, padd, pcoeffs, pconst, pcval, pdivexact, pfactor, pgen, pgens, pisconst,
                   pkey, pmul, pneg, ppow, pscale)

if _VT not in sys.path:
    sys.path.append(_VT)
import z3  # noqa: E402

z3.set_param("memory_max_size", 3000)


class Split(Exception):
    def __init__(self, *branches):
        self.branches = branches  # each: list of facts


class Illdefined(Exception):
    """A partial operation could not be shown to be defined."""

    def __init__(self, what, poly=None, rel=None):
        super().__init__(what)
        self.what = what
        self.poly = poly
        self.rel = rel


class GiveUp(Exception):
    pass


class Gen:
    __slots__ = ("i", "kind", "data", "name")

    def __init__(self, i, kind, data, name):
        self.i, self.kind, self.data, self.name = i, kind, data, name


# A rational function: (N, D) with D a dict {pkey: (poly, exp)} of factors free
# of algebraic generators.
NOD: dict = {}


class Stats:
    def __init__(self):
        self.field = 0
        self.smt = 0
        self.smt_time = 0.0
        self.smt_calls = 0
        self.leaves = 0


class Prover:
    def __init__(self, assumptions, smt_timeout=2000, time_limit=60.0, stats=None, max_leaves=400):
        self.gens: list[Gen] = []
        self.gkey = {}
        self.base = {}  # angle monomial -> base coefficient
        self.assumptions = list(assumptions)
        self.smt_timeout = smt_timeout
        self.time_limit = time_limit
        self.max_leaves = max_leaves
        self.stats = stats or Stats()
        self.pi = self.gen("pi", (), "pi")
        self.zcache = {}
        self.zvars, self.zpoly, self.zid, self.zbuild = {}, {}, {}, []

    # generators are shared by all leaves, so facts over them survive restarts
    def gen(self, kind, data, name):
        k = (kind, data)
        g = self.gkey.get(k)
        if g is None:
            g = Gen(len(self.gens), kind, data, name)
            self.gens.append(g)
            self.gkey[k] = g
        return g

    # ------------------------------------------------------------------
    def prove(self, goal, extra=()):
        """Return dict(status=proved|failed, ...)."""
        t0 = time.time()
        self.deadline = t0 + self.time_limit
        work = [[("T", a) for a in self.assumptions] + [("T", a) for a in extra]]
        leaves = 0
        used = set()
        depth = 0
        while work:
            facts = work.pop()
            if time.time() > self.deadline or leaves > self.max_leaves:
                return {"status": "unknown", "why": "resource limit in the case analysis", "facts": facts,
                        "time": time.time() - t0, "leaves": leaves, "model": None}
            leaf = Leaf(self, facts)
            try:
                leaf.load()
                r = leaf.check(goal)
            except Split as s:
                depth += 1
                for b in reversed(s.branches):
                    # new facts go first when they are substitutions
                    work.append([f for f in b if f[0] == "subst"] + facts + [f for f in b if f[0] != "subst"])
                continue
            except Illdefined as e:
                if leaf.infeasible():
                    leaves += 1
                    used.add("smt")
                    continue
                model = leaf.model_for_illdefined(e)
                return {"status": "unknown", "why": f"not shown to be defined: {e.what}", "facts": facts,
                        "time": time.time() - t0, "leaves": leaves, "model": model}
            except GiveUp as e:
                return {"status": "unknown", "why": str(e), "facts": facts, "time": time.time() - t0,
                        "leaves": leaves, "model": None}
            leaves += 1
            self.stats.leaves += 1
            if r[0] == "proved":
                used.add(r[1])
                continue
            if "(unknown)" in r[1]:
                return {"status": "unknown", "why": r[1], "facts": facts, "time": time.time() - t0,
                        "leaves": leaves, "model": r[2]}
            return {"status": "failed", "why": r[1], "facts": facts, "time": time.time() - t0,
                    "leaves": leaves, "model": r[2]}
        be = "smt" if "smt" in used else ("field" if "field" in used else "trivial")
        if be == "smt":
            self.stats.smt += 1
        else:
            self.stats.field += 1
        return {"status": "proved", "backend": be, "leaves": leaves, "time": time.time() - t0}


PI_LO, PI_HI = Fraction(314159265358, 10**11), Fraction(314159265359, 10**11)


class Infeasible(Exception):
    pass


class Leaf:
    def __init__(self, P: Prover, facts):
        self.P = P
        self.facts = facts
        self.memo = {}
        self.subst = {}
        self.cons = []  # list of (rel, poly)  rel in ge gt eq ne, or ("or", [[...],[...]])
        self.sgn_cache = {}
        self.zero_rel = set()
        self.cmemo = {}
        self.inf = None

    # -- polynomials modulo the tower ---------------------------------------
    def alg(self, g):
        return self.P.gens[g].kind in ("sqrt", "sin", "par")

    def red(self, p):
        gens = self.P.gens
        todo = p
        out = {}
        guard = 0
        while todo:
            nxt = {}
            for m, c in todo.items():
                hit = None
                for k, (g, e) in enumerate(m):
                    if g in self.subst:
                        hit = (k, "subst")
                        break
                    if e >= 2:
                        kd = gens[g].kind
                        if kd in ("sqrt", "sin", "par"):
                            hit = (k, kd)
                            break
                if hit is None:
                    v = out.get(m, 0) + c
                    if v:
                        out[m] = v
                    else:
                        out.pop(m, None)
                    continue
                k, kd = hit
                g, e = m[k]
                rest = m[:k] + m[k + 1:]
                if kd == "subst":
                    q = ppow(self.subst[g], e)
                elif kd == "sqrt":
                    q = ppow(dict(gens[g].data), e // 2)
                    if e % 2:
                        q = pmul(q, pgen(g))
                elif kd == "par":
                    q = pgen(g) if e % 2 else pconst(1)
                else:
                    cg = self.P.gkey[("cos", gens[g].data)].i
                    q = ppow({ONE_M: Fraction(1), ((cg, 2),): Fraction(-1)}, e // 2)
                    if e % 2:
                        q = pmul(q, pgen(g))
                for n, d in pmul({rest: c}, q).items():
                    v = nxt.get(n, 0) + d
                    if v:
                        nxt[n] = v
                    else:
                        nxt.pop(n, None)
            todo = nxt
            guard += 1
            if guard > 200 or len(todo) > 20000:
                raise GiveUp("polynomial too large")
        return out

    def mulp(self, a, b):
        if len(a) * len(b) > 400000:
            raise GiveUp("polynomial product too large")
        return self.red(pmul(a, b))

    # -- rational functions --------------------------------------------------
    def rf(self, p):
        return (p, NOD)

    def rcancel(self, N, D):
        if not N:
            return (N, NOD)
        if not D:
            return (N, D)
        E = dict(D)
        for k, (f, e) in list(D.items()):
            while e:
                q = pdivexact(N, f)
                if q is None:
                    break
                N = q
                e -= 1
            if e:
                E[k] = (f, e)
            else:
                E.pop(k)
        return (N, E)

    def radd(self, a, b):
        (n1, d1), (n2, d2) = a, b
        if d1 == d2:
            return self.rcancel(padd(n1, n2), d1)
        L = dict(d1)
        m1 = pconst(1)
        m2 = pconst(1)
        for k, (f, e) in d2.items():
            e1 = d1.get(k, (f, 0))[1]
            if e > e1:
                m1 = pmul(m1, ppow(f, e - e1))
                L[k] = (f, e)
            elif e1 > e:
                m2 = pmul(m2, ppow(f, e1 - e))
        for k, (f, e) in d1.items():
            if k not in d2:
                m2 = pmul(m2, ppow(f, e))
        return self.rcancel(padd(self.mulp(n1, m1), self.mulp(n2, m2)), L)

    def rneg(self, a):
        return (pneg(a[0]), a[1])

    def rmul(self, a, b):
        (n1, d1), (n2, d2) = a, b
        if not n1 or not n2:
            return ({}, NOD)
        # cross-cancel first
        n1, d2 = self.rcancel(n1, d2)
        n2, d1 = self.rcancel(n2, d1)
        D = dict(d1)
        for k, (f, e) in d2.items():
            D[k] = (f, e + D.get(k, (f, 0))[1])
        return self.rcancel(self.mulp(n1, n2), D)

    def rpow(self, a, k):
        r = (pconst(1), NOD)
        for _ in range(k):
            r = self.rmul(r, a)
        return r

    def dpoly(self, D):
        p = pconst(1)
        for f, e in D.values():
            p = pmul(p, ppow(f, e))
        return p

    def rinv(self, a, what):
        """1/a, requiring a != 0."""
        N, D = a
        s = self.sgn(N, nz=True)
        if s not in ("+", "-", "!"):
            if s == "0":
                raise Illdefined(f"division by zero in {what}", N, "ne")
            raise Illdefined(f"division by a possibly zero value in {what}", N, "ne")
        mult = pconst(1)
        P = N
        for _ in range(12):
            ag = [g for g in pgens(P) if self.alg(g)]
            if not ag:
                break
            g = max(ag)
            co = pcoeffs(P, g)
            A, B = co.get(0, {}), co.get(1, {})
            conj = pgen(g) if not A else padd(A, pneg(self.mulp(B, pgen(g))))
            mult = self.mulp(mult, conj)
            P = self.mulp(P, conj)
            if not P:
                raise GiveUp("zero divisor in the tower")
        else:
            raise GiveUp("could not rationalise a denominator")
        if pisconst(P):
            c, fl = pcval(P), []
        else:
            c, fl = pfactor(P)
        E = {}
        for f, k in fl:
            E[pkey(f)] = (f, k)
        return self.rmul((pscale(mult, 1 / c), E), (self.dpoly(D), NOD))

    # -- signs ----------------------------------------------------------------
    def gsign(self, g):
        """Cheap sign of a generator: + - >= <= ! or None."""
        G = self.P.gens[g]
        key = ("g", g)
        if key in self.sgn_cache:
            return self.sgn_cache[key]
        s = None
        if G.kind == "pi":
            s = "+"
        elif G.kind == "sqrt":
            s = ">="
            self.sgn_cache[key] = s
            t = self.sgn(dict(G.data))
            if t in ("+", "!"):
                s = "+"
        elif G.kind == "pow" or (G.kind == "log" and pisconst(dict(G.data)) and pcval(dict(G.data)) > 1):
            s = "+"
        else:
            lo = hi = None
            neq = False
            for rel, p in self.simple:
                if len(p) == 1:
                    (m, c), = p.items()
                    if len(m) == 1 and m[0] == (g, 1):
                        if rel == "gt":
                            (lo, hi) = ("gt", hi) if c > 0 else (lo, "lt")
                        elif rel == "ge":
                            if c > 0:
                                lo = lo or "ge"
                            else:
                                hi = hi or "le"
                        elif rel == "ne":
                            neq = True
                elif len(p) == 2 and ONE_M in p and rel in ("gt", "ge"):
                    # c*g + k >= 0
                    k = p[ONE_M]
                    m = next(x for x in p if x != ONE_M)
                    if m == ((g, 1),):
                        c = p[m]
                        if c > 0 and k < 0:
                            lo = "gt"
                        elif c > 0 and k == 0:
                            lo = lo or rel
                        elif c < 0 and k < 0:
                            hi = "lt"
            if lo == "gt" or (lo == "ge" and neq):
                s = "+"
            elif hi == "lt" or (hi == "le" and neq):
                s = "-"
            elif lo:
                s = ">="
            elif hi:
                s = "<="
            elif neq:
                s = "!"
        self.sgn_cache[key] = s
        return s

    @property
    def simple(self):
        return [c for c in self.cons if c[0] in ("gt", "ge", "ne", "eq")]

    def quick(self, p):
        """Cheap syntactic sign of a polynomial."""
        if not p:
            return "0"
        if pisconst(p):
            return "+" if pcval(p) > 0 else "-"
        acc = None
        for m, c in p.items():
            s = "+" if c > 0 else "-"
            for g, e in m:
                gs = self.gsign(g)
                if e % 2 == 0:
                    gs = "+" if gs in ("+", "-", "!") else ">="
                s = _smul(s, gs)
                if s is None:
                    break
            if s is None or s == "!":
                return s if len(p) == 1 else None
            acc = s if acc is None else _sadd(acc, s)
            if acc is None:
                return None
        return acc

    def sgn(self, p, nz=False):
        """Sign of polynomial p in this leaf: 0 + - >= <= ! or None.

        With nz, '!' (nonzero) is precise enough.
        """
        fin = ("0", "+", "-", "!") if nz else ("0", "+", "-")
        if not p:
            return "0"
        q = self.quick(p)
        if q in fin:
            return q
        key = pkey(p)
        if key in self.sgn_cache:
            return self.sgn_cache[key]
        if nz and self.sgn_cache.get((key, "nz")) == "!":
            return "!"
        # factor: product of signs
        r = q
        if len(p) <= 60:
            c, fl = pfactor(p)
            if len(fl) > 1 or (fl and fl[0][1] > 1):
                r = "+" if c > 0 else "-"
                for f, k in fl:
                    s = self.sgn(f, nz or k % 2 == 0)
                    if k % 2 == 0:
                        s = "+" if s in ("+", "-", "!") else ("0" if s == "0" else ">=")
                    r = _smul(r, s)
                    if r is None:
                        break
                if r in fin:
                    self.sgn_cache[(key, "nz") if r == "!" else key] = r
                    return r
                r = q if r is None else (r if q is None else _meet(r, q))
        facts = self.direct(p)
        if facts:
            r = facts if r is None else _meet(r, facts)
        if r in fin:
            self.sgn_cache[(key, "nz") if r == "!" else key] = r
            return r
        s = self.sqrt_rule(p)
        if s:
            r = s if r is None else _meet(r, s)
        if r in fin:
            self.sgn_cache[(key, "nz") if r == "!" else key] = r
            return r
        s = self.smt_sign(p, r)
        s = r if s is None else (s if r is None else _meet(s, r))
        self.sgn_cache[key] = s
        return s

    def sqrt_rule(self, p):
        """Sign of A + B*sqrt(R) from the signs of B and B^2 R - A^2."""
        if len(p) > 200:
            return None
        gs = [g for g in pgens(p) if self.P.gens[g].kind == "sqrt"]
        for g in sorted(gs, reverse=True)[:2]:
            co = pcoeffs(p, g)
            A, B = co.get(0, {}), co.get(1, {})
            if not A or set(co) - {0, 1}:
                continue
            b = self.quick(B) if len(B) > 60 else self.sgn(B)
            if b not in ("+", "-", ">=", "<="):
                continue
            key = ("sq", g, pkey(p))
            if key in self.sgn_cache:
                return self.sgn_cache[key]
            self.sgn_cache[key] = None
            E = padd(self.mulp(self.mulp(B, B), dict(self.P.gens[g].data)), pneg(self.mulp(A, A)))
            if len(E) > 400:
                continue
            up = b in ("+", ">=")
            e = self.sgn(E)
            r = None
            if e == "+":
                r = "+" if up else "-"
            elif e in (">=", "0"):
                r = ">=" if up else "<="
            if r is None or r in (">=", "<="):
                a = self.sgn(A)
                if up and a == "+" or not up and a == "-":
                    r = a
                elif up and a in ("-", "<=") or not up and a in ("+", ">="):
                    # |A| vs |B| sqrt(R): the sign is that of E, with the sign of B
                    if e == "-":
                        r = "-" if up else "+"
                    elif e == "<=":
                        r = "<=" if up else ">="
                    elif e == "0":
                        r = "0"
                elif r is None and (up and a == ">=" or not up and a == "<="):
                    r = a
            if r:
                self.sgn_cache[key] = r
                return r
        return None

    def direct(self, p):
        """Sign stated verbatim (up to a positive factor) by a fact."""
        best = None
        for rel, q in self.simple:
            if len(q) != len(p) or not q:
                continue
            m0 = next(iter(q))
            if m0 not in p:
                continue
            k = p[m0] / q[m0]
            if p == pscale(q, k):
                if rel == "eq":
                    return "0"
                if rel == "ne":
                    return "!" if best is None else _meet(best, "!")
                v = {"gt": "+", "ge": ">="}[rel]
                if k < 0:
                    v = {"+": "-", ">=": "<="}[v]
                if v in ("+", "-"):
                    return v
                best = v if best is None else _meet(best, v)
        return best

    # -- z3 --------------------------------------------------------------------
    # Constraints are interned as integers (self.P.zid) and turned into z3
    # expressions only when a query is not answered by the cache.
    def zv(self, g):
        v = self.P.zvars.get(g)
        if v is None:
            v = self.P.zvars[g] = z3.Real(f"g{g}")
        return v

    def zp(self, p):
        k = pkey(p)
        t = self.P.zpoly.get(k)
        if t is None:
            t = self.P.zpoly[k] = self.zp_(p)
        return t

    def zp_(self, p):
        s = []
        for m, c in p.items():
            t = z3.RealVal(f"{c.numerator}/{c.denominator}") if c != 1 or not m else None
            for g, e in m:
                v = self.zv(g)
                for _ in range(e):
                    t = v if t is None else t * v
            s.append(t)
        if not s:
            return z3.RealVal(0)
        return z3.Sum(s) if len(s) > 1 else s[0]

    def zint(self, key, build):
        i = self.P.zid.get(key)
        if i is None:
            i = self.P.zid[key] = len(self.P.zbuild)
            self.P.zbuild.append([None, build])
        return i

    def zexpr(self, i):
        e = self.P.zbuild[i]
        if e[0] is None:
            e[0] = e[1]()
            e[1] = None
        return e[0]

    def zrel(self, rel, p):
        def build():
            e = self.zp(p)
            return {"ge": lambda: e >= 0, "gt": lambda: e > 0, "eq": lambda: e == 0, "ne": lambda: e != 0, "lt": lambda: e < 0, "le": lambda: e <= 0}[rel]()

        return self.zint((rel, pkey(p)), build)

    def znot(self, i):
        return self.zint(("not", i), lambda: z3.Not(self.zexpr(i)))

    def zcon(self, c):
        if c[0] == "or":
            bs = tuple(tuple(self.zcon(x) for x in b) for b in c[1])
            return self.zint(("or", bs), lambda: z3.Or([z3.And([self.zexpr(x) for x in b]) for b in bs]))
        if c[0] == "bool":
            def build():
                v = z3.Bool("b_" + c[1])
                return v if c[2] else z3.Not(v)

            return self.zint(("bool", c[1], c[2]), build)
        return self.zrel(c[0], c[1])

    def cgens(self, c):
        if c[0] == "or":
            return set().union(*[self.cgens(x) for b in c[1] for x in b]) if any(c[1]) else set()
        if c[0] == "bool":
            return set()
        return pgens(c[1])

    def cinfo(self, c):
        r = self.cmemo.get(id(c))
        if r is None:
            r = self.cmemo[id(c)] = (c, self.zcon(c), self.cgens(c), self.islinear(c))
        return r

    def gdef(self, g, lin=False):
        """Defining constraints of a generator (interned, gens used)."""
        G = self.P.gens[g]
        v = self.zv(g)
        out, used = [], set()

        def put(tag, build):
            out.append(self.zint(("def", g, tag), build))

        if G.kind == "pi":
            put("pi", lambda: z3.And(v > z3.RealVal(str(PI_LO)), v < z3.RealVal(str(PI_HI))))
        elif G.kind == "sqrt":
            put("nonneg", lambda: v >= 0)
            if not lin:
                rad = dict(G.data)
                put("square", lambda: v * v == self.zp(rad))
                used |= pgens(rad)
        elif G.kind == "par":
            put("parity", lambda: z3.Or(v == 1, v == -1))
        elif G.kind in ("sin", "cos"):
            if not lin:
                s = self.P.gkey[("sin", G.data)].i
                c = self.P.gkey[("cos", G.data)].i
                zs, zc = self.zv(s), self.zv(c)
                put("circle", lambda: z3.And(zs * zs + zc * zc == 1, zs <= 1, zs >= -1, zc <= 1, zc >= -1))
                used |= {s, c}
                for rel, q in self.trig_facts(G.data):
                    out.append(self.zrel(rel, q))
                    used |= pgens(q)
        elif G.kind in ("acos", "asin", "atan", "atan2"):
            pi = self.zv(self.P.pi.i)
            used.add(self.P.pi.i)
            if G.kind == "acos":
                put("range", lambda: z3.And(v >= 0, v <= pi))
            elif G.kind == "asin":
                put("range", lambda: z3.And(2 * v >= -pi, 2 * v <= pi))
            elif G.kind == "atan":
                put("range", lambda: z3.And(2 * v > -pi, 2 * v < pi))
            else:
                put("range", lambda: z3.And(v > -pi, v <= pi))
            if not lin:
                for tag, e, u in self.inv_facts(G):
                    put(tag, e)
                    used |= u
        elif G.kind == "floor":
            n, d = G.data
            N, D = dict(n), dict(d)
            if pisconst(D) or self.sgn(D) == "+":
                # v <= N/D < v+1
                put("floor", lambda: z3.And(v * self.zp(D) <= self.zp(N), self.zp(N) < (v + 1) * self.zp(D)))
                used |= pgens(N) | pgens(D)
        elif G.kind == "pow":
            put("pos", lambda: v > 0)
        elif G.kind == "log":
            f = dict(G.data)
            if pisconst(f):
                x = math.log(float(pcval(f)))
                lo, hi = (Fraction(math.floor(x * 10**6) - 1, 10**6), Fraction(math.ceil(x * 10**6) + 1, 10**6))
                put("bounds", lambda: z3.And(v > z3.RealVal(str(lo)), v < z3.RealVal(str(hi))))
            elif not lin:
                one = z3.RealVal(1)
                put("sign", lambda: z3.And(z3.Implies(self.zp(f) > one, v > 0), z3.Implies(self.zp(f) < one, v < 0), z3.Implies(self.zp(f) == one, v == 0)))
                used |= pgens(f)
        return out, used

    def inv_facts(self, G):
        """Sign facts linking an inverse-trig value to its argument: (tag, builder, gens)."""
        out = []
        v = self.zv(G.i)
        pi = self.zv(self.P.pi.i)
        pg = self.P.pi.i
        info = self.P.invinfo[G.i]

        def prod(N, D):
            return self.zp(N) * self.zp(self.dpoly(D)) if D else self.zp(N)

        def sinlike(N, D):
            x = prod(N, D)
            return z3.And(z3.Implies(x > 0, z3.And(v > 0, v < pi)), z3.Implies(x < 0, z3.And(v < 0, v > -pi)),
                          z3.Implies(x == 0, z3.Or(v == 0, v == pi)))

        def coslike(N, D):
            x = prod(N, D)
            return z3.And(z3.Implies(x > 0, z3.And(2 * v > -pi, 2 * v < pi)), z3.Implies(x == 0, z3.Or(2 * v == pi, 2 * v == -pi)),
                          z3.Implies(x < 0, z3.Or(2 * v > pi, 2 * v < -pi)))

        def acos1(N, D):
            x = prod(N, D)
            return z3.And(z3.Implies(x > 0, 2 * v < pi), z3.Implies(x < 0, 2 * v > pi), z3.Implies(x == 0, 2 * v == pi))

        def acos2(N, dp):
            n, d = self.zp(N), self.zp(dp)
            return z3.And(z3.Implies(n < d, v > 0), z3.Implies(n == d, v == 0), z3.Implies(n > -d, v < pi))

        def asign(N, D):
            x = prod(N, D)
            return z3.And(z3.Implies(x > 0, v > 0), z3.Implies(x < 0, v < 0), z3.Implies(x == 0, v == 0))

        if G.kind == "atan2":
            (c, s) = info  # cos and sin as RFs
            for (N, D), f in ((s, sinlike), (c, coslike)):
                u = pgens(N) | pgens(self.dpoly(D)) | {pg}
                out.append((f.__name__, lambda N=N, D=D, f=f: f(N, D), u))
        elif G.kind == "acos":
            (c, _s) = info
            N, D = c
            dp = self.dpoly(D)
            u = pgens(N) | pgens(dp) | {pg}
            out.append(("acos1", lambda: acos1(N, D), u))
            if self.sgn(dp) == "+":
                out.append(("acos2", lambda: acos2(N, dp), u))
        elif G.kind in ("asin", "atan"):
            (_c, s) = info
            N, D = s
            u = pgens(N) | pgens(self.dpoly(D)) | {pg}
            out.append(("asign", lambda: asign(N, D), u))
        return out

    def trig_facts(self, data):
        """Sign facts of sin/cos that follow from the range of the angle."""
        key = ("tf", data)
        if key in self.sgn_cache:
            return self.sgn_cache[key]
        self.sgn_cache[key] = []
        mono, cf = data
        beta = pmul({mono: Fraction(1)}, dict(cf))
        s = pgen(self.P.gkey[("sin", data)].i)
        c = pgen(self.P.gkey[("cos", data)].i)
        pi = pgen(self.P.pi.i)
        out = []

        def cmp(p):  # sign of p by linear reasoning
            return self.smt_sign(p, None, lin=True)

        for q, p in ((s, beta), (c, padd(beta, pscale(pi, Fraction(1, 2))))):
            # q = sin-like of p
            a = cmp(p)
            b = cmp(padd(p, pneg(pi)))
            if a in ("+", ">=", "0") and b in ("-", "<=", "0"):
                out.append(("gt" if a == "+" and b == "-" else "ge", q))
                continue
            d = cmp(padd(p, pi))
            if a in ("-", "<=", "0") and d in ("+", ">=", "0"):
                out.append(("gt" if a == "-" and d == "+" else "ge", pneg(q)))
                continue
            e = cmp(padd(p, pscale(pi, -2)))
            if b in ("+", ">=", "0") and e in ("-", "<=", "0"):
                out.append(("gt" if b == "+" and e == "-" else "ge", pneg(q)))
        self.sgn_cache[key] = out
        return out

    def context(self, gens, lin=False):
        """All constraints relevant to the given generators."""
        need = set(gens)
        done = set()
        exprs = []
        used_c = set()
        while True:
            new = need - done
            if not new:
                break
            for g in sorted(new):
                done.add(g)
                ex, u = self.gdef(g, lin)
                exprs += ex
                need |= u
            for k, c in enumerate(self.cons):
                if k in used_c:
                    continue
                _c, zi, cg, isl = self.cinfo(c)
                if lin and not isl:
                    continue
                if not cg or not cg.isdisjoint(need):
                    need |= cg
                    exprs.append(zi)
                    used_c.add(k)
        return exprs

    def islinear(self, c):
        if c[0] in ("or", "bool"):
            return False
        return all(sum(e for g, e in m if g != self.P.pi.i) <= 1 for m in c[1])

    def query(self, extra, gens, timeout=None, lin=False, model=False):
        """Satisfiability of context + extra."""
        if time.time() > self.P.deadline:
            raise GiveUp("time limit")
        ctx = self.context(gens, lin)
        key = None
        if not model:
            key = (frozenset(ctx), tuple(extra))
            if key in self.P.zcache:
                return self.P.zcache[key]
        s = z3.SolverFor("QF_NRA")
        s.set("timeout", int(timeout or self.P.smt_timeout))
        s.add(*[self.zexpr(i) for i in ctx])
        s.add(*[self.zexpr(i) for i in extra])
        t = time.time()
        self.P.stats.smt_calls += 1
        r = str(s.check())
        self.P.stats.smt_time += time.time() - t
        if model:
            return r, (s.model() if r == "sat" else None)
        self.P.zcache[key] = r
        return r

    def smt_sign(self, p, known, lin=False):
        gs = pgens(p)
        to = 500 if lin else None
        if known in (None, ">=", "!"):
            r1 = self.query([self.zrel("lt", p)], gs, to, lin)
        else:
            r1 = "sat"
        if known in (None, "<=", "!"):
            r2 = self.query([self.zrel("gt", p)], gs, to, lin)
        else:
            r2 = "sat"
        if known == ">=":
            r1 = "unsat"
        if known == "<=":
            r2 = "unsat"
        if r1 == "unsat" and r2 == "unsat":
            return "0"
        if r1 == "unsat" or r2 == "unsat":
            r3 = self.query([self.zrel("eq", p)], gs, to, lin)
            if r1 == "unsat":
                return "+" if r3 == "unsat" else ">="
            return "-" if r3 == "unsat" else "<="
        r3 = self.query([self.zrel("eq", p)], gs, to, lin)
        return "!" if r3 == "unsat" else None

    def infeasible(self):
        gs = set()
        for c in self.cons:
            gs |= self.cgens(c)
        try:
            return self.query([], gs, 1500) == "unsat"
        except GiveUp:
            return False

    # -- facts --------------------------------------------------------------------
    def load(self):
        for f in self.facts:
            if f[0] == "subst":
                self.subst[f[1]] = self.red(dict(f[2]))
        n = len(self.facts)
        self.eqkeys = {f[1] for f in self.facts if f[0] == "eq"}
        pending = [f for f in self.facts if f[0] != "subst"]
        # a fact that needs a case split to be stated may find the case among
        # the later facts, so it is retried after them
        while pending:
            later, first = [], None
            for f in pending:
                mark = len(self.cons)
                try:
                    if f[0] == "T":
                        self.assume(f[1])
                    else:
                        self.addcon(f[0], self.red(dict(f[1])))
                except (Split, Illdefined) as e:
                    del self.cons[mark:]
                    self.sgn_cache = {}
                    later.append(f)
                    w = 0 if isinstance(e, Illdefined) else (2 if len(e.branches) == 1 else 1)
                    if first is None or w >= first[0] > 0 or w > first[0]:
                        first = (w, e)
            if len(later) == len(pending):
                raise first[1]
            pending = later
        for g in self.subst:
            G = self.P.gens[g]
            if G.kind in ("sin", "cos") and not isinstance(G.data[0], str):
                for rel, q in self.trig_facts(G.data):
                    q = self.red(q)
                    if pisconst(q):
                        c = pcval(q) if q else 0
                        if c < 0 or (c == 0 and rel == "gt"):
                            self.cons.append(("eq", pconst(1)))
        # feasibility after branching
        if n > len(self.P.assumptions) and self.infeasible():
            self.inf = True
        else:
            self.inf = False

    def assume(self, t):
        """Translate a boolean term into constraints."""
        o = t.op
        if o == "and":
            for a in t.args:
                self.assume(a)
            return
        c = self.con(t)
        if c is True:
            return
        if c is False:
            self.cons.append(("eq", pconst(1)))
            return
        if c[0] in ("or", "bool"):
            self.cons.append(c)
        else:
            self.addcon(*c)

    def addcon(self, rel, p):
        self.sgn_cache = {}
        if rel == "eq":
            self.eqfact(p)
        else:
            if rel in ("ge", "gt") and p and not pisconst(p):
                pass
            self.cons.append((rel, p))

    def eqfact(self, p):
        """p = 0: substitute / factor where that is easy."""
        if not p:
            return
        if pisconst(p):
            self.cons.append(("eq", p))
            return
        c, fl = pfactor(p)
        live = []
        for f, _k in fl:
            s = self.sgn(f, nz=True)
            if s in ("+", "-", "!"):
                continue
            live.append(f)
        if not live:
            self.cons.append(("eq", pconst(1)))
            return
        if len(live) > 1:
            if any(pkey(f) in self.eqkeys for f in live):
                return
            raise Split(*[[("eq", pkey(f))] for f in live])
        f = live[0]
        gens = self.P.gens
        # sum of nonnegative monomials
        if len(f) > 1 and ONE_M not in f:
            ss = {self.quick({m: v}) for m, v in f.items()}
            if ss <= {"+", ">=", "0"} or ss <= {"-", "<=", "0"}:
                if all(pkey({m: Fraction(1)}) in self.eqkeys for m in f):
                    return
                raise Split([("eq", pkey({m: Fraction(1)})) for m in f])
        for g in sorted(pgens(f), reverse=True):
            co = pcoeffs(f, g)
            if set(co) <= {0, 1} and pisconst(co[1]) and gens[g].kind in ("var", "sin", "cos", "sqrt", "floor"):
                rest = co.get(0, {})
                k = gens[g].kind
                if k != "var" and not pisconst(rest):
                    continue
                if g in pgens(rest):
                    continue
                val = pscale(rest, -1 / pcval(co[1]))
                new = [("subst", g, pkey(val))]
                if k == "sqrt":
                    new.append(("eq", pkey(padd(dict(gens[g].data), pneg(pmul(val, val))))))
                elif k in ("sin", "cos"):
                    other = self.P.gkey[("cos" if k == "sin" else "sin", gens[g].data)].i
                    q = {ONE_M: Fraction(1) - pcval(val) ** 2, ((other, 2),): Fraction(-1)}
                    # keep other unreduced: other^2 = 1 - val^2
                    if k == "sin" and val == {}:
                        new2 = [[*new, ("subst", other, pkey(pconst(1)))], [*new, ("subst", other, pkey(pconst(-1)))]]
                        raise Split(*new2)
                    if k == "cos" and val == {}:
                        raise Split([*new, ("subst", other, pkey(pconst(1)))], [*new, ("subst", other, pkey(pconst(-1)))])
                    if pcval(val) ** 2 == 1:
                        raise Split([*new, ("subst", other, pkey({}))])
                    del q
                # drop the fact itself
                raise Split(new)
        self.cons.append(("eq", p))

    def con(self, t):
        """bool term -> True | False | (rel, poly) | ("or", ...) ."""
        o = t.op
        if o == "true":
            return True
        if o == "false":
            return False
        if o == "bvar":
            return ("bool", t.val, True)
        if o in ("lt", "le", "eq"):
            return self.cmp(o, self.nf(t.args[0]), self.nf(t.args[1]))
        if o == "not":
            a = t.args[0]
            if a.op == "eq":
                c = self.con(a)
                if c is True:
                    return False
                if c is False:
                    return True
                return ("ne", c[1])
            if a.op == "and":
                return self.con(tm.or_(*[tm.not_(x) for x in a.args]))
            if a.op == "or":
                return self.con(tm.and_(*[tm.not_(x) for x in a.args]))
            if a.op == "bvar":
                return ("bool", a.val, False)
            raise GiveUp(f"negation of {a.op}")
        if o == "and":
            cs = [self.con(a) for a in t.args]
            if any(c is False for c in cs):
                return False
            cs = [c for c in cs if c is not True]
            if not cs:
                return True
            return cs[0] if len(cs) == 1 else ("or", [cs])
        if o == "or":
            cs = [self.con(a) for a in t.args]
            if any(c is True for c in cs):
                return True
            cs = [c for c in cs if c is not False]
            if not cs:
                return False
            return cs[0] if len(cs) == 1 else ("or", [[c] for c in cs])
        if o == "ite":
            c = self.decide(t.args[0])
            return self.con(t.args[1] if c else t.args[2])
        raise GiveUp(f"boolean {o}")

    def cmp(self, op, a, b):
        """a op b as a polynomial constraint."""
        N, D = self.radd(b, self.rneg(a))  # b - a
        if op == "eq":
            if not N:
                return True
            if pisconst(N) and not D:
                return False
            return ("eq", N)
        p = N
        for f, e in D.values():
            if e % 2:
                s = self.sgn(f)
                if s == "+":
                    continue
                if s == "-":
                    p = pneg(p)
                    continue
                if s == "!" or s is None or s in (">=", "<="):
                    p = self.mulp(p, f)
        if pisconst(p):
            v = pcval(p)
            return v > 0 if op == "lt" else v >= 0
        return ("gt" if op == "lt" else "ge", p)

    def holds(self, c):
        """Is constraint c implied?  True / False (refuted) / None."""
        if c is True or c is False:
            return c
        if c[0] in ("or", "bool"):
            gs = self.cgens(c)
            e = self.zcon(c)
            if self.query([self.znot(e)], gs) == "unsat":
                return True
            if self.query([e], gs) == "unsat":
                return False
            return None
        rel, p = c
        s = self.sgn(p, rel in ("eq", "ne"))
        if rel == "gt":
            return True if s == "+" else (False if s in ("-", "0", "<=") else None)
        if rel == "ge":
            return True if s in ("+", ">=", "0") else (False if s == "-" else None)
        if rel == "eq":
            return True if s == "0" else (False if s in ("+", "-", "!") else None)
        return True if s in ("+", "-", "!") else (False if s == "0" else None)

    def decide(self, t):
        """Truth of a boolean term in this leaf; splits when open."""
        key = ("d", t.id)
        if key in self.memo:
            return self.memo[key]
        c = self.con(t)
        h = self.holds(c)
        if h is None:
            if t.op in ("and", "or"):
                # split on one undecided atom
                for a in t.args:
                    ca = self.con(a)
                    if self.holds(ca) is None:
                        self.split_on(a, ca)
            self.split_on(t, c)
        self.memo[key] = h
        return h

    def split_on(self, t, c):
        raise Split([("T", t)], [("T", tm.not_(t))])

    # -- normal form of numeric terms -------------------------------------------------
    def nf(self, t):
        r = self.memo.get(t.id)
        if r is not None:
            return r
        # iterative for depth
        for s in self._order(t):
            if s.id not in self.memo:
                v = self._nf(s)
                if v is not None:
                    self.memo[s.id] = v
        return self.memo[t.id]

    def _order(self, t):
        """Children-first order, descending only into live branches of ite."""
        seen = set()
        stack = [(t, False)]
        while stack:
            s, done = stack.pop()
            if done:
                yield s
                continue
            if s.id in self.memo or s.id in seen:
                continue
            seen.add(s.id)
            if s.op == "ite":
                yield s  # _nf handles recursion
                continue
            stack.append((s, True))
            if s.op in ("sin", "cos", "tan", "lt", "le", "eq"):
                pass
            for a in s.args:
                if a.id not in self.memo:
                    stack.append((a, False))

    def _nf(self, t):
        o = t.op
        if time.time() > self.P.deadline:
            raise GiveUp("time limit")
        if o == "num":
            return (pconst(t.val), NOD)
        if o == "pi":
            return (pgen(self.P.pi.i), NOD)
        if o == "var":
            return (self.red(pgen(self.P.gen("var", t.val, t.val).i)), NOD)
        if o == "add":
            return self.radd(self.nf(t.args[0]), self.nf(t.args[1]))
        if o == "mul":
            return self.rmul(self.nf(t.args[0]), self.nf(t.args[1]))
        if o == "neg":
            return self.rneg(self.nf(t.args[0]))
        if o == "div":
            a, b = self.nf(t.args[0]), self.nf(t.args[1])
            return self.rmul(a, self.rinv(b, tm.show(t, 3)))
        if o == "ipow":
            return self.rpow(self.nf(t.args[0]), t.val)
        if o == "sqrt":
            return self.rsqrt(self.nf(t.args[0]), tm.show(t, 3))
        if o == "ite":
            return self.nf(t.args[1] if self.decide(t.args[0]) else t.args[2])
        if o == "abs":
            a = self.nf(t.args[0])
            return a if self.rsign(a) >= 0 else self.rneg(a)
        if o == "sign":
            a = self.nf(t.args[0])
            return (pconst(self.rsign(a, strict=True)), NOD)
        if o in ("sin", "cos"):
            c, s = self.trig(self.nf(t.args[0]))
            return s if o == "sin" else c
        if o == "tan":
            c, s = self.trig(self.nf(t.args[0]))
            return self.rmul(s, self.rinv(c, tm.show(t, 3)))
        if o in ("acos", "asin", "atan"):
            return self.inv1(o, self.nf(t.args[0]), tm.show(t, 3))
        if o == "atan2":
            return self.atan2(self.nf(t.args[0]), self.nf(t.args[1]))
        if o == "floor":
            return self.floor(self.nf(t.args[0]))
        if o == "log":
            return self.log(self.nf(t.args[0]), tm.show(t, 3))
        if o == "exp":
            return self.powr((pgen(self.P.gen("const", "e", "e").i), NOD), self.nf(t.args[0]), True)
        if o == "pow":
            return self.powr(self.nf(t.args[0]), self.nf(t.args[1]), False)
        if o == "uf":
            args = [self.nf(a) for a in t.args]
            key = tuple(self.rkey(a) for a in args)
            g = self.P.gen("uf", (t.val, key), f"{t.val[0]}.{t.val[1]}")
            return (pgen(g.i), NOD)
        if o in ("nan", "inf", "ninf"):
            raise Illdefined(f"the value {o}")
        raise GiveUp(f"term {o}")

    def rkey(self, a):
        N, D = a
        return (pkey(N), tuple(sorted((k, e) for k, (f, e) in D.items())))

    def rsign(self, a, strict=False):
        """Sign of a rational function; splits when open."""
        N, D = a
        p = N
        for f, e in D.values():
            if e % 2:
                s = self.sgn(f)
                if s == "-":
                    p = pneg(p)
                elif s != "+":
                    raise Split([("gt", pkey(f))], [("gt", pkey(pneg(f)))])
        s = self.sgn(p)
        if s == "0":
            return 0
        if s == "+":
            return 1
        if s == "-":
            return -1
        if not strict:
            if s == ">=":
                return 1
            if s == "<=":
                return -1
            raise Split([("ge", pkey(p))], [("gt", pkey(pneg(p)))])
        br = [[("gt", pkey(p))], [("eq", pkey(p))], [("gt", pkey(pneg(p)))]]
        if s == "!":
            br = [br[0], br[2]]
        elif s == ">=":
            br = br[:2]
        elif s == "<=":
            br = br[1:]
        raise Split(*br)

    def poly_sign_split(self, f):
        """+1/-1 for |f|; splits when open."""
        s = self.sgn(f)
        if s in ("+", ">=", "0"):
            return 1
        if s in ("-", "<="):
            return -1
        raise Split([("ge", pkey(f))], [("gt", pkey(pneg(f)))])

    def rsqrt(self, a, what):
        N, D = a
        if not N:
            return ({}, NOD)
        out = (pconst(1), NOD)
        rad_sign = 1
        c, fl = pfactor(N) if len(N) < 400 else (Fraction(1), [(N, 1)])
        odd = []
        for f, k in fl:
            if k // 2:
                h = (f, NOD) if (k // 2) % 2 == 0 or self.poly_sign_split(f) > 0 else (pneg(f), NOD)
                out = self.rmul(out, (self.red(ppow(h[0], k // 2)), NOD) if h[0] is f or True else h)
            if k % 2:
                odd.append(f)
        inv = {}
        for _k, (f, e) in D.items():
            # 1/sqrt(f^e) = f^(e%2... ) : sqrt(1/f^e) = sqrt(f^(e%2)) / |f|^ceil(e/2)
            m = (e + 1) // 2
            if e % 2:
                odd.append(f)
            if m % 2 and self.poly_sign_split(f) < 0:
                out = self.rneg(out)
            inv[pkey(f)] = (f, m)
        out = self.rmul(out, (pconst(1), inv)) if inv else out
        # sign-definite factors get their own square root
        if c < 0:
            rad_sign = -1
        c = abs(c)
        unknown = []
        for f in odd:
            s = self.sgn(f)
            if s in ("+", ">="):
                out = self.rmul(out, (pgen(self.sqrtgen(f)), NOD))
            elif s in ("-", "<="):
                rad_sign = -rad_sign
                out = self.rmul(out, (pgen(self.sqrtgen(pneg(f))), NOD))
            elif s == "0":
                return ({}, NOD)
            else:
                unknown.append(f)
        if not unknown:
            if rad_sign < 0:
                raise Illdefined(f"square root of a negative value in {what}", N, "ge")
        else:
            g = pconst(rad_sign)
            for f in unknown:
                g = self.mulp(g, f)
            if self.sgn(g) not in ("+", ">=", "0"):
                raise Illdefined(f"square root of a possibly negative value in {what}", g, "ge")
            out = self.rmul(out, (pgen(self.sqrtgen(g)), NOD))
        out = self.rmul(out, self.sqrt_rational(c))
        return out

    def sqrt_rational(self, c):
        n = c.numerator * c.denominator
        k = 1
        rest = 1
        m = n
        p = 2
        while p * p <= m and p < 100000:
            e = 0
            while m % p == 0:
                m //= p
                e += 1
            k *= p ** (e // 2)
            if e % 2:
                rest *= p
            p += 1
        import math
        r = math.isqrt(m)
        if r * r == m:
            k *= r
        else:
            rest *= m
        out = pconst(Fraction(k, c.denominator))
        if rest != 1:
            out = pmul(out, pgen(self.sqrtgen(pconst(rest))))
        return (out, NOD)

    def sqrtgen(self, f):
        # normalise the radicand's leading constant so equal radicands coincide
        g = self.P.gen("sqrt", pkey(f), "sqrt")
        return g.i

    # -- trigonometry --------------------------------------------------------------
    def trig(self, a):
        """(cos a, sin a) as rational functions."""
        N, D = a
        key = ("trig", self.rkey(a))
        if key in self.memo:
            return self.memo[key]
        if D:
            dp = self.dpoly(D)
            if not all(set(g for g, _ in m) <= {self.P.pi.i} for m in dp) or len(dp) != 1:
                terms = [((("rf", self.rkey(a)), ), None)]
                r = self.trig_atom(("rf",) + self.rkey(a), a)
                self.memo[key] = r
                del terms
                return r
            (dm, dc), = dp.items()
            dpi = dict(dm).get(self.P.pi.i, 0)
        else:
            dpi, dc = 0, Fraction(1)
        # group monomials by their non-pi part
        groups = {}
        for m, c in N.items():
            k = -dpi
            rest = []
            for g, e in m:
                if g == self.P.pi.i:
                    k += e
                else:
                    rest.append((g, e))
            d = groups.setdefault(tuple(rest), {})
            d[k] = d.get(k, 0) + c / dc
        C, S = (pconst(1), NOD), ({}, NOD)
        for m, cf in sorted(groups.items()):
            c, s = self.trig_term(m, cf)
            C, S = (self.radd(self.rmul(C, c), self.rneg(self.rmul(S, s))),
                    self.radd(self.rmul(S, c), self.rmul(C, s)))
        self.memo[key] = (C, S)
        return C, S

    def trig_term(self, m, cf):
        """cos, sin of  (sum_k cf[k] pi^k) * monomial m."""
        gens = self.P.gens
        cf = {k: c for k, c in cf.items() if c}
        one, zero = (pconst(1), NOD), ({}, NOD)
        if not cf:
            return one, zero
        if m == ():
            out = (one, zero)
            for k, c in cf.items():
                out = _tadd(self, out, self.trig_const(k, c))
            return out
        if len(m) == 1 and m[0][1] == 1:
            g = gens[m[0][0]]
            if g.kind == "floor" and set(cf) == {1}:
                c = cf[1]
                if c.denominator == 1 and c % 2 == 0:
                    return one, zero
                if c.denominator == 1:  # (-1)^floor
                    par = self.P.gen("par", g.i, "parity")
                    return (self.red(pgen(par.i)), NOD), zero
            if g.kind in ("acos", "asin", "atan", "atan2") and set(cf) == {0} and cf[0].denominator == 1:
                c, s = self.P.invinfo[g.i]
                return self.tmul((c, s), int(cf[0]))
            if g.kind in ("asin", "atan") and set(cf) == {0} and cf[0].denominator == 2:
                # |angle| <= pi/2: the half angle has cosine sqrt((1 + c) / 2) > 0
                c, s = self.P.invinfo[g.i]
                half = (pconst(Fraction(1, 2)), NOD)
                ch = self.rsqrt(self.rmul(half, self.radd(one, c)), "half angle")
                sh = self.rmul(self.rmul(half, s), self.rinv(ch, "half angle"))
                return self.tmul((ch, sh), int(2 * cf[0]))
        # base angle
        base = self.P.base.get(m)
        if base is None:
            base = dict(cf)
            self.P.base[m] = base
        n = _ratio(cf, base)
        if n is None:
            raise GiveUp("incommensurable angles")
        if n.denominator != 1:
            # half-angle: rebase and restart
            self.P.base[m] = {k: c / n.denominator for k, c in base.items()}
            raise Split([])
        data = (m, tuple(sorted(self._cfpoly(base).items())))
        return self.tmul(self.trig_gens(data), int(n))

    def _cfpoly(self, cf):
        out = {}
        for k, c in cf.items():
            if k < 0:
                # represent 1/pi by a generator
                g = self.P.gen("ipi", (), "1/pi").i
                out[((g, -k),)] = c
            else:
                out[((self.P.pi.i, k),) if k else ONE_M] = c
        return out

    def trig_gens(self, data):
        s = self.P.gen("sin", data, "sin")
        c = self.P.gen("cos", data, "cos")
        return (self.red(pgen(c.i)), NOD), (self.red(pgen(s.i)), NOD)

    def trig_atom(self, key, a):
        g = self.P.gen("angle", key, "angle")
        data = (((g.i, 1),), ((ONE_M, Fraction(1)),))
        return self.trig_gens(data)

    def trig_const(self, k, c):
        one, zero = (pconst(1), NOD), ({}, NOD)
        if k == 1:
            n12 = c * 12
            if n12.denominator == 1:
                n = int(n12) % 24
                # multiples of 15 degrees
                n6 = n % 24
                half = (pconst(Fraction(1, 2)), NOD)
                s3 = self.rmul(half, self.sqrt_rational(Fraction(3)))
                s2 = self.rmul(half, self.sqrt_rational(Fraction(2)))
                tab = {0: (one, zero), 2: (s3, half), 3: (s2, s2), 4: (half, s3), 6: (zero, one)}
                q, r = divmod(n6, 6)
                if r in tab:
                    C, S = tab[r]
                    for _ in range(q):
                        C, S = self.rneg(S), C
                    return C, S
        bases = self.P.base.setdefault(("const", k), [])
        hit = None
        for eighth in (0, 2, -2, 4, -4, 6, -6, 1, -1, 3, -3, 5, -5, 7, -7) if k == 1 else (0,):
            r = c - Fraction(eighth, 4)
            for i, b in enumerate(bases):
                n = r / b
                if n.denominator <= 4 and abs(n.numerator) <= 16:
                    if n.denominator != 1:
                        bases[i] = b / n.denominator
                        raise Split([])
                    hit = (eighth, b, int(n))
                    break
            if hit:
                break
        if hit is None:
            eighth = 2 * round(2 * c) if k == 1 else 0
            hit = (eighth, c - Fraction(eighth, 4), 1)
            bases.append(hit[1])
        if hit != (0, c, 1):
            eighth, b, n = hit
            C, S = self.tmul(self.trig_const(k, b), n) if n else (one, zero)
            if eighth % 2:
                s2 = self.rmul((pconst(Fraction(1, 2)), NOD), self.sqrt_rational(Fraction(2)))
                C, S = self.rmul(s2, self.radd(C, self.rneg(S))), self.rmul(s2, self.radd(S, C))
            for _ in range(eighth // 2 % 4):
                C, S = self.rneg(S), C
            return C, S
        mono = ((self.P.pi.i, k),) if k > 0 else (((self.P.gen("ipi", (), "1/pi").i, -k),) if k < 0 else ONE_M)
        data = ((), ((mono, c),))
        s = self.P.gen("sin", data, "sinc")
        co = self.P.gen("cos", data, "cosc")
        return (self.red(pgen(co.i)), NOD), (self.red(pgen(s.i)), NOD)

    def tmul(self, cs, n):
        one, zero = (pconst(1), NOD), ({}, NOD)
        if n < 0:
            c, s = self.tmul(cs, -n)
            return c, self.rneg(s)
        out = (one, zero)
        for _ in range(n):
            out = _tadd(self, out, cs)
        return out

    def inv1(self, op, a, what):
        one = (pconst(1), NOD)
        key = (op, self.rkey(a))
        # special values
        if not a[1] and pisconst(a[0]):
            v = pcval(a[0])
            pi = pgen(self.P.pi.i)
            tab = {"acos": {1: 0, 0: Fraction(1, 2), -1: 1}, "asin": {0: 0, 1: Fraction(1, 2), -1: Fraction(-1, 2)},
                   "atan": {0: 0, 1: Fraction(1, 4), -1: Fraction(-1, 4)}}[op]
            if v in tab:
                return (pscale(pi, tab[v]), NOD)
        if op in ("acos", "asin"):
            one_m = self.radd(one, self.rneg(self.rmul(a, a)))
            N, D = one_m
            sq_ok = self.holds(self.cmp("le", a, one)) is True and self.holds(self.cmp("le", self.rneg(one), a)) is True
            if not sq_ok:
                c = self.cmp("le", self.rmul(a, a), one)
                if self.holds(c) is not True:
                    raise Illdefined(f"{op} of a value possibly outside [-1, 1] in {what}",
                                     c[1] if isinstance(c, tuple) and c[0] == "ge" else None, "ge")
            o = self.rsqrt(one_m, what) if N else ({}, NOD)
            info = (a, o) if op == "acos" else (o, a)
        else:
            h = self.rsqrt(self.radd(one, self.rmul(a, a)), what)
            ih = self.rinv(h, what)
            info = (ih, self.rmul(a, ih))
        return self.invgen(op, key[1], info)

    def invgen(self, op, key, info):
        if not hasattr(self.P, "invinfo"):
            self.P.invinfo = {}
        # canonical: identified by (cos, sin) so equal angles share a generator
        kk = (self.rkey(info[0]), self.rkey(info[1]))
        g = self.P.gen(op, kk, op)
        self.P.invinfo[g.i] = info
        return (pgen(g.i), NOD)

    def atan2(self, y, x):
        ny, nx = y[0], x[0]
        if not ny:
            s = self.rsign(x, strict=True)
            if s >= 0:
                return ({}, NOD)
            return (pgen(self.P.pi.i), NOD)
        r2 = self.radd(self.rmul(x, x), self.rmul(y, y))
        s = self.sgn(r2[0], nz=True)
        if s not in ("+", "-", "!"):
            # both zero?
            if s == "0":
                return ({}, NOD)
            raise Split([("ne", pkey(r2[0]))], [("eq", pkey(ny)), ("eq", pkey(nx))])
        rho = self.rsqrt(r2, "atan2")
        ir = self.rinv(rho, "atan2")
        return self.invgen("atan2", None, (self.rmul(x, ir), self.rmul(y, ir)))

    def floor(self, a):
        one = (pconst(1), NOD)
        if not a[1] and pisconst(a[0]):
            import math
            return (pconst(math.floor(pcval(a[0]))), NOD)
        key = ("floor", self.rkey(a))
        if key in self.memo:
            return self.memo[key]
        # small constant values
        for k in (0, -1, 1):
            kk = (pconst(k), NOD)
            lo = self.holds(self.cmp("le", kk, a))
            if lo is False:
                continue
            hi = self.holds(self.cmp("lt", a, self.radd(kk, one)))
            if lo and hi:
                self.memo[key] = kk
                return kk
        m1, p1 = (pconst(-1), NOD), (pconst(1), NOD)
        lo1 = self.holds(self.cmp("le", m1, a))
        if lo1 and self.holds(self.cmp("le", a, p1)):
            c = self.cmp("lt", a, ({}, NOD))
            if isinstance(c, tuple) and self.holds(c) is None:
                q = c[1]
                raise Split([("gt", pkey(q))], [("ge", pkey(pneg(q)))])
        if self.holds(self.cmp("le", ({}, NOD), a)) and self.holds(self.cmp("le", a, (pconst(2), NOD))):
            c = self.cmp("lt", a, p1)
            if isinstance(c, tuple) and self.holds(c) is None:
                q = c[1]
                raise Split([("gt", pkey(q))], [("ge", pkey(pneg(q)))])
        N, D = a
        g = self.P.gen("floor", (pkey(N), pkey(self.dpoly(D))), "floor")
        r = (self.red(pgen(g.i)), NOD)
        self.memo[key] = r
        return r

    # -- logarithms and powers --------------------------------------------------
    def log(self, a, what):
        """log of a positive rational function: sum over factors."""
        if self.rsign_known(a) != "+":
            raise Illdefined(f"log of a possibly nonpositive value in {what}", a[0], "gt")
        out = ({}, NOD)
        N, D = a
        c, fl = pfactor(N)
        parts = [(f, k) for f, k in fl] + [(f, -e) for f, e in D.values()]
        for f, k in parts:
            s = self.sgn(f)
            if s == "-":
                f, c = pneg(f), -c if k % 2 else c
                s = "+"
            if s != "+":
                raise GiveUp("log of a product of unknown signs")
            G = None
            if len(f) == 1:
                (m, cc), = f.items()
                if len(m) == 1 and m[0][1] == 1 and cc == 1:
                    G = self.P.gens[m[0][0]]
            if G is not None and G.kind == "pow":
                b, e = G.data
                out = self.radd(out, self.rmul((pconst(k), NOD), self.rmul(self.unkey(e), self.log(self.unkey(b), what))))
                continue
            if G is not None and G.kind == "sqrt":
                out = self.radd(out, self.rmul((pconst(Fraction(k, 2)), NOD), self.log((dict(G.data), NOD), what)))
                continue
            if G is not None and G.kind == "const" and G.data == "e":
                out = self.radd(out, (pconst(k), NOD))
                continue
            g = self.P.gen("log", pkey(f), "log")
            out = self.radd(out, (pscale(pgen(g.i), Fraction(k)), NOD))
        if c <= 0:
            raise GiveUp("log sign")
        for q, sg in ((c.numerator, 1), (c.denominator, -1)):
            p = 2
            while q > 1:
                while q % p == 0:
                    g = self.P.gen("log", pkey(pconst(p)), f"log{p}")
                    out = self.radd(out, (pscale(pgen(g.i), Fraction(sg)), NOD))
                    q //= p
                p += 1
                if p > 3000 and q > 1:
                    g = self.P.gen("log", pkey(pconst(q)), f"log{q}")
                    out = self.radd(out, (pscale(pgen(g.i), Fraction(sg)), NOD))
                    break
        return out

    def rsign_known(self, a):
        N, D = a
        s = self.sgn(N)
        for f, e in D.values():
            if e % 2:
                s = _smul(s, self.sgn(f)) if s else None
        return s

    def unkey(self, k):
        n, d = k
        D = {}
        for pk, e in d:
            D[pk] = (dict(pk), e)
        return (dict(n), D)

    def powr(self, b, e, isexp):
        """b ** e for positive b, e any rational function."""
        if not e[1] and pisconst(e[0]) and pcval(e[0]).denominator == 1 and not isexp:
            k = int(pcval(e[0]))
            r = self.rpow(b, abs(k))
            return r if k >= 0 else self.rinv(r, "pow")
        if not isexp and self.rsign_known(b) != "+":
            raise Illdefined("power of a possibly nonpositive base", b[0], "gt")
        # exponent * log(base): look for logs cancelling
        L = ({ONE_M: Fraction(1)}, NOD) if isexp else self.log(b, "pow")
        E = self.rmul(e, L)
        # E = const logs + sum q_i log(a_i) + rest
        out = (pconst(1), NOD)
        if not E[1]:
            rest = {}
            for m, c in E[0].items():
                if len(m) == 1 and m[0][1] == 1 and self.P.gens[m[0][0]].kind == "log":
                    f = dict(self.P.gens[m[0][0]].data)
                    if c.denominator == 1:
                        v = self.rpow((f, NOD), abs(int(c)))
                        out = self.rmul(out, v if c > 0 else self.rinv(v, "pow"))
                        continue
                    if c.denominator == 2:
                        v = self.rsqrt(self.rpow((f, NOD), abs(c.numerator)), "pow")
                        out = self.rmul(out, v if c > 0 else self.rinv(v, "pow"))
                        continue
                rest[m] = c
            if not rest:
                return out
            E = (rest, NOD)
            if not isexp:
                # b ** (rest / log b); split the additive constant off
                R = self.rmul(E, self.rinv_nocheck(L))
                if not R[1]:
                    const = R[0].get(ONE_M, Fraction(0))
                    ip = const.numerator // const.denominator
                    if ip:
                        v = self.rpow(b, abs(ip))
                        out = self.rmul(out, v if ip > 0 else self.rinv(v, "pow"))
                        R = (padd(R[0], pconst(-ip)), NOD)
                if not R[0]:
                    return out
                g = self.P.gen("pow", (self.rkey(b), self.rkey(R)), "pow")
                return self.rmul(out, (pgen(g.i), NOD))
        bk = b
        g = self.P.gen("pow", (self.rkey(bk), self.rkey(e)), "pow")
        return (pgen(g.i), NOD)

    def rinv_nocheck(self, a):
        N, D = a
        c, fl = pfactor(N) if not pisconst(N) else (pcval(N), [])
        E = {pkey(f): (f, k) for f, k in fl}
        return self.rmul((pconst(1 / c), E), (self.dpoly(D), NOD))

    # -- goals ---------------------------------------------------------------------
    def check(self, goal):
        if self.inf:
            return ("proved", "smt")
        used = set()
        r = self.goal(goal, used)
        if r is True:
            return ("proved", "smt" if "smt" in used else "field")
        return ("failed", r[0], r[1])

    def goal(self, t, used):
        o = t.op
        if o == "true":
            return True
        if o == "and":
            for a in t.args:
                r = self.goal(a, used)
                if r is not True:
                    return r
            return True
        if o == "or":
            # A or B or C : assume the negation of all but the last non-atomic one
            *hyp, last = sorted(t.args, key=lambda a: a.op in ("eq", "and"))
            new = [("T", tm.not_(h)) for h in hyp]
            sub = Leaf(self.P, self.facts + new)
            sub.load()
            if sub.inf:
                used.add("smt")
                return True
            return sub.goal(last, used)
        if o == "eq" and not t.args[0].isbool:
            a, b = self.nf(t.args[0]), self.nf(t.args[1])
            d = self.radd(a, self.rneg(b))
            if not d[0]:
                return True
            return self.eqgoal(d, used, t)
        if o == "ite":
            return self.goal(t.args[1] if self.decide(t.args[0]) else t.args[2], used)
        c = self.con(t)
        if c is True:
            return True
        if c is False:
            if self.infeasible():
                used.add("smt")
                return True
            return (f"refuted: {tm.show(t, 6)}", self.model([]))
        used.add("smt")
        h = self.holds(c)
        if h is True:
            return True
        if self.infeasible():
            return True
        e = self.zcon(c)
        return (f"not implied: {tm.show(t, 6)}", self.model([self.znot(e)], self.cgens(c)))

    def eqgoal(self, d, used, t):
        used.add("smt")
        if self.infeasible():
            return True
        # an angle identity: cos d = 1 and |d| < 2 pi
        N, D = d
        for scale in (pconst(1), {((self.P.pi.i, 1),): Fraction(1, 180)}):
            try:
                a = self.rmul(d, (scale, NOD))
                if not any(self.P.gens[g].kind in ("acos", "asin", "atan", "atan2") for g in pgens(a[0])):
                    continue
                C, _S = self.trig(a)
                if not self.radd(C, (pconst(-1), NOD))[0]:
                    two = (pscale(pgen(self.P.pi.i), 2), NOD)
                    if self.holds(self.cmp("lt", a, two)) and self.holds(self.cmp("lt", self.rneg(two), a)):
                        return True
                # or equal to -1 nowhere: try sign cases of the sine
            except (GiveUp, Illdefined):
                pass
        gs = pgens(N)
        r, m = self.query([self.zrel("ne", N)], gs, self.P.smt_timeout * 2, model=True)
        if r == "unsat":
            return True
        return (f"equality not established ({r}): {tm.show(t, 6)}", self.zmodel(m))

    def model(self, extra, gens=()):
        gs = set(gens)
        for c in self.cons:
            gs |= self.cgens(c)
        try:
            r, m = self.query(extra, gs, self.P.smt_timeout * 2, model=True)
        except GiveUp:
            return None
        return self.zmodel(m)

    def model_for_illdefined(self, e):
        if e.poly is None:
            return self.model([])
        neg = self.zrel({"ne": "eq", "ge": "lt", "gt": "le"}[e.rel], e.poly)
        return self.model([neg], pgens(e.poly))

    def zmodel(self, m):
        if m is None:
            return None
        out = {}
        for g in self.P.gens:
            if g.kind == "var":
                v = m.eval(self.zv(g.i), model_completion=True)
                try:
                    if z3.is_rational_value(v):
                        out[g.data] = float(Fraction(v.numerator_as_long(), v.denominator_as_long()))
                    else:
                        a = v.approx(20)
                        out[g.data] = float(Fraction(a.numerator_as_long(), a.denominator_as_long()))
                except Exception:  # noqa: BLE001
                    pass
        # angles: recover from sin/cos generators of single variables
        return out


def _ratio(cf, base):
    ks = set(cf)
    if ks != set(base):
        return None
    r = None
    for k in ks:
        q = cf[k] / base[k]
        if r is None:
            r = q
        elif r != q:
            return None
    return r


def _tadd(L, a, b):
    (c1, s1), (c2, s2) = a, b
    C = L.radd(L.rmul(c1, c2), L.rneg(L.rmul(s1, s2)))
    S = L.radd(L.rmul(s1, c2), L.rmul(c1, s2))
    return C, S


def _smul(a, b):
    if a is None or b is None:
        return None
    if a == "0" or b == "0":
        return "0"
    if a == "!" or b == "!":
        if a in ("!", "+", "-") and b in ("!", "+", "-"):
            return "!"
        return None
    neg = (a in ("-", "<=")) != (b in ("-", "<="))
    weak = a in (">=", "<=") or b in (">=", "<=")
    if weak:
        return "<=" if neg else ">="
    return "-" if neg else "+"


def _sadd(a, b):
    if a == "0":
        return b
    if b == "0":
        return a
    P, N = ("+", ">="), ("-", "<=")
    if a in P and b in P:
        return "+" if "+" in (a, b) else ">="
    if a in N and b in N:
        return "-" if "-" in (a, b) else "<="
    return None


def _meet(a, b):
    s = {a, b}
    if s == {">=", "<="}:
        return "0"
    if s == {">=", "!"}:
        return "+"
    if s == {"<=", "!"}:
        return "-"
    return a if a in ("+", "-", "0") else b
