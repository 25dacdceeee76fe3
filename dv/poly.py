"""Sparse multivariate polynomials over Q.  Monomial: sorted tuple ((gen, exp), ...)."""
from __future__ import annotations

import sys
from fractions import Fraction

_VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if _VT not in sys.path:
    sys.path.append(_VT)

ONE_M = ()


def pconst(c):
    return {ONE_M: Fraction(c)} if c else {}


def pgen(g, e=1):
    return {((g, e),): Fraction(1)}


def padd(a, b):
    if not a:
        return b
    if not b:
        return a
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def pneg(a):
    return {m: -c for m, c in a.items()}


def pscale(a, k):
    return {m: c * k for m, c in a.items()} if k else {}


def mmul(m, n):
    if not m:
        return n
    if not n:
        return m
    i = j = 0
    r = []
    while i < len(m) and j < len(n):
        if m[i][0] == n[j][0]:
            e = m[i][1] + n[j][1]
            if e:
                r.append((m[i][0], e))
            i += 1
            j += 1
        elif m[i][0] < n[j][0]:
            r.append(m[i])
            i += 1
        else:
            r.append(n[j])
            j += 1
    r.extend(m[i:])
    r.extend(n[j:])
    return tuple(r)


def pmul(a, b):
    if len(a) > len(b):
        a, b = b, a
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = mmul(m, n)
            v = r.get(k, 0) + c * d
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    return r


def ppow(a, k):
    r = pconst(1)
    while k:
        if k & 1:
            r = pmul(r, a)
        a = pmul(a, a)
        k >>= 1
    return r


def pisconst(a):
    return not a or (len(a) == 1 and ONE_M in a)


def pcval(a):
    return a.get(ONE_M, Fraction(0))


def pgens(a):
    return {g for m in a for g, _ in m}


def pkey(a):
    return tuple(sorted(a.items()))


def pdeg(a, g):
    return max((dict(m).get(g, 0) for m in a), default=0)


def pcoeffs(a, g):
    """Coefficients of `a` as a polynomial in g: {exp: poly}."""
    out = {}
    for m, c in a.items():
        e = 0
        rest = []
        for h, k in m:
            if h == g:
                e = k
            else:
                rest.append((h, k))
        out.setdefault(e, {})[tuple(rest)] = c
    return out


def _lead(a):
    # a fixed monomial order: graded by (tuple compare on dense) -- lex via key
    return max(a, key=_mkey)


def _mkey(m):
    # lex order with larger generator index more significant
    return tuple(sorted(((g, e) for g, e in m), reverse=True))


def mdiv(m, n):
    d = dict(m)
    for g, e in n:
        k = d.get(g, 0) - e
        if k < 0:
            return None
        if k:
            d[g] = k
        else:
            d.pop(g, None)
    return tuple(sorted(d.items()))


def pdivexact(a, b):
    """a / b if exact, else None."""
    if not b:
        return None
    if pisconst(b):
        return pscale(a, 1 / pcval(b))
    if len(b) == 1:
        (n, d), = b.items()
        r = {}
        for m, c in a.items():
            q = mdiv(m, n)
            if q is None:
                return None
            r[q] = c / d
        return r
    # quick test on degrees
    for g in pgens(b):
        if pdeg(a, g) < pdeg(b, g):
            return None if a else {}
    q = {}
    r = dict(a)
    lb = _lead(b)
    cb = b[lb]
    steps = 0
    while r:
        la = _lead(r)
        k = mdiv(la, lb)
        if k is None:
            return None
        c = r[la] / cb
        q[k] = c
        r = padd(r, pneg(pmul({k: c}, b)))
        steps += 1
        if steps > 4000:
            return None
    return q


_FACT = {}


def pfactor(a):
    """(constant, [(irreducible poly, multiplicity), ...]) over Q."""
    if pisconst(a):
        return pcval(a), []
    key = pkey(a)
    if key in _FACT:
        return _FACT[key]
    # split off monomial content first
    gs = sorted(pgens(a))
    cont = {}
    for g in gs:
        e = min(dict(m).get(g, 0) for m in a)
        if e:
            cont[g] = e
    b = a
    if cont:
        n = tuple(sorted(cont.items()))
        b = {mdiv(m, n): c for m, c in a.items()}
    facs = [(pgen(g), e) for g, e in cont.items()]
    c0 = Fraction(1)
    if pisconst(b):
        c0 = pcval(b)
    elif len(b) > 400:
        facs.append((b, 1))
    else:
        from sympy import QQ
        from sympy.polys.rings import PolyRing
        from sympy.polys.orderings import lex
        hs = sorted(pgens(b))
        R = PolyRing([f"g{h}" for h in hs], QQ, lex)
        idx = {h: i for i, h in enumerate(hs)}
        p = R.zero
        d = {}
        for m, c in b.items():
            e = [0] * len(hs)
            for g, k in m:
                e[idx[g]] = k
            d[tuple(e)] = QQ(c.numerator, c.denominator)
        p = R.from_dict(d)
        cc, fl = p.factor_list()
        c0 = Fraction(int(cc.numerator), int(cc.denominator))
        for f, k in fl:
            q = {}
            for e, c in f.terms():
                q[tuple((hs[i], x) for i, x in enumerate(e) if x)] = Fraction(int(c.numerator), int(c.denominator))
            # normalise: leading coefficient 1
            l = q[_lead(q)]
            q = pscale(q, 1 / l)
            c0 *= l**k
            facs.append((q, k))
    _FACT[key] = (c0, facs)
    return c0, facs


def peval(a, env):
    s = 0.0
    for m, c in a.items():
        v = float(c)
        for g, e in m:
            v *= env[g] ** e
        s += v
    return s
