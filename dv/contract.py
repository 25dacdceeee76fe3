"""Contracts, obligations, and how one contract is discharged."""
from __future__ import annotations

import math
import os
import random
import time
import traceback

import numpy as np

from . import terms as tm
from .decide import Prover, Stats
from .interp import Unsupported
from .numeric import Evaluator, admits, evalm, holds


class Var:
    """A symbolic input: `shape` elements, each an independent real variable."""

    def __init__(self, name, shape=(), kind="real", lo=None, hi=None, special=()):
        self.name, self.shape, self.kind, self.lo, self.hi, self.special = name, tuple(shape), kind, lo, hi, tuple(special)

    def terms(self):
        a = np.empty(self.shape, dtype=object)
        for i in np.ndindex(self.shape):
            a[i] = tm.var(self.ename(i))
        return a

    def ename(self, i):
        return self.name + ("[" + ",".join(map(str, i)) + "]" if self.shape else "")

    def sample(self, rng):
        a = np.empty(self.shape)
        for i in np.ndindex(self.shape):
            a[i] = self.one(rng)
        return a

    def one(self, rng):
        r = rng.random()
        if self.special and r < 0.25:
            return float(rng.choice(self.special))
        lo, hi = self.lo, self.hi
        if self.kind == "deg":
            lo = -720.0 if lo is None else lo
            hi = 720.0 if hi is None else hi
            if r < 0.45:
                v = float(rng.choice([-450, -360, -270, -180, -90, -45, 0, 30, 45, 90, 135, 180, 225, 270, 300, 360, 450, 720]))
                if lo <= v <= hi:
                    return v
            return rng.uniform(lo, hi)
        if self.kind == "rad":
            lo = -4 * math.pi if lo is None else lo
            hi = 4 * math.pi if hi is None else hi
            return rng.uniform(lo, hi)
        if lo is not None and hi is not None:
            return rng.uniform(lo, hi)
        if lo is not None:
            if r < 0.4:
                return lo + rng.choice([0.5, 1.0, 2.0, 3.0, 10.0])
            return lo + math.exp(rng.uniform(-3, 3))
        if hi is not None:
            return hi - math.exp(rng.uniform(-3, 3))
        if r < 0.35:
            return float(rng.choice([-3, -2, -1, 0, 0, 1, 2, 3]))
        return rng.choice([-1, 1]) * math.exp(rng.uniform(-3, 3))


class Contract:
    """A contract on functions of /repo, at one static configuration.

    run(a, meta)      call the real code on arrays `a`; returns {label: array}
    pre(v)            assumptions on the inputs
    post(v, o, meta)  [(label, goal)] over inputs v and outputs o (object arrays)
    raises(v)         None: must not raise.  Otherwise a term: raises iff it holds
    static(meta, w)   [(label, ok, detail)] facts settled by extraction alone
    """

    def __init__(self, name, targets, vars, run, post=None, pre=None, raises=None, static=None, timeout=None, samples=None,
                 rtol=1e-7, uses=(), bounded=None, cost=1.0, assumes=(), xpost=None, ref=None, xonly=False):
        self.name, self.targets, self.vars, self.run = name, list(targets), list(vars), run
        self.post = post or (lambda v, o, m: [])
        self.pre = pre or (lambda v: [])
        self.raises, self.static = raises, static
        self.timeout = timeout
        self.samples = samples
        self.rtol = rtol
        self.uses = uses
        self.bounded = bounded
        self.cost = cost
        self.assumes = list(assumes)
        self.ref = ref  # reference composition of functions verified by their own contracts
        self.xpost = xpost  # further goals, checked on executions only
        self.xonly = xonly  # executions check `xpost` alone (`post` up to rounding)

    def inputs(self):
        return {v.name: v.terms() for v in self.vars}


# ---------------------------------------------------------------------------


def flat_env(vars, arrs):
    env = {}
    for v in vars:
        for i in np.ndindex(v.shape):
            env[v.ename(i)] = float(arrs[v.name][i])
    return env


def call_real(c, arrs):
    """Run the contract's program eagerly on the real code (the latest results are kept)."""
    key = tuple((k, np.asarray(v, dtype=float).tobytes()) for k, v in sorted(arrs.items()))
    memo = c.__dict__.setdefault("_memo", {})
    if key not in memo:
        if len(memo) > 8:
            memo.clear()
        memo[key] = _call_real(c, arrs)
    return memo[key]


def _call_real(c, arrs):
    import jax.numpy as jnp
    import warnings
    meta = {}
    try:
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter("always")
            ins = {k: jnp.asarray(v) for k, v in arrs.items()}
            out = c.run(ins, meta)
            if c.ref is not None:
                out = {**out, **c.ref(ins, meta)}
            out = {k: np.asarray(v, dtype=float) for k, v in out.items()}
        return ("ok", out, meta, [(w.category.__name__, str(w.message)) for w in ws])
    except Exception as e:  # noqa: BLE001
        return ("raise", e, meta, [])


def out_vars(outs):
    o = {}
    for k, a in outs.items():
        b = np.empty(np.shape(a), dtype=object)
        for i in np.ndindex(b.shape):
            b[i] = tm.var(f"out:{k}{list(i) if i else ''}")
        o[k] = b
    return o


def admitted(c, env):
    """Is the concrete input inside the precondition (with a margin)?"""
    pre = [p for p in c.pre(c.inputs()) if p is not tm.TRUE]
    if not pre:
        return True
    ev = Evaluator(pre, env, _ufs_for(c))
    return all(admits(q, ev) for q in pre)


def check_real(c, arrs):
    """Evaluate the contract on one concrete execution of the real code.

    Returns None if satisfied (or the precondition fails), else a description.
    """
    v = c.inputs()
    env = flat_env(c.vars, arrs)
    if not admitted(c, env):
        return None
    ufs = _ufs_for(c)
    want = None
    if c.raises is not None:
        r = c.raises(v)
        ev = Evaluator([r], env, ufs)
        want = bool(ev(r))
        if ev.err(r):
            return None  # too close to the boundary for floats to tell
    st, out, meta, ws = call_real(c, arrs)
    if st == "raise":
        if want:
            return None
        e = out
        msg = str(e).strip().replace("\n", " ")[:300]
        return f"raised {type(e).__name__}: {msg}"
    if want:
        return "accepted an input that must be refused"
    if c.static is not None:
        for lab, ok, detail in c.static(meta, ws):
            if not ok:
                return f"{lab}: {detail}"
    ov = out_vars(out)
    try:
        goals = [] if c.xonly else list(c.post(v, ov, meta))
        if c.xpost is not None:
            goals += list(c.xpost(v, ov, meta))
    except Exception as e:  # noqa: BLE001
        return f"postcondition cannot be evaluated on the result: {type(e).__name__}: {str(e)[:200]}"

    def judge(errs):
        e2 = dict(env)
        er = {}
        for k, a in out.items():
            for i in np.ndindex(a.shape):
                n = f"out:{k}{list(i) if i else ''}"
                e2[n] = float(a[i])
                er[n] = 8 * 2.3e-16 * abs(float(a[i])) + (float(errs[k][i]) if errs else 0.0)
        ev = Evaluator([g for _, g in goals], e2, ufs, er)
        for lab, g in goals:
            h = holds(g, ev, c.rtol)
            if h is not True:
                return f"postcondition '{lab}' {'undefined (NaN)' if h is None else 'violated'}; outputs " + \
                    str({k: np.round(a, 9).tolist() for k, a in out.items()})[:600]
        return None

    d = judge(None)
    if d is None or "undefined" in d:
        return d
    # sensitivity of the outputs to rounding in the inputs
    diffs = []
    rng = random.Random(7)
    for _k in range(5):
        pert = {}
        for k, x in arrs.items():
            x = np.asarray(x, dtype=float)
            e = np.array([rng.choice([-1.0, 1.0, 0.5, -0.5]) for _ in range(x.size)]).reshape(x.shape)
            pert[k] = np.where(x == 0.0, 1e-15 * e, x * (1 + 1e-13 * e))
        st2, out2, _m, _w = call_real(c, pert)
        if st2 == "ok" and all(k in out2 and out2[k].shape == a.shape for k, a in out.items()):
            diffs.append({k: np.abs(np.nan_to_num(out2[k] - a, nan=0.0)) for k, a in out.items()})
    if not diffs:
        return d
    errs = {k: np.median([x[k] for x in diffs], axis=0) for k in out}
    return judge(errs)


def sample_inputs(c, rng, n, tries=40):
    """Inputs satisfying the precondition."""
    got = []
    for _ in range(n * tries):
        if len(got) >= n:
            break
        arrs = c.samples(rng) if c.samples else {x.name: x.sample(rng) for x in c.vars}
        arrs = {k: np.array(a, dtype=float) for k, a in arrs.items()}
        env = flat_env(c.vars, arrs)
        if admitted(c, env):
            got.append((arrs, env))
    return got


class Result:
    def __init__(self, name, targets):
        self.name, self.targets = name, targets
        self.obligations = []  # dicts: name, status, backend, time
        self.violations = []  # dicts: obligation, kind, input, detail
        self.bounded = None
        self.notes = []
        self.error = None
        self.stats = {}
        self.prims = []
        self.neqns = 0
        self.samples_checked = 0
        self.wall = 0.0
        self.assumes = []


def discharge(c: Contract, seed=1, tier="quick"):
    """Generate and discharge every obligation of a contract."""
    t_start = time.time()
    res = Result(c.name, c.targets)
    res.assumes = c.assumes
    st = Stats()
    rng = random.Random(f"{seed}:{c.name}")
    try:
        _discharge(c, res, st, rng, tier)
    except Exception as e:  # noqa: BLE001
        res.error = f"{type(e).__name__}: {e}\n{traceback.format_exc()[-1500:]}"
    res.stats = dict(smt_calls=st.smt_calls, smt_time=round(st.smt_time, 3), leaves=st.leaves, field=st.field, smt=st.smt)
    res.wall = time.time() - t_start
    return res


def _bounded(c, res, rng, n, why):
    """Fallback: execute the contract on sampled inputs (labelled bounded)."""
    res.bounded = why
    ins = sample_inputs(c, rng, n)
    for arrs, _ in ins:
        d = check_real(c, arrs)
        res.samples_checked += 1
        if d is not None:
            res.violations.append(dict(obligation="bounded:" + c.name, kind="input", detail=d,
                                       input={k: np.asarray(v).tolist() for k, v in arrs.items()}))
            return


def _discharge(c, res, st, rng, tier):
    from . import trace
    nreal = (3 if c.xpost is not None or c.xonly else 2) if tier == "quick" else 25
    specs = [(v.name, v.terms()) for v in c.vars]
    if c.bounded:
        _bounded(c, res, rng, 30 if tier == "quick" else 300, c.bounded)
        return
    ins = sample_inputs(c, rng, nreal)
    if not ins:
        res.error = "vacuous: no input satisfies the precondition"
        return
    # 1. the contract on real, concrete executions (cheap; also the replay oracle)
    for arrs, _env in ins:
        d = check_real(c, arrs)
        res.samples_checked += 1
        if d is not None:
            res.violations.append(dict(obligation="execution", kind="input", detail=d,
                                       input={k: np.asarray(v).tolist() for k, v in arrs.items()}))
            return
    # 2. extraction
    try:
        paths = trace.extract(c.run, specs)
    except Unsupported as e:
        _bounded(c, res, rng, 60 if tier == "quick" else 600, f"not extractable: {e}")
        return
    v = c.inputs()
    pre = c.pre(v)
    if c.ref is not None:
        # the reference's own obligations are those of the contracts it is made of
        try:
            rp = trace.extract(c.ref, specs)
        except Unsupported as e:
            _bounded(c, res, rng, 60 if tier == "quick" else 600, f"reference not extractable: {e}")
            return
        rp = [q for q in rp if q.status == "ok"]
        if len(rp) != 1:
            _bounded(c, res, rng, 60 if tier == "quick" else 600, "reference branches")
            return
        for p in paths:
            if p.status == "ok":
                p.outs = {**p.outs, **rp[0].outs}
                p.meta = {**p.meta, **rp[0].meta}
        pre = [*pre, *[tm.not_(g) for g in rp[0].guards], rp[0].cond]
    want = c.raises(v) if c.raises is not None else None
    res.neqns = sum(p.neqns for p in paths)
    res.prims = sorted(set().union(*[p.prims for p in paths])) if paths else []
    # 2b. the extracted terms must reproduce the real executions
    for arrs, env in ins:
        bad = crosscheck(c, paths, arrs, env)
        if bad:
            _bounded(c, res, rng, 60 if tier == "quick" else 600, f"extraction disagrees with execution: {bad}")
            return
    # 3. obligations
    obs = []
    for k, p in enumerate(paths):
        tag = f"path{k}:" if len(paths) > 1 else ""
        base = [*pre, p.cond]
        if p.status == "raise":
            if want is None:
                obs.append((tag + f"unreachable[{type(p.exc).__name__}: {str(p.exc)[:80]}]", base, tm.FALSE, p))
            else:
                obs.append((tag + "raises-only-if", base, want, p))
            continue
        gs = p.guards
        if want is None:
            for j, g in enumerate(gs):
                obs.append((tag + f"no-raise[{j}]", base, tm.not_(g), p))
            noraise = []
        else:
            any_raise = tm.or_(*gs) if gs else tm.FALSE
            obs.append((tag + "raises-only-if", [*base, any_raise], want, p))
            obs.append((tag + "raises-if", [*base, want], any_raise, p))
            noraise = [tm.not_(want)]
        if c.static is not None:
            for lab, ok, detail in c.static(p.meta, p.warns):
                obs.append((tag + "static:" + lab, base, tm.TRUE if ok else tm.FALSE, (p, detail)))
        for lab, g in c.post(v, p.outs, p.meta):
            obs.append((tag + lab, base + noraise, g, p))
    if not obs:
        res.error = "vacuous: no obligations"
        return
    tl = c.timeout or (120.0 if tier == "quick" else 600.0)
    provers = {}
    for name, ass, goal, p in obs:
        t0 = time.time()
        if goal is tm.TRUE or any(a is tm.FALSE for a in ass):
            res.obligations.append(dict(name=name, status="proved", backend="extraction", time=0.0))
            continue
        used = set()
        r = None
        known = {id(x) for a in ass for x in conjuncts(a)}
        for part in conjuncts(goal):
            if part is tm.TRUE or id(part) in known:
                used.add("trivial")
                r = dict(status="proved", backend="trivial")
                continue
            pk = tuple(id(a) for a in ass if a is not tm.TRUE)
            pr = provers.get(pk)
            if pr is None:
                if len(provers) > 4:
                    provers.clear()
                pr = provers[pk] = Prover([a for a in ass if a is not tm.TRUE], stats=st, smt_timeout=4000 if tier == "quick" else 20000)
            if part.op == "or":
                hit = one_of(part, ass, known, st, provers)
                if hit:
                    used.add(hit)
                    r = dict(status="proved", backend=hit)
                    continue
            pr.time_limit = max(1.0, tl - (time.time() - t0))
            try:
                r = pr.prove(part)
            except RecursionError:
                r = dict(status="unknown", why="recursion", model=None)
            if r["status"] != "proved":
                goal = part
                break
            used.add(r["backend"])
        else:
            r = dict(status="proved", backend="smt" if "smt" in used else "field" if "field" in used else "trivial")
        ob = dict(name=name, status=r["status"], backend=r.get("backend"), time=round(time.time() - t0, 3))
        res.obligations.append(ob)
        if r["status"] == "proved":
            continue
        ob["why"] = r.get("why", "")[:400]
        viol = dict(obligation=name, kind="proof", detail=ob["why"], input=None,
                    verifier=dict(status=r["status"], why=r.get("why"), model=r.get("model"),
                                  case=[str(f)[:300] for f in r.get("facts", [])][:20]))
        hit = search(c, paths, goal, ass, r.get("model"), rng, 1500 if tier == "quick" else 10000)
        if hit is not None:
            viol.update(kind="input", input=hit[0], detail=hit[1])
        elif r["status"] == "unknown":
            # a tool limit is not a refutation: more executions stand in
            viol["kind"] = "undecided"
            if not any(v["kind"] == "undecided" for v in res.violations):
                for arrs, _env in sample_inputs(c, rng, 150):
                    d = check_real(c, arrs)
                    res.samples_checked += 1
                    if d is not None:
                        viol.update(kind="input", detail=d, input={k: np.asarray(x).tolist() for k, x in arrs.items()})
                        hit = arrs
                        break
        res.violations.append(viol)
        if hit is not None or len(res.violations) >= 3:
            return


def free(t, memo={}):  # noqa: B006
    """Variables of a term."""
    if t.id not in memo:
        memo[t.id] = frozenset([t.id]) if t.op in ("var", "uf") and not t.args else frozenset().union(*[free(a) for a in t.args])
    return memo[t.id]


def one_of(goal, ass, known, st, cache):
    """Prove a disjunction by one of its members alone, from the simple assumptions."""
    light = [x for a in ass for x in conjuncts(a) if x is not tm.TRUE and x.op not in ("or", "not", "and") and not (x.op in ("le", "lt") and x.args[0].op == "abs")]
    key = ("light", *(id(x) for x in light))
    pr = cache.get(key)
    if pr is None:
        pr = cache[key] = Prover(light, stats=st, smt_timeout=1000, max_leaves=8)
    kn = {x.args[0].id: x.args[1].val for a in ass for x in conjuncts(a) if x.op == "le" and tm.isnum(x.args[1])}
    for alt in goal.args:
        used = set()
        for part in conjuncts(alt):
            if part is tm.TRUE or id(part) in known:
                used.add("trivial")
            elif part.op == "le" and tm.isnum(part.args[1]) and kn.get(part.args[0].id, part.args[1].val + 1) <= part.args[1].val:
                used.add("trivial")
            elif part.op in ("or", "not"):
                break
            else:
                if part.op in ("le", "lt"):  # from the bounds on the same variables
                    vs = free(part)
                    q = Prover([x for a in ass for x in conjuncts(a) if x.op in ("le", "lt") and free(x) and free(x) <= vs], stats=st, smt_timeout=1000, max_leaves=16)
                else:
                    q = pr
                q.time_limit = 10.0
                try:
                    r = q.prove(part)
                except RecursionError:
                    break
                if r["status"] != "proved":
                    break
                used.add(r["backend"])
        else:
            return "smt" if "smt" in used else "field" if "field" in used else "trivial"
    return None


def conjuncts(t):
    if t.op == "and":
        return [y for x in t.args for y in conjuncts(x)]
    return [t]


def crosscheck(c, paths, arrs, env):
    st, out, _m, _w = call_real(c, arrs)
    live = []
    ufs = _ufs_for(c)
    for p in paths:
        ev = Evaluator([p.cond], env, ufs)
        if ev(p.cond):
            live.append(p)
        elif ev.err(p.cond):
            return None
    if len(live) != 1:
        return f"{len(live)} paths for one input"
    p = live[0]
    ev = Evaluator([p.cond, *p.guards], env, ufs)
    if ev.err(p.cond) or any(ev.err(g) for g in p.guards):
        return None  # too close to a branch for floats to tell
    raised = p.status == "raise" or any(bool(ev(g)) for g in p.guards)
    if st == "raise":
        return None if raised else f"real code raised {out!r:.200}, extraction does not"
    if raised:
        return "extraction raises, real code does not"
    for k, a in p.outs.items():
        if k not in out or out[k].shape != a.shape:
            return f"output {k}"
        ev = Evaluator(list(a.ravel()), env, ufs)
        for t, y in zip(a.ravel(), out[k].ravel(), strict=True):
            x, e = float(ev(t)), float(ev.err(t))
            if (x != x) != (y != y):
                # undefined in the reals, or rounding at a domain edge
                continue
            if x == x and abs(x - y) > 1e-6 * max(1.0, abs(x), abs(y)) + 100 * e:
                return f"output {k}: {x} vs {y}"
    return None


def _ufs_for(c):
    from .trace import _opaque_impl

    def ufs(val, args):
        fname, idx = val
        n = idx + 1
        out = _opaque_impl(np.array(args, dtype=float), fname=fname, shapes=((n,),))
        return float(out[0][idx])

    return ufs


def search(c, paths, goal, ass, model, rng, n):
    """Look for an input on which the real code breaks the contract."""
    cands = []
    if model:
        for k in range(6):
            arrs = c.samples(rng) if c.samples else {x.name: x.sample(rng) for x in c.vars}
            arrs = {k2: np.array(a, dtype=float) for k2, a in arrs.items()}
            for x in c.vars:
                for i in np.ndindex(x.shape):
                    if x.ename(i) in model:
                        val = model[x.ename(i)]
                        arrs[x.name][i] = val
            cands.append(arrs)
    ufs = _ufs_for(c)
    for arrs in cands:
        try:
            d = check_real(c, arrs)
        except Exception:  # noqa: BLE001
            continue
        if d is not None:
            return {k: np.asarray(v).tolist() for k, v in arrs.items()}, d
    hits = 0
    roots = [goal, *ass]
    t_end = time.time() + 20
    for arrs, env in sample_inputs(c, rng, n, tries=3):
        if time.time() > t_end:
            break
        try:
            ev = Evaluator(roots, env, ufs)
            if any(not ev(a) for a in ass):
                continue
            h = holds(goal, ev, c.rtol)
        except Exception:  # noqa: BLE001
            h = None
        if h is True:
            continue
        hits += 1
        d = check_real(c, arrs)
        if d is not None:
            return {k: np.asarray(v).tolist() for k, v in arrs.items()}, d
        if hits > 40:
            break
    # plain executions
    t_end = time.time() + 15
    for arrs, _ in sample_inputs(c, rng, 40):
        if time.time() > t_end:
            break
        d = check_real(c, arrs)
        if d is not None:
            return {k: np.asarray(v).tolist() for k, v in arrs.items()}, d
    return None


_ = os, math, evalm
