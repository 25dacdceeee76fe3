"""Check runner: discharges all contracts of one property, writes the evidence."""
from __future__ import annotations

import argparse
import json
import multiprocessing as mp
import os
import re
import sys
import time
from multiprocessing.connection import wait
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent

TRUSTED = [
    "dv/interp.py: meaning given to each jaxpr primitive (cross-checked every run against execution of the real code)",
    "dv/decide.py: case analysis and field normal form; z3 4.x for order facts",
    "JAX tracing: the jaxpr is what the traced Python function computes (cross-checked on sampled inputs)",
    "equinox.error_if branches are treated as raising exactly when their predicate holds",
    "unxt/astropy unit conversion factors are recognised as the exact rational multiples of powers of pi they round",
    "machine arithmetic treated as exact real arithmetic (x64)",
]


def load_known():
    out = []
    p = ROOT / "known-findings.txt"
    if p.exists():
        for ln in p.read_text().splitlines():
            m = re.match(r'known: property=(\S+) contract="([^"]+)"(?: obligation="([^"]+)")? :: (.*)', ln.strip())
            if m:
                out.append(dict(property=m[1], contract=m[2], obligation=m[3], what=m[4]))
    return out


def known_for(known, prop, contract, v):
    for k in known:
        if k["property"] == prop and k["contract"] == contract and (k["obligation"] is None or k["obligation"] in v["obligation"] or k["obligation"] in str(v.get("detail"))):
            return k
    return None


class Pool:
    def __init__(self, n, module, tier, seed):
        self.ctx = mp.get_context("spawn")
        self.args = (module, tier, seed)
        self.n = n
        self.ws = []

    def spawn(self):
        a, b = self.ctx.Pipe()
        from .worker import main
        p = self.ctx.Process(target=main, args=(b, *self.args), daemon=True)
        p.start()
        b.close()
        w = dict(conn=a, proc=p, task=None, since=time.time(), ready=False)
        self.ws.append(w)
        return w

    def kill(self, w):
        try:
            w["proc"].kill()
            w["proc"].join(5)
            w["conn"].close()
        except Exception:  # noqa: BLE001
            pass
        if w in self.ws:
            self.ws.remove(w)


def run(prop, tier, seed, only=None, jobs=8, budget=None):
    t0 = time.time()
    budget = budget or (660.0 if tier == "quick" else 6 * 3600.0)
    each = 420.0 if tier == "quick" else 3600.0
    module = prop.lower()
    pool = Pool(jobs, module, tier, seed)
    for _ in range(jobs):
        pool.spawn()
    names, info, todo = None, {}, []
    results, lost = {}, {}
    broken = None
    retried = set()
    while True:
        now = time.time()
        if now - t0 > budget:
            break
        for w in list(pool.ws):
            if w["task"] and now - w["since"] > each:
                lost[w["task"]] = "time limit"
                pool.kill(w)
                pool.spawn()
        rl = wait([w["conn"] for w in pool.ws], timeout=1.0)
        for w in list(pool.ws):
            if w["conn"] not in rl:
                continue
            try:
                m = w["conn"].recv()
            except (EOFError, ConnectionResetError):
                t = w["task"]
                pool.kill(w)
                if t:
                    if t in retried:
                        lost[t] = "worker died"
                    else:
                        retried.add(t)
                        todo.append(t)
                pool.spawn()
                continue
            if m[0] == "broken":
                broken = m
                break
            if m[0] == "ready":
                w["ready"] = True
                if names is None:
                    names, info = m[1], m[2]
                    todo = [n for n in names if only is None or re.search(only, n)]
                    todo.sort(key=lambda n: info[n][1])  # popped from the end: costly first
            elif m[0] == "done":
                results[m[1]] = m[2]
                w["task"] = None
        if broken:
            break
        for w in pool.ws:
            if w["ready"] and w["task"] is None and todo:
                w["task"] = todo.pop()
                w["since"] = time.time()
                w["conn"].send(w["task"])
        if names is not None and not todo and all(w["task"] is None for w in pool.ws):
            break
    if names is not None:
        for n in names:
            if (only is None or re.search(only, n)) and n not in results and n not in lost:
                lost[n] = "budget"
    for w in list(pool.ws):
        pool.kill(w)
    return names, info, results, lost, broken, time.time() - t0


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--only")
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", "8")))
    ap.add_argument("--replay")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args(argv)
    if a.replay:
        return replay(a.replay)
    prop, tier, seed = a.property, a.tier, a.seed
    names, info, results, lost, broken, wall = run(prop, tier, seed, a.only, a.jobs)
    if broken:
        print(f"ERROR property={prop}: the code under test or the contracts cannot be loaded: {broken[1]}\n{broken[2]}")
        # a package that cannot be imported breaks every property it serves
        return 2
    known = load_known()
    viol, knowns = [], []
    undecided, errors, bounded = [], [], []
    obl = dis = 0
    backends = {}
    targets = set()
    smt = dict(calls=0, time=0.0)
    prims = set()
    nsamples = 0
    per = []
    for n in names or []:
        r = results.get(n)
        if r is None:
            continue
        obl += len(r.obligations)
        for o in r.obligations:
            if o["status"] == "proved":
                dis += 1
                backends[o["backend"]] = backends.get(o["backend"], 0) + 1
        if r.bounded is None and not r.error:
            targets.update(r.targets)
        smt["calls"] += r.stats.get("smt_calls", 0)
        smt["time"] += r.stats.get("smt_time", 0.0)
        prims.update(r.prims)
        nsamples += r.samples_checked
        if r.error:
            errors.append((n, r.error))
        if r.bounded:
            bounded.append((n, r.bounded, r.samples_checked))
        for o in r.obligations:
            if o["status"] == "unknown":
                undecided.append((n, o["name"], o.get("why", "")))
        for v in r.violations:
            k = known_for(known, prop, n, v)
            if k:
                knowns.append((n, k, v))
            elif v["kind"] == "undecided":
                pass
            else:
                viol.append((n, r, v))
        per.append(dict(contract=n, obligations=len(r.obligations), discharged=sum(o["status"] == "proved" for o in r.obligations),
                        eqns=r.neqns, wall=round(r.wall, 2), bounded=r.bounded))
    rdir = ROOT / "replay" / prop
    rdir.mkdir(parents=True, exist_ok=True)
    for f in rdir.glob("*.json"):
        f.unlink()
    seen = set()
    lines = []
    for i, (n, r, v) in enumerate(viol):
        path = rdir / f"{i:03d}.json"
        path.write_text(json.dumps(dict(property=prop, contract=n, targets=r.targets, tier=tier, **v), indent=1, default=str))
        tail = "" if v["kind"] == "input" else " no-failing-input-found"
        print(f"# {n}: obligation {v['obligation']}: {str(v['detail'])[:400]}" + (f" input={json.dumps(v['input'])[:600]}" if v.get("input") is not None else ""))
        lines.append((0 if v["kind"] == "input" else 1, f"VIOLATION property={prop} replay={path}{tail}"))
    for n, e in errors:
        print(f"# ERROR {n}: {e.splitlines()[0][:300]}")
        if a.v:
            print(e)
    for n, why in lost.items():
        print(f"# UNDECIDED contract {n}: {why}")
    for n, o, why in undecided:
        print(f"# UNDECIDED {n}: {o}: {why[:200]}")
    for n, why, k in bounded:
        print(f"# BOUNDED ({k} inputs) {n}: {why[:200]}")
    if a.v:
        for q in sorted(per, key=lambda q: -q["wall"]):
            print(f"#   {q['wall']:7.1f}s {q['discharged']}/{q['obligations']} {q['contract']}")
    for n, k, v in knowns:
        if k["what"] not in seen:
            seen.add(k["what"])
            print(f"KNOWN-FINDING: property={prop} {k['what']}")
    ncon = len([n for n in results])
    samples = []
    for q in per[:3]:
        r = results[q["contract"]]
        samples.append(dict(contract=r.name, obligations=[(o["name"], o["status"], o["backend"]) for o in r.obligations][:12]))
    ev = dict(property=prop, tier=tier, seed=seed, level="proof",
              coverage=dict(obligations=obl, discharged=dis, checker_cmd=f"/opt/venv/bin/python check.py {prop} --tier {tier}",
                            trusted_base=TRUSTED, contracts=ncon, functions_under_contract=sorted(targets), by_backend=backends,
                            smt_calls=smt["calls"], solver_s=round(smt["time"], 2), jaxpr_primitives=sorted(prims),
                            evaluations=nsamples, rule="one evaluation = the contract executed on one concrete input of the real code",
                            bounded_contracts=[dict(contract=n, why=w, inputs=k) for n, w, k in bounded],
                            undecided=[list(u) for u in undecided] + [[n, "", w] for n, w in lost.items()],
                            known_findings=[k["what"] for _n, k, _v in knowns], samples=samples,
                            slowest=sorted(per, key=lambda q: -q["wall"])[:10]),
              assumptions=ASSUME + sorted({x for n in results for x in getattr(results[n], "assumes", [])}),
              wall_s=round(wall, 2), violations=len(viol))
    (ROOT / "evidence").mkdir(exist_ok=True)
    if a.only is None:
        (ROOT / "evidence" / f"{prop}.json").write_text(json.dumps(ev, indent=1, default=str))
    print(f"{prop} [{tier}] errors={len(errors)} contracts={ncon} obligations={obl} discharged={dis} backends={backends} bounded={len(bounded)} "
          f"undecided={len(undecided) + len(lost)} violations={len(viol)} known={len(knowns)} executions={nsamples} wall={wall:.1f}s")
    for _k, ln in sorted(lines)[:40]:
        print(ln)
    if viol:
        return 1
    if errors or not results or dis == 0 and not bounded:
        return 2
    return 0


ASSUME = [
    "real arithmetic: rounding, overflow and float32 are outside the proofs (executions sampled each run use float64)",
    "dependencies (jax, quax, equinox, unxt, plum, astropy units) are traced through, not specified: what they compute on the traced "
    "path is part of the extracted term; their dispatch on Python types is trusted",
    "static configurations (classes, unit profiles, shapes) are enumerated as listed in functions_under_contract; all numeric inputs are universally quantified",
]


def replay(path):
    d = json.loads(Path(path).read_text())
    os.environ["XLA_FLAGS"] = "--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1"
    import jax
    jax.config.update("jax_enable_x64", True)
    import importlib

    import numpy as np
    from . import contract
    mod = importlib.import_module("contracts." + d["property"].lower())
    c = next(c for c in mod.contracts(d.get("tier", "quick")) if c.name == d["contract"])
    if d.get("input") is None:
        print("no failing input recorded; verifier output:")
        print(json.dumps(d.get("verifier"), indent=1)[:4000])
        return 1
    r = contract.check_real(c, {k: np.array(v, dtype=float) for k, v in d["input"].items()})
    print("reproduced:" if r else "does not reproduce", r or "")
    return 1 if r else 0


if __name__ == "__main__":
    sys.exit(main())
