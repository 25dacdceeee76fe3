"""Worker process: discharges the contracts it is handed."""
from __future__ import annotations

import os
import sys


def main(conn, module, tier, seed):
    os.environ["XLA_FLAGS"] = "--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1"
    os.environ["JAX_PLATFORMS"] = "cpu"
    os.environ["OMP_NUM_THREADS"] = "1"
    sys.setrecursionlimit(20000)
    try:
        import warnings
        warnings.simplefilter("ignore")
        import jax
        jax.config.update("jax_enable_x64", True)
        import importlib
        from . import contract
        mod = importlib.import_module("contracts." + module)
        cs = {}
        for c in mod.contracts(tier):
            if c.name in cs:
                raise RuntimeError(f"duplicate contract name {c.name}")
            cs[c.name] = c
        conn.send(("ready", list(cs), {n: (c.targets, c.cost) for n, c in cs.items()}))
    except BaseException as e:  # noqa: BLE001
        import traceback
        conn.send(("broken", f"{type(e).__name__}: {e}", traceback.format_exc()[-3000:]))
        return
    while True:
        try:
            m = conn.recv()
        except EOFError:
            return
        if m is None:
            return
        r = contract.discharge(cs[m], seed, tier)
        conn.send(("done", m, r))
