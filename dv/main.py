"""Generate and discharge the obligations of the contracts a property depends on, from /repo's current source.

   python3-vt main.py PID TIER OUT.json [LIMIT_S]
"""
import importlib
import json
import multiprocessing as mp
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
MODULES = ("group_c", "rep_c", "transform_c", "irreps_c", "pointgroup_c", "chain_c", "decomp_c", "proj_c", "spinor_c", "corep_c", "irreps2_c", "core_c", "tensor_c", "reject_c")

import api  # noqa


def load():
    for m in MODULES:
        importlib.import_module("contracts." + m)
    import trust
    return trust


def work(n):
    return api.run_contract(api.REG[n])


FRAME = "C20"       # arguments untouched, nothing shared with the results: the frame clause of every contract


def select(pid, obs):
    return [o for o in obs if "::frame" in o["id"] or ": frame" in o["id"] or o["id"].endswith("frame")
            or "shares memory" in o["id"] or o["id"].endswith("::verification")] if pid == FRAME else obs


def guard_items():
    """Vacuity guards: obligations that must not be discharged, facts that must not be contradictory."""
    h = api.H("guard", "guard")
    n, d = h.dim("n"), h.dim("d")
    i, a, b = api.fresh(n), api.fresh(d), api.fresh(d)
    x = api.atom("A", i, a, b)
    h.eq("A[i,a,b] == A[i,b,a]", x, api.atom("A", i, b, a))
    h.true("A[i,a,b] == 0", api.cmp("eq", x, 0))
    h.true("all i: p(i)", api.mk_all(i, api.Cond("p", (i,))))
    h.true("p from exists p", api.Cond("p", (i,)), [api.mk_ex(i, api.Cond("p", (i,)))])
    out = [[o["id"], o["status"] != "discharged"] for o in h.obs]
    h.obs = []
    h.true("modus ponens", api.Cond("p", (i,)), [api.mk_all(i, api.Cond("p", (i,)))])
    h.eq("commutes", x * api.atom("y"), api.atom("y") * x)
    out += [[o["id"], o["status"] == "discharged"] for o in h.obs]
    import interp
    interp.SNIPPETS["guard"] = GUARD
    for name, good in (("writes_view", False), ("writes_slice", False), ("augmented", False), ("returns_view", False), ("returns_list", False),
                       ("keeps_list", False), ("copies", True)):
        h = api.H("guard." + name, "guard")
        n, d = h.dim("n"), h.dim("d")
        h.run([h.arr("A", (n, d))])
        h.frame()
        out.append([f"guard::frame::{name}", good == all(o["status"] == "discharged" for o in h.obs)])
    return out


GUARD = """
import numpy as np

def writes_view(a):
    b = a.reshape(-1)
    b[:] = 1
    return 1

def writes_slice(a):
    b = a[0]
    b[1] = 2
    return 1

def augmented(a):
    a *= 2
    return 1

def returns_view(a):
    return a.T

def returns_list(a):
    return [a + 1, a]

def keeps_list(a):
    return {"x": a.real}["x"]

def copies(a):
    b = a.copy()
    b[0] = 1
    c = a * 2
    c += a
    return b, c
"""


def crosscheck():
    """Engine against CPython and NumPy on the snippets of cross_snippets.py."""
    import cross
    r = cross.run(seeds=(1,))
    bad = [n for n, x in r if x is False]
    return [[f"cross-check: engine and CPython/NumPy agree on {sum(x is True for _, x in r)} snippets ({sum(isinstance(x, str) for _, x in r)} more not read"
             f" or not compared)" + (f", differ on {bad}" if bad else ""), not bad and any(x is True for _, x in r)]]


def main():
    pid, tier, outp = sys.argv[1:4]
    limit = float(sys.argv[4]) if len(sys.argv) > 4 else 240
    t0 = time.time()
    trust = load()
    items = [n for n, it in enumerate(api.REG) if pid in it[0] or pid == FRAME]
    res = []
    if items:
        with mp.get_context("fork").Pool(min(8, len(items)), maxtasksperchild=1) as pool:
            jobs = [(n, pool.apply_async(work, (n,))) for n in items]
            cc = pool.apply_async(crosscheck)
            for n, j in jobs:
                it = api.REG[n]
                try:
                    res.append(j.get(timeout=max(1, limit - (time.time() - t0))))
                except mp.TimeoutError:
                    res.append({"function": it[1], "contract": it[2], "obs": [{"id": f"{it[1]}::{it[2]}::verification", "status": "undecided",
                                "backend": "", "detail": "time limit"}], "wall_s": limit, "solver_s": 0, "nz3": 0, "inlined": [], "called": [],
                                "requires": [], "paths": 0, "complete": False})
            cross_ok = cc.get(timeout=60)
            pool.terminate()
    for r in res:
        for o in r["obs"]:
            o["complete"] = r["complete"]
        r["obs"] = select(pid, r["obs"])
    if pid == FRAME:                # contracts without a frame clause (rejection of arguments, facts about tables) say nothing here
        res = [r for r in res if r["obs"]]
    obs = [o for r in res for o in r["obs"]]
    guards = guard_items() + (cross_ok if items else [])
    for r in res:
        if not r["obs"]:
            guards.append([f"{r['function']}::{r['contract']} generates obligations", False])
    ok = all(g[1] for g in guards)
    if not ok:
        for o in obs:
            if o["status"] == "discharged":
                o.update(status="undecided", detail="a vacuity guard failed")
    by = {}
    for o in obs:
        if o["status"] == "discharged":
            by[o["backend"]] = by.get(o["backend"], 0) + 1
    covered = {r["function"] for r in res} | {f for r in res for f in r["inlined"]}
    T = trust.PROP.get(pid, {})
    reqs = sorted({f"{r['function']}::{r['contract']} requires: {q}" for r in res for q in r["requires"]})
    level = "proof" if obs and any(o["status"] == "discharged" for o in obs) and T.get("level") == "proof" else "exploration"
    json.dump({
        "level": level, "obligations": obs, "source": api.source_digest(),
        "functions": [{"function": r["function"], "contract": r["contract"], "obligations": len(r["obs"]),
                       "discharged": sum(o["status"] == "discharged" for o in r["obs"]), "paths": r["paths"], "z3_queries": r["nz3"],
                       "solver_s": round(r["solver_s"], 3), "wall_s": round(r["wall_s"], 3), "source_inlined": r["inlined"],
                       "callee_contracts_used": r["called"]} for r in res],
        "by_backend": by, "solver_s": round(sum(r["solver_s"] for r in res), 3), "wall_s": round(time.time() - t0, 3),
        "guards": guards, "out_of_reach": T.get("out_of_reach", []), "trusted": trust.COMMON + T.get("trusted", []),
        "assumptions": trust.ASSUME + reqs + T.get("assume", []), "functions_reached": sorted(covered)}, open(outp, "w"), indent=1)


if __name__ == "__main__":
    main()
