"""Decide one property on /repo's current working tree.   python3-vt check.py PID   (VERIF_TIER, VERIF_SEED)

1. dv/main.py : contract-based deductive verification - parses the real source, generates the obligations of the
   contracts the property depends on and discharges them (exact normalisation, z3, cvc5, complete enumeration).
2. rt/run.py  : the same property as runtime contracts on the real functions over generated inputs (bounded);
   replays failed obligations on the real code and stands in, labelled bounded, for functions out of reach.
"""
import hashlib
import json
import os
import re
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PYREPO = "/opt/venv/bin/python"
PYVT = "python3-vt"


def call(cmd, limit, env=None):
    try:
        p = subprocess.run(cmd, timeout=limit, capture_output=True, text=True, env=env, cwd=HERE)
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as e:
        return -9, "", f"time limit {limit}s: {e}"


def run_rt(pid, tier, seed, out, jobs, limit):
    if os.path.exists(out):
        os.remove(out)
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
    rc, so, se = call([PYREPO, os.path.join(HERE, "rt/run.py"), pid, tier, str(seed), out, str(jobs), str(limit)], limit + 60, env)
    if not os.path.exists(out):
        return None, (so + se)[-3000:]
    return json.load(open(out)), ""


def run_dv(pid, tier, out, limit):
    if os.path.exists(out):
        os.remove(out)
    if not os.path.exists(os.path.join(HERE, "dv/main.py")):
        return None, "no deductive part"
    rc, so, se = call([PYVT, os.path.join(HERE, "dv/main.py"), pid, tier, out, str(limit)], limit + 60)
    if not os.path.exists(out):
        return None, (so + se)[-3000:]
    return json.load(open(out)), ""


def known(pid):
    fnd, lines = set(), {}
    p = os.path.join(HERE, "known_findings.txt")
    for ln in open(p):
        ln = ln.strip()
        if ln.startswith(f"finding: property={pid} "):
            k = ln.split(" ", 2)[2]
            fnd.add(k)
    return fnd


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    work = os.path.join(HERE, "work")
    os.makedirs(work, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    quick = tier == "quick"

    dv, dverr = run_dv(pid, tier, os.path.join(work, f"{pid}.dv.json"), 240 if quick else 1800)
    jobs = os.cpu_count() or 8
    rt, rterr = run_rt(pid, tier, seed, os.path.join(work, f"{pid}.rt.json"), jobs, 200 if quick else 3000)

    obls = dv["obligations"] if dv else []
    for f in (rt or {}).get("finite", []):      # functions with a finite domain: decided by complete enumeration of the real function
        obls.append({"id": f["id"] + f" ({f['planned']} cases)", "status": "discharged" if f["ok"] == f["planned"] else "undecided",
                     "backend": "enumeration", "detail": "" if f["ok"] == f["planned"] else f"{f['ok']} of {f['planned']} hold"})
        if dv:
            dv["by_backend"]["enumeration"] = dv["by_backend"].get("enumeration", 0) + (f["ok"] == f["planned"])
    failed = [o for o in obls if o["status"] == "failed"]
    undec = [o for o in obls if o["status"] == "undecided"]
    kf = known(pid)
    fails = list(rt["fails"]) if rt else []
    notes = []

    # obligations discharged on the reference tree that are not discharged here: search the real code for a failing input with fresh seeds
    base = json.load(open(os.path.join(HERE, "dv/baseline.json")))
    done = {o["id"] for o in obls if o["status"] == "discharged"}
    canon = lambda i: re.sub(r"\.(path)?\d+$", "", i)         # the number of the path is no part of an obligation's name
    have, open_ = {canon(i) for i in done}, {canon(o["id"]) for o in obls if o["status"] != "discharged"}
    regress = sorted({canon(i) for i in base.get(pid, []) if canon(i) not in have or canon(i) in open_})
    # An obligation the verifier refuses although the whole contract could be read (no unsupported construct) is a failed obligation.
    # It counts only on changed source: on the reference source a refusal could only be a time limit of a solver.
    ref = {canon(i) for i in base.get(pid, [])}
    if dv and dv.get("source") != base.get("source") and all(g[1] for g in dv.get("guards", [])):
        for o in obls:
            if o["status"] == "undecided" and o.get("complete") and canon(o["id"]) in ref:
                o["status"] = "failed"
        failed = [o for o in obls if o["status"] == "failed"]
        undec = [o for o in obls if o["status"] == "undecided"]
    new = [f for f in fails if f["key"] not in kf]
    extra_eval = 0
    if (failed or regress) and not new:
        s = seed
        while time.time() - t0 < (240 if quick else 3000) and not new:
            s += 1
            r2, _ = run_rt(pid, "quick", s, os.path.join(work, f"{pid}.rt2.json"), jobs, 60)
            if not r2:
                break
            extra_eval += r2["run"]
            fails += r2["fails"]
            new = [f for f in r2["fails"] if f["key"] not in kf]
            if s - seed > 25:
                break

    viol = []
    rdir = os.path.join(HERE, "replay")
    os.makedirs(rdir, exist_ok=True)
    if new:
        f = new[0]
        p = os.path.join(rdir, f"{pid}-{hashlib.sha1(json.dumps(f['case'], sort_keys=True).encode()).hexdigest()[:10]}.json")
        json.dump({"property": pid, "case": f["case"], "message": f["message"], "key": f["key"],
                   "failed_obligations": [o for o in obls if o["status"] != "discharged"], "how": f"{PYREPO} rt/run.py --replay {p}"}, open(p, "w"), indent=1)
        viol.append(f"VIOLATION property={pid} replay={p}")
        print(f"{len(new)} failing inputs of the real code, first: {f['message']}")
        for o in [o for o in obls if o["status"] != "discharged"][:5]:
            print(f"obligation not discharged {o['id']}: {o.get('detail', '')[:600]}")
    elif failed:
        p = os.path.join(rdir, f"{pid}-obligation-{hashlib.sha1(failed[0]['id'].encode()).hexdigest()[:10]}.json")
        json.dump({"property": pid, "failed_obligations": failed, "inputs_tried": (rt or {}).get("run", 0) + extra_eval,
                   "how": f"{PYVT} dv/main.py {pid} quick /dev/stdout"}, open(p, "w"), indent=1)
        for o in failed[:5]:
            print(f"failed obligation {o['id']}: {o.get('detail', '')[:600]}")
        viol.append(f"VIOLATION property={pid} replay={p} no-failing-input-found")

    hit = sorted({f["key"] for f in fails if f["key"] in kf})
    for k in hit:
        print(f"KNOWN-FINDING: property={pid} {k}")

    if rt is None:
        print(f"checker error: runtime contracts gave no result\n{rterr}")
    if dv is None:
        notes.append(f"deductive part gave no result: {dverr[-500:]}")
    level = "proof" if (dv and dv.get("level") == "proof" and not regress and not undec and not failed) else "exploration"
    cov = {}
    if dv is not None:
        cov.update({
            "obligations": len(obls), "discharged": sum(o["status"] == "discharged" for o in obls),
            "failed": [o["id"] for o in failed], "undecided": [[o["id"], o.get("detail", "")[:300]] for o in undec],
            "functions_under_contract": dv.get("functions", []), "by_backend": dv.get("by_backend", {}),
            "solver_s": dv.get("solver_s", 0), "dv_wall_s": dv.get("wall_s", 0),
            "vacuity_guards": dv.get("guards", []), "out_of_reach": dv.get("out_of_reach", []),
            "no_longer_discharged": regress, "checker_cmd": f"{PYVT} dv/main.py {pid} {tier} OUT.json",
            "trusted_base": dv.get("trusted", []),
            "obligation_list": [f"{o['id']} [{o['backend']}] {o['status']}" for o in obls]})
    if rt is not None:
        cov.update({
            "evaluations": rt["run"] + extra_eval, "distinct_nontrivial": rt["distinct_nontrivial"],
            "rule": "bounded part: runtime contracts (rt/props.py " + ", ".join(rt["kinds"]) + ") on the real functions; inputs generated from the seed"
                    " over the space-group/point-group/magnetic tables with scrambled order, basis and origin; non-trivial as reported by each contract",
            "samples": rt["samples"], "bounded_planned": rt["planned"], "bounded_skipped": rt["skipped"],
            "bounded_ok": rt["ok"], "bounded_harness_errors": rt["errors"]})
    ev = {"property": pid, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed, "level": level,
          "coverage": cov, "assumptions": (dv or {}).get("assumptions", []) + notes,
          "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    json.dump(ev, open(os.path.join(HERE, "evidence", f"{pid}.json"), "w"), indent=1)

    if undec:
        print(f"undecided obligations (bounded stand-in decides them on this tree): {[o['id'] for o in undec]}"
              + (f"; {len(regress)} obligations of the reference tree are not discharged, searched {extra_eval} further inputs" if regress else ""))
        if os.environ.get("DV_STRICT"):
            for o in undec:
                print("  ", o["id"], o.get("detail", "")[:1500])
    if viol:
        for v in viol:
            print(v)
        sys.exit(1)
    if rt is None or rt["run"] == 0 or (rt["nerrors"] and rt["nerrors"] * 5 > rt["run"]):
        print(f"checker error: {rt and rt['errors']}")
        sys.exit(2)
    print(f"held: property={pid} obligations={cov.get('discharged', 0)}/{cov.get('obligations', 0)} bounded={cov['evaluations']} wall={ev['wall_s']}s")


if __name__ == "__main__":
    main()
