"""Run the runtime contracts of one property.  Usage: run.py PID TIER SEED OUT.json [JOBS] [LIMIT_S]
   or: run.py --replay FILE"""
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[v] = "1"
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
if os.environ.get("SPGREP_SRC"):
    sys.path.insert(0, os.environ["SPGREP_SRC"])


def one(c):
    import props
    import lib

    t = time.time()
    try:
        nt = props.KINDS[c["kind"]](c)
        return c, "ok", bool(nt), None, None, time.time() - t
    except lib.Skip:
        return c, "skip", False, None, None, time.time() - t
    except lib.Fail as e:
        return c, "fail", True, str(e), e.key, time.time() - t
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        inrepo = any("/spgrep/" in f.filename for f in tb)
        return (c, "fail" if inrepo else "error", True,
                f"raised {type(e).__name__}: {e}" + (" at " + next((f"{f.filename}:{f.lineno}" for f in reversed(tb) if "/spgrep/" in f.filename), "")),
                f"exception {type(e).__name__}", time.time() - t)


def main():
    if sys.argv[1] == "--replay":
        c = json.load(open(sys.argv[2]))["case"]
        r = one(c)
        print(json.dumps({"case": r[0], "status": r[1], "message": r[3]}, indent=1))
        sys.exit(1 if r[1] == "fail" else 0)
    pid, tier, seed, out = sys.argv[1], sys.argv[2], int(sys.argv[3]), sys.argv[4]
    jobs = int(sys.argv[5]) if len(sys.argv) > 5 else 8
    limit = float(sys.argv[6]) if len(sys.argv) > 6 else 400
    import props

    t0 = time.time()
    cases = props.PLAN[pid](tier, seed)
    res = []
    with mp.get_context("fork").Pool(jobs) as pool:
        for r in pool.imap_unordered(one, cases, chunksize=2):
            res.append(r)
            if time.time() - t0 > limit:
                pool.terminate()
                break
    fails = [r for r in res if r[1] == "fail"]
    fails.sort(key=lambda r: json.dumps(r[0], sort_keys=True))
    ok = [r for r in res if r[1] == "ok"]
    distinct = {json.dumps(r[0], sort_keys=True) for r in ok if r[2]}
    json.dump({
        "planned": len(cases), "run": len(res), "ok": len(ok), "skipped": sum(r[1] == "skip" for r in res),
        "errors": [[r[0], r[3]] for r in res if r[1] == "error"][:5], "nerrors": sum(r[1] == "error" for r in res),
        "distinct_nontrivial": len(distinct), "samples": [r[0] for r in ok if r[2]][:3],
        "kinds": sorted({r[0]["kind"] for r in res}),
        "finite": [{"id": "::finite::".join(props.FINITE[k]), "planned": sum(c["kind"] == k for c in cases),
                    "ok": sum(r[1] == "ok" and r[0]["kind"] == k for r in res)} for k in props.FINITE if any(c["kind"] == k for c in cases)],
        "fails": [{"case": r[0], "message": r[3], "key": r[4]} for r in fails], "wall_s": time.time() - t0,
        "slowest": max((r[5] for r in res), default=0)}, open(out, "w"), indent=1)


if __name__ == "__main__":
    main()
