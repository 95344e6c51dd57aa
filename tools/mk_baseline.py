"""Record the obligations discharged on the reference tree (dv/baseline.json), per property."""
import json
import multiprocessing as mp
import os
import sys

H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, "dv"))
import main  # noqa
import api  # noqa

main.load()
if __name__ == "__main__":
    with mp.get_context("fork").Pool(8, maxtasksperchild=1) as pool:
        res = pool.map(main.work, range(len(api.REG)), chunksize=1)
    out, bad = {}, []
    for it, r in zip(api.REG, res):
        for o in r["obs"]:
            if o["status"] == "discharged":
                for p in it[0] + ((main.FRAME,) if main.select(main.FRAME, [o]) else ()):
                    out.setdefault(p, []).append(o["id"])
            else:
                bad.append(o["id"])
    json.dump({"source": api.source_digest(), **{p: sorted(set(v)) for p, v in sorted(out.items())}}, open(os.path.join(H, "dv/baseline.json"), "w"), indent=0)
    print({p: len(v) for p, v in sorted(out.items())}, "not discharged:", bad)
