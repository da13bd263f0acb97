"""runs concrete cases (stdin: JSON lines prop, name, seed, start, count, seconds); prints one JSON per line"""
import json
import os
import sys
import time

for k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(k, "1")
sys.path.insert(0, __file__.rsplit("/", 2)[0])
import signal
from dv import registry, concrun


class CaseTimeout(BaseException):
    pass


def alarm(*a):
    raise CaseTimeout()


def main():
    concrun.quiet()
    out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)
    idx = {}
    signal.signal(signal.SIGALRM, alarm)
    for line in sys.stdin:
        j = json.loads(line)
        if j["prop"] not in idx:
            idx[j["prop"]] = {name: (sc, kw) for sc, name, kw in registry.instances(j["prop"])}
        sc, kw = idx[j["prop"]][j["name"]]
        t0 = time.time()
        res = {"scenario": j["name"], "ran": 0, "skipped": 0, "checks": 0, "violation": None, "timeouts": 0}
        if "inputs" in j:
            try:
                r, nc = concrun.run_case(sc, j["name"], kw, j.get("seed", 1), j.get("case", 0), recorded=dict(j["inputs"]))
            except CaseTimeout:
                r, nc = None, 0
            res["checks"] = nc
            res["ran"] = 1
            if isinstance(r, dict):
                res["violation"] = dict(r, case=j.get("case", 0), seed=j.get("seed", 1))
        else:
            for k in range(j["start"], j["start"] + j["count"]):
                if time.time() - t0 > j["seconds"]:
                    res["stopped"] = k
                    break
                signal.setitimer(signal.ITIMER_REAL, 60)
                try:
                    r, nc = concrun.run_case(sc, j["name"], kw, j["seed"], k)
                except CaseTimeout:
                    res["timeouts"] += 1
                    continue
                finally:
                    signal.setitimer(signal.ITIMER_REAL, 0)
                res["checks"] += nc
                if r == "skip":
                    res["skipped"] += 1
                    continue
                res["ran"] += 1
                if isinstance(r, dict):
                    res["violation"] = dict(r, case=k, seed=j["seed"])
                    break
        res["wall"] = round(time.time() - t0, 3)
        out.write(json.dumps(res, default=str) + "\n")
        out.flush()


if __name__ == "__main__":
    main()
