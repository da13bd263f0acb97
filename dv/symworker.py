"""runs symbolic scenarios given on stdin (one JSON per line: prop, name, limit), prints one JSON result per line"""
import json
import resource
import sys

sys.path.insert(0, __file__.rsplit("/", 2)[0])
sys.setrecursionlimit(6000)
import threading
from dv import registry, symrun


def main():
    mem = 6 << 30
    resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    idx = {}
    for line in sys.stdin:
        j = json.loads(line)
        if j["prop"] not in idx:
            idx[j["prop"]] = {name: (sc, kw) for sc, name, kw in registry.instances(j["prop"])}
        sc, kw = idx[j["prop"]][j["name"]]
        try:
            r = symrun.run_instance(sc, j["name"], kw, limit=j.get("limit"))
        except MemoryError:
            r = {"scenario": j["name"], "status": "unsupported", "reason": "memory limit", "obligations": [], "paths": 0, "wall": 0, "notes": [], "solver": {}}
        sys.stdout.write(json.dumps(r) + "\n")
        sys.stdout.flush()


if __name__ == "__main__":
    main()
