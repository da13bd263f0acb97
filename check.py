#!/opt/veriftools/pyvenv/bin/python
"""check.py <property> [--tier quick|thorough] | --replay FILE
Runs every proof obligation of the property (symbolic execution of /repo's current source) and the bounded concrete
layer, writes /verif/evidence/<property>.json, prints VIOLATION / KNOWN-FINDING lines."""
import argparse
import hashlib
import json
import os
import subprocess
import sys
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from dv import registry

PY_SYM = "/opt/veriftools/pyvenv/bin/python"
PY_CONC = "/opt/venv/bin/python"
ENVV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1",
            PYTHONPATH=HERE)


class Worker:
    def __init__(self, kind):
        exe = PY_SYM if kind == "sym" else PY_CONC
        self.kind = kind
        self.p = subprocess.Popen([exe, os.path.join(HERE, "dv", f"{kind}worker.py")], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL, text=True, env=ENVV, cwd=HERE)

    def run(self, job, hard):
        try:
            self.p.stdin.write(json.dumps(job) + "\n")
            self.p.stdin.flush()
        except (BrokenPipeError, OSError):
            return None
        timer = threading.Timer(hard, self.p.kill)
        timer.start()
        try:
            line = self.p.stdout.readline()
        finally:
            timer.cancel()
        return json.loads(line) if line.strip() else None

    def close(self):
        try:
            self.p.stdin.close()
        except OSError:
            pass
        self.p.kill()
        self.p.wait()


def run_jobs(jobs, nproc):
    """jobs: [(kind, job dict, hard limit)] -> results in order"""
    res = [None] * len(jobs)
    q = list(range(len(jobs)))[::-1]
    lock = threading.Lock()

    def loop():
        w = {}
        while True:
            with lock:
                if not q:
                    break
                i = q.pop()
            kind, job, hard = jobs[i]
            for attempt in range(2):
                if kind not in w:
                    w[kind] = Worker(kind)
                r = w[kind].run(job, hard)
                if r is not None:
                    break
                w.pop(kind).close()
            res[i] = r
        for x in w.values():
            x.close()
    ts = [threading.Thread(target=loop) for _ in range(nproc)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    return res


def known_findings(prop):
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))["findings"] if k["property"] == prop]


def tree_hash():
    h = hashlib.sha256()
    for root, ds, fs in os.walk("/repo/infomeasure"):
        ds.sort()
        for f in sorted(fs):
            if f.endswith(".py"):
                p = os.path.join(root, f)
                h.update(p.encode())
                h.update(open(p, "rb").read())
    return h.hexdigest()


def write_replay(prop, rec):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    s = json.dumps(rec, indent=1, default=str)
    p = os.path.join(d, f"{prop}-{hashlib.sha256(s.encode()).hexdigest()[:10]}.json")
    open(p, "w").write(s)
    return p


def replay(path):
    rec = json.load(open(path))
    print(f"property {rec['property']}  scenario {rec['scenario']}  obligation: {rec['obligation']}")
    if rec.get("inputs") is None:
        print("no failing input: the verifier did not discharge the obligation")
        print(rec.get("detail", ""))
        return 1
    r = run_jobs([("conc", dict(prop=rec["property"], name=rec["scenario"], seed=rec.get("seed", 1), case=rec.get("case", 0), inputs=rec["inputs"]), 300)], 1)[0]
    if r and r["violation"]:
        print("FAILS on the real code:", r["violation"]["obligation"], r["violation"]["detail"])
        return 1
    print("does not fail on the current tree")
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--only")
    ap.add_argument("--layer", default="both")
    ap.add_argument("--replay")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    if a.replay:
        sys.exit(replay(a.replay))
    t0 = time.time()
    prop = a.prop
    thorough = a.tier == "thorough"
    insts = registry.instances(prop, a.only)
    if not insts:
        print(f"no scenario for property {prop}")
        print(f"VIOLATION property={prop} replay={write_replay(prop, dict(property=prop, scenario='', obligation='no obligation exists', inputs=None))} no-failing-input-found")
        sys.exit(1)
    ncpu = os.cpu_count() or 4
    kfs = known_findings(prop)
    kfnames = {k["scenario"] for k in kfs}
    jobs, meta = [], []
    for sc, name, kw in insts:
        if a.layer in ("both", "sym") and sc.is_sym(kw) and name not in kfnames:
            lim = sc.budget * (3 if thorough else 1)
            jobs.append(("sym", dict(prop=prop, name=name, limit=lim), lim + 30))
            meta.append(("sym", sc, name, kw))
    mult = 12 if thorough else 1
    for sc, name, kw in insts:
        nconc = sc.conc(**kw) if callable(sc.conc) else sc.conc
        if a.layer in ("both", "conc") and nconc and name not in kfnames:
            cnt = nconc * mult
            secs = 240 if thorough else 30
            jobs.append(("conc", dict(prop=prop, name=name, seed=a.seed, start=0, count=cnt, seconds=secs), secs + 90))
            meta.append(("conc", sc, name, kw))
    order = sorted(range(len(jobs)), key=lambda i: (jobs[i][0] != "sym", -meta[i][1].budget))
    out = run_jobs([jobs[i] for i in order], ncpu)
    res = [None] * len(jobs)
    for q, i in enumerate(order):
        res[i] = out[q]
    symr, concr = [], []
    problems = {}   # scenario -> (obligation, detail, kind)
    viol = {}
    for (kind, sc, name, kw), r in zip(meta, res):
        if kind == "sym":
            if r is None:
                r = dict(scenario=name, status="unsupported", reason="worker died or hard time limit", obligations=[], paths=0, wall=0, notes=[], solver={})
            symr.append(r)
            if r["status"] != "proved":
                bad = [o for o in r["obligations"] if not o["ok"]]
                if bad:
                    problems[name] = (bad[0]["name"], "\n".join(f"[{o['name']}] path: {o['path']}\n{o['detail']}" for o in bad[:4]), "failed obligation")
                else:
                    problems[name] = ("verification condition generation", r["reason"] + " at " + str(r.get("where", "")), "not discharged")
        else:
            if r is None:
                r = dict(scenario=name, ran=0, skipped=0, checks=0, violation=None, timeouts=1, wall=0)
            concr.append(r)
            if r["violation"]:
                viol[name] = r["violation"]
    # search for failing inputs of undischarged obligations
    need = [n for n in problems if n not in viol]
    searched = 0
    if need and a.layer == "both":
        byname = {name: (sc, kw) for sc, name, kw in insts}
        sj, sm = [], []
        secs = 300 if thorough else 60
        cands = [n for n in need if byname[n][0].conc]
        # every scenario of the property takes part in the search: the failing input may be easier to reach there
        for rnd in range(max(1, ncpu // max(1, len(cands)))):
            for n in cands[:24]:
                sc = byname[n][0]
                sj.append(("conc", dict(prop=prop, name=n, seed=a.seed + 1000 + rnd, start=0, count=100000, seconds=secs if len(cands) <= ncpu else max(8, secs * ncpu // min(24, len(cands)))), secs + 90))
                sm.append(n)
        for n, r in zip(sm, run_jobs(sj, ncpu)):
            if r:
                searched += r["ran"]
                if r["violation"] and n not in viol:
                    viol[n] = r["violation"]
    # known findings: their scenario is expected to fail on exactly the recorded inputs
    kf_lines, kf_jobs = [], []
    for k in kfs:
        kf_jobs.append(("conc", dict(prop=prop, name=k["scenario"], seed=1, start=0, count=1, seconds=60), 120))
    for k, r in zip(kfs, run_jobs(kf_jobs, ncpu) if kf_jobs else []):
        if r and r["violation"]:
            if k.get("obligation") and r["violation"]["obligation"] != k["obligation"]:
                viol[k["scenario"]] = r["violation"]
            else:
                kf_lines.append(f"KNOWN-FINDING: property={prop} {k['what']}")
    lines = []
    for n in list(viol):
        v = viol[n]
        p = write_replay(prop, dict(property=prop, scenario=n, obligation=v["obligation"], detail=v["detail"], inputs=v["inputs"], seed=v.get("seed"), case=v.get("case"),
                                    proof=problems.get(n, (None,))[0], how="python3-vt /verif/check.py --replay <this file>"))
        lines.append((f"VIOLATION property={prop} replay={p}", n, v["obligation"], v["detail"]))
    for n in need:
        if n not in viol:
            o, d, k = problems[n]
            p = write_replay(prop, dict(property=prop, scenario=n, obligation=o, detail=d, inputs=None, kind=k))
            # when a failing input was found for the property, undischarged obligations without one are listed, not reported separately
            lines.append((f"VIOLATION property={prop} replay={p} no-failing-input-found", n, o, d))
    obls = sum(len(r["obligations"]) for r in symr)
    dis = sum(1 for r in symr for o in r["obligations"] if o["ok"])
    how = {}
    for r in symr:
        for o in r["obligations"]:
            if o["ok"]:
                how[o["how"]] = how.get(o["how"], 0) + 1
    nsym = len(symr)
    from dv import report
    ev = report.evidence(prop, a, symr, concr, obls, dis, how, lines, kf_lines, time.time() - t0, insts, tree_hash(), searched)
    if not (a.only or a.layer != "both"):
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(HERE, "evidence", f"{prop}.json"), "w"), indent=1)
    for k in kf_lines:
        print(k)
    if a.v:
        for r in symr:
            print(f"  sym  {r['status']:12} {r['wall']:7.2f}s paths={r['paths']} obl={len(r['obligations'])} {r['scenario']}  {r['reason']} {r.get('where','')}")
        for r in concr:
            print(f"  conc ran={r['ran']} skipped={r['skipped']} checks={r['checks']} {r['wall']}s {r['scenario']} {'VIOL' if r['violation'] else ''} {r['timeouts'] or ''}")
    print(f"{prop}: {dis}/{obls} obligations discharged in {nsym} symbolic scenarios; bounded layer: {sum(r['ran'] for r in concr)} inputs, {sum(r['checks'] for r in concr)} checks; {time.time() - t0:.1f}s")
    # replayable violations first
    lines.sort(key=lambda l: l[0].endswith("found"))
    for l, n, o, d in lines:
        print(f"--- {n}: {o}\n    {str(d)[:1500 if a.v else 500]}")
        print(l)
    sys.exit(1 if lines else 0)


if __name__ == "__main__":
    main()
