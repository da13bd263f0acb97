import time

TRUSTED = [
    "the verifier itself: /verif/dv (rewriter, symbolic executor, normal-form prover), z3 4.x as back end for linear / inequality side conditions",
    "contracts of numpy, scipy, sparse and the Python standard library as written in /verif/dv/shim_np.py, shim_sp.py, sym.py (cross-checked by the bounded concrete layer against the real libraries)",
    "floating-point arithmetic is treated as exact real arithmetic (0.5 is one half, log is the real logarithm); machine integers are mathematical unless an obligation says otherwise",
]


def evidence(prop, a, symr, concr, obls, dis, how, lines, kf, wall, insts, th, searched):
    notes = sorted({n for r in symr for n in r.get("notes", [])})
    cov = {
        "obligations": obls, "discharged": dis,
        "undischarged": [f"{r['scenario']}: {r['reason'] or [o['name'] for o in r['obligations'] if not o['ok']]}" for r in symr if r["status"] != "proved"],
        "back_ends": how,
        "solver": {"z3_queries": sum(r["solver"].get("z3_queries", 0) for r in symr), "z3_seconds": round(sum(r["solver"].get("z3_time", 0) for r in symr), 2),
                   "verifier_seconds": round(sum(r["wall"] for r in symr), 2)},
        "checker_cmd": f"python3-vt /verif/check.py {prop} --tier {a.tier}",
        "trusted_base": TRUSTED,
        "scenarios_proved": [r["scenario"] for r in symr if r["status"] == "proved"],
        "paths": sum(r["paths"] for r in symr),
        "bounded_layer": {"label": "bounded (random inputs, never counted as proved)", "scenarios": len(concr), "inputs": sum(r["ran"] for r in concr),
                          "checks": sum(r["checks"] for r in concr), "skipped": sum(r["skipped"] for r in concr), "extra_search_inputs": searched,
                          "only_bounded": sorted({n for sc, n, kw in insts if not sc.is_sym(kw)})},
        "source_sha256": th,
        "known_findings": kf,
    }
    if not obls:
        cov.update(evaluations=cov["bounded_layer"]["inputs"], distinct_nontrivial=cov["bounded_layer"]["inputs"] - cov["bounded_layer"]["skipped"],
                   rule="a case counts when its preconditions hold and at least one contract clause was evaluated on the installed code",
                   samples=[f"{r['scenario']}: {r['ran']} inputs, {r['checks']} checks" for r in concr][:20])
    return {"property": prop, "tier": a.tier, "seed": a.seed, "level": "proof" if obls else "exploration",
            "coverage": cov, "assumptions": TRUSTED + [f"note: {n}" for n in notes], "wall_s": round(wall, 2),
            "violations": len(lines)}
