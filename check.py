#!/usr/bin/env python3
"""Check of one property:   check.py <property> [--tier quick|thorough]

1. deductive part: python -m lumver <property>   (obligations from /repo's current source)
2. failing-input search / bounded stand-in: python -m concrete <property>
Exit 0: every obligation discharged and no failing input; 1: VIOLATION line; 2: the check itself broke."""
import argparse
import json
import os
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
BOOT = ("import sys; sys.path.append(%r); sys.path.insert(0, %r); import runpy; "
        "m = sys.argv.pop(1); runpy.run_module(m, run_name='__main__', alter_sys=True)") % (VT, HERE)


def start(mod, args, log):
    env = dict(os.environ, JAX_PLATFORMS="cpu", PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=HERE,
               OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYTHONHASHSEED="0",
               XLA_FLAGS="--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1")
    return subprocess.Popen([PY, "-W", "ignore", "-c", BOOT, mod] + args, cwd=HERE, env=env,
                            stdout=log, stderr=subprocess.STDOUT)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    a = ap.parse_args()
    a.val = None
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    if a.replay:
        p = start("concrete", [a.prop, "--replay", a.replay], None)
        sys.exit(p.wait())
    man = {c["property"]: c for c in json.load(open(f"{HERE}/MANIFEST.json"))["checks"]}
    level = man.get(a.prop, {}).get("level", "proof")
    os.makedirs(f"{HERE}/evidence", exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="lumver_")
    try:
        limit = 780 if a.tier == "quick" else 7200
        has_proof = os.path.exists(f"{HERE}/contracts/{a.prop}.py")
        has_conc = os.path.exists(f"{HERE}/concrete/{a.prop}.py")
        procs = {}
        if has_proof:
            procs["proof"] = start("lumver", [a.prop, "--out", f"{tmp}/p.json", "--tier", a.tier],
                                   open(f"{tmp}/p.log", "w"))
        if has_conc:
            procs["conc"] = start("concrete", [a.prop, "--out", f"{tmp}/c.json", "--seed", str(seed), "--tier", a.tier,
                                               "--budget", "90" if a.tier == "quick" else "900"],
                                  open(f"{tmp}/c.log", "w"))
        if has_proof and a.tier == "thorough":
            # the numpy contracts the proofs assume, compared with numpy on small instances (bounded)
            procs["val"] = start("lumver.validate", ["--seed", str(seed), "--out", f"{tmp}/v.json"], open(f"{tmp}/v.log", "w"))
        for k, p in procs.items():
            try:
                p.wait(max(1, limit - (time.time() - t0)))
            except subprocess.TimeoutExpired:
                p.kill()
        pd = cd = None
        if os.path.exists(f"{tmp}/v.json"):
            a.val = json.load(open(f"{tmp}/v.json"))
        if has_proof and os.path.exists(f"{tmp}/p.json"):
            pd = json.load(open(f"{tmp}/p.json"))
        if has_conc and os.path.exists(f"{tmp}/c.json"):
            cd = json.load(open(f"{tmp}/c.json"))
        plog = open(f"{tmp}/p.log").read()[-4000:] if has_proof else ""
        clog = open(f"{tmp}/c.log").read()[-4000:] if has_conc else ""
    finally:
        subprocess.run(["rm", "-r", tmp])
    rc = report(a, seed, level, pd, cd, plog, clog, has_proof, has_conc, t0)
    sys.exit(rc)


def report(a, seed, level, pd, cd, plog, clog, has_proof, has_conc, t0):
    sys.path.insert(0, HERE)
    known = [k for k in json.load(open(f"{HERE}/known_findings.json")) if k.get("property") == a.prop]
    open_known = [k for k in known if k.get("status") == "open"]
    nob = ndis = 0
    bad = []
    goals = []
    funcs = set()
    stats = {}
    assumptions = []
    if has_proof:
        if pd is None:
            bad.append(dict(name="deductive part", status="unsupported", detail="no result: " + plog[-1500:], path=""))
            nob += 1
        else:
            from lumver_summary import summarize
            nob, ndis, bad = summarize(pd)
            for g in pd["goals"]:
                funcs |= set(g["functions"])
                for k, v in g["stats"].items():
                    stats[k] = stats.get(k, 0) + v
                goals.append(dict(goal=g["name"], expect=g["expect"], obligations=len(g["obligations"]),
                                  discharged=sum(o["status"] == "proved" for o in g["obligations"]),
                                  paths=g["feasible_paths"], seconds=round(g["time"], 2)))
                for n in g["notes"]:
                    if n not in assumptions:
                        assumptions.append(n)
    viol, ev, distinct, samples, skipped = [], 0, 0, [], []
    if has_conc:
        if cd is None:
            print("concrete part gave no result:\n" + clog)
            skipped.append("no result: " + clog[-500:])
        else:
            for r in cd:
                ev += r["evaluations"]
                distinct += r["distinct"]
                samples += [f"{r['kind']}: {s}" for s in r["samples"][:1]]
                skipped += [f"{r['kind']}: {s}" for s in r["skipped"]]
                viol += r["violations"]
    lines = []
    hit = set()

    def is_known(text):
        for k in open_known:
            if k["match"] in text:
                hit.add(k["id"])
                return True
        return False
    viol = [v for v in viol if not is_known(v["kind"] + " " + v["message"])]
    bad = [b for b in bad if not is_known(b["name"] + " " + b.get("detail", ""))]
    for k in open_known:
        lines.append(f"KNOWN-FINDING: property={a.prop} {k['what']}")
    rc = 0
    if viol or bad:
        path = f"{HERE}/evidence/replay_{a.prop}.json"
        with open(path, "w") as f:
            json.dump(dict(property=a.prop, inputs=viol[:10], obligations=bad[:40],
                           command=f"python3 check.py {a.prop} --replay {path}"), f, indent=1, default=str)
        for v in viol[:5]:
            print(f"failing input: {v['kind']} seed={v['seed']} index={v['index']}: {v['message'][:400]}")
        seen = set()
        for b in bad:
            if b["name"] not in seen and len(seen) < 8:
                seen.add(b["name"])
                print(f"obligation not discharged: {b['name']} [{b['status']}] {b.get('detail', '')[:300]}")
        lines.append(f"VIOLATION property={a.prop} replay={path}" + ("" if viol else " no-failing-input-found"))
        rc = 1
    elif has_proof and nob == 0:
        print("no obligation was generated")
        rc = 2
    elif not has_proof and ev == 0:
        print("nothing was evaluated")
        rc = 2
    cov = dict(evaluations=ev, distinct_nontrivial=distinct,
               rule="inputs generated from VERIF_SEED per case kind; distinct by the description of the generated case",
               samples=samples[:12], skipped=skipped[:20])
    if has_proof:
        cov.update(obligations=nob, discharged=ndis,
                   checker_cmd=f"{PY} -m lumver {a.prop}  (run by check.py {a.prop})",
                   trusted_base=["lumver engine (/verif/lumver): symbolic execution of the instrumented source, ring/sum "
                                 "normal form, endpoint elimination", "numpy contracts (/verif/lumver/symnp.py)",
                                 "z3 4.x for residual conditions", "Python semantics of the source rewriting (loader.py)"]
                   + (["cvc5 cross-check of z3 answers"] if a.tier == "thorough" else []),
                   functions_under_contract=sorted(funcs), goals=goals,
                   backends=dict(ring_normal_form=stats.get("ring", 0), endpoint_elimination=stats.get("endpoint", 0),
                                 z3_queries=stats.get("z3", 0), z3_seconds=round(stats.get("z3_time", 0), 2),
                                 cvc5_agreed=stats.get("cvc5", 0), paths=stats.get("paths", 0)),
                   source_sha256=(pd or {}).get("sources", {}))
    if a.val:
        cov["assumed_contracts_validated_bounded"] = a.val
        if a.val["wrong"]:
            print("a numpy contract disagrees with numpy: the proofs cannot be trusted", a.val)
            rc = rc or 2
    if level == "other" or not has_proof:
        cov["explanation"] = man_note(a.prop)
    evd = dict(property=a.prop, tier=a.tier, seed=seed, level=level, coverage=cov,
               assumptions=assumptions + ["machine arithmetic is treated as exact real/integer arithmetic"],
               violations=len(viol) + len(bad), wall_s=round(time.time() - t0, 2))
    with open(f"{HERE}/evidence/{a.prop}.json", "w") as f:
        json.dump(evd, f, indent=1, default=str)
    print(f"{a.prop}: obligations {nob}, discharged {ndis}, goals {len(goals)}; concrete evaluations {ev}; "
          f"{time.time() - t0:.1f}s")
    for ln in lines:
        print(ln)
    return rc


def man_note(prop):
    man = {c["property"]: c for c in json.load(open(f"{HERE}/MANIFEST.json"))["checks"]}
    return man.get(prop, {}).get("level_note", "")


if __name__ == "__main__":
    main()
