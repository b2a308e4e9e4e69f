"""python -m concrete <property> [--seed N] [--tier T] [--budget S] [--out F] [--replay F] [--only K]"""
import argparse
import importlib
import json
import logging
import os
import sys
import warnings


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--budget", type=float, default=60)
    ap.add_argument("--out")
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("--jobs", type=int, default=4)
    a = ap.parse_args()
    logging.disable(logging.CRITICAL)
    warnings.filterwarnings("ignore")
    sys.path.insert(0, os.environ.get("LUMVER_REPO", "/repo"))
    from concrete import base
    importlib.import_module(f"concrete.{a.prop}")
    import lumos
    assert os.path.realpath(lumos.__file__).startswith(
        os.path.realpath(os.environ.get("LUMVER_REPO", "/repo")) + "/"), lumos.__file__
    if a.replay:
        doc = json.load(open(a.replay))
        rc = 0
        for v in doc.get("inputs", []):
            st, msg = base.replay(v)
            print(v["kind"], v["seed"], v["index"], "->", st, msg)
            rc |= st == "violation"
        sys.exit(rc)
    res = base.run_all(a.seed, a.tier, a.budget, a.jobs, a.only)
    if a.out:
        json.dump(res, open(a.out, "w"), indent=1, default=str)
    else:
        for r in res:
            print(r["kind"], "evals", r["evaluations"], "distinct", r["distinct"], f"{r['wall']:.1f}s",
                  "samples", str(r["samples"][:1])[:200])
            for v in r["violations"]:
                print("   VIOLATION", v["index"], v["message"][:600])
            for s in r["skipped"]:
                print("   skipped", s[:300])


if __name__ == "__main__":
    main()
