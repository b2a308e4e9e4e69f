"""python -m lumver <property> [--out FILE] [--only SUBSTR] [--tier T]"""
import argparse
import importlib
import os
import sys


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--out")
    ap.add_argument("--only")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--jobs", type=int, default=8)
    a = ap.parse_args()
    from lumver import loader
    loader.install()
    from lumver import harness
    importlib.import_module(f"contracts.{a.prop}")
    doc = harness.run_all(a.out, a.only, tier=a.tier, jobs=a.jobs)
    n, d, bad = harness.summarize(doc)
    for g in doc["goals"]:
        st = [o["status"] for o in g["obligations"]]
        print(f"{'canary ' if g['expect'] == 'fail' else ''}{g['name']}: {st.count('proved')}/{len(st)} "
              f"paths={g['feasible_paths']} {g['time']:.1f}s")
    seen = {}
    for o in bad:
        seen[o["name"]] = seen.get(o["name"], 0) + 1
        if seen[o["name"]] > 1 or len(seen) > (10 if a.v else 6):
            continue
        print("  NOT DISCHARGED", o["name"], o["status"], o["detail"][:1200 if a.v else 400])
        if a.v and o["path"]:
            print("     path:", o["path"][:1500])
    print(f"obligations {n} discharged {d} wall {doc['wall']:.1f}s")


if __name__ == "__main__":
    main()
