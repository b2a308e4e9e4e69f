"""Verdict over the obligations of one property."""


def summarize(doc):
    nob = ndis = 0
    bad = []
    for r in doc["goals"]:
        if r["expect"] == "fail":
            broke = [o for o in r["obligations"] if o["status"] == "failed"]
            if not broke:
                bad.append(dict(name=r["name"] + " / canary must fail", status="failed", backend="-",
                                detail="a deliberately false contract was not refuted", path=""))
            continue
        for o in r["obligations"]:
            nob += 1
            if o["status"] == "proved":
                ndis += 1
            else:
                bad.append(o)
        if not r["obligations"] or r["feasible_paths"] == 0:
            nob += 1
            bad.append(dict(name=r["name"] + " / reachable", status="unsupported", backend="-",
                            detail="no feasible path produced an obligation", path=""))
    return nob, ndis, bad
