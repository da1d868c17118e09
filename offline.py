"""Offline checkers over the logs recorded by several runs."""


def configurations(rn, runs, outs):
    """All build configurations must have recorded the same results in every case."""
    seen, by_run = {}, {}
    for r in runs:
        by_run[r["variant"]] = r
    n = 0
    for key, results in outs.items():
        var = key.split(":")[0]
        for res in results:
            for x in res["recs"]:
                if x.get("t") == "rec":
                    seen.setdefault((x["s"], x["i"]), {})[var] = x
                    n += 1
    compared = 0
    for (s, i), per in sorted(seen.items()):
        vs = sorted(per)
        # the value most configurations agree on
        count = {}
        for v in vs:
            k = (per[v]["h"], per[v]["n"])
            count[k] = count.get(k, 0) + 1
        common = max(count, key=lambda k: (count[k], k))
        ref = next(v for v in vs if (per[v]["h"], per[v]["n"]) == common)
        for v in vs:
            a, b = per[ref], per[v]
            compared += 1
            if (b["h"], b["n"]) != common:
                report(rn, by_run, s, i, ref, v, "DIFFERENT-RESULTS")
            elif len(a["x"]) != len(b["x"]) or any(
                    not (p == q or abs(p - q) <= 1e-9 * (1 + max(abs(p), abs(q)))) for p, q in zip(a["x"], b["x"])):
                report(rn, by_run, s, i, ref, v, "DIFFERENT-NUMBERS")
    rn.events["records"] = n
    rn.events["comparisons between configurations"] = compared
    rn.events["configurations"] = len(by_run)
    if compared == 0:
        rn.inconclusive.append("no records to compare")


def report(rn, by_run, s, i, ref, var, what):
    key = f"{s}/{what}:{var}"
    if key in rn.viol:
        return
    obs = []
    for v in (ref, var):
        import os
        os.environ["MON_DUMP"] = "1"
        try:
            res = rn.spawn(rn.exes[v], by_run[v], ["--only", f"{s}:{i}"])
        finally:
            del os.environ["MON_DUMP"]
        obs.append([(x["name"], x["v"]) for x in res["recs"] if x.get("t") == "obs"])
    first = next(((a, b) for a, b in zip(*obs) if a != b), None)
    detail = f"{ref}: {first[0]}; {var}: {first[1]}" if first else f"{len(obs[0])} and {len(obs[1])} observations"
    rn.add(key, dict(section=s, index=i, input=f"compared with {ref}", detail=detail[:3000], variant=var, run=by_run[var]))
