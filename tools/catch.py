#!/usr/bin/env python3
"""catch.py [ID[:PROPERTY] ...]: runs the quick check of its property on every planted change and records the outcome.

Works on a copy of the library (LIBCOMMUTE_REPO), so /repo stays as it is.
"""
import json, os, shutil, subprocess, sys, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCRATCH = "/tmp/w/catch_repo"


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def main(ids):
    res = {}
    for x in ids:
        i, _, p = x.partition(":")
        d = f"{HERE}/seeded/{i}"
        p = p or json.load(open(f"{d}/meta.json"))["property"]
        shutil.rmtree(SCRATCH, ignore_errors=True)
        shutil.copytree("/repo/include", SCRATCH + "/include")
        r = sh(f"patch -p1 -s < {d}/patch.diff", cwd=SCRATCH)
        if r.returncode:
            print(i, "PATCH DOES NOT APPLY", r.stdout[:200]); continue
        t = time.time()
        r = sh(f"python3 {HERE}/check.py {p}", env=dict(os.environ, LIBCOMMUTE_REPO=SCRATCH, VERIF_EVIDENCE="/tmp/w/ev",
                                                        VERIF_BUILD="/tmp/w/catch_build"))
        keys = sorted({l[3:].split(" [")[0] for l in r.stdout.splitlines() if l.startswith("-- ")})
        st = {0: "MISSED", 1: "caught"}.get(r.returncode, f"NO ANSWER rc={r.returncode} {r.stderr[-300:]}")
        print(f"{i:34s} {p} {st} {time.time() - t:.0f}s {', '.join(keys)[:120]}", flush=True)
        if r.returncode in (0, 1):
            f = f"{HERE}/tools/caught.json"
            c = json.load(open(f))
            note = c.get(i, "").partition("; ")[2]
            c[i] = (p + " (" + ", ".join(keys)[:80] + ")" if r.returncode else "missed by " + p) + (note and "; " + note)
            json.dump(c, open(f, "w"), indent=1, sort_keys=True)
        shutil.rmtree("/tmp/w/catch_build", ignore_errors=True)
    shutil.rmtree(SCRATCH, ignore_errors=True)


main(sys.argv[1:] or sorted(os.listdir(f"{HERE}/seeded")))
