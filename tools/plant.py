#!/usr/bin/env python3
"""plant.py ID: turns /tmp/w/seeds/ID (edits.py, demo.cpp or demo.sh, meta.json) into a confirmed /verif/seeded/ID.

edits.py holds EDITS = [(file, old, new), ...]. The change must build, pass the stable tests, and fail its
demonstration, which must pass without it. Works on /repo and restores it.
"""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# Compiles the demonstration against the library in the current directory and runs it.
set -e
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
%s "$d/demo.cpp" -o "$t/demo" -Iinclude -Itest/include %s
timeout 200 "$t/demo"
'''


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


BASE = "c282728"


def own_lines(diff):
    """Removed lines of the diff that do not come from the original repository."""
    bad, n, f, line = [], 0, None, 0
    for l in diff.splitlines():
        if l.startswith("--- a/"):
            f = l[6:]
            b = sh(f"git -C /repo blame -s {BASE}..HEAD -- {f}").stdout.splitlines()
        elif l.startswith("@@"):
            line = int(l.split()[1].split(",")[0][1:])
        elif l.startswith("-"):
            n += 1
            if not b[line - 1].startswith("^"):
                bad.append(b[line - 1])
            line += 1
        elif l.startswith(" "):
            line += 1
    return bad if n else ["only additions"]


def main(i, quick):
    src = f"/tmp/w/seeds/{i}"
    ns = {}
    exec(open(f"{src}/edits.py").read(), ns)
    assert not sh("git -C /repo status --porcelain").stdout.strip(), "repo not clean"
    out = f"{HERE}/seeded/{i}"
    stage = tempfile.mkdtemp()
    try:
        for f, old, new in ns["EDITS"]:
            p = f"/repo/include/libcommute/{f}"
            s = open(p).read()
            assert s.count(old) == ns.get("COUNT", 1), (f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        d = sh("git -C /repo diff").stdout
        assert d
        bad = own_lines(d)
        if bad:
            print(i, "CHANGES LINES OF OUR OWN", bad[:3]); return 1
        open(f"{stage}/patch.diff", "w").write(d)
        shutil.copy(f"{src}/demo.cpp", stage)
        open(f"{stage}/demo.sh", "w").write(DEMO % (ns.get("CXX", "g++ -std=c++17 -O1 -w"), ns.get("LIBS", "")))
        json.dump(ns["META"], open(f"{stage}/meta.json", "w"), indent=1)
        r = sh("bash /opt/vp/build.sh")
        if r.returncode:
            print(i, "DOES NOT BUILD", (r.stdout + r.stderr)[-1500:]); return 1
        a = sh(f"bash {stage}/demo.sh", cwd="/repo")
        if a.returncode == 0:
            print(i, "DEMO PASSES WITH THE CHANGE", a.stdout[-500:]); return 1
        if "error:" in a.stderr:
            print(i, "DEMO DOES NOT COMPILE", a.stderr[:1500]); return 1
        sh(f"bash /opt/vp/test.sh {stage}/t.json")
        b = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
        t = set(json.load(open(f"{stage}/t.json"))["passed"])
        os.remove(f"{stage}/t.json")
        if b - t:
            print(i, "TESTS CATCH IT", sorted(b - t)[:4]); return 1
        sh("git -C /repo checkout -- .")
        c = sh(f"bash {stage}/demo.sh", cwd="/repo")
        if c.returncode:
            print(i, "DEMO FAILS WITHOUT THE CHANGE", (c.stdout + c.stderr)[-800:]); return 1
        shutil.rmtree(out, ignore_errors=True)
        shutil.copytree(stage, out)
        print(i, "ok: demo says", (a.stdout + a.stderr).strip()[-160:])
        return 0
    finally:
        sh("git -C /repo checkout -- .")
        shutil.rmtree(stage, ignore_errors=True)


if __name__ == "__main__":
    rc = 0
    for x in sys.argv[1:]:
        rc |= main(x, False)
    sys.exit(rc)
