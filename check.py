#!/usr/bin/env python3
"""check.py <PROPERTY> [--tier quick|thorough] [--seed N] [--variant V] [--keep]

Builds the drivers of a property from the current working tree of the library,
runs them under the monitors, decides, writes evidence/<PROPERTY>.json.

exit 0: the property held on everything explored
exit 1: violated; a line "VIOLATION property=<id> replay=<path>" per finding
exit 2: no verdict (build or harness failure, timeouts)
"""
import concurrent.futures as cf
import hashlib
import itertools
import json
import os
import re
import resource
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get("LIBCOMMUTE_REPO", "/repo")
HARNESS = os.path.join(HERE, "harness")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(HERE, "build"))
EVID = os.environ.get("VERIF_EVIDENCE", os.path.join(HERE, "evidence"))
NCPU = os.cpu_count() or 4

from checks import CHECKS, VARIANTS  # noqa: E402

SAN_ENV = {
    "ASAN_OPTIONS": "abort_on_error=0:exitcode=66:detect_leaks=1:hard_rss_limit_mb=3500:"
                    "max_allocation_size_mb=3000:detect_stack_use_after_return=1:"
                    "strict_init_order=1:allocator_may_return_null=0",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=66",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=66:second_deadlock_stack=1:hard_rss_limit_mb=4000",
    "LSAN_OPTIONS": "exitcode=66:suppressions=" + os.path.join(HARNESS, "lsan.supp"),
}


def has_bmi2():
    try:
        return " bmi2 " in open("/proc/cpuinfo").read().replace("\n", " ")
    except OSError:
        return False


def tree_hash():
    h = hashlib.sha256()
    for root in (os.path.join(REPO, "include"), HARNESS):
        for d, dirs, files in sorted(os.walk(root)):
            dirs.sort()
            for f in sorted(files):
                p = os.path.join(d, f)
                h.update(p.encode())
                with open(p, "rb") as fh:
                    h.update(fh.read())
    return h.hexdigest()


class Error(Exception):
    pass


def compile_one(src, var, th, defs=()):
    v = VARIANTS[var]
    cmd = [v["cxx"]] + v["flags"] + list(defs) + ["-I" + os.path.join(REPO, "include"), "-I" + HARNESS,
                                     os.path.join(HARNESS, src)] + v.get("libs", ["-lgmpxx", "-lgmp"])
    key = hashlib.sha256((th + "\0" + "\0".join(cmd)).encode()).hexdigest()[:24]
    os.makedirs(BUILD, exist_ok=True)
    exe = os.path.join(BUILD, f"{os.path.splitext(src)[0]}-{var}-{key}")
    if not os.path.exists(exe):
        tmp = f"{exe}.tmp{os.getpid()}"
        p = subprocess.run(cmd + ["-o", tmp], capture_output=True, text=True, errors="replace")
        if p.returncode:
            errs = [x for x in p.stderr.splitlines() if "error" in x or "required from here" in x]
            raise Error(f"compilation failed: {' '.join(cmd)}\n" + "\n".join(x[:300] for x in errs[:12]))
        os.replace(tmp, exe)
    return exe, cmd


def exe_key(r):
    return (r["src"], r["variant"], tuple(r.get("defs", ())))


def classify(rc, err):
    m = re.search(r"ERROR: (Address|Leak)Sanitizer: ([\w-]+)", err)
    if m:
        k = m.group(2)
        return "ASAN:" + ("hard-rss-limit" if "rss limit" in err else k)
    if "hard rss limit exhausted" in err:
        return "MEMORY:hard-rss-limit"
    if "WARNING: ThreadSanitizer" in err:
        m = re.search(r"WARNING: ThreadSanitizer: ([\w -]+)", err)
        return "TSAN:" + m.group(1).strip().split(" (")[0].replace(" ", "-")
    m = re.search(r"runtime error: (.*)", err)
    if m:
        msg = re.sub(r"0x[0-9a-f]+|-?\d+", "N", m.group(1))
        return "UBSAN:" + re.sub(r"[^\w]+", "-", msg)[:60].strip("-")
    m = re.search(r"Assertion `?(.*?)'? failed", err)
    if m:
        return "ASSERT:" + re.sub(r"[^\w]+", "-", m.group(1))[:60].strip("-")
    m = re.search(r"^Error: (.*?)\.?$", err, re.M)
    if m and "/debug/" in err:
        return "DEBUGMODE:" + re.sub(r"[^\w]+", "-", re.sub(r"-?\d+", "N", m.group(1)))[:60].strip("-")
    if rc == 99 or "==ERROR" in err or "ERROR SUMMARY" in err:
        return "MEMCHECK"
    if rc == 77:
        return "HANG"
    if rc < 0:
        return f"SIGNAL:{-rc}"
    return f"EXIT:{rc}"


class Runner:
    def __init__(self, pid, tier, seed, tmp):
        self.pid, self.tier, self.seed, self.tmp = pid, tier, seed, tmp
        self.events, self.distinct, self.samples = {}, set(), []
        self.evaluations = 0
        self.viol = {}      # key -> dict
        self.known_seen = {}
        self.inconclusive = []
        self.ids = itertools.count(1)

    def limits(self, rss_as):
        def f():
            if rss_as:
                resource.setrlimit(resource.RLIMIT_AS, (rss_as, rss_as))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        return f

    def spawn(self, exe, run, extra):
        var = run["variant"]
        v = VARIANTS[var]
        base = os.path.join(self.tmp, f"r{next(self.ids)}")
        env = dict(os.environ)
        env.update(SAN_ENV)
        env.update(v.get("env", {}))
        cmd = v.get("prefix", []) + [exe, "--seed", str(self.seed), "--tier", self.tier, "--out", base + ".out",
                                     "--cur", base + ".cur", "--variant", var,
                                     "--cpu", str(v.get("cpu", 40)), "--scale",
                                     str(run.get("scale", 1) * v.get("scale", 1))] + extra
        with open(base + ".err", "wb") as e, open(base + ".std", "wb") as o:
            t0 = time.time()
            try:
                p = subprocess.run(cmd, stdin=subprocess.DEVNULL, stdout=o, stderr=e, env=env,
                                   cwd=self.tmp, preexec_fn=self.limits(v.get("as")),
                                   timeout=self.wall)
                rc = p.returncode
            except subprocess.TimeoutExpired:
                rc = "timeout"
        err = open(base + ".err", errors="replace").read()
        recs = []
        if os.path.exists(base + ".out"):
            for line in open(base + ".out", errors="replace"):
                try:
                    recs.append(json.loads(line))
                except ValueError:
                    pass
        cur = None
        try:
            b = open(base + ".cur", "rb").read()
            cur = (b[:64].split(b"\0")[0].decode(), int.from_bytes(b[64:72], "little", signed=True),
                   b[72:200].split(b"\0")[0].decode(errors="replace"))
        except OSError:
            pass
        done = any(r.get("t") == "done" for r in recs)
        return dict(rc=rc, err=err, recs=recs, cur=cur, done=done, cmd=cmd, wall=time.time() - t0)

    def add(self, key, info):
        for k in KNOWN:
            if k["property"] == self.pid and re.fullmatch(k["key"], key) and \
                    re.search(k.get("input", ""), info.get("input", "") + info.get("detail", "")):
                self.known_seen[k["what"]] = k
                return True
        self.viol.setdefault(key, info)
        return False

    def absorb(self, res, run):
        var = run["variant"]
        for r in res["recs"]:
            t = r.get("t")
            if t == "ev":
                self.events[r["name"]] = self.events.get(r["name"], 0) + r["n"]
            elif t == "h":
                self.distinct.add(r["h"])
            elif t == "sample":
                if len(self.samples) < 40:
                    self.samples.append({"section": r["section"], "index": r["index"], "input": r["input"],
                                         "variant": var})
            elif t == "done":
                self.evaluations += r["evaluations"]
            elif t == "violation" and not run.get("sanitizers_only"):
                self.add(r["key"], dict(r, variant=var, run=run))

    def run_shard(self, exe, run, shard):
        var = run["variant"]
        skips = []
        for attempt in range(12):
            res = self.spawn(exe, run, shard + sum((["--skip", s] for s in skips), []))
            if res["rc"] == 0 and res["done"]:
                return [res]
            out = self.crash(exe, run, res)
            if out is None:
                return [res]
            if not out:  # unknown violation recorded, or inconclusive
                return [res]
            skips.append(f"{res['cur'][0]}:{res['cur'][1]}")
        return [res]

    def crash(self, exe, run, res):
        """A run ended abnormally. Returns True if it matched a known finding (go on)."""
        var = run["variant"]
        if res["rc"] == "timeout":
            self.inconclusive.append(f"{var}: wall clock limit, at {res['cur']}")
            return None
        if res["cur"] is None or (not res["cur"][0] and res["rc"] != 66):
            self.inconclusive.append(f"{var}: harness failed rc={res['rc']} {res['err'][-500:]}")
            return None
        kind = classify(res["rc"], res["err"])
        sec, idx, phase = res["cur"]
        confirmed = True
        if kind == "HANG" or kind.startswith(("MEMORY", "SIGNAL:9", "EXIT", "ASAN:hard-rss")):
            again = self.spawn(exe, run, ["--only", f"{sec}:{idx}", "--cpu", "80"])
            if again["rc"] == 0:
                confirmed = False
            elif again["rc"] == "timeout":
                confirmed = False
            else:
                kind = classify(again["rc"], again["err"])
        if not confirmed:
            self.inconclusive.append(f"{var}: {kind} at {sec}:{idx} not reproduced")
            return None
        if kind == "EXIT:3":
            self.inconclusive.append(f"{var}: harness usage error {res['err'][-300:]}")
            return None
        frames = re.findall(r"#\d+ 0x[0-9a-f]+ in ([^\n]*?libcommute[^\n]*)", res["err"])[:4]
        info = dict(section=sec, index=idx, input=f"phase: {phase}",
                    detail=kind + "\n" + "\n".join(frames) + "\n" + res["err"][:6000], variant=var, run=run)
        return self.add(f"{sec}/{kind}", info)


def main():
    a = sys.argv[1:]
    pid = a.pop(0)
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    only_var = None
    passthru = []
    while a:
        x = a.pop(0)
        if x == "--tier":
            tier = a.pop(0)
        elif x == "--seed":
            seed = int(a.pop(0))
        elif x == "--variant":
            only_var = a.pop(0)
        else:
            passthru.append(x)
    t0 = time.time()
    chk = CHECKS[pid]
    runs = [r for r in chk["runs"] if tier in r.get("tiers", ("quick", "thorough"))]
    runs = [r for r in runs if not (VARIANTS[r["variant"]].get("needs") == "bmi2" and not has_bmi2())]
    if only_var:
        runs = [r for r in runs if r["variant"] == only_var]
    global KNOWN
    KNOWN = json.load(open(os.path.join(HERE, "known_findings.json")))["known"]
    th = tree_hash()
    tmp = tempfile.mkdtemp(prefix=f"verif-{pid}-")
    rn = Runner(pid, tier, seed, tmp)
    rn.wall = 600 if tier == "quick" else 6000
    status = 2
    try:
        exes = {}
        with cf.ThreadPoolExecutor(NCPU) as pool:
            futs = {exe_key(r): pool.submit(compile_one, r["src"], r["variant"], th, r.get("defs", ())) for r in runs}
            broken = {}
            for k, f in futs.items():
                try:
                    exes[k] = f.result()
                except Error as e:
                    broken[k] = e
            if broken and not (chk.get("offline") == "configurations" and exes):
                raise next(iter(broken.values()))
        for r in runs:  # a program accepted by some supported configurations only
            if exe_key(r) in broken:
                rn.add(f"{r['variant']}/DOES-NOT-COMPILE", dict(
                    section="compilation", index=0, input=r["variant"], detail=str(broken[exe_key(r)])[:3000],
                    variant=r["variant"], run=r))
        runs = [r for r in runs if exe_key(r) not in broken]
        per_run = []
        with cf.ThreadPoolExecutor(NCPU) as pool:
            jobs = []
            for r in runs:
                ns = r.get("shards", NCPU)
                for s in range(ns):
                    jobs.append((r, pool.submit(rn.run_shard, exes[exe_key(r)][0], r,
                                                ["--shard", f"{s}/{ns}"] + r.get("args", []) + passthru)))
            outs = {}
            for r, j in jobs:
                for res in j.result():
                    rn.absorb(res, r)
                    outs.setdefault(r["variant"] + ":" + r["src"], []).append(res)
        # offline checkers over the recorded logs of several runs
        if chk.get("offline"):
            import offline
            rn.exes = {r["variant"]: exes[exe_key(r)][0] for r in runs}
            getattr(offline, chk["offline"])(rn, runs, outs)
        for k, rs in outs.items():
            per_run.append({"variant": k, "processes": len(rs),
                            "evaluations": sum(x["evaluations"] for q in rs for x in q["recs"] if x.get("t") == "done"),
                            "cpu_wall_s": round(sum(q["wall"] for q in rs), 1)})
        if rn.viol:
            status = 1
        elif rn.inconclusive:
            status = 2
        elif rn.evaluations == 0 or not rn.distinct:
            rn.inconclusive.append("nothing observed")
            status = 2
        else:
            status = 0
        write_evidence(pid, tier, seed, chk, rn, runs, per_run, exes, time.time() - t0, status)
    except Error as e:
        print(f"ERROR: {e}", file=sys.stderr)
        status = 2
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
        if not os.environ.get("VERIF_KEEP"):
            prune()
    return status


def prune():
    """Keep the build directory small: drop the oldest executables beyond 3 GB."""
    try:
        fs = [(os.path.getmtime(p), os.path.getsize(p), p)
              for p in (os.path.join(BUILD, f) for f in os.listdir(BUILD)) if os.path.isfile(p)]
    except OSError:
        return
    fs.sort(reverse=True)
    tot = 0
    for _, sz, p in fs:
        tot += sz
        if tot > 3 << 30:
            try:
                os.unlink(p)
            except OSError:
                pass


def write_evidence(pid, tier, seed, chk, rn, runs, per_run, exes, wall, status):
    os.makedirs(EVID, exist_ok=True)
    rdir = os.path.join(EVID, "replay")
    os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(pid + "-"):
            os.unlink(os.path.join(rdir, f))
    for i, (key, info) in enumerate(sorted(rn.viol.items())[:20]):
        path = os.path.join(rdir, f"{pid}-{i}.json")
        run = info.get("run") or next((r for r in runs if r["variant"] == info.get("variant")), runs[0])
        exe, cmd = exes.get(exe_key(run), (None, []))
        json.dump({"property": pid, "key": key, "section": info.get("section"), "index": info.get("index"),
                   "input": info.get("input"), "detail": info.get("detail"), "variant": info.get("variant"),
                   "seed": seed, "tier": tier, "build": " ".join(cmd) + " -o driver",
                   "run": f"./driver --seed {seed} --tier {tier} --only {info.get('section')}:{info.get('index')}",
                   "how": f"python3 {HERE}/check.py {pid} --seed {seed} --tier {tier} --variant "
                          f"{info.get('variant')} --only {info.get('section')}:{info.get('index')}"},
                  open(path, "w"), indent=1)
        print(f"-- {key} [{info.get('variant')}] {info.get('section')}:{info.get('index')}")
        print("   input: " + str(info.get("input"))[:700])
        print("   " + str(info.get("detail"))[:1200].replace("\n", "\n   "))
        print(f"VIOLATION property={pid} replay={path}")
    for what in sorted(rn.known_seen):
        print(f"KNOWN-FINDING: property={pid} {what}")
    for m in rn.inconclusive[:10]:
        print("INCONCLUSIVE: " + m, file=sys.stderr)
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": rn.evaluations,
            "distinct_nontrivial": len(rn.distinct),
            "rule": chk["rule"],
            "samples": rn.samples[:12],
            "observed_events": dict(sorted(rn.events.items())),
            "runs": per_run,
            "variants": {r["variant"]: " ".join([VARIANTS[r["variant"]]["cxx"]] + VARIANTS[r["variant"]]["flags"])
                         for r in runs},
            "verdict": {0: "held on everything explored", 1: "violated", 2: "inconclusive"}[status],
        },
        "assumptions": chk.get("assumptions", []),
        "wall_s": round(wall, 2),
        "violations": len(rn.viol),
    }
    json.dump(ev, open(os.path.join(EVID, pid + ".json"), "w"), indent=1)
    print(f"{pid} {tier} seed={seed}: {ev['coverage']['verdict']}; evaluations={rn.evaluations} "
          f"distinct non-trivial={len(rn.distinct)} events={sum(rn.events.values())} wall={wall:.1f}s")


if __name__ == "__main__":
    sys.exit(main())
