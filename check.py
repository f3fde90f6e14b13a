#!/usr/bin/env python3
"""Driver: build one property's harness from /repo's working tree, explore, replay, report.

usage: check.py <ID> [--tier quick|thorough] [--keep] [--replay FILE]

exit 0: the property held on everything explored; 1: violation (with a VIOLATION line); 2: the check
itself could not give an answer (compile error of the harness, missing tool, ...).
"""
import argparse
import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("NEO_REPO", "/repo")
JOBS = max(1, min(8, os.cpu_count() or 1))

CLANG = next((c for c in ("clang++-18", "clang++") if shutil.which(c)), None)
GCC = shutil.which("g++")

SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
BASE = ["-std=c++20", "-g1", "-w", "-I" + REPO + "/src", "-I" + VERIF + "/shim", "-I" + VERIF + "/harness",
        "-DMC_REPO=\"%s\"" % REPO, "-DMC_VERIF=\"%s\"" % VERIF]
X = ["-DNEO_HAS_XSIMD=1"]
AVX512 = ["-mavx512f", "-mavx512bw", "-mavx512vl", "-mavx512dq", "-mavx512cd"]
# name -> (compiler, flags, required cpu flags)
CONFIGS = {
    # the configuration of the repository's own build, instrumented
    "v3": (CLANG, ["-O1", "-march=x86-64-v3"] + X + SAN, ["avx2"]),
    # plain x86-64: SSE2 paths, no xsimd
    "sse2": (CLANG, ["-O1", "-march=x86-64"] + SAN, []),
    "sse2x": (CLANG, ["-O1", "-march=x86-64"] + X + SAN, []),
    "sse41": (CLANG, ["-O1", "-march=x86-64-v2"] + X + SAN, ["sse4_1"]),
    "avx512": (CLANG, ["-O1", "-march=x86-64-v3"] + AVX512 + X + SAN,
               ["avx512f", "avx512bw", "avx512vl", "avx512dq"]),
    # no x86 vector code: the NEON paths on a stand-in for the intrinsics, scalar loops elsewhere
    "neon": (CLANG, ["-O1", "-march=x86-64", "-U__SSE__", "-U__SSE2__", "-D__ARM_NEON=1", "-I" + VERIF + "/stubs/neon"] + SAN, []),
    "neonrel": (CLANG, ["-O2", "-DNDEBUG", "-march=x86-64", "-U__SSE__", "-U__SSE2__", "-D__ARM_NEON=1", "-I" + VERIF + "/stubs/neon"], []),
    "gcc": (GCC, ["-O1", "-march=x86-64-v3"] + X + SAN, ["avx2"]),
    # optimised release builds: assertions off, no sanitizer
    "v3rel": (CLANG, ["-O2", "-DNDEBUG", "-march=x86-64-v3"] + X, ["avx2"]),
    "sse2rel": (CLANG, ["-O2", "-DNDEBUG", "-march=x86-64"], []),
    "avx512rel": (CLANG, ["-O2", "-DNDEBUG", "-march=x86-64-v3"] + AVX512 + X,
                  ["avx512f", "avx512bw", "avx512vl", "avx512dq"]),
    "sse41rel": (CLANG, ["-O2", "-DNDEBUG", "-march=x86-64-v2"] + X, ["sse4_1"]),
    "gccrel": (GCC, ["-O2", "-DNDEBUG", "-march=x86-64-v3"] + X, ["avx2"]),
}

ENV = dict(os.environ)
ENV["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=1"
ENV["UBSAN_OPTIONS"] = "print_stacktrace=1"


def cpu_flags():
    try:
        with open("/proc/cpuinfo") as f:
            for line in f:
                if line.startswith("flags"):
                    return set(line.split(":", 1)[1].split())
    except OSError:
        pass
    return set()


def directives(path):
    d = {}
    with open(path) as f:
        for line in f:
            m = re.match(r"// MC-([A-Z]+):\s*(.*)$", line)
            if m:
                d.setdefault(m.group(1), []).append(m.group(2).strip())
    return d


def load_known(pid):
    out = []
    p = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if not line or line.startswith("#"):
                continue
            e = json.loads(line)
            if e.get("property") == pid and e.get("status") == "known":
                out.append(e)
    return out


class Binary:
    def __init__(self, pid, config, part, build):
        self.pid, self.config, self.part = pid, config, part
        self.name = "%s-%s-%d" % (pid, config, part)
        self.exe = os.path.join(build, self.name)

    def compile(self, src):
        comp, flags, _ = CONFIGS[self.config]
        inc = []
        for item in directives(src).get("INCLUDE", [""])[0].split():
            root, sub = item.split(":", 1)
            inc.append("-I" + os.path.join({"repo": REPO, "verif": VERIF}[root], sub))
        cmd = [comp] + BASE + inc + flags + ["-DMC_PART=%d" % self.part, "-DMC_CONFIG=\"%s\"" % self.config,
                                       src, "-o", self.exe]
        t = time.time()
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        self.minimal = False
        if r.returncode != 0 and '"indexed.hpp"' in open(src).read():
            # views with unusual extents are a bonus: a tree may stop accepting them without changing what it does
            m = subprocess.run(cmd[:1] + ["-DMC_MINIMAL=1"] + cmd[1:], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            if m.returncode == 0:
                self.minimal, r = True, m
        return r.returncode, r.stdout, time.time() - t

    def run(self, tier, shard, shards, build, known, limit, replay=None, timeout=None):
        tag = "%s.%s" % (self.name, "replay" if replay else "%d" % shard)
        out = os.path.join(build, tag + ".json")
        cur = os.path.join(build, tag + ".cur")
        for p in (out, cur):
            if os.path.exists(p):
                os.unlink(p)
        cmd = [self.exe, "--shard", str(shard), str(shards), "--tier", tier, "--out", out, "--current", cur,
               "--case-limit", str(limit)]
        for k in known:
            cmd += ["--known", k]
        if replay:
            cmd += ["--replay", replay]
        timed_out = False
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ENV, timeout=timeout, text=True,
                               errors="replace", cwd=build)
            rc, log = r.returncode, r.stdout
        except subprocess.TimeoutExpired as e:
            rc, timed_out = -1, True
            log = (e.stdout or b"").decode(errors="replace") if isinstance(e.stdout, bytes) else (e.stdout or "")
        res = None
        if os.path.exists(out):
            with open(out) as f:
                res = json.load(f)
        case = ""
        if os.path.exists(cur):
            with open(cur, "rb") as f:
                case = f.read().split(b"\0", 1)[0].decode(errors="replace")
        return {"rc": rc, "log": log, "res": res, "case": case, "timed_out": timed_out, "bin": self, "shard": shard}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--keep", action="store_true")
    ap.add_argument("--configs")
    ap.add_argument("--replay")
    a = ap.parse_args()
    t0 = time.time()
    pid, tier = a.pid, a.tier
    src = os.path.join(VERIF, "harness", pid + ".cpp")
    d = directives(src)
    quick_cfg = d["QUICK"][0].split()
    cfgs = list(quick_cfg)
    if tier == "thorough":
        for c in d.get("THOROUGH", [""])[0].split():
            if c not in cfgs:
                cfgs.append(c)
    if a.configs:
        cfgs = a.configs.split(",")
    have = cpu_flags()
    skipped = [c for c in cfgs if not set(CONFIGS[c][2]) <= have or CONFIGS[c][0] is None]
    cfgs = [c for c in cfgs if c not in skipped]
    parts = int(d.get("PARTS", ["1"])[0])
    case_limit = int(d.get("LIMIT", ["60"])[0]) * (10 if tier == "thorough" else 1)
    title = d["TITLE"][0]
    replay_req = None
    if a.replay:
        replay_req = json.load(open(a.replay))
        cfgs = [replay_req["config"]]
        skipped = []

    build = tempfile.mkdtemp(prefix="neo-mc-%s-" % pid)
    evdir = os.path.join(VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    known = load_known(pid)
    rc = 2
    try:
        rc = explore(pid, tier, src, d, cfgs, skipped, parts, case_limit, title, replay_req, build, evdir, known, t0)
    finally:
        if a.keep:
            print("build kept in", build)
        else:
            shutil.rmtree(build, ignore_errors=True)
    sys.exit(rc)


def explore(pid, tier, src, d, cfgs, skipped, parts, case_limit, title, replay_req, build, evdir, known, t0):
    bins = [Binary(pid, c, p, build) for c in cfgs for p in range(parts)]
    if replay_req:
        bins = [b for b in bins if b.part == replay_req["part"]]
    shards = int(d.get("SHARDS", ["0"])[0]) or max(2, (2 * JOBS) // max(1, len(bins)))
    stop = threading.Event()
    results, errors = [], []
    with cf.ThreadPoolExecutor(JOBS) as pool:
        comp = {pool.submit(b.compile, src): b for b in bins}
        runs = []
        for f in cf.as_completed(comp):
            b = comp[f]
            code, log, secs = f.result()
            if code != 0 and str(b.part) in d.get("OPTIONAL", [""])[0].split():
                # a part that compiles the library under macro settings it was not written for: no answer from it
                skipped.append("%s part %d (does not compile)" % (b.config, b.part))
                continue
            if b.minimal:
                skipped.append("%s part %d: views with unusual extents (do not compile)" % (b.config, b.part))
            if code != 0:
                errors.append("harness %s does not compile against %s:\n%s" % (b.name, REPO, log[-3000:]))
                continue
            if replay_req:
                continue

            def job(b=b, s=0):
                if stop.is_set():
                    return None
                kn = [k["case"] for k in known if k.get("config") in (None, b.config)]
                r = b.run(tier, s, shards, build, kn, case_limit)
                if r["rc"] != 0:
                    stop.set()
                return r

            for s in range(shards):
                runs.append(pool.submit(job, b, s))
        for f in runs:
            r = f.result()
            if r is not None:
                results.append(r)
    if replay_req and not errors:
        if replay_req.get("needs_history"):
            sh, shn = replay_req["needs_history"]
            r = bins[0].run(replay_req["tier"], sh, shn, build, [], 600)
        else:
            r = bins[0].run(tier, 0, 1, build, [], 600, replay=replay_req["case"])
        print(r["log"][-4000:])
        print("replay exit", r["rc"], r["res"] and r["res"].get("message"))
        return 1 if r["rc"] not in (0, 4) else 0

    bad = [r for r in results if r["rc"] != 0]
    violations = []
    for r in sorted(bad, key=lambda r: r["rc"] == 3):
        if violations and time.time() - t0 > 240:
            break  # one confirmed violation decides; replaying every hanging configuration could outlast the run
        case = r["res"]["case"] if r["res"] and r["res"]["status"] == "violation" else r["case"]
        if not case:
            errors.append("%s ended with %d before its first case\n%s" % (r["bin"].name, r["rc"], r["log"][-2000:]))
            continue
        # replay alone, with a longer limit, twice: the same case has to fail every time
        # (a case that hung: once, with four times the time)
        hung = r["rc"] == 3
        again = [r["bin"].run(tier, 0, 1, build, [], (4 if hung else 6) * case_limit, replay=case) for _ in range(1 if hung else 2)]
        history = False
        if not all(x["rc"] not in (0, 4) for x in again):
            # the case alone passes: the failure may need the executions before it in the same process (state that
            # outlives its object), or the case was only slow. Run the same shard again, twice, with a longer limit.
            kn = [k["case"] for k in known if k.get("config") in (None, r["bin"].config)]
            again = [r["bin"].run(tier, r["shard"], shards, build, kn, 6 * case_limit) for _ in range(2)]
            if all(x["rc"] == 0 for x in again) and r["rc"] == 3:
                results[results.index(r)] = again[0]  # only slow
                continue
            cases = [(x["res"] or {}).get("case") or x["case"] for x in again]
            if not all(x["rc"] not in (0, 4) for x in again) or cases != [case, case]:
                errors.append("case [%s] of %s failed once and did not fail again on replay\n%s"
                              % (case, r["bin"].name, r["log"][-2000:]))
                continue
            history = True
        kind = "violation" if r["rc"] == 1 and again[0]["res"] else ("hang" if again[0]["rc"] == 3 else "crash")
        msg = again[0]["res"]["message"] if again[0]["res"] else again[0]["log"][-3000:]
        if kind == "crash" and any(k["case"] == case and k.get("config") in (None, r["bin"].config) for k in known):
            continue
        violations.append({"property": pid, "config": r["bin"].config, "part": r["bin"].part, "case": case,
                           "kind": kind, "message": msg, "tier": tier,
                           "needs_history": [r["shard"], shards] if history else None,
                           "replay_cmd": "python3 /verif/check.py %s --tier %s --replay <this file>" % (pid, tier)})

    sums = {"cases": 0, "states": 0, "transitions": 0, "traces": 0, "outcomes": 0}
    scen, samples, known_hit, per_cfg = {}, [], set(), {}
    for r in results:
        if not r["res"]:
            continue
        for k in sums:
            sums[k] += r["res"][k]
        per_cfg[r["bin"].config] = per_cfg.get(r["bin"].config, 0) + r["res"]["cases"]
        for k, v in r["res"]["scenarios"].items():
            scen[k] = scen.get(k, 0) + v
        for s in r["res"]["samples"]:
            if len(samples) < 6 and s not in samples:
                samples.append(s)
        known_hit.update(r["res"]["known"])
    ev = {
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "model_checking",
        "coverage": {
            "states": sums["states"], "transitions": sums["transitions"],
            "traces_validated_against_impl": sums["traces"], "distinct_outcomes": sums["outcomes"],
            "cases": sums["cases"], "exhaustive": not violations and not errors, "samples": samples,
            "scenarios": scen, "build_configurations": per_cfg, "skipped_configurations": skipped,
            "bounds": d.get("BOUNDS", []),
        },
        "assumptions": d.get("ASSUME", []) + [
            "the library is compiled against the bounds-checked mdspan/mdarray implementation in /verif/shim"],
        "wall_s": round(time.time() - t0, 2), "violations": len(violations),
    }
    with open(os.path.join(evdir, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    print("%s %s [%s]: cases=%d states=%d transitions=%d traces=%d outcomes=%d configs=%s wall=%.1fs"
          % (pid, title, tier, sums["cases"], sums["states"], sums["transitions"], sums["traces"], sums["outcomes"],
             ",".join("%s:%d" % kv for kv in sorted(per_cfg.items())), time.time() - t0))
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (pid, k.get("what", k["case"])))
    if violations:
        v = violations[0]
        path = os.path.join(evdir, "%s.replay.json" % pid)
        with open(path, "w") as f:
            json.dump(v, f, indent=1)
            f.write("\n")
        print("%s in configuration %s, case [%s]:\n%s" % (v["kind"], v["config"], v["case"], v["message"]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if errors:
        for e in errors[:2]:
            print("check error: " + e)
        return 2
    if sums["cases"] == 0 or sums["states"] == 0 or sums["traces"] == 0:
        print("check error: nothing was explored")
        return 2
    return 0


if __name__ == "__main__":
    main()
