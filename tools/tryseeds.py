#!/usr/bin/env python3
"""Validates seeded bugs: usage tryseeds.py [--nocheck] [--nobuild] id...   (works in a scratch copy, /repo is not touched)"""
import json, os, subprocess, sys, tempfile, shutil, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
nocheck = "--nocheck" in args; nobuild = "--nobuild" in args
allchecks = "--all" in args
ids = [a for a in args if not a.startswith("--")] or sorted(os.listdir(os.path.join(V, "seeded")))
base = set(t if isinstance(t, str) else t.get("name") for t in json.load(open("/opt/vp/BASELINE.json")).get("stable", json.load(open("/opt/vp/BASELINE.json")).get("passing", [])))
def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
for i in ids:
    d = os.path.join(V, "seeded", i)
    meta = json.load(open(d + "/meta.json"))
    w = tempfile.mkdtemp(prefix="seedtry.", dir="/tmp")
    try:
        sh("git -C %s archive HEAD | tar x -C %s" % (os.environ.get("NEO_REPO", "/repo"), w))
        clean = sh("bash %s/demo.sh" % d, cwd=w)
        a = sh("git -C %s init -q && git -C %s apply %s/patch.diff" % (w, w, d))
        bad = sh("bash %s/demo.sh" % d, cwd=w)
        msg = "%s demo clean=%d patched=%d" % (i, clean.returncode, bad.returncode)
        if a.returncode or clean.returncode or bad.returncode in (0, 3):
            msg += "  *** INVALID " + a.stdout[-300:] + clean.stdout[-600:] + bad.stdout[-600:]
        else:
            msg += " [" + bad.stdout.strip().splitlines()[-1][:110] + "]" if bad.stdout.strip() else ""
        if not nobuild:
            # stable tests, in place of /opt/vp/build.sh which is bound to /repo
            sh("git -C /repo apply %s/patch.diff" % d)
            try:
                b = sh("bash /opt/vp/build.sh"); t = sh("bash /opt/vp/test.sh /tmp/seed_out.json")
                o = json.load(open("/tmp/seed_out.json"))
                msg += " build=%d passed=%s" % (b.returncode, len(o.get("passed", [])))
                if b.returncode or len(o.get("passed", [])) < 32: msg += " *** TESTS"
            finally:
                sh("git -C /repo checkout -- .")
        if not nocheck:  # results are kept for DESIGN.md
            props = [meta["property"]]
            t0 = time.time()
            c = sh("NEO_REPO=%s python3 %s/check.py %s --tier quick" % (w, V, props[0]))
            v = [l for l in c.stdout.splitlines() if l.startswith("VIOLATION")]
            msg += " check=%d %s (%.0fs)" % (c.returncode, "CAUGHT" if c.returncode == 1 and v else "*** MISSED", time.time() - t0)
            if c.returncode not in (0, 1): msg += c.stdout[-800:]
            rp = V + "/tools/seed/results.json"
            r = json.load(open(rp)) if os.path.exists(rp) else {}
            r[i] = "yes" if c.returncode == 1 and v else "no"
            json.dump(r, open(rp, "w"), indent=1, sort_keys=True)
        print(msg, flush=True)
    finally:
        shutil.rmtree(w)
