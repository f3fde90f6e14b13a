#!/usr/bin/env python3
"""Generates /verif/seeded/<id>/ from tools/seed/*.py definitions (run by hand; no check reads it)."""
import json, os, shutil, subprocess, sys, tempfile, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("NEO_REPO", "/repo")
DEMO = '''#!/bin/bash
# cwd: the repository. Exits 0 when the property holds for the demonstrated input.
here="$(cd "$(dirname "$0")" && pwd)"
tmp="$(mktemp -d)"
trap 'rm -rf "$tmp"' EXIT
clang++-18 -std=c++20 -O1 %s -I"$PWD/src" -I"$here/shim" -I"$here" "$here/demo.cpp" -o "$tmp/demo" || exit 3
timeout 200 "$tmp/demo"
'''
def load():
    out = {}
    for f in sorted(glob.glob(os.path.join(V, "tools/seed/*.py"))):
        ns = {}
        exec(compile(open(f).read(), f, "exec"), ns)
        for s in ns["SEEDS"]:
            assert s["id"] not in out, s["id"]
            out[s["id"]] = s
    return out
def make(s):
    d = os.path.join(V, "seeded", s["id"])
    if os.path.exists(d): shutil.rmtree(d)
    os.makedirs(d)
    diffs = []
    files = {}
    for e in s["edits"]:
        f, old, new = e[:3]
        t = files.get(f) or open(os.path.join(REPO, f)).read()
        n = t.count(old)
        if len(e) == 4:  # nth occurrence
            parts = t.split(old)
            assert len(parts) > e[3] + 1, (s["id"], n)
            files[f] = old.join(parts[:e[3] + 1]) + new + old.join(parts[e[3] + 1:])
            continue
        if n != 1:
            sys.exit("%s: %d matches of %r in %s" % (s["id"], n, old, f))
        files[f] = t.replace(old, new)
    with tempfile.TemporaryDirectory() as td:
        for f, t in files.items():
            for side, txt in (("a", open(os.path.join(REPO, f)).read()), ("b", t)):
                p = os.path.join(td, side, f); os.makedirs(os.path.dirname(p), exist_ok=True); open(p, "w").write(txt)
        for f in files:
            r = subprocess.run(["git", "diff", "--no-index", "--no-prefix", "a/" + f, "b/" + f], cwd=td, capture_output=True, text=True)
            diffs.append(r.stdout)
    open(os.path.join(d, "patch.diff"), "w").write("".join(diffs))
    if "demo_py" in s:  # a demonstration in Python
        open(os.path.join(d, "demo.py"), "w").write(s["demo_py"])
        open(os.path.join(d, "demo.sh"), "w").write('#!/bin/bash\n# cwd: the repository. Exits 0 when the property holds for the demonstrated input.\ntimeout 200 python3 -B "$(cd "$(dirname "$0")" && pwd)/demo.py" "$PWD"\n')
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        return
    demo = s["demo"]
    if not demo.lstrip().startswith("//raw"):
        incs = "".join("#include <%s>\n" % i for i in s["inc"])
        body = s.get("pre", "") + "\nint main()\n{\n" + demo.strip("\n") + "\n    std::puts(\"ok\");\n    return 0;\n}\n"
        demo = '#include "d.hpp"\n' + incs + body
    open(os.path.join(d, "demo.cpp"), "w").write(demo)
    shutil.copy(os.path.join(V, "tools/seed/d.hpp"), d)
    shutil.copytree(os.path.join(V, "shim"), os.path.join(d, "shim"))
    flags = s.get("flags", "-march=x86-64")
    if "stubs" in s:  # a stand-in directory and the source directory it serves
        stub, src = s["stubs"]
        shutil.copytree(os.path.join(V, "stubs", stub), os.path.join(d, "stubs"))
        flags += ' -w -I"$here/stubs" -I"$PWD/%s"' % src
    open(os.path.join(d, "demo.sh"), "w").write(DEMO % flags)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
if __name__ == "__main__":
    seeds = load()
    for i in (sys.argv[1:] or sorted(seeds)):
        make(seeds[i])
        print("made", i)
