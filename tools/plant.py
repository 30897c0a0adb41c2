#!/usr/bin/env python3
"""Writes a planted bug to /verif/seeded/<id>: plant.py FILE.py [--check]. FILE.py defines ID, PROPERTY, NEEDS, BREAKS,
EDITS = [(file, old, new)], DEMO (C++ text), and optionally FLAGS, BOUNDS, DEFS, SOURCES, ALSO. The demonstration is
run on a clean and on a changed scratch copy; with --check the property's quick check is run on the changed copy."""
import json
import os
import runpy
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = """#!/bin/bash
# Run at the root of LvArray. Exit 0: the property holds in the demonstrated case.
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d) || exit 2
trap 'find "$W" -delete' EXIT
cat > "$W/LvArrayConfig.hpp" <<'EOF'
#pragma once
#define LVARRAY_VERSION_MAJOR 0
#define LVARRAY_VERSION_MINOR 2
#define LVARRAY_VERSION_PATCHLEVEL 1
%(defs)s
EOF
%(cxx)s %(flags)s -w -g -pthread -I"$W" -I"$D/shim" -Isrc "$D/%(demo)s" %(sources)s -ldl -rdynamic -o "$W/demo" || exit 2
cd "$W" && timeout 200 "$W/demo"
"""


def sh(cmd, cwd):
    return subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")


def main():
    b = runpy.run_path(sys.argv[1])
    pid = b["ID"]
    out = os.path.join(VERIF, "seeded", pid)
    os.makedirs(out, exist_ok=True)
    scratch = "/tmp/plant-" + pid
    shutil.rmtree(scratch, ignore_errors=True)
    os.makedirs(scratch)
    for name in ("clean", "bug"):
        sh(["git", "clone", "-q", "--no-hardlinks", "/repo", os.path.join(scratch, name)], "/")
    bug = os.path.join(scratch, "bug")
    for f, old, new in b["EDITS"]:
        p = os.path.join(bug, f)
        s = open(p).read()
        assert s.count(old) == 1, (f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    with open(os.path.join(out, "patch.diff"), "w") as o:
        o.write(sh(["git", "diff"], bug).stdout)
    demo = "demo.c" if b.get("C") else "demo.cpp"
    open(os.path.join(out, demo), "w").write(b["DEMO"].lstrip())
    if b.get("SHIM", True):
        shutil.copytree(os.path.join(VERIF, "shim"), os.path.join(out, "shim"), dirs_exist_ok=True)
    defs = (["LVARRAY_BOUNDS_CHECK"] if b.get("BOUNDS", False) else []) + b.get("DEFS", [])
    open(os.path.join(out, "demo.sh"), "w").write(SH % {
        "defs": "\n".join("#define " + d for d in defs), "demo": demo, "cxx": "gcc" if b.get("C") else "g++",
        "flags": ("" if b.get("C") else "-std=c++14 ") + b.get("FLAGS", "-O1 -fsanitize=address,undefined -fno-sanitize=null,vptr,alignment -fno-sanitize-recover=all"),
        "sources": b.get("SOURCES", "src/system.cpp src/umpireInterface.cpp")})
    os.chmod(os.path.join(out, "demo.sh"), 0o755)
    json.dump({"property": b["PROPERTY"], "needs": b["NEEDS"], "what_it_breaks": b["BREAKS"]}, open(os.path.join(out, "meta.json"), "w"), indent=1)
    moved = os.path.join(scratch, "demo")
    shutil.copytree(out, moved)
    rc = 0
    for name, want in (("clean", True), ("bug", False)):
        r = sh(["bash", os.path.join(moved, "demo.sh")], os.path.join(scratch, name))
        ok = (r.returncode == 0) == want
        print("%s: demo on %s: rc %d%s" % (pid, name, r.returncode, "" if ok else "  <== WRONG"))
        if not ok or r.returncode == 2:
            print(r.stdout[-1500:])
            rc = 1
    if "--check" in sys.argv:
        for prop in [b["PROPERTY"]] + b.get("ALSO", []):
            e = dict(os.environ, VP_REPO=bug)
            r = subprocess.run(["python3", "tools/check.py", prop, "quick"], cwd=VERIF, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            print("%s: check %s rc %d: %s" % (pid, prop, r.returncode, (r.stdout.strip().splitlines() or [""])[-1]))
    shutil.rmtree(scratch)
    sys.exit(rc)


main()
