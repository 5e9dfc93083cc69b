#!/usr/bin/env python3
"""tools/mkseed.py ID PROPERTY 'needs' 'what it breaks' < demo main.cc
Lays out seeded/ID: demo.sh, cxxpool.h (stand-in for the thread pool the sandbox lacks), main.cc, meta.json.
patch.diff is taken from the working tree of the scratch copy given by $SCRATCH (git diff)."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = r'''#!/bin/bash
# Compiles the library from the sources in the current directory and runs main.cc against it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
w=$(mktemp -d)
trap 'rm -rf "$w"' EXIT
F="-std=c++17 -O0 -w -include cstdint -DINCLUDE_FILESYSTEM=1 @EXTRA@ -I$here -I$repo/src -I$repo/extern/hgdb/include"
ls -S "$repo"/src/*.cc "$here"/main.cc | xargs -P 8 -I@ sh -c 'g++ '"$F"' -c "@" -o '"$w"'/$(basename "@").o' || exit 3
g++ @EXTRA@ -o "$w/demo" "$w"/*.o -lfmt -lstdc++fs -lpthread || exit 3
cd "$w" && timeout 60 ./demo
'''
def main():
    id, prop, needs, breaks = sys.argv[1:5]
    extra = os.environ.get("EXTRA", "")
    d = os.path.join(V, "seeded", id)
    os.makedirs(d, exist_ok=True)
    with open(d + "/demo.sh", "w") as f: f.write(DEMO.replace("@EXTRA@", extra))
    os.chmod(d + "/demo.sh", 0o755)
    shutil.copy(V + "/shim/cxxpool.h", d + "/cxxpool.h")
    with open(d + "/main.cc", "w") as f: f.write(sys.stdin.read())
    with open(d + "/meta.json", "w") as f:
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, f, indent=1); f.write("\n")
    p = subprocess.run(["git", "-C", os.environ.get("SCRATCH", "/tmp/sd"), "diff", "--", "src"], capture_output=True, text=True, check=True).stdout
    assert p.strip(), "no change in scratch"
    with open(d + "/patch.diff", "w") as f: f.write(p)
main()
