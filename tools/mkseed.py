#!/usr/bin/env python3
"""mkseed.py FILE.py: FILE defines SEEDS = [dict(id, property, needs, what, edits=[(file, old, new)], demo=C++ text, pre=shell)]; writes seeded/<id>/"""
import json, os, subprocess, sys, runpy
S = "/tmp/s/repo"
DEMO = '''#!/bin/bash
# run with the current directory at the repository root, after a build
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
mkdir "$t/inc"
cp ./*.hpp ./rs_bit_vector.cpp ./bp_vector.cpp "$t/inc/"
ln -s . "$t/inc/succinct"
%s
g++ -std=c++11 -O1 -w %s -I"$t/inc" -o "$t/demo" "$here/demo.cpp" "$t/inc/rs_bit_vector.cpp" "$t/inc/bp_vector.cpp" -lboost_iostreams || exit 3
cd "$t" && timeout 120 "$t/demo"
'''
for s in runpy.run_path(sys.argv[1])["SEEDS"]:
    if len(sys.argv) > 2 and s["id"] not in sys.argv[2:]:
        continue
    subprocess.check_call(["git", "-C", S, "fetch", "-q"])
    subprocess.check_call(["git", "-C", S, "reset", "-q", "--hard", "origin/HEAD"])
    for f, a, b in s["edits"]:
        p = os.path.join(S, f)
        t = open(p).read()
        assert t.count(a) == 1, (s["id"], f, t.count(a), a)
        open(p, "w").write(t.replace(a, b))
    d = "/verif/seeded/" + s["id"]
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(subprocess.check_output(["git", "-C", S, "diff"], text=True))
    open(d + "/demo.sh", "w").write(DEMO % (s.get("pre", ""), s.get("flags", "")))
    os.chmod(d + "/demo.sh", 0o755)
    open(d + "/demo.cpp", "w").write(s["demo"].lstrip())
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["what"]}, open(d + "/meta.json", "w"), indent=1)
    print(s["id"])
