#!/usr/bin/env python3
"""mkseed.py ID PROPERTY : takes the diff of the scratch worktree /tmp/wt and /tmp/demo.cpp (+ '// SOURCES: ...' line), writes seeded/ID"""
import json, os, re, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sid, prop, needs, breaks = sys.argv[1:5]
demo = sys.argv[5] if len(sys.argv) > 5 else "/tmp/demo.cpp"
D = os.path.join(V, "seeded", sid)
if os.path.isdir(D):
    shutil.rmtree(D)
os.makedirs(D + "/stubs")
diff = subprocess.run(["git", "-C", "/tmp/wt", "diff"], capture_output=True, text=True).stdout
assert diff.strip(), "no change"
open(D + "/patch.diff", "w").write(diff)
shutil.copy(demo, D + "/demo.cpp")
txt = open(demo).read()
m = re.search(r"// SOURCES:(.*)", txt)
srcs = m.group(1).split() if m else []
flags = ["-std=c++17", "-w", "-O1", "-fno-access-control", "-include", V + "/stubs/score/utility.hpp", "-I" + V + "/stubs", "-I."]
deps = set()
for s in [demo] + srcs:
    o = subprocess.run(["clang++-18"] + flags + ["-MM", s], capture_output=True, text=True, cwd="/repo")
    assert o.returncode == 0, o.stderr
    for d in o.stdout.replace("\\\n", " ").split()[1:]:
        if d.startswith(V + "/stubs/"):
            deps.add(d[len(V) + 7:])
for d in deps:
    os.makedirs(os.path.dirname(D + "/stubs/" + d), exist_ok=True)
    shutil.copy(V + "/stubs/" + d, D + "/stubs/" + d)
link = re.search(r"// LINK:(.*)", txt)
with open(D + "/demo.sh", "w") as f:
    f.write("""#!/bin/bash
# builds the demonstration against the sources of the current directory and runs it
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
clang++-18 -std=c++17 -w -g -O1 -fno-access-control -include "$D/stubs/score/utility.hpp" -I"$D/stubs" -I. "$D/demo.cpp" %s -o "$T/demo" -lpthread %s || exit 99
timeout 120 "$T/demo"
""" % (" ".join(srcs), link.group(1) if link else ""))
os.chmod(D + "/demo.sh", 0o755)
json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(D + "/meta.json", "w"), indent=1)
ok = subprocess.run(["bash", D + "/demo.sh"], cwd="/repo").returncode
bad = subprocess.run(["bash", D + "/demo.sh"], cwd="/tmp/wt").returncode
print("demo: unchanged", ok, "patched", bad)
