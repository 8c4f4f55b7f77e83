#!/usr/bin/env python3
"""plant.py SPEC.py [ID...]: writes /verif/seeded/<id>/ from a spec and confirms it in a scratch copy.

The spec defines BUGS = [dict(id, property, file, old, new[, nth], demo, needs, breaks)].  The scratch copy
($WT, a `cp -a` of /repo with the paths of its build folder rewritten) is restored afterwards.
"""
import json
import os
import shutil
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WT = os.environ.get("WT", "/tmp/wt")
TEST = os.environ.get("WT_TEST", "/tmp/test.sh")
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:]
SH = '''#!/bin/bash
# run in the repository after its build: exit 0 if the property holds
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
g++ -std=c++20 -include cstdint -g -O0 -Isrc -I"$D" "$D/demo.cpp" _build/liblog_surgeon.a -lfmt -o "$T/demo" || exit 3
cd "$T" && timeout 200 ./demo
'''


def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, errors="replace", **k)


def demo(d):
    r = sh("bash", d + "/demo.sh", cwd=WT)
    return r.returncode, (r.stdout + r.stderr).strip()[-300:]


for b in ns["BUGS"]:
    if only and b["id"] not in only:
        continue
    d = os.path.join(V, "seeded", b["id"])
    os.makedirs(d, exist_ok=True)
    edits = b.get("edits") or [(b["file"], b["old"], b["new"], b.get("nth", 1))]
    sh("git", "checkout", "--", ".", cwd=WT)
    with open(d + "/demo.cpp", "w") as f:
        f.write('#include "h.hpp"\n' + b["demo"].lstrip())
    shutil.copy(os.path.join(V, "tools", "demo_h.hpp"), d + "/h.hpp")
    with open(d + "/demo.sh", "w") as f:
        f.write(SH)
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
              open(d + "/meta.json", "w"), indent=1)
    sh("ninja", "-C", WT + "/_build", "liblog_surgeon.a")
    rc0, o0 = demo(d)
    for e in edits:
        fn, old, new = e[:3]
        nth = e[3] if len(e) > 3 else 1
        p = WT + "/src/log_surgeon/" + fn
        s = open(p).read()
        i = -1
        for _ in range(nth):
            i = s.find(old, i + 1)
            assert i >= 0, (b["id"], "text not found")
        open(p, "w").write(s[:i] + new + s[i + len(old):])
    diff = sh("git", "diff", cwd=WT).stdout
    open(d + "/patch.diff", "w").write(diff)
    t = sh("bash", TEST, "/tmp/sd/o.json")
    res = json.load(open("/tmp/sd/o.json"))
    rc1, o1 = demo(d)
    # the changed lines must be original ones
    mine = []
    for ln in diff.splitlines():
        if ln.startswith("-") and not ln.startswith("---"):
            pass
    good = rc0 == 0 and rc1 not in (0, 3) and len(res["passed"]) == 22
    print("%-22s %s  clean rc=%d, patched rc=%d, tests %d/22  %s | %s" % (
        b["id"], "ok" if good else "BAD", rc0, rc1, len(res["passed"]), o0[-80:] if rc0 else "", o1[-160:].replace("\n", " / ")))
    sys.stdout.flush()
    sh("git", "checkout", "--", ".", cwd=WT)
