"""mkplant(id, prop, [(file, old, new)], needs, breaks, demo_cc, sources, flags): writes /verif/seeded/<id>/."""
import json, os, shutil, subprocess, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VT_REPO", "/repo")
BASE = "common/check.cxx common/print.cxx common/utctime.cxx common/quantized_time.cxx"
NAV = BASE + " $(ls common/ephemeris/*.cxx | grep -v '/test_\\|bench_') utils/crc.cxx"
SAT = NAV + " $(ls common/satellite/*.cxx | grep -v '/test_\\|bench_') utils/wgs84.cxx"
def mkplant(id, prop, edits, needs, breaks, demo, sources="", libs="-lfmt -lyaml-cpp", flags="", script=None, files=None):
    d = os.path.join(V, "seeded", id)
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    W = tempfile.mkdtemp(dir="/var/tmp")
    try:
        subprocess.check_call(["git", "-C", REPO, "worktree", "add", "-q", "--detach", W + "/w"])
        for f, a, b in edits:
            p = os.path.join(W, "w", f); s = open(p).read()
            assert s.count(a) == 1, (id, f, a, s.count(a))
            open(p, "w").write(s.replace(a, b))
        diff = subprocess.check_output(["git", "-C", W + "/w", "diff"]).decode()
    finally:
        subprocess.call(["git", "-C", REPO, "worktree", "remove", "--force", W + "/w"]); shutil.rmtree(W, ignore_errors=True)
    open(d + "/patch.diff", "w").write(diff)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
    if script is None:
        open(d + "/demo.cc", "w").write(demo.lstrip())
        script = """#!/bin/bash
# run in /repo: 0 if the property holds for this input, 1 if it does not
set -e
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
here=$(cd "$(dirname "$0")" && pwd)
g++ -std=gnu++17 -O1 -w -DFMT_DEPRECATED_OSTREAM %s -I. -I/usr/include/eigen3 "$here/demo.cc" %s %s -o "$d/demo"
cd "$d" && ./demo
""" % (flags, sources, libs)
    open(d + "/demo.sh", "w").write(script)
    for n, t in (files or {}).items(): open(os.path.join(d, n), "w").write(t)
    os.chmod(d + "/demo.sh", 0o755)
