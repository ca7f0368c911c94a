#!/usr/bin/env python3
"""Confirms a planted bug in a private mount of scratch copies: demo passes before, patch applies and builds,
the stable tests pass, demo fails after; then runs the check of its property.
usage: plant.py ID [--no-tests] [--check PID,...]"""
import argparse, json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
INNER = r'''
set -u
mount --bind $S/repo /repo; mount --bind $S/verif /verif; mkdir -p $S/tmp; 
cp -a $S/seeded/$ID $S/demo; rm -f $S/demo/*.diff $S/demo/meta.json
mount --bind $S/tmp /tmp
cd /repo
run_demo() { (cd /repo && timeout 300 bash $S2/demo.sh > $S2.log 2>&1; echo $?); }
S2=/verif/demo_$ID; cp -a /verif/.seed_$ID $S2 2>/dev/null
A=$(run_demo); echo "demo clean: $A"
git apply /verif/.seed_$ID/patch.diff || { echo "APPLY FAILED"; exit 3; }
if [ "$TESTS" = 1 ]; then
  bash /opt/vp/test.sh /verif/t.json > /verif/test.log 2>&1
  python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/verif/t.json'))
m=[x for x in b['stable'] if x not in set(t['passed'])]
print('tests:', 'ok' if not m else 'BROKEN %d %s' % (len(m), m[:6]))
P
fi
B=$(run_demo); echo "demo patched: $B"; [ "$B" = 0 ] && tail -3 $S2.log
rm -rf /verif/demo_$ID
for p in $CHECKS; do (cd /verif && VERIF_SEED=1 timeout 900 ./check $p quick > /verif/c.log 2>&1; echo "check $p: $? $(grep -c '^VIOLATION' /verif/c.log)"; tail -4 /verif/c.log | cut -c1-300); done
'''
def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id"); ap.add_argument("--no-tests", action="store_true"); ap.add_argument("--check")
    a = ap.parse_args()
    src = os.path.join(V, "seeded", a.id)
    meta = json.load(open(os.path.join(src, "meta.json")))
    S = "/var/tmp/plant_" + a.id
    shutil.rmtree(S, ignore_errors=True); os.makedirs(S + "/tmp")
    try:
        subprocess.check_call(["cp", "-a", "/repo", S + "/repo"])
        subprocess.check_call("mkdir %s/verif && cd %s && cp -a check lib harness known_findings.txt %s/verif/" % (S, V, S), shell=True)
        shutil.copytree(src, S + "/verif/.seed_" + a.id)
        shutil.copytree(src, S + "/seeded/" + a.id)
        env = dict(os.environ, S=S, ID=a.id, TESTS="0" if a.no_tests else "1", CHECKS=(a.check or meta["property"]).replace(",", " "))
        r = subprocess.run(["unshare", "-Urm", "bash", "-c", INNER], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        print("== %s (%s)\n%s" % (a.id, meta["property"], r.stdout), flush=True)
    finally:
        shutil.rmtree(S, ignore_errors=True)
main()
