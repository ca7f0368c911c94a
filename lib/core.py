"""Runs a check, interprets its result, writes evidence, prints the verdict."""
import json, os, shutil, subprocess, sys, tempfile, time
from . import build as B

VERIF = B.VERIF

def load_known(prop):
    """known_findings.txt: 'known: property=<id> probe=<name> text' suppresses that probe only."""
    out = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if not line.startswith("known:"):
                continue
            w = line.split(None, 3)
            pid = w[1].split("=", 1)[1]
            probe = w[2].split("=", 1)[1]
            if pid == prop:
                out[probe] = w[3] if len(w) > 3 else ""
    return out

class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.results = []      # dicts in the format of the C++ driver's "props"
        self.known = []        # dicts name/present/what
        self.tmp = tempfile.mkdtemp(prefix="vt_%s_" % prop)
        self.errors = []

    def run_harness(self, exe, extra=(), scale=1.0, env=None, timeout=1500):
        out = os.path.join(self.tmp, "out.json")
        if os.path.exists(out):
            os.unlink(out)
        e = dict(os.environ)
        if env:
            e.update(env)
        cmd = [exe, "--out", out, "--tier", self.tier, "--seed", str(self.seed), "--tmp", self.tmp,
               "--scale", str(scale)] + list(extra)
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e,
                           cwd=self.tmp, timeout=timeout)
        if not os.path.exists(out):
            raise RuntimeError("harness gave no result: rc %d\n%s" % (r.returncode, r.stdout.decode(errors="replace")[-3000:]))
        d = json.load(open(out))
        for p in d["props"]:
            p["exe"] = exe
            self.results.append(p)
        self.known += d.get("known", [])

    def finish(self, rule, assumptions=(), level="exploration"):
        known = load_known(self.prop)
        evals = sum(p["evals"] for p in self.results)
        nontriv = sum(p["nontrivial"] for p in self.results)
        viol = []
        per = {}
        samples = []
        for p in self.results:
            per[p["name"]] = {k: p[k] for k in ("cases", "evals", "discards", "nontrivial", "labels")}
            for s in p["samples"][:2]:
                samples.append("%s: %s" % (p["name"], s))
            f = p.get("failure")
            if f:
                if f["reproduced"] == 0:
                    per[p["name"]]["unreproduced"] = {k: f[k] for k in ("case", "msg", "notes")}
                    print("note: %s case %d failed once but not when replayed (%s)" %
                          (p["name"], f["case"], f["msg"][:300]))
                    continue
                viol.append((p, f))
        for k in self.known:
            if k["present"]:
                if k["name"] in known:
                    print("KNOWN-FINDING: property=%s %s %s" % (self.prop, k["name"], known[k["name"]]))
                else:
                    viol.append((None, k))
        rd = os.path.join(VERIF, "replays")
        lines = []
        for p, f in viol:
            os.makedirs(rd, exist_ok=True)
            if p is None:
                path = os.path.join(rd, "%s-probe-%s.txt" % (self.prop, f["name"]))
                with open(path, "w") as fh:
                    fh.write("fixed history %s (coded in the check)\n%s\n" % (f["name"], f["what"]))
                what = "%s: %s" % (f["name"], f["what"])
            else:
                path = os.path.join(rd, "%s-%s-seed%d.replay" % (self.prop, p["name"], self.seed))
                with open(path, "w") as fh:
                    if "json" in f:
                        json.dump(f["json"], fh, indent=1)
                    else:
                        fh.write(p["name"] + "\n")
                        for c in f["choices"]:
                            fh.write("%s\n" % c)
                with open(path + ".txt", "w") as fh:
                    fh.write("property %s, sub-property %s, seed %d tier %s case %d (reproduced %d/3, %d shrink steps)\n"
                             "failure: %s\ncase: %s\noutput: %s\nreplay: ./check %s --replay %s\n" %
                             (self.prop, p["name"], self.seed, self.tier, f["case"], f["reproduced"],
                              f["shrink_steps"], f["msg"], f["notes"], f["output"], self.prop, path))
                what = "%s: %s | %s" % (p["name"], f["msg"], f["notes"])
            print("  " + what[:1500])
            lines.append("VIOLATION property=%s replay=%s" % (self.prop, path))
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level,
              "coverage": {"evaluations": evals, "distinct_nontrivial": nontriv, "rule": rule,
                           "samples": samples[:12], "per_sub_property": per,
                           "known_probes": [k["name"] for k in self.known]},
              "assumptions": list(assumptions), "wall_s": round(time.time() - self.t0, 2),
              "violations": len(viol)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        tmpf = os.path.join(VERIF, "evidence", ".%s.tmp" % self.prop)
        with open(tmpf, "w") as fh:
            json.dump(ev, fh, indent=1)
        os.replace(tmpf, os.path.join(VERIF, "evidence", self.prop + ".json"))
        print("%s %s seed=%d: %d cases, %d distinct non-trivial, %d violations, %.1f s" %
              (self.prop, self.tier, self.seed, evals, nontriv, len(viol), time.time() - self.t0))
        for p in self.results:
            if p["evals"] and p["nontrivial"] < 0.2 * p["evals"]:
                print("note: %s only %d of %d cases non-trivial" % (p["name"], p["nontrivial"], p["evals"]))
        for l in lines:
            print(l)
        sys.stdout.flush()
        return 1 if viol else 0

    def close(self):
        shutil.rmtree(self.tmp, ignore_errors=True)
