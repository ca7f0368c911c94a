#!/usr/bin/env python3
"""Mutation sweep: tools/mutate.py OUT.jsonl WORKERS COUNT [P1,P2,...] [--seed N]
Applies small changes to copies of /repo's sources named by a property, runs that property's quick
check on the copy and records whether it was noticed. Works in /var/tmp/mut only."""
import json, os, random, re, shutil, subprocess, sys, threading, queue, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ROOT = "/var/tmp/mut"
SWAP = [(" + ", " - "), (" - ", " + "), (" * ", " / "), (" / ", " * "), (" < ", " <= "), (" <= ", " < "), (" > ", " >= "),
        (" >= ", " > "), (" == ", " != "), (" != ", " == "), (" && ", " || "), (" || ", " && "), (" += ", " -= "), (" -= ", " += "),
        ("true", "false"), ("false", "true"), ("sin(", "cos("), ("cos(", "sin("), ("std::min", "std::max"), ("std::max", "std::min"),
        ("std::floor", "std::ceil"), ("std::round", "std::floor"), ("= -", "= "), ("(-", "("), ("if (!", "if ("), ("continue;", ";"), ("break;", ";"),
        (" & ", " | "), (" | ", " & "), (" << ", " >> "), (" >> ", " << "), (".x()", ".y()"), (".head<", ".tail<"), (".T", ""), (".inverse()", ""), ("++", "--"),
        (" and ", " or "), (" or ", " and "), (" not ", " ")]
INT = re.compile(r"(?<![\w.\"<])(\d+)(?![\w.\">])")
DEL = re.compile(r"^\s+[\w.\->\[\]()]+ (=|\+=|-=|\*=) [^;]*;\s*$|^\s+[\w.\->]+\([^;{}]*\);\s*$")
def mutants(path, text):
    out = []
    inside = False
    lines = text.split("\n")
    py = path.endswith(".py")
    for i, l in enumerate(lines):
        c = l.split("#" if py else "//")[0]
        if "/*" in c: inside = True
        if "*/" in c: inside = False; continue
        if inside or not c.strip() or c.strip().startswith(("#", "*", "import", "from", "template", "using", "namespace", "static_assert", "print", "info", "warn", "error", "dbg")):
            continue
        if re.search(r"\b(info|warn|error|dbg|print|check|fmt::print)\(", c): continue
        if not py and '"' in c: continue
        for a, b in SWAP:
            for m in re.finditer(re.escape(a), c):
                if a in (" < ", " > ", " << ", " >> ") and ("template" in c or "std::cout" in c or "ostream" in c): continue
                if a == ".T" and c[m.end():m.end() + 1].isalnum(): continue
                out.append((i, l, l[:m.start()] + b + l[m.end():]))
        for m in INT.finditer(c):
            out.append((i, l, l[:m.start()] + str(int(m.group(1)) + 1) + l[m.end():]))
        if not py and DEL.match(c) and "return" not in c:
            out.append((i, l, "    ;"))
    return out
def main():
    args = sys.argv[1:]
    seed = 1
    if "--seed" in args:
        k = args.index("--seed"); seed = int(args[k + 1]); del args[k:k + 2]
    out, workers, count = args[0], int(args[1]), int(args[2])
    props = [json.loads(l) for l in open(os.path.join(VERIF, "properties.jsonl"))]
    want = args[3].split(",") if len(args) > 3 else [p["id"] for p in props]
    byfile = {}
    for p in props:
        if p["id"] not in want: continue
        files = set()
        def walk(x):
            if isinstance(x, dict):
                for v in x.values(): walk(v)
            elif isinstance(x, list):
                for v in x: walk(v)
            elif isinstance(x, str):
                f = x.split(":")[0]
                if os.path.isfile("/repo/" + f): files.add(f)
        walk(p)
        for f in files:
            if f.endswith((".h", ".cxx", ".py")): byfile.setdefault(f, []).append(p["id"])
    jobs = []
    for f, ids in sorted(byfile.items()):
        cand = [(f,) + m for m in mutants(f, open("/repo/" + f).read())]
        r = random.Random("%s %d" % (f, seed))
        r.shuffle(cand)
        for c in cand[:max(2, min(count * 5, len(cand) // 100 * count))]: jobs.append((ids,) + c)
    random.Random(seed).shuffle(jobs)
    print(len(jobs), "mutants of", len(byfile), "files", flush=True)
    if "--list" in sys.argv: return
    q = queue.Queue()
    for j in jobs: q.put(j)
    lock = threading.Lock()
    def work(k):
        w = "%s/w%d" % (ROOT, k)
        shutil.rmtree(w, ignore_errors=True)
        os.makedirs(w)
        subprocess.check_call(["git", "clone", "-q", "/repo", w + "/repo"])
        os.makedirs(w + "/verif/build")
        for d in ("lib", "harness", "tools"): shutil.copytree(VERIF + "/" + d, w + "/verif/" + d)
        for f in ("check", "known_findings.txt", "properties.jsonl", "MANIFEST.json"): shutil.copy(VERIF + "/" + f, w + "/verif/" + f)
        env = dict(os.environ, VT_REPO=w + "/repo")
        while True:
            try: ids, f, i, old, new = q.get_nowait()
            except queue.Empty: break
            path = w + "/repo/" + f
            text = open(path).read().split("\n")
            assert text[i] == old
            text[i] = new
            open(path, "w").write("\n".join(text))
            t = time.time()
            v, o = "missed", ""
            try:
                for pid in ids:
                    try:
                        r = subprocess.run(["timeout", "-k", "5", "900", w + "/verif/check", pid, "quick"], env=env, cwd=w + "/verif", stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                    except Exception as e:
                        v = "exc"; break
                    o = r.stdout.decode(errors="replace")
                    if r.returncode == 1 and "VIOLATION" in o: v = "caught " + pid; break
                    if "BUILD ERROR" in o: v = "build"; break
                    if r.returncode != 0: v = "rc%d %s" % (r.returncode, pid); break
            finally:
                subprocess.check_call(["git", "-C", w + "/repo", "checkout", "-q", "--", "."])
            with lock:
                with open(out, "a") as fh:
                    fh.write(json.dumps(dict(verdict=v, file=f, line=i + 1, old=old.strip(), new=new.strip(), props=ids, s=round(time.time() - t), out=o[-300:] if v[0] in "re" else "")) + "\n")
        shutil.rmtree(w, ignore_errors=True)
    ts = [threading.Thread(target=work, args=(k,)) for k in range(workers)]
    for t in ts: t.start()
    for t in ts: t.join()
if __name__ == "__main__":
    main()
