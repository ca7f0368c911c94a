"""K03, K05, K06: generated filters.  Draws filter descriptions, runs the repository's generator on
each, compiles what it generates together with a harness written from the description alone, and runs
it.  A failing description is made smaller; replay files hold the description and the choices."""
import copy, glob, json, os, random, shutil, subprocess, time
from concurrent.futures import ThreadPoolExecutor
from . import build as B
from . import ekfdesc as D

FLAGS = ["-O1", "-UNDEBUG"]          # Eigen's own range and alias checks stay on
HARNESS = {"K03": "k03_sparse.cc", "K05": "k05_state.cc", "K06": "k06_poison.cc", "K07": "k07_iface.cc"}
SUBSET = {"K05": ("_state.cxx", "_types.cxx"), "K07": ("_state.cxx", "_types.cxx")}   # what of the generated code is needed
COUNT = {"K03": (6, 40), "K05": (10, 50), "K06": (5, 30), "K07": (8, 40)}

def load_yaml(path):
    import sys
    try:
        import yaml
    except ImportError:
        sys.path.append("/usr/lib/python3/dist-packages")
        import yaml
    return yaml.safe_load(open(path))

def norm(cfg):
    """PyYAML reading to the form ekfdesc writes"""
    for v in cfg["dynamics"].values():
        assert len(v) == 2
    return cfg

class Unit:
    """one description on its way to an executable"""
    def __init__(self, label, cfg, base="desc_a", yaml=None):
        self.label, self.cfg, self.base, self.yaml = label, cfg, base, yaml
        self.problem = None      # the generator refused, or what it generated does not compile
        self.harness_err = None
        self.exe = None

def base_lib(wd):
    os.makedirs(wd, exist_ok=True)
    srcs = B.modules()["base"]
    objs = [os.path.join(wd, "b%d.o" % i) for i in range(len(srcs))]
    return list(zip(srcs, objs)), os.path.join(wd, "libbase.a")

def archive(pairs, lib):
    objs = [o for _, o in pairs if os.path.exists(o)]
    r = B.run(["ar", "rcs", lib] + objs)
    if r.returncode:
        raise B.BuildError(r.stdout.decode())

def compile_one(src, obj, inc):
    ccache = shutil.which("ccache")
    cmd = ([ccache] if ccache else []) + [B.CXX] + B.BASE + FLAGS + inc + ["-c", src, "-o", obj]
    for attempt in (0, 1):
        r = B.run(cmd, env=B._env())
        if r.returncode == 0:
            return None
        t = r.stdout.decode(errors="replace")
        if "error:" in t and "Killed" not in t and "internal compiler error" not in t:
            return t
    raise B.BuildError("compiler stopped: %s\n%s" % (" ".join(cmd), t[-2000:]))

def build_units(pid, units, wd, pool=None):
    """Generates, compiles and links all units; sets exe or problem."""
    pairs, lib = base_lib(wd)
    jobs = []
    for n, u in enumerate(units):
        d = os.path.join(wd, u.label)
        if os.path.isdir(d):
            shutil.rmtree(d)
        os.makedirs(os.path.join(d, "gen"))
        u.dir = d
        y = u.yaml
        if y is None:
            y = os.path.join(d, u.base + ".yaml")
            with open(y, "w") as f:
                f.write(D.yaml_text(u.cfg))
        u.hs = n * 7 + 1
        u.y = y
    def generate(u):
        r = B.gen_ekf(u.y, os.path.join(u.dir, "gen"), hashseed=u.hs, check=False)
        if r.returncode != 0:
            u.problem = "the generator refuses this description: " + r.stdout.decode(errors="replace")[-700:]
            return
        try:
            with open(os.path.join(u.dir, "glue.h"), "w") as f:
                f.write(D.glue(D.Desc(u.cfg, u.base)))
            with open(os.path.join(u.dir, "iface.h"), "w") as f:
                f.write(D.iface(D.Desc(u.cfg, u.base)))
        except KeyError as e:
            raise B.BuildError("glue: %r" % e)
    def comp(job):
        u, s, o, kind = job
        inc = ["-I" + os.path.join(B.VERIF, "harness")] + (["-I" + u.dir] if u else []) + ["-I" + B.REPO]
        e = compile_one(s, o, inc)
        if e and kind == "gen":
            u.problem = "what is generated for this description does not compile: " + e[:900]
        if e and kind == "harness":
            u.harness_err = e
        if e and kind == "base":
            with open(o + ".err", "w") as f:
                f.write(e)
    with ThreadPoolExecutor(B.JOBS) as ex:
        list(ex.map(generate, units))
        for u in units:
            if u.problem:
                continue
            ends = SUBSET.get(pid)
            for f in sorted(glob.glob(u.dir + "/gen/*.cxx")):
                if f.endswith("_test.cxx") or (ends and not f.endswith(ends)):
                    continue
                jobs.append((u, f, f + ".o", "gen"))
            jobs.append((u, os.path.join(B.VERIF, "harness", HARNESS[pid]), os.path.join(u.dir, "harness.o"), "harness"))
        # the largest first
        jobs.sort(key=lambda j: (0 if j[3] == "gen" and j[1].endswith("ekf.cxx") or j[3] == "harness" else 1))
        jobs += [(None, s, o, "base") for s, o in pairs if not os.path.exists(lib)]
        list(ex.map(comp, jobs))
        if not os.path.exists(lib):
            archive(pairs, lib)
        def link(u):
            if u.problem or u.harness_err:
                return
            objs = sorted(glob.glob(u.dir + "/gen/*.o")) + [os.path.join(u.dir, "harness.o")]
            exe = os.path.join(u.dir, "harness")
            r = B.run([B.CXX] + objs + [lib, "-o", exe, "-lfmt", "-lyaml-cpp", "-lpthread", "-lstdc++fs"])
            if r.returncode:
                u.harness_err = r.stdout.decode(errors="replace")
                return
            u.exe = exe
            for o in objs:
                os.unlink(o)
        list(ex.map(link, units))

def run_unit(ctx, u, only=None, scale=1.0, tag=""):
    out = os.path.join(ctx.tmp, "o_%s%s.json" % (u.label, tag))
    if os.path.exists(out):
        os.unlink(out)
    cmd = [u.exe, "--out", out, "--tier", ctx.tier, "--seed", str(ctx.seed), "--tmp", ctx.tmp, "--scale", str(scale)]
    if only:
        cmd += ["--only", only]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=ctx.tmp, timeout=1200)
    if not os.path.exists(out):
        raise RuntimeError("harness of %s gave no result: rc %d\n%s" % (u.label, r.returncode, r.stdout.decode(errors="replace")[-3000:]))
    return json.load(open(out))

def smaller(cfg):
    """descriptions with something removed"""
    out = []
    def add(f):
        c = copy.deepcopy(cfg)
        if f(c) is not False:
            out.append(c)
    for m in cfg["measurements"]:
        if len(cfg["measurements"]) > 1:
            add(lambda c, m=m: c["measurements"].pop(m) and None)
    for s in cfg["state_composition"]:
        if len(cfg["state_composition"]) > 1:
            def rm(c, s=s):
                del c["state_composition"][s]
                del c["dynamics"][s]
                for v in c["dynamics"].values():
                    v[0] = [x for x in v[0] if x != s]
                for m in c["measurements"].values():
                    m["states"] = [x for x in m["states"] if x != s]
                    if not m["states"]:
                        return False
            add(rm)
    for i in cfg["input"]:
        if len(cfg["input"]) > 1:
            def rm(c, i=i):
                del c["input"][i]
                for v in c["dynamics"].values():
                    v[1] = [x for x in v[1] if x != i]
            add(rm)
    for k, v in cfg["dynamics"].items():
        if v[0] or v[1]:
            add(lambda c, k=k: c["dynamics"].__setitem__(k, [[], []]))
    for k, m in cfg["measurements"].items():
        for f in ("metadata", "constants", "disabled"):
            if f in m:
                add(lambda c, k=k, f=f: c["measurements"][k].pop(f) and None)
        t, mx = D.base_type(m["type"])
        if mx:
            add(lambda c, k=k, t=t: c["measurements"][k].__setitem__("type", t))
    for k, v in cfg["state_composition"].items():
        t, mx = D.base_type(v)
        if mx:
            add(lambda c, k=k, t=t: c["state_composition"].__setitem__(k, t))
        elif t != "Vec1":
            add(lambda c, k=k: c["state_composition"].__setitem__(k, "Vec1"))
    return out

def fails(pid, ctx, u, sub):
    """None, or the failure of this unit like the one of `sub` (None: not compiling)"""
    if sub is None:
        return {"msg": u.problem or u.harness_err} if (u.problem or u.harness_err) else None
    if not u.exe:
        return None
    for p in run_unit(ctx, u, only=sub, tag="s")["props"]:
        f = p.get("failure")
        if p["name"] == sub and f and f["reproduced"]:
            return f
    return None

def shrink(pid, ctx, u, sub, fail, seconds):
    """smaller descriptions which still fail, until none does or time is up"""
    t0 = time.time()
    builds = 0
    cur, best = u.cfg, fail
    again = True
    while again and time.time() - t0 < seconds and builds < 40:
        again = False
        cand = smaller(cur)
        for a in range(0, len(cand), 4):
            if time.time() - t0 > seconds or builds >= 40:
                break
            us = [Unit("shrink%d" % i, c) for i, c in enumerate(cand[a:a + 4])]
            builds += len(us)
            build_units(pid, us, u.wd)
            hit = None
            for x in us:
                f = fails(pid, ctx, x, sub)
                if f:
                    hit = (x, f)
                    break
            if hit:
                cur, best, again = hit[0].cfg, hit[1], True
                break
    return cur, best, builds

def units_of(pid, tier, seed):
    us = []
    n = COUNT[pid][0 if tier == "quick" else 1]
    files = ["core/ekf/ekf_gen/example_ekf.yaml"]
    if tier != "quick" and pid in ("K03", "K05"):
        files.append("core/ekf/rtk_ekf.yaml")
    for f in files:
        p = os.path.join(B.REPO, f)
        us.append(Unit(os.path.basename(f)[:-5], norm(load_yaml(p)), os.path.basename(f)[:-5], p))
    for i in range(n):
        r = random.Random("%s/%d/%d" % (pid, seed, i))
        us.append(Unit("cfg%d" % i, D.rand_desc(r, 1.0 if tier == "quick" or i % 3 else 1.4)))
    return us

def describe(cfg):
    return "states {%s} inputs {%s} measurements {%s}" % (
        ", ".join("%s:%s" % i for i in cfg["state_composition"].items()),
        ", ".join("%s:%s" % i for i in cfg["input"].items()),
        ", ".join("%s:%s" % (k, m["type"]) for k, m in cfg["measurements"].items()))

def check(ctx):
    pid = ctx.prop
    wd = os.path.join(B.BUILD, pid)
    if os.path.isdir(wd):
        shutil.rmtree(wd)
    us = units_of(pid, ctx.tier, ctx.seed)
    batch = 12
    subs = {}
    order = []
    bad = []
    gen = {"name": "generation", "cases": 0, "evals": 0, "discards": 0, "nontrivial": 0, "labels": {}, "samples": []}
    for a in range(0, len(us), batch):
        part = us[a:a + batch]
        build_units(pid, part, wd)
        for u in part:
            u.wd = wd
        for u in part:
            gen["cases"] += 1
            gen["evals"] += 1
            gen["nontrivial"] += 1 if len(u.cfg["state_composition"]) > 1 or any(D.base_type(t)[1] for t in u.cfg["state_composition"].values()) else 0
            if len(gen["samples"]) < 6:
                gen["samples"].append(describe(u.cfg))
            if u.problem or u.harness_err:
                bad.append((u, None, {"msg": u.problem or u.harness_err[:1500]}))
                continue
            d = run_unit(ctx, u)
            for p in d["props"]:
                if p["name"] not in subs:
                    subs[p["name"]] = dict(p, labels=dict(p["labels"]), samples=[])
                    subs[p["name"]].pop("failure", None)
                    order.append(p["name"])
                else:
                    q = subs[p["name"]]
                    for k in ("cases", "evals", "discards", "nontrivial"):
                        q[k] += p[k]
                    for k, v in p["labels"].items():
                        q["labels"][k] = q["labels"].get(k, 0) + v
                if p["samples"] and len(subs[p["name"]]["samples"]) < 3:
                    subs[p["name"]]["samples"].append("[%s] %s" % (describe(u.cfg), p["samples"][-1]))
                f = p.get("failure")
                if f and f["reproduced"]:
                    bad.append((u, p["name"], f))
                elif f:
                    print("note: %s %s case %d failed once but not when replayed (%s)" % (u.label, p["name"], f["case"], f["msg"][:300]))
            if not (u.problem or u.harness_err):
                os.unlink(u.exe)
        if len(set(b[1] for b in bad)) and ctx.tier == "quick":
            break
    if bad and all(b[0].harness_err and not b[0].problem for b in bad) and len(bad) == gen["cases"]:
        raise B.BuildError("the harness compiles for no description\n" + bad[0][2]["msg"])
    ctx.results.append(gen)
    ctx.results += [subs[n] for n in order]
    seen = set()
    for u, sub, f in bad:
        if sub in seen:
            continue
        seen.add(sub)
        cfg, best, builds = u.cfg, f, 0
        if u.label.startswith("cfg") and len(seen) <= 2:
            cfg, best, builds = shrink(pid, ctx, u, sub, f, 100 if ctx.tier == "quick" else 400)
        target = gen if sub is None else subs[sub]
        target["failure"] = dict(
            case=best.get("case", 0), reproduced=max(1, best.get("reproduced", 1)), shrink_steps=best.get("shrink_steps", 0) + builds,
            msg=best["msg"], notes="%s\n%s" % (describe(cfg), best.get("notes", "")), output=best.get("output", ""),
            choices=best.get("choices", []),
            json={"property": pid, "sub": sub, "config": cfg, "base": u.base, "choices": best.get("choices", [])})
    shutil.rmtree(wd, ignore_errors=True)

def replay(pid, path):
    d = json.load(open(path))
    wd = os.path.join(B.BUILD, pid + "_replay")
    if os.path.isdir(wd):
        shutil.rmtree(wd)
    u = Unit("replay", d["config"], d["base"])
    build_units(pid, [u], wd)
    print(D.yaml_text(d["config"]))
    if u.problem or u.harness_err:
        print(u.problem or u.harness_err)
        return 1
    if d["sub"] is None:
        print("generated and compiled")
        return 0
    rp = os.path.join(wd, "choices.replay")
    with open(rp, "w") as f:
        f.write(d["sub"] + "\n" + "".join("%s\n" % c for c in d["choices"]))
    return subprocess.run([u.exe, "--replay", rp, "--tmp", wd]).returncode
