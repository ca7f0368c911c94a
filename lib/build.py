"""Compiles harnesses together with /repo's current sources. Nothing is written in /repo."""
import glob, os, shutil, subprocess, sys, hashlib
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VT_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
JOBS = 8

CXX = "g++"
BASE = ["-std=gnu++17", "-DNDEBUG", "-DCHECK_THROW", "-DFMT_DEPRECATED_OSTREAM", "-w", "-pipe",
        "-ftrivial-auto-var-init=pattern",   # what is used before it is set must not look like zero
        "-I/usr/include/eigen3"]

def _src(dirs, exclude=()):
    out = []
    for d in dirs:
        for f in sorted(glob.glob(os.path.join(REPO, d, "*.cxx"))):
            b = os.path.basename(f)
            if b.startswith(("test_", "bench_")) or b.endswith(("_test.cxx", "_bench.cxx")) \
               or b in ("test.cxx",) or b in exclude:
                continue
            out.append(f)
    return out

def modules():
    return {
        "base": _src(["common"]),
        "ephemeris": _src(["common/ephemeris"]),
        "logging": _src(["common/logging"]),
        "satellite": _src(["common/satellite", "common/measurements"]),
        "utils": _src(["utils"]),
        "models": _src(["models"]),
        "core": _src(["core", "core/solver", "core/states", "core/factors"]),
        "ekf": _src(["core/ekf"]),
        "sim": _src(["sim", "sim/sensors", "sim/dynamics", "sim/controllers"],
                    exclude=("simulate.cxx",)),
        "rtklib": _src(["third_party/rtklib"]),
        "sdr": _src(["third_party/gps_sdr_sim"]),
        "backward": _src(["third_party/backward"]),
        "ubx": _src(["parsers/ubx"]),
    }

class BuildError(Exception):
    pass

def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)

def _env():
    e = dict(os.environ)
    e.update(CCACHE_DIR=os.path.join(BUILD, "ccache"), CCACHE_NOHASHDIR="1", CCACHE_MAXSIZE="4G",
             CCACHE_COMPILERCHECK="content", PYTHONDONTWRITEBYTECODE="1")
    e.pop("CCACHE_DISABLE", None)
    return e

def compile_all(pairs, flags):
    """pairs: (source, object)"""
    ccache = shutil.which("ccache")
    env = _env()
    def one(pr):
        s, o = pr
        cmd = ([ccache] if ccache else []) + [CXX] + BASE + flags + ["-c", s, "-o", o]
        r = run(cmd, env=env)
        if r.returncode != 0:
            if s.startswith(REPO + "/"):
                # a source the project itself does not build; if anything needs it, linking fails
                with open(o + ".err", "wb") as f:
                    f.write(r.stdout)
                return None
            return "%s\n%s" % (" ".join(cmd), r.stdout.decode(errors="replace")[-6000:])
        return None
    with ThreadPoolExecutor(JOBS) as ex:
        errs = [e for e in ex.map(one, pairs) if e]
    if errs:
        raise BuildError(errs[0])

def gen_ekf(yaml, dest, hashseed=None, python="/usr/bin/python3", check=True):
    os.makedirs(dest, exist_ok=True)
    env = _env()
    env["PYTHONPATH"] = REPO
    if hashseed is not None:
        env["PYTHONHASHSEED"] = str(hashseed)
    r = run([python, os.path.join(REPO, "core/ekf/ekf_gen/ekf_gen.py"), "--config_file", yaml,
             "--destination", dest], env=env, cwd=dest)
    if check and r.returncode != 0:
        raise BuildError("ekf_gen failed on %s\n%s" % (yaml, r.stdout.decode(errors="replace")[-4000:]))
    return r

def build(name, harness, mods, flags=(), gen=(), libs=(), extra_src=(), opt="-O2",
          tools=()):
    """Returns the path of the built executable. gen: yaml files (relative to /repo) to generate.
    tools: (program's source relative to /repo, name its main gets in the harness)."""
    wd = os.path.join(BUILD, name)
    if os.path.isdir(wd):
        shutil.rmtree(wd)
    os.makedirs(wd)
    inc = ["-I" + os.path.join(VERIF, "harness")]
    srcs = []
    seen = modules()
    for m in mods:
        if m not in seen:
            raise BuildError("no module " + m)
        srcs += seen[m]
    if gen:
        # the generated files include each other by path below the first directory on the path,
        # as in the repository's own build (build directory before source directory)
        root = os.path.join(wd, "gen")
        for y in gen:
            d = os.path.join(root, os.path.dirname(y))
            gen_ekf(os.path.join(REPO, y), d)
        inc.append("-I" + root)
        for f in sorted(glob.glob(root + "/**/*.cxx", recursive=True)):
            if not f.endswith("_test.cxx"):
                srcs.append(f)
    inc.append("-I" + REPO)
    pairs = []
    for i, s in enumerate(srcs):
        pairs.append((s, os.path.join(wd, "r%d_%s.o" % (i, os.path.basename(s)))))
    robjs = [o for _, o in pairs]
    hs = [os.path.join(VERIF, "harness", h) for h in ([harness] if isinstance(harness, str) else harness)]
    hobjs = []
    for i, h in enumerate(hs + list(extra_src)):
        o = os.path.join(wd, "h%d_%s.o" % (i, os.path.basename(h)))
        pairs.insert(0, (h, o))
        hobjs.append(o)
    mains = []
    for i, (t, sym) in enumerate(tools):
        o = os.path.join(wd, "t%d_%s.o" % (i, os.path.basename(t)))
        pairs.insert(0, (os.path.join(REPO, t), o))
        hobjs.append(o)
        mains.append((o, sym))
    fl = [opt] + inc + list(flags)
    compile_all(pairs, fl)
    for o, sym in mains:
        if not os.path.exists(o):
            raise BuildError(open(o + ".err").read()[-6000:])
        r = run(["objcopy", "--redefine-sym", "main=" + sym, o])
        if r.returncode:
            raise BuildError(r.stdout.decode())
    failed = [o for o in robjs if not os.path.exists(o)]
    robjs = [o for o in robjs if os.path.exists(o)]
    lib = os.path.join(wd, "librepo.a")
    if robjs:
        r = run(["ar", "rcs", lib] + robjs)
        if r.returncode:
            raise BuildError(r.stdout.decode())
    exe = os.path.join(wd, "harness")
    link = [CXX] + [f for f in flags if f.startswith("-fsanitize")] + hobjs + \
        ([lib] if robjs else []) + ["-o", exe] + list(libs) + ["-lfmt", "-lyaml-cpp", "-lpthread", "-lstdc++fs"]
    r = run(link)
    if r.returncode:
        for o in failed:
            print("did not compile:", o, open(o + ".err").read()[:1500])
        raise BuildError(" ".join(link) + "\n" + r.stdout.decode(errors="replace")[-6000:])
    for o in robjs + hobjs:
        os.unlink(o)
    if robjs:
        os.unlink(lib)
    return exe
