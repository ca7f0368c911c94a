"""K07: the generator run as a program: same description, same code; wrong description, no code."""
import copy, os, random, shutil, subprocess, tempfile
from . import build as B
from . import ekfdesc as D
from .ekfcheck import load_yaml
from .pbt import req, Fail

GEN = "core/ekf/ekf_gen/ekf_gen.py"

def generate(yaml, dest, cwd, hashseed):
    e = B._env()
    e["PYTHONPATH"] = B.REPO
    if hashseed is None:
        e.pop("PYTHONHASHSEED", None)
    else:
        e["PYTHONHASHSEED"] = str(hashseed)
    r = subprocess.run(["/usr/bin/python3", os.path.join(B.REPO, GEN), "--config_file", yaml, "--destination", dest],
                       env=e, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120)
    return r.returncode, r.stdout.decode(errors="replace")

def read(d):
    out = {}
    for f in sorted(os.listdir(d)):
        # the self-test is no filter code
        if not f.endswith("_test.cxx"):
            out[f] = open(os.path.join(d, f), "rb").read()
    return out

def same(a, b, what):
    req(sorted(a) == sorted(b), "%s: other files: %s, %s", what, sorted(a), sorted(b))
    for f in a:
        if a[f] != b[f]:
            x, y = a[f].decode().splitlines(), b[f].decode().splitlines()
            for i, (p, q) in enumerate(zip(x, y)):
                if p != q:
                    raise Fail("%s: %s line %d is '%s' or '%s'" % (what, f, i + 1, p.strip(), q.strip()))
            raise Fail("%s: %s has %d or %d lines" % (what, f, len(x), len(y)))

def description(s):
    """a random description; the seed is one choice, its size another"""
    seed = s.draw(10 ** 6)
    cfg = D.rand_desc(random.Random(seed), s.pick([0.3, 0.6, 1.0, 1.5]))
    return cfg

def deterministic(s):
    t = tempfile.mkdtemp(prefix="vt_k07_")
    try:
        base = s.pick(["desc_a", "filter", "rtk2", "my_long_name"])
        which = s.draw(9)
        yaml = os.path.join(t, base + ".yaml")
        if which == 9:
            f = s.pick(["core/ekf/ekf_gen/example_ekf.yaml", "core/ekf/rtk_ekf.yaml"])
            shutil.copyfile(os.path.join(B.REPO, f), yaml)
            s.note(f)
        else:
            cfg = description(s)
            open(yaml, "w").write(D.yaml_text(cfg))
            s.note("states {%s} measurements {%s}" % (", ".join("%s:%s" % i for i in cfg["state_composition"].items()), ", ".join(cfg["measurements"])))
        dest = os.path.join(t, "out")
        cwd2 = os.path.join(t, "elsewhere")
        os.mkdir(cwd2)
        rc, text = generate(yaml, dest, t, 0)
        req(rc == 0, "the generator refuses this description: %s", text[-500:])
        first = read(dest)
        for i in range(s.irange(1, 3)):
            how = s.weighted([2, 2, 2, 1, 2])
            seed = s.pick([None, 1, 2, 3, 42, 4294967295, 77])
            what = ["again over its own output", "in another directory", "without earlier output", "from a copy of the description", "over other files"][how]
            y, cwd = yaml, t
            if how == 1: cwd = cwd2
            if how in (2, 4): shutil.rmtree(dest)
            if how == 3:
                y = os.path.join(cwd2, base + ".yaml")
                shutil.copyfile(yaml, y)
            if how == 4:
                os.mkdir(dest)
                for f in first:
                    open(os.path.join(dest, f), "wb").write(b"// something older\n" * s.irange(1, 4000))
            d = dest
            if s.chance(0.3):
                d = os.path.relpath(dest, cwd)
                what += ", relative destination"
            rc, text = generate(y, d, cwd, seed)
            req(rc == 0, "the generator refuses it %s: %s", what, text[-500:])
            got = read(dest)
            # files include each other by the destination as it was given
            got = {f: v.replace(('"' + d + "/").encode(), ('"' + dest + "/").encode()) for f, v in got.items()} if d != dest else got
            if d != dest:
                # include lines are sorted by name
                norm = lambda x: {f: b"\n".join(sorted(v.split(b"\n"))) for f, v in x.items()}
                same({f: v for f, v in norm(first).items()}, norm(got), "run %s with hash seed %s" % (what, seed))
            else:
                same(first, got, "run %s with hash seed %s" % (what, seed))
        s.note("generated again")
        s.nontrivial()
    finally:
        shutil.rmtree(t, ignore_errors=True)

def some_state(s, cfg):
    return s.pick(list(cfg["state_composition"]))
def some_meas(s, cfg):
    return s.pick(list(cfg["measurements"]))

BAD_TYPES = ["Vec0", "Vec", "Vecx", "Vec-3", "Vec3.5", "vec3", "Vec3 x", "Quaternion", "quat", "Mat3", "Var<Vec3, 0>", "Var<Vec3, -2>", "Var<Vec3>", "Var<, 3>",
             "Var<Vec0, 3>", "Var<Foo, 3>", "Var<Vec3, x>", "Var<Vec3, 2.5>", "Variable", "Var<Var<Vec3, 2>, 2>", "Vec03", "Var<Vec3, 03>"]

def m_state_type(s, c):
    n = some_state(s, c)
    c["state_composition"][n] = s.pick(BAD_TYPES)
    return "state %s: %s" % (n, c["state_composition"][n])
def m_input_type(s, c):
    n = s.pick(list(c["input"]))
    c["input"][n] = s.pick(BAD_TYPES + ["Var<Vec3, 2>"])
    return "input %s: %s" % (n, c["input"][n])
def m_meas_type(s, c):
    n = some_meas(s, c)
    c["measurements"][n]["type"] = s.pick(BAD_TYPES)
    return "measurement %s: %s" % (n, c["measurements"][n]["type"])
def m_unknown_state_dep(s, c):
    n = some_state(s, c)
    l = c["dynamics"][n][0]
    l.insert(s.draw(len(l)), "nowhere")
    return "dynamics of %s: unknown state" % n
def m_unknown_input_dep(s, c):
    n = some_state(s, c)
    l = c["dynamics"][n][1]
    l.insert(s.draw(len(l)), "nowhere")
    return "dynamics of %s: unknown input" % n
def m_swapped_dep(s, c):
    """an input among the states or the reverse"""
    n = some_state(s, c)
    if s.chance(0.5):
        x = [i for i in c["input"] if i not in c["state_composition"]]
        if not x: s.discard()
        c["dynamics"][n][0].append(s.pick(x))
    else:
        x = [i for i in c["state_composition"] if i not in c["input"]]
        if not x: s.discard()
        c["dynamics"][n][1].append(s.pick(x))
    return "dynamics of %s: input among the states or state among the inputs" % n
def m_repeated_dep(s, c):
    n = some_state(s, c)
    k = s.draw(1)
    l = c["dynamics"][n][k]
    if not l: s.discard()
    l.append(s.pick(l))
    return "dynamics of %s: repeated name" % n
def m_no_dynamics(s, c):
    n = some_state(s, c)
    del c["dynamics"][n]
    return "no dynamics of %s" % n
def m_extra_dynamics(s, c):
    c["dynamics"]["nowhere"] = [[], []]
    return "dynamics of an unknown state"
def m_short_dynamics(s, c):
    n = some_state(s, c)
    c["dynamics"][n] = s.pick([[], [[]], [[], [], []]])
    return "dynamics of %s: %s" % (n, c["dynamics"][n])
def m_meas_unknown_state(s, c):
    n = some_meas(s, c)
    c["measurements"][n]["states"][s.draw(len(c["measurements"][n]["states"]) - 1)] = "nowhere"
    return "measurement %s of an unknown state" % n
def m_meas_input(s, c):
    n = some_meas(s, c)
    x = [i for i in c["input"] if i not in c["state_composition"]]
    if not x: s.discard()
    c["measurements"][n]["states"].append(s.pick(x))
    return "measurement %s of an input" % n
def m_meas_repeated(s, c):
    n = some_meas(s, c)
    l = c["measurements"][n]["states"]
    l.append(s.pick(l))
    return "measurement %s: repeated state" % n
def m_prob(s, c):
    n = some_meas(s, c)
    c["measurements"][n]["gating_probability"] = s.pick(["0", "0.0", "-0.1", "1.0000001", "2", ".nan", ".inf", "-.inf", "high", "95%", "-1"])
    return "measurement %s: probability %s" % (n, c["measurements"][n]["gating_probability"])
def m_no_field(s, c):
    n = some_meas(s, c)
    f = s.pick(["type", "states", "gating_probability"])
    del c["measurements"][n][f]
    return "measurement %s without %s" % (n, f)
def m_no_section(s, c):
    f = s.pick(["state_composition", "input", "dynamics", "measurements", "state_name", "error_state_name", "input_name", "namespaces"])
    del c[f]
    return "no %s" % f
TEXT = {}
def m_twice(s, c):
    """the same key twice (only the text can say it)"""
    f = s.pick(["state_composition", "input", "dynamics", "measurements"])
    return "twice:" + f

MUT = [m_state_type, m_input_type, m_meas_type, m_unknown_state_dep, m_unknown_input_dep, m_swapped_dep, m_repeated_dep, m_no_dynamics, m_extra_dynamics,
       m_short_dynamics, m_meas_unknown_state, m_meas_input, m_meas_repeated, m_prob, m_no_field, m_no_section, m_twice]

def text_of(cfg):
    """like ekfdesc.yaml_text, also for incomplete descriptions"""
    out = []
    if "namespaces" in cfg: out += ["namespaces:"] + ["  - " + n for n in cfg["namespaces"]]
    out += ["includes:"] + ["  - " + i for i in cfg["includes"]]
    for k in ("state_name", "error_state_name", "input_name"):
        if k in cfg: out.append("%s: %s" % (k, cfg[k]))
    for k in ("state_composition", "input"):
        if k in cfg: out += [k + ":"] + ["  %s: %s" % i for i in cfg[k].items()]
    if "dynamics" in cfg: out += ["dynamics:"] + ["  %s: %s" % (k, D.flow(v)) for k, v in cfg["dynamics"].items()]
    if "measurements" in cfg:
        out.append("measurements:")
        for k, m in cfg["measurements"].items():
            out.append("  %s:" % k)
            if "type" in m: out.append("    type: %s" % m["type"])
            for f in ("metadata", "constants"):
                if f in m: out += ["    %s:" % f] + ["      - " + D.flow(x) for x in m[f]]
            if "gating_probability" in m: out.append("    gating_probability: %s" % m["gating_probability"])
            if "states" in m: out += ["    states:"] + ["      - " + x for x in m["states"]]
            if "disabled" in m: out.append("    disabled: %s" % D.flow(m["disabled"]))
    return "\n".join(out) + "\n"

def duplicate(text, section, s):
    """repeats one entry of a section"""
    lines = text.splitlines()
    a = lines.index(section + ":")
    b = a + 1
    while b < len(lines) and lines[b].startswith("  "):
        b += 1
    heads = [i for i in range(a + 1, b) if not lines[i].startswith("    ")]
    k = s.draw(len(heads) - 1)
    e = heads[k + 1] if k + 1 < len(heads) else b
    return "\n".join(lines[:b] + lines[heads[k]:e] + lines[b:]) + "\n", lines[heads[k]].strip()

def refused(s):
    t = tempfile.mkdtemp(prefix="vt_k07_")
    try:
        cfg = copy.deepcopy(description(s))
        m = s.pick(MUT)
        what = m(s, cfg)
        text = text_of(cfg)
        if what.startswith("twice:"):
            text, line = duplicate(text, what[6:], s)
            what = "%s has %s twice" % (what[6:], line)
        yaml = os.path.join(t, "desc_a.yaml")
        open(yaml, "w").write(text)
        s.note(what)
        s.label(m.__name__[2:])
        rc, out = generate(yaml, os.path.join(t, "out"), t, s.draw(3))
        req(rc != 0, "an invalid description is accepted: %s", what)
        left = os.listdir(os.path.join(t, "out")) if os.path.isdir(os.path.join(t, "out")) else []
        s.nontrivial()
        s.label("nothing written" if not left else "stopped while writing")
    finally:
        shutil.rmtree(t, ignore_errors=True)

FNS = {"deterministic": deterministic, "refused": refused}
N = {"deterministic": (40, 600), "refused": (220, 3000)}

def check(ctx):
    from . import pbt
    for name, fn in FNS.items():
        ctx.results.append(pbt.run("K07", name, fn, N[name][0 if ctx.tier == "quick" else 1], ctx.seed, threads=True, shrink_s=40))
