"""Random filter descriptions for the repository's code generator, and C++ glue for what it generates
(written from the description alone, with naming rules of its own)."""
import random, re

SIZES = {"Quat": (4, 3), "DQuat": (8, 6), "SO3": (9, 3), "SE3": (12, 6)}
TYPE_ID = {"Quat": 1, "DQuat": 2, "SO3": 3, "SE3": 4}

def base_type(kind):
    m = re.match(r"Var<(\w+), *(\d+)>$", kind)
    return (m.group(1), int(m.group(2))) if m else (kind, None)

def err_dim(t):
    return SIZES[t][1] if t in SIZES else int(t[3:])

def camel(name, cap=False):
    w = name.split("_")
    s = w[0] + "".join(x[:1].upper() + x[1:].lower() for x in w[1:])
    return s[0].upper() + s[1:] if cap else s

def snake(name):
    o = name[0]
    for ch in name[1:]:
        o += ("_" + ch) if ch.isupper() else ch
    return o.lower()

class El:
    """one state, input or measurement of a description"""
    def __init__(self, name, kind):
        self.name = name
        self.type, self.max = base_type(kind)
        self.var = self.max is not None
        self.dx = err_dim(self.type)
        self.total = self.dx * (self.max or 1)
        self.camel = camel(name)
        self.cap = camel(name, True)
        self.counter = "num_" + snake(name)

class Desc:
    def __init__(self, cfg, base):
        self.cfg = cfg
        self.base = base          # file name of the description, without extension
        e = [El(k, v) for k, v in cfg["state_composition"].items()]
        self.states = [x for x in e if not x.var] + [x for x in e if x.var]
        self.vars = [x for x in self.states if x.var]
        self.inputs = [El(k, v) for k, v in cfg["input"].items()]
        self.meas = [El(k, v["type"]) for k, v in cfg["measurements"].items()]
        # file names follow the class name made of the description's name
        self.file = snake(camel(base, True))

def flow(x):
    if isinstance(x, list):
        return "[" + ", ".join(flow(i) for i in x) + "]"
    if isinstance(x, bool):
        return "True" if x else "False"
    return str(x)

def yaml_text(cfg):
    out = ["namespaces:"] + ["  - " + n for n in cfg["namespaces"]] + ["", "includes:"]
    out += ["  - " + i for i in cfg["includes"]] + [""]
    for k in ("state_name", "error_state_name", "input_name"):
        out.append("%s: %s" % (k, cfg[k]))
    out += ["", "state_composition:"] + ["  %s: %s" % i for i in cfg["state_composition"].items()]
    out += ["", "input:"] + ["  %s: %s" % i for i in cfg["input"].items()]
    out += ["", "dynamics:"] + ["  %s: %s" % (k, flow(v)) for k, v in cfg["dynamics"].items()]
    out += ["", "measurements:"]
    for k, m in cfg["measurements"].items():
        out.append("  %s:" % k)
        out.append("    type: %s" % m["type"])
        for f in ("metadata", "constants"):
            if f in m:
                out.append("    %s:" % f)
                out += ["      - " + flow(x) for x in m[f]]
        out.append("    gating_probability: %s" % m["gating_probability"])
        out.append("    states:")
        out += ["      - " + s for s in m["states"]]
        if "disabled" in m:
            out.append("    disabled: %s" % flow(m["disabled"]))
    return "\n".join(out) + "\n"

POOL = ["pose", "vel", "acc_bias", "T_I2e", "p_b2g", "gps_clk", "sd", "lever_arm", "b", "q_att", "vec3", "w1", "num_sats",
        "enum_x", "wind", "a_b_c", "size_x", "Bias", "drift", "I", "P", "cov", "dt_x", "Qu", "xdot", "clk2", "hdg"]
MEAS_POOL = ["point_pos", "obs", "fix_and_hold", "range_rate", "baro", "enum_m", "m1", "Odo", "vis_lm", "R", "H", "gps"]

def rand_type(r, vec_only=False):
    if vec_only or r.random() < 0.6:
        return "Vec%d" % r.choice([1, 1, 2, 3, 3, 3, 4, 5, 6])
    return r.choice(["Quat", "DQuat", "SO3", "SE3"])

def rand_desc(r, size=1.0, share=True):
    names = r.sample(POOL, len(POOL))
    nf = r.randint(1, max(1, int(4 * size)))
    nv = r.choice([0, 1, 1, 2, 2, 3])
    # compiling the fully coupled covariance of many states takes minutes
    while nf + nv > 5:
        if nv > 1: nv -= 1
        else: nf -= 1
    comp = []
    for i in range(nf):
        comp.append((names.pop(), rand_type(r)))
    for i in range(nv):
        comp.append((names.pop(), "Var<%s, %d>" % (rand_type(r), r.randint(1, 4))))
    r.shuffle(comp)
    sn = [n for n, _ in comp]
    inp = []
    for i in range(r.randint(1, 3)):
        # an input may be called like a state
        n = r.choice(sn) if share and r.random() < 0.15 else names.pop()
        if n not in [x for x, _ in inp]:
            inp.append((n, rand_type(r, True)))
    dens = r.choice([0.1, 0.3, 0.6, 1.0] if nf + nv < 4 else [0.1, 0.3])
    dyn = [(n, [[x for x in r.sample(sn, len(sn)) if r.random() < dens],
                [x for x, _ in inp if r.random() < max(dens, 0.3)]]) for n in sn]
    r.shuffle(dyn)
    meas = []
    mn = r.sample(MEAS_POOL, len(MEAS_POOL))
    for i in range(r.randint(1, 3)):
        st = r.sample(sn, r.randint(1, len(sn)))
        t = rand_type(r) if r.random() < 0.3 else rand_type(r, True)
        m = {"type": "Var<%s, %d>" % (t, r.randint(1, 5)) if r.random() < 0.5 else t}
        if r.random() < 0.4:
            m["metadata"] = [["int", "sat_id"], ["const double", "snr"]][:r.randint(1, 2)]
        if r.random() < 0.3:
            m["constants"] = [["int", "limit", r.randint(-5, 50)]]
        m["gating_probability"] = r.choice([1.0, 0.5, 0.9, 0.99, 0.999])
        m["states"] = st
        if r.random() < 0.3:
            m["disabled"] = r.random() < 0.6
        name = mn.pop()
        if name in sn:
            name = "meas_" + name.lower()
        meas.append((name, m))
    return {"namespaces": ["mc"] + r.choice([[], ["ekf"], ["ekf", "gen"]]) + ["vtf"],
            "includes": ["common/defs.h", "common/math/dquat.h", "common/math/so3.h", "common/math/se3.h", "common/math/quat.h"],
            "state_name": r.choice(["State", "NavState", "X"]), "error_state_name": r.choice(["ErrorState", "NavError", "Dx"]),
            "input_name": r.choice(["Input", "Control", "U"]), "state_composition": dict(comp), "input": dict(inp),
            "dynamics": dict(dyn), "measurements": dict(meas)}

def glue(d):
    """C++: uniform access to everything the description asks for"""
    ns = "::".join(d.cfg["namespaces"])
    S, E, U = ns + "::" + d.cfg["state_name"], ns + "::" + d.cfg["error_state_name"], ns + "::" + d.cfg["input_name"]
    vi = {s.name: i for i, s in enumerate(d.vars)}
    o = []
    w = o.append
    w('#pragma once\n#include "gen/%s.h"\nnamespace fg {' % d.file)
    w("using namespace mc;\nusing State = %s;\nusing Err = %s;\nusing Input = %s;" % (S, E, U))
    for t in ("Covariance", "ProcessCovariance", "InputCovariance", "StateJac", "InputJac", "Snapshot"):
        w("using %s = %s::%s;" % (t, ns, t))
    w("struct El { const char* name; int type; int dx; int max; int vi; };  // vi: index among the variable ones, or -1")
    tid = lambda e: TYPE_ID.get(e.type, 0)
    def table(nm, els):
        w("static const El %s[] = {%s};" % (nm, ", ".join('{"%s", %d, %d, %d, %d}' % (e.name, tid(e), e.dx, e.max or 1, vi.get(e.name, 0) if e.var else -1) for e in els)))
        w("static const int N%s = %d;" % (nm, len(els)))
    table("ST", d.states); table("IN", d.inputs); table("ME", d.meas)
    w("static const int NV = %d;" % len(d.vars))
    w("inline void set_counts(State& x, const int* n) { (void)n;%s }" % "".join(" x.%s = n[%d];" % (s.counter, i) for i, s in enumerate(d.vars)))
    w("inline void get_counts(const State& x, int* n) { (void)n;%s }" % "".join(" n[%d] = (int)x.%s;" % (i, s.counter) for i, s in enumerate(d.vars)))
    w("template <class F> void each(State& x, F f) {")
    for i, s in enumerate(d.states):
        w("    for (int i = 0; i < %d; ++i) f(%d, i, x.%s[i]);" % (s.max, i, s.name) if s.var else "    f(%d, 0, x.%s);" % (i, s.name))
    w("}")
    w("template <class F> void each(Err& x, F f) {")
    for i, s in enumerate(d.states):
        w("    for (int i = 0; i < %d; ++i) { auto b = x.%s(i); f(%d, i, b); }" % (s.max, s.name, i) if s.var else "    f(%d, 0, x.%s);" % (i, s.name))
    w("}")
    w("template <class F> void each(Input& x, F f) {\n%s\n}" % "\n".join("    f(%d, 0, x.%s);" % (i, s.name) for i, s in enumerate(d.inputs)))
    def args(*els):
        a = []
        for e in els:
            if e.var and "n[%d]" % vi[e.name] not in a:
                a.append("n[%d]" % vi[e.name])
        return ", ".join(a)
    w("template <class F> void each(Covariance& c, const int* n, F f) {\n    (void)n;")
    for i, a in enumerate(d.states):
        for j, b in enumerate(d.states):
            if j < i:
                continue
            nm = "%s_%s" % (a.camel, b.camel)
            w("    { auto v = c.%s(%s); f(%d, %d, v); }" % (nm, args(a, b), i, j) if a.var or b.var else "    f(%d, %d, c.%s);" % (i, j, nm))
    w("}")
    w("template <class F> void each(ProcessCovariance& c, F f) {\n%s\n}" % "\n".join("    f(%d, c.%s);" % (i, s.camel) for i, s in enumerate(d.states)))
    w("template <class F> void each(InputCovariance& c, F f) {\n%s\n}" % "\n".join("    f(%d, c.%s);" % (i, s.camel) for i, s in enumerate(d.inputs)))
    idx = {s.name: i for i, s in enumerate(d.states)}
    iidx = {s.name: i for i, s in enumerate(d.inputs)}
    def jac(cls, which, cols, ci):
        w("template <class F> void each(%s& J, const int* n, F f) {\n    (void)n, (void)J, (void)f;" % cls)
        for rn, deps in d.cfg["dynamics"].items():
            for cn in deps[which]:
                a, b = d.states[idx[rn]], cols[ci[cn]]
                nm = "d%s_d%s" % (a.cap, b.cap)
                w("    { auto v = J.%s(%s); f(%d, %d, v); }" % (nm, args(a, b), idx[rn], ci[cn]) if a.var or b.var else "    f(%d, %d, J.%s);" % (idx[rn], ci[cn], nm))
        w("}")
    jac("StateJac", 0, d.states, idx)
    jac("InputJac", 1, d.inputs, iidx)
    alln = ", ".join("n[%d]" % i for i in range(len(d.vars)))
    for t in ("Covariance", "StateJac", "InputJac", "ProcessCovariance"):
        w("inline Eigen::MatrixXd all_of(const %s& x, const int* n) { (void)n; return x.dense(%s); }" % (t, alln))
    w("inline Eigen::VectorXd all_of(const Err& x, const int* n) { (void)n; return x.dense(%s); }" % alln)
    w("template <int K> struct Me;")
    for k, m in enumerate(d.meas):
        c = d.cfg["measurements"][m.name]
        T = "%s::%sMeas" % (ns, m.camel)
        w("template <> struct Me<%d> {" % k)
        w("    using T = %s;" % T)
        w("    static constexpr double prob = %r; static constexpr bool disabled = %s;" % (float(c["gating_probability"]), "true" if c.get("disabled") else "false"))
        w("    template <class F> static void each(T::Jac& J, int nm, const int* n, F f) {\n        (void)nm, (void)n;")
        for sn in c["states"]:
            b = d.states[idx[sn]]
            nm = "d" + b.cap
            if m.var:
                a = args(b)
                w("        { auto v = J.%s_all(nm%s); f(%d, v); }" % (nm, ", " + a if a else "", idx[sn]))
            elif b.var:
                w("        { auto v = J.%s(%s); f(%d, v); }" % (nm, args(b), idx[sn]))
            else:
                w("        f(%d, J.%s);" % (idx[sn], nm))
        w("    }")
        w("    static Eigen::MatrixXd dense(const T::Jac& J, int nm, const int* n) { (void)nm, (void)n; return J.dense(%s); }" % ", ".join((["nm"] if m.var else []) + ([alln] if alln else [])))
        md = c.get("metadata")
        q = "math::" + m.type + "<double>" if m.type in SIZES else m.type
        ident = q + "::Identity()" if m.type in SIZES else q + "(%s::Zero())" % q
        def init(t):
            t = t.strip()
            return "*reinterpret_cast<%s*>(fg_dummy())" % t.rstrip("&").strip() if t.endswith("&") else "%s{}" % t.replace("const ", "")
        el = "typename T::Data{%s}" % ", ".join([ident] + [init(x[0]) for x in md]) if md else ident
        w("    static void* fg_dummy() { alignas(64) static char b[65536]; return b; }")
        if m.var:
            w("    static T::ZType make(int nm) { T::ZType z; for (int i = 0; i < nm; ++i) z.push_back(%s); return z; }" % el)
        else:
            w("    static T::ZType make(int) { return %s; }" % el)
        w("};")
    # what the model functions answer
    w("struct Answer { StateJac A; InputJac B; Err xdot; int calls = 0; const void* x = nullptr; };")
    w("inline Answer& answer() { static Answer a; return a; }")
    w("template <int K> struct MeasAnswer { typename Me<K>::T::Jac H; typename Me<K>::T::Residual r; int calls = 0; };")
    w("template <int K> MeasAnswer<K>& meas_answer() { static MeasAnswer<K> a; return a; }")
    w("template <class F> void with_meas(int k, F f) { switch (k) {%s } }" % "".join(" case %d: f(std::integral_constant<int, %d>{}); break;" % (k, k) for k in range(len(d.meas))))
    w("}  // namespace fg\n#define UPDATE %s::update\n#define PREDICT %s::predict" % (ns, ns))
    w("\n".join("namespace %s {" % n for n in d.cfg["namespaces"]))
    w("%s dynamics(const %s& x, const %s& u, StateJac* A, InputJac* B) { (void)u; auto& a = fg::answer(); ++a.calls; a.x = &x; *A = a.A; *B = a.B; return a.xdot; }" % (E, S, U))
    for k, m in enumerate(d.meas):
        T = "%s::%sMeas" % (ns, m.camel)
        w("template <> inline %s::Residual h<%s>(const %s::ZType& z, const %s& x, %s::Jac* dz) { (void)z, (void)x; auto& a = fg::meas_answer<%d>(); ++a.calls; *dz = a.H; return a.r; }" % (T, T, T, S, T, k))
    w("}" * len(d.cfg["namespaces"]))
    return "\n".join(o) + "\n"

def iface(d):
    """C++: what the description fixes about the interface, as checks"""
    ns = "::".join(d.cfg["namespaces"])
    vi = {s.name: i for i, s in enumerate(d.vars)}
    by = {s.name: s for s in d.states}
    o = []
    w = o.append
    w('#pragma once\nnamespace fg {\ninline void iface_constants()\n{')
    tot = sum(s.total for s in d.states)
    w('    VT_REQ(State::DOF == %d && Err::DOF == %d, "the state has DOF %%d, the error %%d, not %d", State::DOF, Err::DOF);' % (tot, tot, tot))
    tin = sum(s.total for s in d.inputs)
    w('    VT_REQ(Input::DOF == %d, "the input has DOF %%d, not %d", Input::DOF);' % (tin, tin))
    for s in d.vars:
        w('    VT_REQ(State::MAX_%s == %d, "MAX_%s is %%d, not %d", (int)State::MAX_%s);' % (s.name.upper(), s.max, s.name.upper(), s.max, s.name.upper()))
        w('    VT_REQ(State().%s == 0, "a new state has elements of %s");' % (s.counter, s.name))
        w('    VT_REQ(State().%s.size() == %d, "%s has room for %%d elements, not %d", (int)State().%s.size());' % (s.name, s.max, s.name, s.max, s.name))
    # members of the aggregates are in the order of the description
    for cls, els in (("ProcessCovariance", d.states), ("InputCovariance", d.inputs)):
        w("    { %s q; const char* p = (const char*)&q - 1; (void)p;" % cls)
        for e in els:
            w('        VT_REQ((const char*)&q.%s > p && q.%s.size() == %d, "%s of %s is out of order or has %%d elements", (int)q.%s.size()); p = (const char*)&q.%s;' % (e.camel, e.camel, e.dx, e.camel, cls, e.camel, e.camel))
        w("    }")
    for k, m in enumerate(d.meas):
        c = d.cfg["measurements"][m.name]
        w("    {\n        using T = typename Me<%d>::T;" % k)
        w('        VT_REQ(T::MAX_SIZE == %d && T::Residual::SizeAtCompileTime == %d && T::Covariance::SizeAtCompileTime == %d, "sizes of %s");' % (m.total, m.total, m.dx, m.name))
        w('        VT_REQ(T::MAX_PROB == %r, "gating probability of %s is %%g", (double)T::MAX_PROB);' % (float(c["gating_probability"]), m.name))
        w('        VT_REQ(T::DISABLED == %s, "%s is monitoring-only or not, against its description");' % ("true" if c.get("disabled") else "false", m.name))
        w('        require_gate(T::MAX_MAHAL, %r, %d, "%s");' % (float(c["gating_probability"]), m.total, m.name))
        for t, nm, v in c.get("constants", []):
            w('        VT_REQ((std::is_same<const %s, decltype(T::%s)>::value) && T::%s == %s, "constant %s of %s");' % (t, nm, nm, flow(v), nm, m.name))
        md = c.get("metadata")
        if md:
            q = "math::" + m.type + "<double>" if m.type in SIZES else m.type
            ident = q + "::Identity()" if m.type in SIZES else q + "(%s::Constant(3.5))" % q
            plain = all("&" not in t for t, _ in md)
            if plain:
                vals = [str(11 + 7 * i) for i in range(len(md))]
                w("        const typename T::Data dt{%s, %s};" % (ident, ", ".join(vals)))
                for (t, nm), v in zip(md, vals):
                    w('        VT_REQ((std::is_same<%s, decltype(T::Data::%s)>::value) && dt.%s == %s, "metadata %s of %s is not in its place");' % (t, nm, nm, v, nm, m.name))
                w('        VT_REQ((std::is_same<%s, std::decay_t<decltype(dt.z)>>::value), "value of %s is not first");' % (q, m.name))
        zt = "std::vector<%s>" % ("typename T::Data" if md else ("math::" + m.type + "<double>" if m.type in SIZES else m.type)) if m.var else None
        w("    }")
    w("}")
    # derivative of one element of a variable measurement: its rows of the whole derivative
    w("template <class F> void iface_rows(int k, int nm, const int* n, F f)\n{\n    (void)nm, (void)n;")
    for k, m in enumerate(d.meas):
        if not m.var:
            continue
        c = d.cfg["measurements"][m.name]
        w("    if (k == %d) { typename Me<%d>::T::Jac J;" % (k, k))
        for sn in c["states"]:
            b = by[sn]
            a = ", n[%d]" % vi[sn] if b.var else ""
            w('        f(J, J.d%s_all(nm%s), [&](auto& J2, int i) { return J2.d%s(i%s); }, "%s");' % (b.cap, a, b.cap, a, sn))
        w("    }")
    w("}")
    w("template <class F> void iface_err(Err& e, const int* n, F f)\n{\n    (void)e, (void)n, (void)f;")
    for s in d.vars:
        w('    for (int i = 0; i < n[%d]; ++i) f("%s", e.%s(i), e.%s_vec(n[%d]), i * %d);' % (vi[s.name], s.name, s.name, s.name, vi[s.name], s.dx))
    w("}\n}  // namespace fg")
    return "\n".join(o) + "\n"
