// What a reader that knows only the description recovers. Two such readers: one written here, and the
// repository's Python reader (kept running as a child process).
#include <sys/wait.h>
#include <unistd.h>
#include "loggen.h"

// ---- the reader written here: walks the description in order, decodes the bytes
static bool scalar_desc(const YAML::Node& n)
{
    return n.IsMap() && n["type"] && n["type"].IsScalar();
}
struct Dec
{
    const std::string& b;
    size_t at = 0;
    Leaves out;
    explicit Dec(const std::string& bytes) : b(bytes) {}
    template <typename T>
    T take()
    {
        T v{};
        if (at + sizeof(T) > b.size()) throw vt::Failure{vt::sfmt("the description asks for more than the %zu bytes of the record", b.size())};
        std::memcpy(&v, b.data() + at, sizeof(T));
        at += sizeof(T);
        return v;
    }
    void one(int type, const std::string& p)
    {
        switch (type)
        {
        case 0: leaf(out, p, take<double>()); break;
        case 1: leaf(out, p, take<float>()); break;
        case 2: leaf(out, p, take<int64_t>()); break;
        case 3: leaf(out, p, take<int32_t>()); break;
        case 4: leaf(out, p, take<int16_t>()); break;
        case 5: leaf(out, p, take<int8_t>()); break;
        case 6: leaf(out, p, take<uint64_t>()); break;
        case 7: leaf(out, p, take<uint32_t>()); break;
        case 8: leaf(out, p, take<uint16_t>()); break;
        case 9: leaf(out, p, take<uint8_t>()); break;
        default: throw vt::Failure{vt::sfmt("unknown element type %d", type)};
        }
    }
    void walk(const YAML::Node& n, const std::string& p)
    {
        if (scalar_desc(n))
        {
            const int t = n["type"].as<int>();
            if (!n["rows"]) return one(t, p);
            const int r = n["rows"].as<int>(), c = n["cols"] ? n["cols"].as<int>() : 1;
            std::vector<Leaf> m;
            // column by column
            const size_t base = out.size();
            out.resize(base + (size_t)r * c);
            for (int j = 0; j < c; ++j)
                for (int i = 0; i < r; ++i)
                {
                    Leaves keep;
                    std::swap(keep, out);
                    one(t, p + vt::sfmt("[%d,%d]", i, j));
                    Leaf l = out.back();
                    std::swap(keep, out);
                    out[base + (size_t)i * c + j] = l;
                }
            return;
        }
        for (const auto& k : n) walk(k.second, p + "." + k.first.as<std::string>());
    }
};

// the names under which fields are described, where they differ from the member's name
static std::string described_name(std::string p)
{
    size_t k;
    while ((k = p.find(".gnssID")) != std::string::npos) p.replace(k, 7, ".gnss_id");
    return p;
}
// what is expected of a GLONASS ephemeris: its reference time is written twice
static Leaves expect(const Item& it, const std::string& name)
{
    Leaves o = it.leaves("." + name), r;
    for (auto& l : o)
    {
        l.path = described_name(l.path);
        r.push_back(l);
    }
    return r;
}
// Compare by name: every expected number is there, once, with its value; what else is described may only repeat
static std::string compare(const Leaves& want, const Leaves& got)
{
    std::map<std::string, Leaf> g;
    std::vector<std::string> order;
    for (auto& l : got)
    {
        if (g.count(l.path)) return "field " + l.path + " twice";
        g[l.path] = l;
        order.push_back(l.path);
    }
    size_t pos = 0;
    for (auto& w : want)
    {
        auto f = g.find(w.path);
        if (f == g.end()) return "no field " + w.path;
        if (f->second.flt != w.flt) return "field " + w.path + " has the wrong kind of number";
        const bool ok = w.flt ? same_num(w.d, f->second.d, w.tol) : w.i == f->second.i;
        if (!ok) return "field " + w.path + " is " + lstr(f->second) + ", want " + lstr(w);
        while (pos < order.size() && order[pos] != w.path) ++pos;
        if (pos == order.size()) return "field " + w.path + " out of order";
    }
    return "";
}

// ---- the Python reader
struct Py
{
    FILE *in = nullptr, *out = nullptr;
    pid_t pid = 0;
    Py()
    {
        int a[2], b[2];
        if (pipe(a) || pipe(b)) return;
        pid = fork();
        if (pid == 0)
        {
            dup2(a[0], 0);
            dup2(b[1], 1);
            close(a[0]), close(a[1]), close(b[0]), close(b[1]);
            setenv("PYTHONDONTWRITEBYTECODE", "1", 1);
            execl("/usr/bin/python3", "python3", VT_PY_READER, VT_REPO_DIR, (char*)nullptr);
            _exit(127);
        }
        close(a[0]), close(b[1]);
        in = fdopen(a[1], "w");
        out = fdopen(b[0], "r");
    }
    ~Py()
    {
        if (in) fclose(in);
        if (out) fclose(out);
        if (pid > 0) waitpid(pid, nullptr, 0);
    }
    // key -> records -> numbers; error text on failure
    std::string load(const std::string& dir, bool normalize, std::map<int, std::vector<Leaves>>& r)
    {
        fprintf(in, "%d %s\n", normalize ? 1 : 0, dir.c_str());
        fflush(in);
        char line[4096];
        std::vector<Leaves>* cur = nullptr;
        while (fgets(line, sizeof line, out))
        {
            std::string l = line;
            while (!l.empty() && (l.back() == '\n')) l.pop_back();
            if (l == ".") return "";
            if (l[0] == 'E') return l.substr(2);
            if (l[0] == 'K') cur = &r[atoi(l.c_str() + 2)];
            else if (l[0] == 'R') cur->emplace_back();
            else
            {
                const size_t sp = l.rfind(' ');
                Leaf f;
                f.path = l.substr(2, sp - 2);
                f.flt = l[0] == 'f';
                const std::string v = l.substr(sp + 1);
                if (f.flt)
                {
                    const uint64_t u = strtoull(v.c_str(), nullptr, 16);
                    std::memcpy(&f.d, &u, 8);
                }
                else
                {
                    const bool neg = v[0] == '-';
                    for (size_t i = neg; i < v.size(); ++i) f.i = f.i * 10 + (v[i] - '0');
                    if (neg) f.i = -f.i;
                }
                cur->back().push_back(f);
            }
        }
        return "the Python reader ended";
    }
};
static Py& py()
{
    static std::map<pid_t, std::unique_ptr<Py>> p;   // one per process of the driver
    auto& x = p[getpid()];
    if (!x)
    {
        for (auto& o : p)
            if (o.second) o.second.release();   // belongs to the parent process
        x.reset(new Py);
    }
    return *x;
}

static const std::vector<std::string>& names()
{
    static const std::vector<std::string> n = {"a", "pose", "x", "y", "type", "rows", "cols", "sat", "res", "value_1", "T_e2g", "sec", "nsec", "Imu", "key", "stamp2", "with space"};
    return n;
}
struct Column { std::string name; std::vector<ItemP> rec; };

static void check_record(const std::string& what, const YAML::Node& fmtnode, const std::string& bytes, const UTCTime& t, const std::vector<std::pair<std::string, ItemP>>& cols)
{
    Dec d(bytes);
    d.walk(fmtnode, "");
    VT_REQ(d.at == bytes.size(), "%s: described %zu bytes, record has %zu", what.c_str(), d.at, bytes.size());
    Leaves want;
    leaf(want, ".t.sec", t.sec);
    leaf(want, ".t.nsec", t.nsec);
    for (auto& c : cols)
        for (auto& l : expect(*c.second, c.first)) want.push_back(l);
    const std::string e = compare(want, d.out);
    VT_REQ(e.empty(), "%s: %s", what.c_str(), e.c_str());
}
static std::vector<std::string> pick_names(vt::Src& s, size_t n)
{
    std::vector<std::string> r;
    while (r.size() < n)
    {
        std::string c = s.pickv(names());
        while (std::count(r.begin(), r.end(), c)) c += "_";
        r.push_back(c);
    }
    return r;
}

// any columns: description composed as makeFormat composes it, bytes as the serialisers write them
VT_PROP(columns, 800, 16000)
{
    const size_t n = (size_t)s.irange(1, 6);
    const auto nm = pick_names(s, n);
    YAML::Node f;
    UTCTime t;
    Ty<UTCTime>::gen(s, t);
    f["t"] = logging::format(t);
    std::ostringstream o;
    logging::serialize(o, t);
    std::vector<std::pair<std::string, ItemP>> cols;
    for (size_t i = 0; i < n; ++i)
    {
        ItemP p = makers()[s.draw(makers().size() - 1)](s);
        s.note("%s %s", p->type(), nm[i].c_str());
        f[nm[i]] = p->description();
        p->write(o);
        cols.push_back({nm[i], p});
    }
    check_record("columns", YAML::Load(YAML::Dump(f)), o.str(), t, cols);
    if (n > 1) s.nontrivial();
}

// ---- real streams, written by the Logger
template <typename T>
struct Val { T x; };
struct StreamBase
{
    virtual ~StreamBase() {}
    virtual size_t width() const = 0;
    virtual void init(logging::Logger&, int, const std::vector<std::string>&) = 0;
    virtual void put(vt::Src&, logging::Logger&, int, const UTCTime&, std::vector<ItemP>&) = 0;
};
template <typename... T>
struct StreamOf : StreamBase
{
    size_t width() const override { return sizeof...(T); }
    void init(logging::Logger& l, int k, const std::vector<std::string>& n) override
    {
        std::array<std::string, sizeof...(T)> a;
        for (size_t i = 0; i < a.size(); ++i) a[i] = n[i];
        l.initStream<T...>(k, a);
    }
    void put(vt::Src& s, logging::Logger& l, int k, const UTCTime& t, std::vector<ItemP>& v) override
    {
        std::tuple<std::shared_ptr<ItemT<T, true>>...> items{std::make_shared<ItemT<T, true>>(s)...};
        std::apply([&](auto&... i) { l.log(k, t, i->x...); (v.push_back(i), ...); }, items);
    }
};
static std::vector<std::function<std::unique_ptr<StreamBase>()>> stream_kinds = {
    [] { return std::unique_ptr<StreamBase>(new StreamOf<double>); },
    [] { return std::unique_ptr<StreamBase>(new StreamOf<uint8_t, int32_t, float>); },
    [] { return std::unique_ptr<StreamBase>(new StreamOf<math::TwoJet<double>, math::DQuat<double>, Vec2>); },
    [] { return std::unique_ptr<StreamBase>(new StreamOf<meas::ImuSample>); },
    [] { return std::unique_ptr<StreamBase>(new StreamOf<meas::GnssObservation>); },
    [] { return std::unique_ptr<StreamBase>(new StreamOf<ephemeris::GPSEphemeris>); },
    [] { return std::unique_ptr<StreamBase>(new StreamOf<ephemeris::GalileoEphemeris, uint16_t>); },
    [] { return std::unique_ptr<StreamBase>(new StreamOf<ephemeris::GlonassEphemeris, double>); },
    [] { return std::unique_ptr<StreamBase>(new StreamOf<int, Vec2, Vec2, Vec2>); },
    [] { return std::unique_ptr<StreamBase>(new StreamOf<math::DQuat<double>, Vec3, Vec3, Vec3, Vec3, Vec2, Vec2, Vec2, Mat96>); },
    [] { return std::unique_ptr<StreamBase>(new StreamOf<Mat36, Mat10f, Eigen::Matrix<int, 7, 2>, Eigen::Matrix<double, 1, 4>>); },
    [] { return std::unique_ptr<StreamBase>(new StreamOf<UTCTime, math::Quat<double>, math::Jet<double>>); },
    [] { return std::unique_ptr<StreamBase>(new StreamOf<int8_t, int16_t, uint32_t, uint64_t, int64_t, Vec3f, Vec1>); },
    [] { return std::unique_ptr<StreamBase>(new StreamOf<MatRM32, Mat2, MatRM3>); }};

static void flatten_want(const UTCTime& t, const std::vector<std::string>& nm, const std::vector<ItemP>& v, const char* tname, Leaves& o)
{
    leaf(o, std::string(".") + tname + ".sec", t.sec);
    leaf(o, std::string(".") + tname + ".nsec", t.nsec);
    for (size_t i = 0; i < nm.size(); ++i)
        for (auto& l : expect(*v[i], nm[i])) o.push_back(l);
}

VT_PROP(streams, 120, 3000)
{
    ScratchDir dir;
    struct R { UTCTime t; std::vector<ItemP> v; };
    struct S { int key; std::vector<std::string> nm; std::vector<R> rec; std::string key_name; };
    std::vector<S> st;
    std::string path;
    {
        Quiet q;
        logging::Logger lg(UTCTime(1561988124), dir.path);
        path = dir.path + "/" + lg.logId();
        const int ns = s.irange(1, 4);
        std::set<int> used;
        for (int i = 0; i < ns; ++i)
        {
            const int key = s.pick<int>({0, 1, 5, 11, 12, 120, 1200, 4321, 77777});
            if (!used.insert(key).second) continue;
            auto k = stream_kinds[s.draw(stream_kinds.size() - 1)]();
            S x;
            x.key = key;
            x.nm = pick_names(s, k->width());
            x.key_name = logging::logKeyName(key);
            k->init(lg, key, x.nm);
            const int n = s.irange(0, 4);
            for (int j = 0; j < n; ++j)
            {
                R r;
                r.t = UTCTime(0);
                r.t.sec = gen_sec(s);
                r.t.nsec = gen_nsec(s);
                k->put(s, lg, key, r.t, r.v);
                x.rec.push_back(r);
            }
            st.push_back(x);
        }
    }
    for (auto& x : st) s.note("key %d: %zu records of %zu columns (%s)", x.key, x.rec.size(), x.nm.size(), x.nm[0].c_str());
    size_t total_rec = 0;
    for (auto& x : st)
    {
        // with the reader above
        const YAML::Node y = YAML::LoadFile(path + "/" + x.key_name + ".yml");
        VT_REQ(y["num_records"].as<int>() == (int)x.rec.size() && y["key"].as<int>() == x.key, "key %d: header says %d records of key %d", x.key, y["num_records"].as<int>(), y["key"].as<int>());
        std::ifstream f(path + "/" + x.key_name + ".log", std::ios::binary);
        std::string bytes((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
        if (x.rec.empty())
        {
            VT_REQ(bytes.empty(), "bytes without records");
            continue;
        }
        VT_REQ(bytes.size() % x.rec.size() == 0, "%zu bytes for %zu records", bytes.size(), x.rec.size());
        const size_t len = bytes.size() / x.rec.size();
        for (size_t i = 0; i < x.rec.size(); ++i)
        {
            std::vector<std::pair<std::string, ItemP>> cols;
            for (size_t c = 0; c < x.nm.size(); ++c) cols.push_back({x.nm[c], x.rec[i].v[c]});
            check_record(vt::sfmt("key %d record %zu", x.key, i), y["format"], bytes.substr(i * len, len), x.rec[i].t, cols);
            ++total_rec;
        }
    }
    // with the Python reader
    const bool norm = s.flip();
    std::map<int, std::vector<Leaves>> got;
    const std::string e = py().load(path + (s.flip() ? "/" : ""), norm, got);
    VT_REQ(e.empty(), "the Python reader says %s", e.c_str());
    VT_REQ(got.size() == st.size(), "the Python reader finds %zu of %zu streams", got.size(), st.size());
    for (auto& x : st)
    {
        VT_REQ(got.count(x.key), "the Python reader finds no key %d", x.key);
        auto& g = got[x.key];
        VT_REQ(g.size() == x.rec.size(), "the Python reader finds %zu of %zu records of key %d", g.size(), x.rec.size(), x.key);
        for (size_t i = 0; i < g.size(); ++i)
        {
            Leaves w;
            flatten_want(x.rec[i].t, x.nm, x.rec[i].v, norm ? "stamp" : "t", w);
            if (norm) leaf(w, ".t", (double)x.rec[i].t.sec + (double)x.rec[i].t.nsec / 1e9);
            const std::string d = compare(w, g[i]);
            VT_REQ(d.empty(), "the Python reader, key %d record %zu: %s", x.key, i, d.c_str());
        }
    }
    s.label(norm ? "normalised" : "plain");
    if (total_rec >= 2) s.nontrivial();
}
