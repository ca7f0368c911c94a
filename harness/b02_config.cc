#include <fstream>
#include "common/matrix_defs.h"
#include "utils/config.h"
#include "vt.h"
using namespace mc;
using utils::Config;
enum Kind { INT, DBL, BOOL, STR, LIST, MAP };
struct N
{
    Kind k = INT;
    long long i = 0;
    double d = 0;
    bool b = false;
    std::string str;
    std::vector<double> list;
    std::vector<std::pair<std::string, N>> kids;
};
static std::string key(vt::Src& s)
{
    static const std::vector<std::string> ks = {"a", "b", "gain", "sigma", "x0", "pose", "rate_hz", "a b", "nested", "list", "A", "key.with.dots"};
    return s.pickv(ks);
}
static double num(vt::Src& s)
{
    switch (s.draw(3))
    {
    case 0: return s.irange(-1000, 1000);
    case 1: return s.sym(10);
    case 2: return s.logu(1e-12, 1e12) * (s.flip() ? -1 : 1);
    default: return s.irange(-9, 9) + 0.5;
    }
}
static N gen(vt::Src& s, int depth, bool forcemap)
{
    N n;
    const int w = forcemap ? 5 : s.weighted({3, 3, 1, 3, 5, depth > 0 ? 4 : 0});
    n.k = (Kind)w;
    switch (n.k)
    {
    case INT: n.i = s.range(-2000000000, 2000000000); break;
    case DBL: n.d = num(s); break;
    case BOOL: n.b = s.flip(); break;
    case STR: n.str = s.pick<const char*>({"hello", "String Config", "/tmp/x.log", "x/y", "abc def", "-", "1.5.2", "{}", "{0} {1}", "tr ue", "# no comment"}); break;
    case LIST:
    {
        const int len = s.weighted({1, 1, 1, 3, 1, 1, 3, 1, 1, 3, 1});
        for (int i = 0; i < len; ++i) n.list.push_back(num(s));
        break;
    }
    case MAP:
    {
        const int c = s.irange(1, 5);
        for (int i = 0; i < c; ++i)
        {
            const std::string k = key(s);
            bool dup = false;
            for (auto& q : n.kids) dup |= q.first == k;
            if (!dup) n.kids.push_back({k, gen(s, depth - 1, false)});
        }
    }
    }
    return n;
}
static std::string text(const N& n)
{
    switch (n.k)
    {
    case INT: return std::to_string(n.i);
    case DBL: return vt::sfmt("%.17g", n.d);
    case BOOL: return n.b ? "true" : "false";
    case STR: return "\"" + n.str + "\"";
    case LIST:
    {
        std::string o = "[";
        for (size_t i = 0; i < n.list.size(); ++i) o += (i ? ", " : "") + vt::sfmt("%.17g", n.list[i]);
        return o + "]";
    }
    default:
    {
        std::string o = "{";
        for (size_t i = 0; i < n.kids.size(); ++i) o += (i ? ", \"" : "\"") + n.kids[i].first + "\": " + text(n.kids[i].second);
        return o + "}";
    }
    }
}
struct Path { std::string p; const N* n; bool through_leaf; };
static void collect(const N& n, const std::string& pre, std::vector<Path>& out)
{
    for (auto& k : n.kids)
    {
        out.push_back({pre + k.first, &k.second, false});
        if (k.second.k == MAP) collect(k.second, pre + k.first + "/", out);
    }
}
// what a look-up did, as text: "<returned> <value>", or the way it stopped
template <typename T, typename F>
static std::string look(Config& c, const std::string& p, bool req, T init, F show)
{
    T v = init;
    const bool r = c.get(p, make_out(v), req);
    return std::string(r ? "1 " : "0 ") + show(v);
}
static std::string sd(double d) { return vt::sfmt("%.17g", d); }
template <typename V>
static std::string sv(const V& v)
{
    std::string o;
    for (size_t i = 0; i < (size_t)v.size(); ++i) o += sd(v[i]) + " ";
    return o;
}
template <typename M>
static std::string sm(const M& m)
{
    std::string o;
    for (int i = 0; i < m.rows(); ++i)
        for (int j = 0; j < m.cols(); ++j) o += sd(m(i, j)) + " ";
    return o;
}
using Mat23 = Eigen::Matrix<double, 2, 3>;
using RMat23 = Eigen::Matrix<double, 2, 3, Eigen::RowMajor>;
static std::string lookup(Config& c, const std::string& p, int type, bool req, std::string& def, int salt)
{
    switch (type)
    {
    case 0: { def = std::to_string(salt); return look<int>(c, p, req, salt, [](int v) { return std::to_string(v); }); }
    case 1: { def = sd(salt + 0.25); return look<double>(c, p, req, salt + 0.25, sd); }
    case 2: { def = salt & 1 ? "T" : "F"; return look<bool>(c, p, req, salt & 1, [](bool b) { return std::string(b ? "T" : "F"); }); }
    case 3: { def = "def"; return look<std::string>(c, p, req, "def", [](const std::string& v) { return v; }); }
    case 4: { std::vector<double> v{1.0 * salt}; def = sv(v); return look<std::vector<double>>(c, p, req, v, sv<std::vector<double>>); }
    case 5: { Vec3 v(salt, 2, 3); def = sm(v); return look<Vec3>(c, p, req, v, sm<Vec3>); }
    case 6: { Mat3 v = Mat3::Constant(salt); def = sm(v); return look<Mat3>(c, p, req, v, sm<Mat3>); }
    case 7: { Mat23 v = Mat23::Constant(salt); def = sm(v); return look<Mat23>(c, p, req, v, sm<Mat23>); }
    default: { Vec6 v = Vec6::Constant(salt); def = sm(v); return look<Vec6>(c, p, req, v, sm<Vec6>); }
    }
}
// expected: 'v' value / 'd' default returned false / 'x' stop / 'o' optional malformed (false+default or stop)
static char expect(const N* n, int type, bool req, std::string& val)
{
    if (!n) return req ? 'x' : 'd';
    const char bad = req ? 'x' : 'o';
    switch (type)
    {
    case 0: if (n->k == INT) { val = std::to_string(n->i); return 'v'; } 
            if (n->k == DBL && n->d == std::floor(n->d)) return '?';
            return bad;
    case 1: if (n->k == INT) { val = sd((double)n->i); return 'v'; } if (n->k == DBL) { val = sd(n->d); return 'v'; } return bad;
    case 2: if (n->k == BOOL) { val = n->b ? "T" : "F"; return 'v'; } return bad;
    case 3: if (n->k == LIST || n->k == MAP) return bad; val = n->k == STR ? n->str : text(*n); return 'v';
    case 4: if (n->k == LIST) { val = sv(n->list); return 'v'; } if (n->k == MAP) return '?'; return bad;
    default:
    {
        const size_t want = type == 5 ? 3 : type == 6 ? 9 : 6;
        if (n->k == MAP) return '?';
        if (n->k != LIST) return bad;
        if (n->list.size() != want) return 'x';
        val = sv(n->list);  // row-major
        return 'v';
    }
    }
}
VT_PROP(lookups, 1500, 30000)
{
    const N tree = gen(s, 3, true);
    std::vector<Path> ps;
    collect(tree, "", ps);
    const std::string y = text(tree);
    s.note("%s", y.substr(0, 300).c_str());
    std::unique_ptr<Config> c;
    std::string file;
    if (s.flip())
    {
        char tmpl[] = "/tmp/vt_cfg_XXXXXX";
        int fd = mkstemp(tmpl);
        if (fd < 0) s.discard();
        close(fd);
        file = tmpl;
        { std::ofstream f(file); f << y; }
        c.reset(new Config(file));
        unlink(file.c_str());
        s.label("from_file");
    }
    else
        c.reset(new Config(YAML::Load(y)));
    const int nl = s.irange(1, 12);
    int hits = 0, nested = 0;
    auto one = [&](const std::string& p, const N* n, bool through, int type, bool req, int salt) {
        std::string val, def;
        const char e = expect(n, type, req, val);
        if (e == '?') return;
        const std::string what = vt::sfmt("get(%s) type %d required %d", p.c_str(), type, req);
        if (e == 'v' || (e == 'd' && !through))
        {
            const std::string got = lookup(*c, p, type, req, def, salt);
            const std::string want = e == 'v' ? "1 " + val : "0 " + def;
            VT_REQ(got == want, "%s gave '%s' want '%s'", what.c_str(), got.c_str(), want.c_str());
            hits += e == 'v';
            return;
        }
        vt::ChildResult r = vt::in_child([&]() {
            int fd = open("/dev/null", O_WRONLY);
            dup2(fd, 1); dup2(fd, 2);
            std::string d;
            const std::string g = lookup(*c, p, type, req, d, salt);
            return g == "0 " + d ? std::string("kept default") : "gave " + g;
        });
        if (e == 'x') { VT_REQ(r.refused(), "%s should stop but %s (signal %d)", what.c_str(), r.data.c_str(), r.sig); s.label("refused"); }
        else VT_REQ(r.refused() || r.data == "kept default", "%s malformed but %s (signal %d)", what.c_str(), r.data.c_str(), r.sig);
    };
    for (int i = 0; i < nl; ++i)
    {
        const int type = s.irange(0, 8), salt = s.irange(100, 199);
        const bool req = s.chance(0.35);
        switch (s.weighted({6, 2, 1}))
        {
        case 0:
        {
            const Path& p = s.pickv(ps);
            nested += p.p.find('/') != std::string::npos;
            // mostly ask for the type that is there
            int t = type;
            if (s.draw(3) != 0)
            {
                switch (p.n->k)
                {
                case INT: t = s.pick({0, 1}); break;
                case DBL: t = 1; break;
                case BOOL: t = 2; break;
                case STR: t = 3; break;
                case LIST: t = p.n->list.size() == 3 ? 5 : p.n->list.size() == 9 ? 6 : p.n->list.size() == 6 ? s.pick({7, 8}) : 4; break;
                default: break;
                }
            }
            one(p.p, p.n, false, t, req, salt);
            break;
        }
        case 1:
        {
            std::string p = s.flip() ? "missing" : "no/such/key";
            if (s.flip()) for (auto& q : ps) if (q.n->k == MAP && s.flip()) { p = q.p + "/absent"; break; }
            one(p, nullptr, false, type, req, salt);
            break;
        }
        default:
        {
            const Path& p = s.pickv(ps);
            if (p.n->k == MAP) break;
            one(p.p + "/below", nullptr, true, type, req, salt);
        }
        }
    }
    // look-ups have not disturbed any entry
    for (auto& p : ps)
    {
        int t = p.n->k == INT ? 0 : p.n->k == DBL ? 1 : p.n->k == BOOL ? 2 : p.n->k == STR ? 3 : p.n->k == LIST ? 4 : -1;
        if (t >= 0) one(p.p, p.n, false, t, true, 5);
    }
    if (hits >= 2 && nested) s.nontrivial();
}
VT_PROP(matrix_conversion, 500, 10000)
{
    Mat23 m, back;
    Mat3 q, qb;
    for (int i = 0; i < 6; ++i) m(i) = num(s);
    for (int i = 0; i < 9; ++i) q(i) = num(s);
    s.nontrivial();
    YAML::Node n = YAML::Load(YAML::Dump(YAML::convert<Mat23>::encode(m)));
    s.note("2x3 %s", YAML::Dump(n).c_str());
    VT_REQ(YAML::convert<Mat23>::decode(n, back), "decode refused");
    VT_REQ((back - m).cwiseAbs().maxCoeff() <= 1e-14 * m.cwiseAbs().maxCoeff(), "round trip %s", sm(back).c_str());
    YAML::Node l(YAML::NodeType::Sequence);
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) l.push_back(vt::sfmt("%.17g", q(i, j)));
    qb = l.as<Mat3>();
    VT_REQ(sm(qb) == sm(q), "decode %s want %s", sm(qb).c_str(), sm(q).c_str());
    while (l.size() > 0 && s.draw(5) != 0) l.remove(l.size() - 1);
    if (l.size() < 9) VT_REQ(!YAML::convert<Mat3>::decode(l, qb), "short list of %zu accepted", l.size());
}
VT_PROP(split, 2000, 40000)
{
    const int n = s.irange(1, 6);
    std::vector<std::string> parts;
    std::string joined;
    for (int i = 0; i < n; ++i)
    {
        std::string p;
        const int len = s.irange(1, 5);
        for (int j = 0; j < len; ++j) p += (char)s.pick({'a', 'z', '.', '_', '-', '0', ' ', '9'});
        parts.push_back(p);
        joined += (i ? "/" : "") + p;
    }
    s.note("%s", joined.c_str());
    if (n > 1) s.nontrivial();
    const auto got = utils::split_string(joined, '/');
    VT_REQ(got == parts, "split into %zu parts", got.size());
}
