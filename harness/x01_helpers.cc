// X01: the helpers everything else is built from do what they promise for every input
#include <sys/syscall.h>
#include <fcntl.h>
#include <time.h>
#include <cfloat>
#include <chrono>
#include <iostream>
#include <set>
#include "common/check.h"
#include "common/defs.h"
#include "common/error.h"
#include "common/error_result.h"
#include "common/math/rk4.h"
#include "common/out.h"
#include "common/print.h"
#include "common/random.h"
#include "utils/file.h"
#include "utils/progress_bar.h"
#include "utils/split_string.h"
#include "utils/strip_string.h"
#include "vt.h"
using namespace mc;
typedef long double LD;

// the wall clock of the progress display, under the check's control
static long long fake_ms = -1;
namespace std {
namespace chrono {
inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept
{
    if (fake_ms >= 0) return time_point(duration_cast<duration>(milliseconds(1700000000000LL + fake_ms)));
    timespec t;
    clock_gettime(CLOCK_REALTIME, &t);
    return time_point(duration_cast<duration>(seconds(t.tv_sec) + nanoseconds(t.tv_nsec)));
}
}}}
// what is printed while it lives
struct Capture
{
    int o, e, fo, fe;
    static int tmp() { return (int)syscall(SYS_memfd_create, "x", 0u); }
    static void sync()
    {
        std::cout.flush();
        fflush(stdout);
        fflush(stderr);
    }
    Capture()
    {
        sync();
        o = dup(1);
        e = dup(2);
        fo = tmp();
        fe = tmp();
        dup2(fo, 1);
        dup2(fe, 2);
    }
    static std::string all(int fd)
    {
        std::string t;
        char b[4096];
        lseek(fd, 0, SEEK_SET);
        for (ssize_t n; (n = read(fd, b, sizeof b)) > 0;) t.append(b, n);
        return t;
    }
    std::string out, err;
    void end()
    {
        if (o < 0) return;
        sync();
        out = all(fo);
        err = all(fe);
        dup2(o, 1);
        dup2(e, 2);
        for (int f : {o, e, fo, fe}) close(f);
        o = -1;
    }
    ~Capture() { end(); }
};

// ---------------------------------------------------------------- one step of the classical Runge-Kutta method
template <int N>
static void rk_linear(vt::Src& s)
{
    typedef Eigen::Matrix<double, N, 1> V;
    typedef Eigen::Matrix<double, N, N> M;
    typedef Eigen::Matrix<LD, N, 1> VL;
    typedef Eigen::Matrix<LD, N, N> ML;
    V x, b;
    M A;
    for (int i = 0; i < N; ++i) { x(i) = s.sym(10); b(i) = s.sym(10); }
    for (int i = 0; i < N * N; ++i) A(i) = s.sym(3);
    const double dt = s.chance(0.1) ? 0 : s.logu(1e-6, 2) * (s.chance(0.3) ? -1 : 1);
    s.note("linear %d dt %g", N, dt);
    int calls = 0;
    const V got = math::RK4([&](const V& y, const M& a, const V& c) -> V { ++calls; return a * y + c; }, dt, x, A, b);
    // a linear system: the series of the exponential up to the fourth term
    const ML h = A.template cast<LD>() * (LD)dt;
    const VL c = b.template cast<LD>() * (LD)dt, x0 = x.template cast<LD>();
    VL term = h * x0 + c, want = x0 + term;
    LD mag = x0.cwiseAbs().maxCoeff() + term.cwiseAbs().maxCoeff();
    for (int k = 2; k <= 4; ++k)
    {
        term = h * term / (LD)k;
        want += term;
    }
    LD g = 1, hn = h.cwiseAbs().rowwise().sum().maxCoeff();
    for (int k = 0; k < 4; ++k) g = 1 + g * hn;
    const LD tol = 1e-13L * g * (mag + 1e-30L);
    for (int i = 0; i < N; ++i) VT_REQ(std::fabs((LD)got(i) - want(i)) <= tol, "component %d: %.17g, the series gives %.17Lg (within %Lg)", i, got(i), want(i), tol);
    if (N > 1 && dt != 0) s.nontrivial();
}
VT_PROP(runge_kutta_linear, 3000, 60000)
{
    switch (s.draw(3))
    {
    case 0: return rk_linear<1>(s);
    case 1: return rk_linear<2>(s);
    case 2: return rk_linear<3>(s);
    default: return rk_linear<6>(s);
    }
}
// a system that is not linear, step halved: the error falls with the fifth power
VT_PROP(runge_kutta_order, 2000, 40000)
{
    const double w = s.real(0.3, 1.5), damp = s.real(0, 0.3), push = s.real(0.2, 1);
    const Vec2 x0(s.sym(2), s.sym(1));
    auto f = [&](const auto& y, double p) {
        typedef std::decay_t<decltype(y(0))> T;
        using std::sin;
        Eigen::Matrix<T, 2, 1> d;
        d << y(1), -(T)w * sin(y(0)) - (T)damp * y(1) * y(1) * y(1) + (T)p;
        return d;
    };
    auto exact = [&](LD h) {   // many small steps in more digits, own formulation
        Eigen::Matrix<LD, 2, 1> y = x0.cast<LD>();
        const int n = 200;
        const LD d = h / n;
        for (int i = 0; i < n; ++i)
        {
            Eigen::Matrix<LD, 2, 1> a = f(y, push), b = f(Eigen::Matrix<LD, 2, 1>(y + d / 2 * a), push), c = f(Eigen::Matrix<LD, 2, 1>(y + d / 2 * b), push), e = f(Eigen::Matrix<LD, 2, 1>(y + d * c), push);
            y += d / 6 * a + d / 3 * b + d / 3 * c + d / 6 * e;
        }
        return y;
    };
    const double h = s.logu(0.02, 0.2) * (s.flip() ? 1 : -1);
    const Vec2 one = math::RK4(f, h, x0, push);
    // the method itself, digit for digit
    const Vec2 k1 = f(x0, push), k2 = f(Vec2(x0 + h / 2 * k1), push), k3 = f(Vec2(x0 + h / 2 * k2), push), k4 = f(Vec2(x0 + h * k3), push);
    const Vec2 want = x0 + h / 6 * (k1 + 2 * k2 + 2 * k3 + k4);
    VT_REQ((one - want).norm() <= 1e-14 * (1 + x0.norm()), "the step differs from the classical tableau by %g", (one - want).norm());
    const LD e = (one.cast<LD>() - exact(h)).norm();
    VT_REQ(e <= 3 * std::pow(std::fabs((LD)h), 5) + 1e-14L, "a step of %g is off by %Lg", h, e);
    // scalars are states as well
    const double z0 = s.sym(2), z = math::RK4([](double y) { return -0.5 * y; }, h, z0);
    const double q = -0.5 * h;
    VT_REQ(std::fabs(z - z0 * (1 + q + q * q / 2 + q * q * q / 6 + q * q * q * q / 24)) <= 1e-14 * (1 + std::fabs(z0)), "a scalar step is wrong");
    s.nontrivial();
}

// ---------------------------------------------------------------- random fills
template <typename F>
static void check_uniform(double lo, double hi, F fill)
{
    double mn = INFINITY, mx = -INFINITY, sum = 0;
    long n = 0;
    std::set<double> seen;
    while (n < 600)
    {
        const auto m = fill();
        for (int i = 0; i < m.size(); ++i)
        {
            const double v = m(i);
            VT_REQ(v >= lo - 1e-9 * std::fabs(lo) && v <= hi + 1e-9 * std::fabs(hi), "%.17g is outside %.17g .. %.17g", v, lo, hi);
            mn = std::min(mn, v);
            mx = std::max(mx, v);
            sum += v;
            seen.insert(v);
            ++n;
        }
    }
    const double w = hi - lo;
    // 600 draws miss a tenth of the range once in 10^27
    VT_REQ(mn <= lo + 0.1 * w && mx >= hi - 0.1 * w, "only %.17g .. %.17g of %.17g .. %.17g is drawn", mn, mx, lo, hi);
    VT_REQ(std::fabs(sum / n - (lo + hi) / 2) <= 8 * w / std::sqrt(12.0 * n), "the mean of %.17g .. %.17g is %.17g", lo, hi, sum / n);
    if (w > 1e-9 * (std::fabs(lo) + std::fabs(hi))) VT_REQ((long)seen.size() > n / 2, "only %zu different numbers of %ld", seen.size(), n);
}
VT_PROP(random_fills, 600, 12000)
{
    const double lo = s.flip() ? s.sym(1000) : s.irange(-5, 5);
    double w;
    switch (s.draw(3))
    {
    case 0: w = s.irange(1, 10); break;
    case 1: w = s.real(0.01, 1); break;
    case 2: w = s.real(1, 50); break;
    default: w = s.logu(1e-3, 1e12); break;
    }
    const double hi = lo + w;
    s.note("%.17g .. %.17g", lo, hi);
    const int r = s.irange(1, 7), c = s.irange(1, 7);
    check_uniform(lo, hi, [&]() {
        const Eigen::MatrixXd m = c == 1 ? randomUniform(lo, hi, r) : randomUniform(lo, hi, r, c);
        VT_REQ(m.rows() == r && m.cols() == c, "%dx%d asked, %dx%d made", r, c, (int)m.rows(), (int)m.cols());
        return m;
    });
    check_uniform(lo, hi, [&]() { return randomUniformat<Eigen::Matrix<double, 3, 5>>(lo, hi); });
    auto normal = [&](auto fill) {
        double sum = 0, sq = 0;
        long n = 0, in = 0;
        while (n < 2000)
        {
            const auto m = fill();
            for (int i = 0; i < m.size(); ++i) { sum += m(i); sq += m(i) * m(i); in += std::fabs((double)m(i)) < 0.6744898; ++n; }
        }
        const double sd = std::sqrt((double)n);
        VT_REQ(std::fabs(sum / n) <= 8 / sd && std::fabs(sq / n - 1) <= 8 * std::sqrt(2.0) / sd, "normal numbers of mean %g and variance %g", sum / n, sq / n);
        VT_REQ(std::fabs((double)in / n - 0.5) <= 8 * 0.5 / sd, "%g of the numbers within the quartiles", (double)in / n);
    };
    normal([&]() {
        const Eigen::MatrixXd m = c == 1 ? randomNormal(r) : randomNormal(r, c);
        VT_REQ(m.rows() == r && m.cols() == c, "%dx%d asked, %dx%d made", r, c, (int)m.rows(), (int)m.cols());
        return m;
    });
    normal([&]() { return randomNormal<Eigen::Matrix<double, 4, 4>>(); });
    normal([&]() { return randomNormal<Eigen::Matrix<float, 5, 1>>(); });
    if (w != std::floor(w)) s.nontrivial();
}

// ---------------------------------------------------------------- results that may be errors
static constexpr char E0[] = "first trouble", E1[] = "second trouble", E2[] = "first trouble";
static Error make_error(int k) { return k == 0 ? Error::create(E0) : k == 1 ? Error::create(E1) : Error::create(E2); }
static const char* text_of(int k) { return k == 0 ? E0 : k == 1 ? E1 : E2; }
struct Step { int fails; std::string val; };   // fails < 0: gives val
static ErrorResult<std::string> give(const Step& st, int& calls)
{
    ++calls;
    if (st.fails >= 0) return make_error(st.fails);
    return st.val;
}
static Error just(const Step& st, int& calls)
{
    ++calls;
    return st.fails >= 0 ? make_error(st.fails) : Error::none();
}
static ErrorResult<std::string> chain(const std::vector<Step>& steps, size_t i, int& calls)
{
    if (i == steps.size()) return std::string();
    RETURN_IF_NOT_OK(just(steps[i], calls));
    const std::string a = RETURN_OR_ASSIGN(give(steps[i], calls));
    const std::string rest = RETURN_OR_ASSIGN(chain(steps, i + 1, calls));
    return a + rest;
}
VT_PROP(results, 4000, 80000)
{
    std::vector<Step> steps;
    const int n = s.irange(0, 8);
    int first = -1;
    std::string all;
    for (int i = 0; i < n; ++i)
    {
        Step st{s.chance(0.15) ? (int)s.draw(2) : -1, ""};
        for (int k = s.irange(0, 6); k > 0; --k) st.val += (char)('a' + s.draw(25));
        if (st.fails >= 0 && first < 0) first = i;
        all += st.val;
        steps.push_back(st);
    }
    int calls = 0;
    const ErrorResult<std::string> r = chain(steps, 0, calls);
    ErrorResult<std::string> copy = s.flip() ? ErrorResult<std::string>(std::string("other")) : ErrorResult<std::string>(make_error(1));
    if (s.flip()) copy = r;
    else copy = ErrorResult<std::string>(r);
    for (const auto* x : {&r, (const ErrorResult<std::string>*)&copy})
    {
        VT_REQ(x->ok() == (first < 0), "a chain that %s says %d", first < 0 ? "succeeds" : "fails", (int)x->ok());
        bool threw = false;
        if (first < 0)
        {
            VT_REQ(x->res() == all, "the result is '%s', not '%s'", x->res().c_str(), all.c_str());
            try { x->err(); } catch (std::exception&) { threw = true; }
        }
        else
        {
            const Error e = x->err();
            const int k = steps[first].fails;
            VT_REQ(!e.ok() && e.what() == text_of(k), "the error is not the first that occurred");
            for (int j = 0; j < 3; ++j)
            {
                VT_REQ((e == make_error(j)) == (j == k) && (e != make_error(j)) == (j != k), "errors %d and %d compare wrongly", j, k);
                VT_REQ((e == text_of(j)) == (j == k) && (e != text_of(j)) == (j != k), "error %d and text %d compare wrongly", k, j);
            }
            VT_REQ(e != Error::none() && !(e == Error::none()), "an error equals success");
            std::ostringstream o;
            o << e;
            VT_REQ(o.str() == text_of(k), "prints as '%s'", o.str().c_str());
            try { x->res(); } catch (std::exception&) { threw = true; }
        }
        VT_REQ(threw, "the missing half of a result can be read");
    }
    VT_REQ(calls == (first < 0 ? 2 * n : 2 * first + 1), "%d calls, the first failure is at %d of %d", calls, first, n);
    VT_REQ(Error::none().ok() && Error::none() == Error::none(), "success is not success");
    // success cannot pose as the error of a result: the program stops
    if (s.chance(0.01))
    {
        const auto c = vt::in_child([]() {
            Capture q;
            ErrorResult<double> x{Error::none()};
            return std::string(x.ok() ? "ok" : "not ok");
        });
        VT_REQ(!c.exited, "a result was made from success without a value");
    }
    if (first > 0 && n > 2) s.nontrivial();
}

// ---------------------------------------------------------------- strings
VT_PROP(strings, 6000, 120000)
{
    const bool any = s.chance(0.3);
    const char delim = s.flip() ? ' ' : any ? (char)s.draw(255) : s.pick({',', ':', '\n', 'x', '\0'});
    std::string t;
    for (int n = s.irange(0, 30); n > 0; --n) t += s.chance(0.35) ? delim : any ? (char)s.draw(255) : (char)('a' + s.draw(25));
    std::vector<std::string> want;
    std::string cur;
    for (char c : t)
        if (c == delim)
        {
            want.push_back(cur);
            cur.clear();
        }
        else cur += c;
    if (!cur.empty()) want.push_back(cur);
    const auto got = delim == ' ' && s.flip() ? utils::split_string(t) : utils::split_string(t, delim);
    VT_REQ(got == want, "'%s' is divided into %zu parts, not %zu", vt::jesc(t).c_str(), got.size(), want.size());
    std::vector<char> bad;
    if (s.flip()) bad = {' '};
    else
        for (int n = s.irange(0, 6); n > 0; --n) bad.push_back(any ? (char)s.draw(255) : s.flip() ? delim : (char)('a' + s.draw(25)));
    std::string w;
    for (char c : t)
        if (std::find(bad.begin(), bad.end(), c) == bad.end()) w += c;
    const std::string g = bad == std::vector<char>{' '} && s.flip() ? strip_string(t) : strip_string(t, bad);
    VT_REQ(g == w, "'%s' is stripped to '%s', not '%s'", vt::jesc(t).c_str(), vt::jesc(g).c_str(), vt::jesc(w).c_str());
    if (want.size() > 2) s.nontrivial();
}

// ---------------------------------------------------------------- output arguments
template <typename T>
static void fill3(MatOut<T, 3, 1> v, const Vec3& x)
{
    *v = x;
}
template <typename T, int R, int C>
static void fill(MatOut<T, R, C> v, const Eigen::MatrixXd& x)
{
    VT_REQ(v->rows() == x.rows() && v->cols() == x.cols(), "the argument has another size");
    for (int i = 0; i < x.rows(); ++i)
        for (int j = 0; j < x.cols(); ++j) (*v)(i, j) = x(i, j);
}
VT_PROP(out_arguments, 4000, 80000)
{
    const int R = s.irange(3, 9), C = s.irange(1, 9);
    Eigen::MatrixXd m(R, C), x(R, C);
    for (int i = 0; i < m.size(); ++i) m(i) = s.sym(1);
    for (int i = 0; i < x.size(); ++i) x(i) = 10 + s.sym(1);
    Eigen::MatrixXd w = m;
    switch (s.draw(4))
    {
    case 0:
    {
        const int r = (int)s.draw(R - 3), c = (int)s.draw(C - 1);
        fill3(make_out(m.block<3, 1>(r, c)), Vec3(x.block<3, 1>(0, 0)));
        for (int i = 0; i < 3; ++i) w(r + i, c) = x(i, 0);
        break;
    }
    case 1:
    {
        const int r = (int)s.draw(R - 1), c = (int)s.draw(C - 1), nr = s.irange(1, R - r), nc = s.irange(1, C - c);
        fill(make_out(m.block(r, c, nr, nc)), x.topLeftCorner(nr, nc));
        for (int i = 0; i < nr; ++i)
            for (int j = 0; j < nc; ++j) w(r + i, c + j) = x(i, j);
        break;
    }
    case 2:
        fill(make_out(m), x);
        w = x;
        break;
    case 3:
    {
        const int c = (int)s.draw(C - 1);
        fill(make_out(m.col(c).head(3)), x.block(0, 0, 3, 1));
        for (int i = 0; i < 3; ++i) w(i, c) = x(i, 0);
        break;
    }
    default:
    {
        // of the wrong length: refused, nothing written
        const int n = s.irange(0, 8);
        Eigen::VectorXd v = Eigen::VectorXd::Constant(n, 5.0);
        if (n == 3)
        {
            fill3(MatOut<Eigen::VectorXd, 3, 1>(v), Vec3(1, 2, 3));
            VT_REQ(v == Vec3(1, 2, 3), "not written");
        }
        else if (s.chance(0.1))
        {
            const auto c = vt::in_child([&]() {
                Capture q;
                MatOut<Eigen::VectorXd, 3, 1> o(v);
                return std::string("taken");
            });
            VT_REQ(!c.exited && c.sig == 0 && c.code == 255, "%d numbers taken as 3", n);
        }
    }
    }
    VT_REQ(m == w, "an output argument wrote elsewhere than to what it stands for");
    std::pair<int, double> p(1, 2.0);
    Out<std::pair<int, double>> o = make_out(p);
    Out<std::pair<int, double>> again = o;
    again->first = (int)s.draw(100);
    (*o).second = s.sym(1);
    VT_REQ(&*o == &p && &*again == &p, "an output argument is a copy");
    if (C > 1) s.nontrivial();
}

// ---------------------------------------------------------------- messages
VT_PROP(messages, 3000, 50000)
{
    std::string word;
    for (int n = s.irange(0, 12); n > 0; --n) word += s.pick({'a', 'Z', '0', ' ', '{', '}', '%', '\n', (char)0xc3});
    const int num = s.irange(-1000, 1000);
    const bool cond = s.flip();
    const int level = (int)s.draw(4);   // dbg, info, warn, error, fatal
    const int form = (int)s.draw(2);    // plain, conditional, check
    const std::string want = "msg " + word + " of " + std::to_string(num);
    const std::string f = "msg {} of {}";
    if (form == 2 && level >= 3 && !cond)
    {
        // stops the program, and says why
        if (!s.chance(0.1)) return;
        const std::string file = vt::sfmt("/tmp/vt_x01_%d", (int)getpid());
        const auto c = vt::in_child([&]() {
            const int fd = open(file.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
            dup2(fd, 1);
            dup2(fd, 2);
            check(cond, f, mc::fmt(word, num));
            return std::string();
        });
        std::string got;
        if (FILE* in = fopen(file.c_str(), "r"))
        {
            char b[4096];
            for (size_t n; (n = fread(b, 1, sizeof b, in)) > 0;) got.append(b, n);
            fclose(in);
        }
        unlink(file.c_str());
        VT_REQ(!c.exited && c.sig == 0 && c.code == 255, "a failed check went on");
        VT_REQ(got.find(want) != std::string::npos, "a failed check does not say why: %s", vt::jesc(got.substr(0, 300)).c_str());
        return s.nontrivial();
    }
    Capture q;
    bool threw = false;
    if (form == 0)
    {
        switch (level)
        {
        case 0: dbg(f, mc::fmt(word, num)); break;
        case 1: info(f, mc::fmt(word, num)); break;
        case 2: warn(f, mc::fmt(word, num)); break;
        case 3: error(f, mc::fmt(word, num)); break;
        default: fatal(f, mc::fmt(word, num)); break;
        }
    }
    else if (form == 1)
    {
        switch (level)
        {
        case 0: dbg(cond, f, mc::fmt(word, num)); break;
        case 1: info(cond, f, mc::fmt(word, num)); break;
        case 2: warn(cond, f, mc::fmt(word, num)); break;
        case 3: error(cond, f, mc::fmt(word, num)); break;
        default: fatal(cond, f, mc::fmt(word, num)); break;
        }
    }
    else
    {
        try
        {
            if (level < 3) weak_check(cond, f, mc::fmt(word, num));
            else check(cond, f, mc::fmt(word, num));
        }
        catch (...) { threw = true; }
    }
    q.end();
    auto times = [&](const std::string& in) {
        int n = 0;
        for (size_t at = 0; (at = in.find(want, at)) != std::string::npos; at += want.size()) ++n;
        return n;
    };
    const int all = times(q.out) + times(q.err);
    s.note("form %d level %d condition %d: %d", form, level, (int)cond, all);
    if (form == 2)
    {
        VT_REQ(threw == (level >= 3 && !cond), "a check of %d %s", (int)cond, threw ? "stopped" : "went on");
        VT_REQ(cond ? q.out.empty() && q.err.empty() : all >= 1, "a check of %d printed %d times", (int)cond, all);
    }
    else
    {
        const bool shown = level >= 1 && (form == 0 || cond);
        VT_REQ(all == (shown ? 1 : 0), "printed %d times", all);
        if (!shown) VT_REQ(q.out.empty() && q.err.empty(), "something is printed for a message not to be shown");
        else
        {
            VT_REQ((level >= 3 ? q.out : q.err).empty(), "printed on the wrong stream");
            const std::string& o = level >= 3 ? q.err : q.out;
            VT_REQ(o.find("x01_helpers.cc:") != std::string::npos || o.find("print.cxx:") != std::string::npos, "says no place: %s", vt::jesc(o).c_str());
            VT_REQ(!o.empty() && o.back() == '\n', "the line is not ended");
        }
    }
    if (!word.empty()) s.nontrivial();
}

// ---------------------------------------------------------------- numbers
VT_PROP(numbers, 4000, 60000)
{
    auto num = [&]() { return s.chance(0.2) ? (double)s.irange(-2, 2) : s.chance(0.1) ? s.pick({-0.0, 0.0, 1e308, -1e308, 1e-320, (double)INFINITY, -(double)INFINITY}) : s.sym(10); };
    double a = num(), b = num();
    const double x = s.chance(0.2) ? a : num();
    if (a > b) std::swap(a, b);
    const double y = sat(x, a, b);
    VT_REQ(y >= a && y <= b && (x < a || x > b || y == x) && (y == x || y == (x > b ? b : a)), "sat(%g, %g, %g) = %g", x, a, b, y);
    const int i = s.irange(-20, 20);
    VT_REQ(sat(i, -5, 7) == std::min(7, std::max(-5, i)), "sat of %d is %d", i, sat(i, -5, 7));
    const double g = sign(x);
    VT_REQ(g == (x > 0 ? 1 : x < 0 ? -1 : 1), "sign(%g) = %g", x, g);
    VT_REQ(sign(i) == (i >= 0 ? 1 : -1), "sign(%d) = %d", i, sign(i));
    const double d = s.sym(1000);
    const LD r = (LD)d * 3.14159265358979323846264338327950288L / 180;
    VT_REQ(std::fabs((LD)deg2Rad(d) - r) <= 4e-16L * std::fabs(r), "%.17g degrees are %.17g", d, deg2Rad(d));
    VT_REQ(std::fabs((LD)rad2Deg(d) - (LD)d * 180 / 3.14159265358979323846264338327950288L) <= 1e-15L * std::fabs((LD)rad2Deg(d)), "%.17g radians are %.17g", d, rad2Deg(d));
    if (x > a && x < b) s.nontrivial();
}

// ---------------------------------------------------------------- progress display
static LD stamp_ms(const std::string& t)
{
    // days : hours : minutes : seconds : milliseconds, as many as are needed
    if (t.empty()) return 0;
    std::vector<LD> v;
    for (auto& x : utils::split_string(t, ':'))
    {
        VT_REQ(!x.empty() && x.find_first_not_of("0123456789") == std::string::npos, "duration '%s'", t.c_str());
        v.push_back(std::stoll(x));
    }
    VT_REQ(v.size() <= 5, "duration '%s'", t.c_str());
    static const LD unit[] = {1, 1e3L, 6e4L, 36e5L, 864e5L};
    static const LD top[] = {1000, 60, 60, 24, 1e9};
    LD ms = 0;
    for (size_t i = 0; i < v.size(); ++i)
    {
        const LD x = v[v.size() - 1 - i];
        VT_REQ(x < top[i], "duration '%s'", t.c_str());
        ms += x * unit[i];
    }
    return ms;
}
VT_PROP(progress, 3000, 50000)
{
    const int total = s.flip() ? s.irange(1, 20) : s.irange(1, 1000000), width = s.irange(0, 60);
    const int theme = (int)s.draw(5);
    static const char* FULL[] = {"█", "═", "#", "⣿", "⠿"};
    struct Call { long long ms; int done; double t; };
    std::vector<Call> calls;
    long long ms = 0;
    double sim = s.real(0, 100);
    const bool timed = s.flip();
    int done = 0;
    for (int n = s.irange(1, 12); n > 0; --n)
    {
        calls.push_back({ms, done, timed ? sim : NAN});
        switch (s.draw(3))
        {
        case 0: ms += s.range(1, 40); break;
        case 1: ms += s.range(30, 40); break;
        case 2: ms += s.range(34, 100000); break;
        default: ms += (long long)s.logu(100, 3e8); break;
        }
        sim += s.real(0, 10);
        done = std::min(total, done + (int)s.draw(total));
    }
    if (ms > 2000000000) s.discard();
    std::vector<std::string> lines;
    std::string last;
    const bool fin = s.flip() && ms > calls.back().ms;
    {
        Capture q;
        fake_ms = 0;
        std::unique_ptr<utils::ProgressBar> bar;
        if (s.flip()) bar.reset(new utils::ProgressBar(total, width));
        else
        {
            bar.reset(new utils::ProgressBar);
            if (s.flip())
            {
                bar->init(7, 9);
                bar->print(3);
            }
            bar->init(total, width);
        }
        if (theme == 1) bar->set_theme_line();
        if (theme == 2) bar->set_theme_circle();
        if (theme == 3) bar->set_theme_braille();
        if (theme == 4) bar->set_theme_braille_spin();
        if (theme == 5) bar->set_theme_solid();
        size_t at = 0;
        auto flush = [&]() {
            Capture::sync();
            const std::string all = Capture::all(q.fo);
            lseek(q.fo, 0, SEEK_END);
            lines.push_back(all.substr(at));
            at = all.size();
        };
        flush();
        lines.clear();
        for (auto& c : calls)
        {
            fake_ms = c.ms;
            bar->print(c.done, c.t);
            flush();
        }
        if (fin)
        {
            fake_ms = ms;
            bar->finished();
            flush();
        }
        fake_ms = -1;
    }
    if (fin) calls.push_back({ms, total, calls.back().t});
    long long shown_at = calls[0].ms, elapsed_last = 0;
    double rate = 1, t_last = calls[0].t;
    for (size_t i = 0; i < calls.size(); ++i)
    {
        const Call& c = calls[i];
        const std::string& l = lines[i];
        const bool show = c.ms - shown_at > 33 || c.done == total;
        s.note("%lld ms: %d of %d: %s", c.ms, c.done, total, vt::jesc(l).c_str());
        VT_REQ(l.empty() == !show, "after %lld ms with %d of %d the display is %srefreshed", c.ms - shown_at, c.done, total, l.empty() ? "not " : "");
        if (!show) continue;
        shown_at = c.ms;
        const size_t a = l.find('['), b = l.find("]  ");
        VT_REQ(a != std::string::npos && b != std::string::npos && b > a && l[a - 1] == ' ' && l.find('\r') < a, "no bar: %s", vt::jesc(l).c_str());
        std::vector<std::string> cells;
        for (size_t k = a + 1; k < b;)
        {
            size_t e = k + 1;
            while (e < b && ((unsigned char)l[e] & 0xc0) == 0x80) ++e;
            cells.push_back(l.substr(k, e - k));
            k = e;
        }
        VT_REQ((int)cells.size() == width, "the bar has %zu cells, not %d", cells.size(), width);
        const double pos = width * (c.done / (double)total);
        const int full = (int)std::floor(pos);
        const std::string f = FULL[theme == 5 ? 0 : theme];
        for (int k = 0; k < width; ++k)
        {
            if (k < full) VT_REQ(cells[k] == f, "cell %d of %d is not full at %d of %d", k, width, c.done, total);
            if (k > full) VT_REQ(cells[k] == " ", "cell %d of %d is not empty at %d of %d", k, width, c.done, total);
        }
        int pct = -1;
        char el[64] = "", rest[128] = "";
        const std::string tail = l.substr(b + 3);
        VT_REQ(sscanf(tail.c_str(), "%d%% [%127[^]]] ", &pct, rest) == 2, "tail '%s'", vt::jesc(tail).c_str());
        VT_REQ(std::fabs(pct - 100.0 * c.done / total) <= 0.5000001, "%d of %d shown as %d%%", c.done, total, pct);
        const std::string r = rest;
        const size_t lt = r.find('<'), cm = r.find(", ");
        VT_REQ(lt != std::string::npos && cm != std::string::npos && lt < cm, "tail '%s'", vt::jesc(tail).c_str());
        const LD e = stamp_ms(r.substr(0, lt));
        const long long elapsed = c.ms - calls[0].ms;
        VT_REQ(std::fabs(e - elapsed) <= 1, "%lld ms shown as '%s'", elapsed, r.substr(0, lt).c_str());
        (void)el;
        if (c.done > 0 && elapsed > 0)
        {
            const LD left = (LD)elapsed * (total - c.done) / c.done;
            if (left < 2.1e9L)
            {
                const LD x = stamp_ms(r.substr(lt + 1, cm - lt - 1));
                VT_REQ(std::fabs(x - left) <= 1 + 1e-9L * left, "%d of %d after %lld ms: '%s' left", c.done, total, elapsed, r.substr(lt + 1, cm - lt - 1).c_str());
            }
            double its = -1, x = -1;
            const int got = sscanf(r.c_str() + cm + 2, "%lfit/s, %lfx", &its, &x);
            VT_REQ(got == (timed ? 2 : 1), "tail '%s'", vt::jesc(tail).c_str());
            VT_REQ(std::fabs(its - 1000.0 * c.done / elapsed) <= 0.0051 + 1e-9 * its, "%d in %lld ms shown as %g/s", c.done, elapsed, its);
            if (timed && elapsed > elapsed_last)
            {
                rate = 0.9 * rate + 0.1 * (c.t - t_last) / ((elapsed - elapsed_last) / 1000.0);
                if (std::isfinite(x)) VT_REQ(std::fabs(x - rate) <= 0.0051 + 1e-6 * std::fabs(rate), "speed shown as %g, is %g", x, rate);
            }
            else if (timed) rate = NAN;
            if (c.done < total && full > 0) s.nontrivial();
        }
        else if (timed) rate = elapsed > elapsed_last ? 0.9 * rate + 0.1 * (c.t - t_last) / ((elapsed - elapsed_last) / 1000.0) : NAN;
        elapsed_last = elapsed;
        t_last = c.t;
        if (std::isnan(rate)) rate = INFINITY;
        if (!std::isfinite(rate)) break;   // a speed over no time at all is not defined from here on
    }
}

// ---------------------------------------------------------------- directories
VT_PROP(directories, 200, 3000)
{
    namespace fs = std::experimental::filesystem;
    char tmp[] = "/tmp/vt_x01_XXXXXX";
    VT_REQ(mkdtemp(tmp), "no scratch directory");
    struct Rm { std::string p; ~Rm() { std::error_code e; fs::remove_all(p, e); } } rm{tmp};
    std::string p = tmp;
    for (int n = s.irange(1, 4); n > 0; --n) p += std::string("/") + s.pick({"a", "log", "x.y", "b c"});
    const std::string keep = std::string(tmp) + "/keep";
    FILE* f = fopen(keep.c_str(), "w");
    fputs("kept", f);
    fclose(f);
    for (int n = s.irange(1, 6); n > 0; --n)
    {
        if (s.flip())
        {
            const bool had = fs::exists(p + "/file");
            utils::makeDirectoryIfNotExist(p);
            VT_REQ(fs::is_directory(p), "the directory was not made");
            VT_REQ(fs::exists(p + "/file") == had, "making a directory that exists changed it");
            if (s.flip()) fclose(fopen((p + "/file").c_str(), "w"));
        }
        else
        {
            utils::removeDirectoryIfExist(p);
            VT_REQ(!fs::exists(p), "the directory is still there");
            VT_REQ(fs::is_directory(fs::path(p).parent_path()) || !fs::exists(p), "its parent went too");
        }
        VT_REQ(fs::file_size(keep) == 4, "a neighbour was touched");
        utils::removeDirectoryIfExist(keep);
        VT_REQ(fs::exists(keep), "a file is not a directory, but was removed");
    }
    s.nontrivial();
}
