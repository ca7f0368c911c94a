// any generated filter: generators, dense views of everything, long-double manifold arithmetic
#pragma once
#include <Eigen/Dense>
#include "glue.h"
#include "liegen.h"
namespace fg {
using namespace lie;
using MX = Eigen::MatrixXd;
using VX = Eigen::VectorXd;
static const int TDX[5] = {0, 3, 6, 3, 6};
// ---- elements on their manifolds
inline M4 mat_of(const math::Quat<double>& q) { M4 m = M4::Identity(); m.topLeftCorner<3, 3>() = active(q); return m; }
inline M4 mat_of(const math::SO3<double>& q) { M4 m = M4::Identity(); m.topLeftCorner<3, 3>() = q.matrix().cast<ld>(); return m; }
inline M4 mat_of(const math::SE3<double>& q) { M4 m = mat_of(q.rotation()); m.topRightCorner<3, 1>() = up(q.translation()); return m; }
inline M4 mat_of(const math::DQuat<double>& q)
{
    const Qd r = q.real(), d = q.dual();
    M4 m = M4::Identity();
    m.topLeftCorner<3, 3>() = active(r);
    // t = 2 dual * conj(real)
    const ld n = (ld)r.w() * r.w() + (ld)r.x() * r.x() + (ld)r.y() * r.y() + (ld)r.z() * r.z();
    const V3 rv(r.x(), r.y(), r.z()), dv(d.x(), d.y(), d.z());
    m.topRightCorner<3, 1>() = 2 * (-(ld)d.w() * rv + (ld)r.w() * dv - dv.cross(rv)) / n;
    return m;
}
inline M4 exp_of(const VX& d)
{
    V6 v = V6::Zero();
    v.head(d.size()) = d.cast<ld>();
    return se3exp(v);
}
// numbers stored for an element
inline void raw(const math::Quat<double>& q, std::vector<double>& o) { for (int i = 0; i < 4; ++i) o.push_back(q.data()[i]); }
inline void raw(const math::DQuat<double>& q, std::vector<double>& o) { for (int i = 0; i < 8; ++i) o.push_back(q.data()[i]); }
inline void raw(const math::SO3<double>& q, std::vector<double>& o) { for (int i = 0; i < 9; ++i) o.push_back(q.matrix().data()[i]); }
inline void raw(const math::SE3<double>& q, std::vector<double>& o) { raw(q.rotation(), o); for (int i = 0; i < 3; ++i) o.push_back(q.translation()(i)); }
template <typename D>
inline void raw(const Eigen::MatrixBase<D>& m, std::vector<double>& o) { for (int j = 0; j < m.cols(); ++j) for (int i = 0; i < m.rows(); ++i) o.push_back(m(i, j)); }
inline void set_rand(vt::Src& s, math::Quat<double>& q) { q = gen_quat(s); }
inline void set_rand(vt::Src& s, math::DQuat<double>& q) { q = math::DQuat<double>(gen_quat(s), Vec3(s.sym(10), s.sym(10), s.sym(10))); }
inline void set_rand(vt::Src& s, math::SO3<double>& q) { q = math::SO3<double>(Mat3(active(gen_quat(s)).cast<double>())); }
inline void set_rand(vt::Src& s, math::SE3<double>& q) { q = math::SE3<double>(Mat3(active(gen_quat(s)).cast<double>()), Vec3(s.sym(10), s.sym(10), s.sym(10))); }
template <int N>
inline void set_rand(vt::Src& s, Eigen::Matrix<double, N, 1>& v)
{
    const double m = s.pick({1.0, 1.0, 100.0});
    for (int i = 0; i < N; ++i) v(i) = s.sym(m);
}
template <typename T, typename = void>
struct IsVec : std::false_type {};
template <typename T>
struct IsVec<T, std::enable_if_t<std::is_base_of<Eigen::MatrixBase<T>, T>::value>> : std::true_type {};
// distance of an element from (element b moved by d), relative to its size
template <typename T>
inline double off(const T& got, const T& from, const VX& d)
{
    if constexpr (IsVec<T>::value)
    {
        double w = 0;
        for (int i = 0; i < (int)d.size(); ++i)
        {
            const ld ref = (ld)from(i) + (ld)d(i);
            const double e = (double)(fabsl(got(i) - ref) / (1e-300L + fabsl((ld)from(i)) + fabsl((ld)d(i))));
            w = e > w || !(e == e) ? e : w;
        }
        return w;
    }
    else
    {
        const M4 ref = mat_of(from) * exp_of(d), m = mat_of(got);
        const double r = (double)(m.topLeftCorner<3, 3>() - ref.topLeftCorner<3, 3>()).norm();
        const M4 fm = mat_of(from);
        const double t = (double)((m.topRightCorner<3, 1>() - ref.topRightCorner<3, 1>()).norm() / (1 + fm.topRightCorner<3, 1>().norm() + (ld)d.norm()));
        return std::max(r, t);
    }
}
// ---- sizes
struct Counts
{
    int n[8] = {0};
    int at[16] = {0};  // where each state starts in the dense vector
    int total = 0;
    void lay()
    {
        total = 0;
        for (int i = 0; i < NST; ++i) at[i] = total, total += dim(i);
    }
    int owner(int i) const { int k = NST - 1; while (k > 0 && at[k] > i) --k; return k; }
    int count(int i) const { return ST[i].vi < 0 ? 1 : n[ST[i].vi]; }
    int dim(int i) const { return ST[i].dx * count(i); }
};
inline Counts gen_counts(vt::Src& s)
{
    Counts c;
    for (int i = 0; i < NST; ++i)
        if (ST[i].vi >= 0) c.n[ST[i].vi] = s.weighted({1, 1, 3}) == 2 ? s.irange(0, ST[i].max) : (s.flip() ? ST[i].max : 0);
    c.lay();
    return c;
}
inline int input_dim() { int k = 0; for (int i = 0; i < NIN; ++i) k += IN[i].dx; return k; }
inline int input_at(int k) { int a = 0; for (int i = 0; i < k; ++i) a += IN[i].dx; return a; }
// ---- generated values
inline State gen_state(vt::Src& s, const Counts& c)
{
    State x;
    each(x, [&](int k, int i, auto& e) { if (i < c.count(k)) set_rand(s, e); });
    set_counts(x, c.n);
    x.t = UTCTime(s.range(0, 2000000000), s.range(0, 999999999));
    return x;
}
inline VX gen_vec(vt::Src& s, int n, double m)
{
    VX v(n);
    for (int i = 0; i < n; ++i) v(i) = s.chance(0.15) ? 0.0 : s.sym(m);
    return v;
}
inline MX gen_mat(vt::Src& s, int r, int c, double m)
{
    MX v(r, c);
    // the choices of a matrix are made by one draw, so that failures shrink quickly
    vt::u64 q = s.draw(~0ull >> 1);
    const bool zero = q == 0;
    for (int j = 0; j < c; ++j)
        for (int i = 0; i < r; ++i)
        {
            q = vt::mix(q);
            v(i, j) = zero ? (i == j) * m : ((double)(q >> 11) / 9007199254740992.0 * 2 - 1) * m * (q % 11 == 0 ? 0 : 1);
        }
    return v;
}
inline MX gen_psd(vt::Src& s, int n)
{
    if (n == 0) return MX(0, 0);
    const int rank = s.weighted({3, 1}) == 0 ? n + 2 : s.irange(1, n);
    const MX a = gen_mat(s, n, rank, 1);
    MX p = a * a.transpose();
    for (int i = 0; i < n; ++i)
        for (int j = 0; j < i; ++j) p(i, j) = p(j, i);
    return p * s.pick({1.0, 1.0, 1e-4, 1e4});
}
// ---- dense views, laid out by the description
inline MX dense(const Covariance& cc, const Counts& c)
{
    Covariance& v = const_cast<Covariance&>(cc);
    MX m = MX::Zero(c.total, c.total);
    each(v, c.n, [&](int i, int j, auto&& b) {
        VT_REQ(b.rows() == c.dim(i) && b.cols() == c.dim(j), "covariance block %s %s is %dx%d", ST[i].name, ST[j].name, (int)b.rows(), (int)b.cols());
        m.block(c.at[i], c.at[j], c.dim(i), c.dim(j)) = b;
        if (i != j) m.block(c.at[j], c.at[i], c.dim(j), c.dim(i)) = MX(b).transpose();
    });
    return m;
}
inline void fill(Covariance& v, const Counts& c, const MX& m)
{
    each(v, c.n, [&](int i, int j, auto&& b) { b = m.block(c.at[i], c.at[j], c.dim(i), c.dim(j)); });
}
inline VX dense(const Err& e, const Counts& c)
{
    VX d = VX::Zero(c.total);
    each(const_cast<Err&>(e), [&](int k, int i, auto&& b) { if (i < c.count(k)) d.segment(c.at[k] + i * ST[k].dx, ST[k].dx) = b; });
    return d;
}
inline Err sparse(const Counts& c, const VX& d, double rest = 0)
{
    Err e = Err::Zero();
    each(e, [&](int k, int i, auto&& b) {
        if (i < c.count(k)) b = d.segment(c.at[k] + i * ST[k].dx, ST[k].dx);
        else b.setConstant(rest);
    });
    return e;
}
inline VX full(const Input& u)
{
    VX d(input_dim());
    each(const_cast<Input&>(u), [&](int k, int, auto& b) { d.segment(input_at(k), IN[k].dx) = b; });
    return d;
}
inline Input gen_input(vt::Src& s)
{
    Input u;
    each(u, [&](int, int, auto& b) { set_rand(s, b); });
    return u;
}
inline bool same_raw(const State& a, const State& b, const Counts& c)
{
    std::vector<double> ra, rb;
    each(const_cast<State&>(a), [&](int k, int i, auto& e) { if (i < c.count(k)) raw(e, ra); });
    each(const_cast<State&>(b), [&](int k, int i, auto& e) { if (i < c.count(k)) raw(e, rb); });
    int na[8] = {0}, nb[8] = {0};
    get_counts(a, na), get_counts(b, nb);
    return ra.size() == rb.size() && memcmp(ra.data(), rb.data(), ra.size() * 8) == 0 && memcmp(na, nb, sizeof na) == 0 && a.t.sec == b.t.sec && a.t.nsec == b.t.nsec;
}
inline bool same_bits(const MX& a, const MX& b)
{
    if (a.rows() != b.rows() || a.cols() != b.cols()) return false;
    return a.size() == 0 || memcmp(a.data(), b.data(), a.size() * 8) == 0;
}
// largest relative difference of the elements of x from those of `from` moved by d
inline void require_moved(const State& x, const State& from, const VX& d, const Counts& c, double tol, const char* what)
{
    int n[8] = {0};
    get_counts(x, n);
    for (int i = 0; i < NV; ++i) VT_REQ(n[i] == c.n[i], "%s: %d elements of variable state %d, not %d", what, n[i], i, c.n[i]);
    // walk both states together
    each(const_cast<State&>(x), [&](int k, int i, auto& e) {
        if (i >= c.count(k)) return;
        using T = std::decay_t<decltype(e)>;
        each(const_cast<State&>(from), [&](int k2, int i2, auto& f) {
            using F = std::decay_t<decltype(f)>;
            if constexpr (std::is_same_v<T, F>)
                if (k2 == k && i2 == i)
                {
                    const VX di = d.segment(c.at[k] + i * ST[k].dx, ST[k].dx);
                    const double w = off<T>(e, f, di);
                    VT_REQ(w <= tol, "%s: %s[%d] is off by %.3g (relative), step %.3g", what, ST[k].name, i, w, di.norm());
                }
        });
    });
}
inline MX abs(const MX& m) { return m.cwiseAbs(); }
// a set of stored numbers that must not matter
struct Dirt
{
    double v;
};
}  // namespace fg
