// rotations and rigid transforms: generators biased to the branch points, long-double references
#pragma once
#include <Eigen/Dense>
#include "common/math/dquat.h"
#include "common/math/quat.h"
#include "common/math/se3.h"
#include "common/math/so3.h"
#include "vt.h"
namespace lie {
using namespace mc;
using ld = long double;
using V3 = Eigen::Matrix<ld, 3, 1>;
using V6 = Eigen::Matrix<ld, 6, 1>;
using M3 = Eigen::Matrix<ld, 3, 3>;
using M4 = Eigen::Matrix<ld, 4, 4>;
using M6 = Eigen::Matrix<ld, 6, 6>;
using Qd = math::Quat<double>;
using DQ = math::DQuat<double>;
using R3 = math::SO3<double>;
using T3 = math::SE3<double>;
inline const ld PIl = 3.14159265358979323846264338327950288L;
inline M3 skewl(const V3& v)
{
    M3 m;
    m << 0, -v(2), v(1), v(2), 0, -v(0), -v(1), v(0), 0;
    return m;
}
template <typename M>
inline M expm(M a)  // matrix exponential, scaling and squaring
{
    int k = 0;
    while (a.norm() > 0.5L) { a /= 2; ++k; }
    M r = M::Identity(), t = M::Identity();
    for (int i = 1; i < 30; ++i) { t = t * a / (ld)i; r += t; }
    while (k--) r = r * r;
    return r;
}
inline M3 rodrigues(const V3& w) { return expm<M3>(skewl(w)); }
inline M4 se3hat(const V6& x)
{
    M4 m = M4::Zero();
    m.topLeftCorner<3, 3>() = skewl(x.head<3>());
    m.topRightCorner<3, 1>() = x.tail<3>();
    return m;
}
inline M4 se3exp(const V6& x)  // linear in the translation part, so that a huge one costs no precision
{
    V6 y = x;
    const ld n = std::max((ld)1, x.tail<3>().norm());
    y.tail<3>() /= n;
    M4 m = expm<M4>(se3hat(y));
    m.topRightCorner<3, 1>() *= n;
    return m;
}
// left Jacobian of the exponential, sum of ad^n/(n+1)!
template <typename M>
inline M left_jac_series(const M& ad)
{
    M r = M::Identity(), t = M::Identity();
    for (int i = 1; i < 60; ++i) { t = t * ad / (ld)(i + 1); r += t; }
    return r;
}
inline M6 ad6(const V6& x)
{
    M6 m = M6::Zero();
    m.topLeftCorner<3, 3>() = m.bottomRightCorner<3, 3>() = skewl(x.head<3>());
    m.bottomLeftCorner<3, 3>() = skewl(x.tail<3>());
    return m;
}
inline M3 active(const Qd& q)  // the matrix of v -> q v q*
{
    const ld n = sqrtl((ld)q.w() * q.w() + (ld)q.x() * q.x() + (ld)q.y() * q.y() + (ld)q.z() * q.z());
    const ld w = q.w() / n;
    const V3 u((ld)q.x() / n, (ld)q.y() / n, (ld)q.z() / n);
    return M3::Identity() + 2 * w * skewl(u) + 2 * skewl(u) * skewl(u);
}
inline V3 up(const Vec3& v) { return v.cast<ld>(); }
inline V6 up6(const Vec6& v) { return v.cast<ld>(); }
inline Vec3 gen_axis(vt::Src& s)
{
    Vec3 a;
    switch (s.weighted({5, 2, 1}))
    {
    case 0: a = Vec3(s.gauss(), s.gauss(), s.gauss()); break;
    case 1: a = Vec3::Unit(s.irange(0, 2)) * (s.flip() ? 1 : -1); break;
    default: a = Vec3::Unit(s.irange(0, 2)) + 1e-7 * Vec3(s.sym(1), s.sym(1), s.sym(1)); break;
    }
    const double n = a.norm();
    return n > 0 ? Vec3(a / n) : Vec3(Vec3::UnitX());
}
// angle in [0, pi]
inline double gen_angle(vt::Src& s, bool to_pi = true)
{
    switch (s.weighted({6, 1, 2, 2, to_pi ? 2 : 0, to_pi ? 1 : 0}))
    {
    case 0: return s.real(0, to_pi ? M_PI : 3.0);
    case 1: return 0;
    case 2: return s.logu(1e-15, 1e-2);
    case 3: return s.pick({4e-6, 8e-6, 2e-3, 2e-4, 1e-4, 1e-8, 2e-8}) * (1 + s.sym(0.05));  // thresholds of series branches
    case 4: return M_PI - s.logu(1e-15, 1e-1);
    default: return M_PI;
    }
}
inline Vec3 gen_rotvec(vt::Src& s, bool to_pi = true)
{
    const double th = gen_angle(s, to_pi);
    return gen_axis(s) * th;
}
inline Qd quat_of(const Vec3& w, bool neg = false)
{
    const V3 wl = up(w);
    const ld th = wl.norm();
    const ld sc = th > 0 ? sinl(th / 2) / th : 0.5L;
    const ld sg = neg ? -1 : 1;
    return Qd((double)(sg * cosl(th / 2)), (double)(sg * sc * wl(0)), (double)(sg * sc * wl(1)), (double)(sg * sc * wl(2)));
}
inline Qd gen_quat(vt::Src& s, bool to_pi = true)
{
    const Vec3 w = gen_rotvec(s, to_pi);
    return quat_of(w, s.flip());
}
inline Vec3 gen_vec(vt::Src& s)
{
    const double m = s.weighted({3, 1, 1}) == 0 ? 1.0 : s.logu(1e-6, 1e7);
    return Vec3(s.sym(m), s.sym(m), s.sym(m));
}
inline const char* show(const Vec3& v)
{
    static thread_local char b[4][128];
    static thread_local int k = 0;
    k = (k + 1) % 4;
    snprintf(b[k], sizeof b[k], "[%.9g %.9g %.9g]", v.x(), v.y(), v.z());
    return b[k];
}
template <typename A, typename B>
inline double diff(const A& a, const B& b) { return (double)(a.template cast<ld>() - b.template cast<ld>()).norm(); }
}  // namespace lie
