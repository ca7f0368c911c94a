// X02: matrix helpers and numerical derivatives are what their names say
#include "liegen.h"
#include <Eigen/LU>
#include "common/defs.h"
#include "common/matrix_defs.h"
#include "common/numerical_jacobian.h"
using namespace lie;
constexpr JacobianSide L = JacobianSide::LEFT, R = JacobianSide::RIGHT;

static double any_number(vt::Src& s)
{
    switch (s.weighted({6, 1, 1, 1}))
    {
    case 0: return s.sym(10);
    case 1: return s.pick({0.0, -0.0, 1.0, -1.0, 1e308, -1e308, 5e-324});
    case 2: return s.sym(1) * s.logu(1e-300, 1e300);
    default: return s.irange(-5, 5);
    }
}
static MatX any_matrix(vt::Src& s, int r, int c)
{
    MatX m(r, c);
    for (int i = 0; i < r; ++i)
        for (int j = 0; j < c; ++j) m(i, j) = any_number(s);
    return m;
}

VT_PROP(stacking, 20000, 400000)
{
    const int r = s.irange(1, 7), c = s.irange(1, 7), r2 = s.irange(1, 7), c2 = s.irange(1, 7);
    const MatX a = any_matrix(s, r, c), b = any_matrix(s, r, c2), d = any_matrix(s, r2, c);
    const MatX h = hstack(a, b), v = vstack(a, d);
    VT_REQ(h.rows() == r && h.cols() == c + c2, "%dx%d beside %dx%d is %dx%d", r, c, r, c2, (int)h.rows(), (int)h.cols());
    VT_REQ(v.rows() == r + r2 && v.cols() == c, "%dx%d above %dx%d is %dx%d", r, c, r2, c, (int)v.rows(), (int)v.cols());
    for (int i = 0; i < r; ++i)
        for (int j = 0; j < c + c2; ++j) VT_REQ(h(i, j) == (j < c ? a(i, j) : b(i, j - c)), "side by side: (%d, %d)", i, j);
    for (int i = 0; i < r + r2; ++i)
        for (int j = 0; j < c; ++j) VT_REQ(v(i, j) == (i < r ? a(i, j) : d(i - r, j)), "one above the other: (%d, %d)", i, j);
    const int vc = s.irange(0, 5), hc = s.irange(0, 5);
    const MatX t = tile(a, vc, hc);
    VT_REQ(t.rows() == r * vc && t.cols() == c * hc, "%d by %d copies of %dx%d are %dx%d", vc, hc, r, c, (int)t.rows(), (int)t.cols());
    for (int i = 0; i < t.rows(); ++i)
        for (int j = 0; j < t.cols(); ++j) VT_REQ(t(i, j) == a(i % r, j % c), "copies: (%d, %d)", i, j);
    if (r != c && vc != hc && vc * hc > 0) s.nontrivial();
}

VT_PROP(skew_symmetric, 20000, 400000)
{
    const Vec3 a = gen_vec(s), b = gen_vec(s);
    const Mat3 m = skew(a);
    VT_REQ(Mat3(m + m.transpose()).isZero(0), "not skew");
    const V3 x = up(a), y = up(b);
    const V3 want(x(1) * y(2) - x(2) * y(1), x(2) * y(0) - x(0) * y(2), x(0) * y(1) - x(1) * y(0));
    VT_REQ(diff(Vec3(m * b), want) <= 4e-16 * a.norm() * b.norm(), "the product is off by %g", diff(Vec3(m * b), want));
    const VecX dyn = a;
    VT_REQ(skew(dyn) == m && skew(Vec6(Vec6::Zero() + (Vec6() << b, a).finished()).tail<3>()) == m, "another kind of vector");
    const Eigen::Vector3f f = a.cast<float>();
    VT_REQ(skew(f) == Mat3(skew(Vec3(f.cast<double>()))).cast<float>(), "single precision");
    s.nontrivial();
}

VT_PROP(finite_and_nan, 20000, 400000)
{
    const int r = s.irange(1, 6), c = s.irange(1, 6);
    MatX m = any_matrix(s, r, c);
    VT_REQ(isFinite(m) && !isNan(m), "ordinary numbers");
    bool inf = false, nan = false;
    for (int k = s.irange(0, 2); k > 0; --k)
    {
        double& x = m(s.irange(0, r - 1), s.irange(0, c - 1));
        x = s.pick({HUGE_VAL, -HUGE_VAL, (double)NAN, -(double)NAN});
    }
    for (int i = 0; i < m.size(); ++i)
    {
        inf |= std::isinf(m.data()[i]);
        nan |= std::isnan(m.data()[i]);
    }
    VT_REQ(isFinite(m) == (!inf && !nan), "isFinite with%s%s", inf ? " an infinity" : "", nan ? " a NaN" : "");
    VT_REQ(isNan(m) == nan, "isNan with%s%s", inf ? " an infinity" : "", nan ? " a NaN" : "");
    VT_REQ(isFinite(m.transpose()) == isFinite(m) && isNan(m.block(0, 0, r, c)) == isNan(m), "of an expression");
    Vec6 d = any_matrix(s, 6, 1);
    if (s.chance(0.2)) d.setConstant(s.flip() ? 1e308 : -1e308);   // finite, though their sum is not
    const int at = s.irange(0, 5);
    const bool bad = s.flip();
    if (bad) d(at) = s.pick({HUGE_VAL, (double)NAN});
    VT_REQ(isFinite(DiagMat<6>(d)) == !bad, "a diagonal matrix");
    if (inf || nan) s.nontrivial();
}

VT_PROP(scalars, 20000, 400000)
{
    const double x = any_number(s), y = any_number(s);
    const double lo = std::min(x, y), hi = std::max(x, y), z = s.weighted({3, 1, 1}) == 0 ? any_number(s) : s.pick({lo, hi});
    VT_REQ(sat(z, lo, hi) == (z < lo ? lo : z > hi ? hi : z), "%g limited to %g .. %g is %g", z, lo, hi, sat(z, lo, hi));
    const long double deg = (long double)x * 180 / PIl, rad = (long double)x * PIl / 180;
    if (std::fabs(x) < 1e300) VT_REQ(std::fabs(rad2Deg(x) - deg) <= 1e-15L * std::fabs(deg) + 1e-320L && std::fabs(deg2Rad(x) - rad) <= 1e-15L * std::fabs(rad) + 1e-320L, "degrees and radians of %g", x);
    if (z < lo || z > hi) s.nontrivial();
}

// ---------------------------------------------------------------- numerical derivatives
template <typename G>
static G gen_group(vt::Src& s, double scale)
{
    const Vec3 w = gen_rotvec(s, false);
    if constexpr (G::DOF == 3) return G::exp(w);
    else
    {
        Vec6 x;
        x << w, scale * Vec3(s.sym(1), s.sym(1), s.sym(1));
        return G::exp(x);
    }
}
// g exp(d) = exp(Ad d) g, exactly, for a d that log can give back
template <typename G>
static Eigen::Matrix<double, G::DOF, G::DOF> adjoint(const G& g)
{
    Eigen::Matrix<double, G::DOF, G::DOF> a;
    for (int i = 0; i < G::DOF; ++i) a.col(i) = (g * G::exp(Eigen::Matrix<double, G::DOF, 1>::Unit(i)) * g.inverse()).log();
    return a;
}
template <int A, int B>
static Mat<A, B> coefficients(vt::Src& s)
{
    Mat<A, B> m;
    for (int i = 0; i < A; ++i)
        for (int j = 0; j < B; ++j) m(i, j) = s.weighted({1, 4}) == 0 ? 0 : s.sym(3);
    return m;
}
static void near(const MatX& got, const MatX& want, double tol, const char* what)
{
    VT_REQ(got.rows() == want.rows() && got.cols() == want.cols(), "%s is %dx%d, not %dx%d", what, (int)got.rows(), (int)got.cols(), (int)want.rows(), (int)want.cols());
    const double e = (got - want).cwiseAbs().maxCoeff();
    VT_REQ(e <= tol, "%s is off by %g (allowed %g)", what, e, tol);
}
template <typename G>
static void group_derivatives(vt::Src& s)
{
    constexpr int N = G::DOF;
    using V = Eigen::Matrix<double, N, 1>;
    const double far = N == 3 ? 0 : s.logu(1e-2, 1e2);
    const G x = gen_group<G>(s, far), g = gen_group<G>(s, far);
    const Mat<N, N> I = Mat<N, N>::Identity(), Adg = adjoint(g), Adx = adjoint(x);
    // numbers of size far differ by their rounding, divided by twice the step of 1e-8
    const double tol = 1e-6 * (1 + far) * (1 + far);
    // from the group to itself
    const auto id = [](const G& a) -> G { return a; };
    const auto pre = [&](const G& a) -> G { return g * a; };
    const auto post = [&](const G& a) -> G { return a * g; };
    const auto inv = [](const G& a) -> G { return a.inverse(); };
    near(left_jac(x, id), I, tol, "left_jac of the identity");
    near(right_jac(x, id), I, tol, "right_jac of the identity");
    near(left_jac(x, pre), Adg, tol, "left_jac of g x");
    near(right_jac(x, pre), I, tol, "right_jac of g x");
    near(left_jac(x, post), I, tol, "left_jac of x g");
    near(right_jac(x, post), adjoint(G(g.inverse())), tol, "right_jac of x g");
    near(left_jac(x, inv), -adjoint(G(x.inverse())), tol, "left_jac of the inverse");
    near(right_jac(x, inv), -Adx, tol, "right_jac of the inverse");
    near(left_jac(x, [](const G& a, const G& b) -> G { return b * a; }, g), Adg, tol, "left_jac with an argument");
    near(right_jac(x, [](const G& a, const G& b) -> G { return a * b; }, g), adjoint(G(g.inverse())), tol, "right_jac with an argument");
    // the general form, with a step of any size: both sides of these are linear in it
    const double eps = s.logu(1e-8, 1e-3), tole = tol * 1e-8 / eps + 1e-11 * (1 + far) * (1 + far) * (1 + far);
    near(compute_jac<L>(x, pre, eps), Adg, tole, "compute_jac<LEFT> of g x");
    near(compute_jac<R>(x, pre, eps), I, tole, "compute_jac<RIGHT> of g x");
    near(compute_jac<L>(x, inv, eps), -adjoint(G(x.inverse())), tole, "compute_jac<LEFT> of the inverse");
    near(compute_jac<R>(x, inv, eps), -Adx, tole, "compute_jac<RIGHT> of the inverse");
    near(compute_jac(x, inv), -adjoint(G(x.inverse())), tol, "compute_jac of the inverse");
    // from the group to vectors; the terms of second order cancel
    const Mat<5, N> A = coefficients<5, N>(s), C = coefficients<5, N>(s);
    const Vec5 b = Vec5(s.sym(1), s.sym(1), s.sym(1), s.sym(1), s.sym(1));
    const auto lf = [&](const G& a) -> Vec5 { const V d = (a * x.inverse()).log(); return b + A * d + C * d.cwiseProduct(d); };
    const auto rf = [&](const G& a) -> Vec5 { const V d = (x.inverse() * a).log(); return b + A * d + C * d.cwiseProduct(d); };
    near(left_jac2(x, lf), A, 30 * tol, "left_jac2");
    near(right_jac2(x, rf), A, 30 * tol, "right_jac2");
    near(compute_jac<L>(x, lf), A, 30 * tol, "compute_jac<LEFT> to a vector");
    near(compute_jac<R>(x, rf), A, 30 * tol, "compute_jac<RIGHT> to a vector");
    near(right_jac2(x, lf), A * Adx, 90 * tol * (1 + far), "right_jac2 across");
    near(left_jac2(x, rf), A * adjoint(G(x.inverse())), 90 * tol * (1 + far), "left_jac2 across");
    // from vectors to the group
    const Mat<N, 4> B = coefficients<N, 4>(s);
    const Vec4 v(s.sym(2), s.sym(2), s.sym(2), s.sym(2));
    const auto vf = [&](const Vec4& y) -> G { return x * G::exp(V(B * (y - v))); };
    near(right_jac3(v, vf), B, 10 * tol, "right_jac3");
    near(left_jac3(v, vf), Adx * B, 30 * tol * (1 + far), "left_jac3");
    near(compute_jac<R>(v, vf), B, 10 * tol, "compute_jac<RIGHT> from a vector");
    near(compute_jac<L>(v, vf), Adx * B, 30 * tol * (1 + far), "compute_jac<LEFT> from a vector");
    // steps and differences
    V d;
    for (int i = 0; i < N; ++i) d(i) = s.sym(1);
    near(difference<L>(G(perturb<L>(x, d)), x), d, 1e-9 * (1 + far) * (1 + far), "a step to the left");
    near(difference<R>(G(perturb<R>(x, d)), x), d, 1e-9 * (1 + far) * (1 + far), "a step to the right");
    near(difference<L>(G(perturb<R>(x, d)), x), Adx * d, 1e-9 * (1 + far) * (1 + far), "a step to the right, seen from the left");
    if (d.norm() > 0 && A.norm() > 0 && B.norm() > 0) s.nontrivial();
}
VT_PROP(derivatives_quat, 1500, 30000) { group_derivatives<Qd>(s); }
VT_PROP(derivatives_dquat, 1500, 30000) { group_derivatives<DQ>(s); }
VT_PROP(derivatives_so3, 1500, 30000) { group_derivatives<R3>(s); }
VT_PROP(derivatives_se3, 1500, 30000) { group_derivatives<T3>(s); }

VT_PROP(derivatives_vector, 4000, 80000)
{
    const Mat<4, 6> A = coefficients<4, 6>(s), C = coefficients<4, 6>(s);
    Vec6 x;
    for (int i = 0; i < 6; ++i) x(i) = s.sym(5);
    const double eps = s.logu(1e-8, 1e-2);
    const auto f = [&](const Vec6& y) -> Vec4 { return A * y + C * y.cwiseProduct(y); };
    const Mat<4, 6> want = A + 2 * C * x.asDiagonal();   // exact for a polynomial of second order
    const double tol = 3e-13 / eps + 1e-12;
    near(compute_jac<L>(x, f, eps), want, tol, "compute_jac<LEFT>");
    near(compute_jac<R>(x, f, eps), want, tol, "compute_jac<RIGHT>");
    near(compute_jac(x, f), want, 3e-5, "compute_jac");
    const Vec6 y = x + Vec6::Constant(s.sym(1));
    near(difference<L>(y, x), y - x, 0, "difference");
    near(perturb<R>(x, y), x + y, 0, "perturb");
    if (want.norm() > 0) s.nontrivial();
}
