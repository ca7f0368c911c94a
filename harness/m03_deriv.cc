// M03: derivatives of the group operations
#include "liegen.h"
#include "common/numerical_jacobian.h"
using namespace lie;
constexpr JacobianSide L = JacobianSide::LEFT, R = JacobianSide::RIGHT;
static double tolA(double th) { return 1e-13 + 4e-15 / std::max(th, 4e-6); }
static double tolD(double th) { return 1e-12 + 8e-15 / std::pow(std::max(th, 1e-4), 2); }
// a matrix near the half-turn holds the angle badly (see M01)
static double tolPi(double th)
{
    const double g = std::max(M_PI - th, 1e-5);
    return std::min(1e-15 / (g * g), 1e-6);
}
static void cmp3(const Mat3& J, const M3& ref, double tol, const char* what)
{
    const double e = diff(J, ref);
    VT_REQ(e <= tol, "%s is off by %g (allowed %g)", what, e, tol);
}
static void cmp6(const Mat6& J, const M6& ref, double th, double v, const char* what, double extra = 0)
{
    const M6 D = J.cast<ld>() - ref;
    const double d = (double)D.topLeftCorner<3, 3>().norm(), e = (double)D.bottomRightCorner<3, 3>().norm(), f = (double)D.bottomLeftCorner<3, 3>().norm();
    VT_REQ(std::max(d, e) <= tolA(th) + extra, "%s: rotation block off by %g", what, std::max(d, e));
    VT_REQ(f <= tolA(th) + (tolD(th) + extra) * (v + 1e-3), "%s: coupling block off by %g", what, f);
    const Mat3 corner = J.topRightCorner<3, 3>();
    VT_REQ(corner.isZero(0), "%s: corner", what);
}
static M6 inv6(const M6& m)  // block triangular
{
    const M3 a = m.topLeftCorner<3, 3>().inverse();
    M6 r = M6::Zero();
    r.topLeftCorner<3, 3>() = r.bottomRightCorner<3, 3>() = a;
    r.bottomLeftCorner<3, 3>() = -a * m.bottomLeftCorner<3, 3>() * a;
    return r;
}
static Vec6 cat(const Vec3& a, const Vec3& b) { return (Vec6() << a, b).finished(); }
VT_PROP(rotations, 30000, 600000)
{
    const Vec3 w = gen_rotvec(s);
    const double th = w.norm();
    s.note("w %s th %.17g", show(w), th);
    const M3 JL = left_jac_series<M3>(skewl(up(w))), JR = left_jac_series<M3>(-skewl(up(w)));
    Mat3 J;
    Qd::exp<L>(w, &J);
    cmp3(J, JL, tolA(th), "Quat exp, left");
    Qd::exp<R>(w, &J);
    cmp3(J, JR, tolA(th), "Quat exp, right");
    R3::exp(w, &J);
    cmp3(J, JL, tolA(th) + 1e-13 / std::max(th, 1e-3), "SO3 exp");
    for (bool neg : {false, true})
    {
        const Qd q = quat_of(w, neg);
        Vec3 l = q.log<L>(&J);
        cmp3(J, left_jac_series<M3>(skewl(up(l))).inverse(), tolA(th), "Quat log, left");
        l = q.log<R>(&J);
        cmp3(J, left_jac_series<M3>(-skewl(up(l))).inverse(), tolA(th), "Quat log, right");
        // parameters
        Eigen::Matrix<ld, 4, 3> P;
        for (int i = 0; i < 3; ++i)
        {
            const V3 d = V3::Unit(i) / 2, u(q.x(), q.y(), q.z());
            P(0, i) = -u.dot(d);
            P.block<3, 1>(1, i) = (ld)q.w() * d + u.cross(d);
        }
        VT_REQ(diff(q.dParamDGen(), P) < 1e-15, "dParamDGen");
        VT_REQ(diff(q.dGenDParam(), Eigen::Matrix<ld, 3, 4>(4 * P.transpose())) < 1e-14, "dGenDParam");
    }
    const R3 m(Mat3(rodrigues(up(w)).cast<double>()));
    const Vec3 l = m.log(&J);
    cmp3(J, left_jac_series<M3>(skewl(up(l))).inverse(), tolA(th) + 1e-13 / std::max(th, 1e-4) + tolPi(th) * 10, "SO3 log");
    if (th > 0) s.nontrivial();
    s.label(th < 4e-6 ? "tiny" : th < 2e-3 ? "small" : th > M_PI - 1e-3 ? "near half-turn" : "generic");
}
// matrices a rounding error away from the identity or from a tiny rotation
VT_PROP(nearly_identity, 3000, 60000)
{
    const Vec3 w = gen_axis(s) * s.logu(1e-16, 1e-3);
    const Qd a = gen_quat(s);
    const R3 m = (a.R() * R3::exp(w)) * a.R().inverse();
    Mat3 J;
    const Vec3 l = m.log(&J);
    VT_REQ(J.allFinite() && l.allFinite(), "SO3 log: not finite, trace %.17g", m.matrix().trace());
    cmp3(J, left_jac_series<M3>(skewl(up(l))).inverse(), 1e-9, "SO3 log");
    Mat6 K;
    const Vec6 l6 = T3(m, gen_vec(s)).log(&K);
    VT_REQ(K.allFinite() && l6.allFinite(), "SE3 log: not finite");
    s.nontrivial();
}
VT_PROP(transforms, 20000, 400000)
{
    const Vec3 w = gen_rotvec(s), v = gen_vec(s);
    const double th = w.norm(), vn = v.norm();
    const Vec6 x = cat(w, v);
    s.note("w %s v %s th %.17g", show(w), show(v), th);
    const M6 JL = left_jac_series<M6>(ad6(up6(x))), JR = left_jac_series<M6>(-ad6(up6(x)));
    Mat6 J;
    DQ::exp<L>(x, &J);
    cmp6(J, JL, th, vn, "DQuat exp, left");
    DQ::exp<R>(x, &J);
    cmp6(J, JR, th, vn, "DQuat exp, right");
    T3::exp(x, &J);
    cmp6(J, JL, th, vn, "SE3 exp", 1e-10 * (th < 1e-2));
    const M4 E = se3exp(up6(x));
    const Vec3 t(E(0, 3), E(1, 3), E(2, 3));
    for (bool neg : {false, true})
    {
        const DQ q(quat_of(w, neg), t);
        Vec6 l = q.log<L>(&J);
        cmp6(J, inv6(left_jac_series<M6>(ad6(up6(l)))), th, vn, "DQuat log, left");
        l = q.log<R>(&J);
        cmp6(J, inv6(left_jac_series<M6>(-ad6(up6(l)))), th, vn, "DQuat log, right");
        // d(q exp(x))/dx, by the definition of the product
        Eigen::Matrix<ld, 8, 6> P = Eigen::Matrix<ld, 8, 6>::Zero();
        auto col = [](const Qd& a, int i) {
            const V3 d = V3::Unit(i) / 2, u(a.x(), a.y(), a.z());
            Eigen::Matrix<ld, 4, 1> c;
            c << -u.dot(d), (ld)a.w() * d + u.cross(d);
            return c;
        };
        for (int i = 0; i < 3; ++i)
        {
            P.block<4, 1>(0, i) = P.block<4, 1>(4, 3 + i) = col(q.real(), i);
            P.block<4, 1>(4, i) = col(q.dual(), i);
        }
        const double sc = 1 + q.dual().norm();
        VT_REQ(diff(q.dParamDGen(), P) < 1e-15 * sc, "dParamDGen");
        const M6 prod = q.dGenDParam().cast<ld>() * q.dParamDGen().cast<ld>();
        VT_REQ(diff(prod.cast<double>(), M6(M6::Identity())) < 1e-14 * sc, "dGenDParam is not its inverse");
        VT_REQ(q.dGenDParam().topRightCorner(3, 4).isZero(0), "rotation depends on the dual part");
    }
    const T3 m(R3(Mat3(E.topLeftCorner<3, 3>().cast<double>())), t);
    const Vec6 l = m.log(&J);
    cmp6(J, inv6(left_jac_series<M6>(ad6(up6(l)))), th, vn, "SE3 log", 1e-10 * (th < 1e-2) + tolPi(th) * 10);
    if (th > 0) s.nontrivial();
    s.label(th < 4e-6 ? "tiny" : th < 2e-3 ? "small" : th > M_PI - 1e-3 ? "near half-turn" : "generic");
}
template <typename A, typename B>
static void near(const A& a, const B& b, const char* what)
{
    const double e = (a - b).norm(), sc = 1 + b.norm();
    VT_REQ(e <= 2e-6 * sc, "%s is off by %g", what, e);
}
// the numerical differentiation used to validate derivatives converges to the analytic ones, both sides
template <typename G, typename V>
static void group_ops(vt::Src& s, const G& x, const G& b, const V& xi, const char* name)
{
    auto inverse = [](const G& g) { return g.inverse(); };
    auto right_of = [&b](const G& g) { return G(g * b); };
    auto left_of = [&b](const G& g) { return G(b * g); };
    using M = Eigen::Matrix<double, G::DOF, G::DOF>;
    const M I = M::Identity();
    near(compute_jac<L>(x, inverse), M(-x.inverse().Ad()), name);
    near(compute_jac<R>(x, inverse), M(-x.Ad()), name);
    near(compute_jac<L>(x, right_of), I, name);
    near(compute_jac<R>(x, right_of), M(b.inverse().Ad()), name);
    near(compute_jac<L>(x, left_of), M(b.Ad()), name);
    near(compute_jac<R>(x, left_of), I, name);
    near(left_jac(x, left_of), M(b.Ad()), name);
    near(right_jac(x, right_of), M(b.inverse().Ad()), name);
    near(left_jac(x, [](const G& g, const G& h) { return G(h * g); }, b), M(b.Ad()), name);
    near(right_jac(x, [](const G& g, const G& h) { return G(g * h); }, b), M(b.inverse().Ad()), name);
    // log at x, away from the half-turn; exp at xi
    M J;
    x.log(&J);
    near(compute_jac<L>(x, [](const G& g) { return Eigen::Matrix<double, G::DOF, 1>(g.log()); }), J, name);
    near(left_jac2(x, [](const G& g) { return Eigen::Matrix<double, G::DOF, 1>(g.log()); }), J, name);
    G::exp(xi, &J);
    near(compute_jac<L>(xi, [](const V& y) { return G::exp(y); }), J, name);
    near(left_jac3(xi, [](const V& y) { return G::exp(y); }), J, name);
    // perturbation and difference
    const V d = xi * (s.real(0.1, 2.0) / std::max(1.0, xi.norm()));
    near(V(difference<L>(G(perturb<L>(x, d)), x)), d, "difference<left>(perturb<left>)");
    near(V(difference<R>(G(perturb<R>(x, d)), x)), d, "difference<right>(perturb<right>)");
    near(V(difference<L>(G(perturb<R>(x, d)), x)), V(x.Ad() * d), "left difference of a right perturbation");
}
VT_PROP(numerical, 1500, 30000)
{
    auto rot = [&] { return Vec3(gen_axis(s) * s.real(0.05, 2.5)); };
    auto vec = [&] { return Vec3(s.sym(2), s.sym(2), s.sym(2)); };
    const Qd q = quat_of(rot(), false), qb = quat_of(rot(), s.flip());
    group_ops<Qd, Vec3>(s, q, qb, rot(), "quaternion");
    group_ops<R3, Vec3>(s, q.R(), qb.R(), rot(), "rotation matrix");
    const DQ x(q, vec()), b(qb, vec());
    group_ops<DQ, Vec6>(s, x, b, cat(rot(), vec()), "dual quaternion");
    const T3 y(q.R(), vec()), c(qb.R(), vec());
    group_ops<T3, Vec6>(s, y, c, cat(rot(), vec()), "rigid transform");
    // right-hand exp/log
    Mat3 J;
    Mat6 K;
    const Vec3 w = rot();
    Qd::exp<R>(w, &J);
    near(compute_jac<R>(w, [](const Vec3& v) { return Qd::exp(v); }), J, "right exp");
    near(right_jac3(w, [](const Vec3& v) { return Qd::exp(v); }), J, "right exp");
    q.log<R>(&J);
    near(compute_jac<R>(q, [](const Qd& g) { return Vec3(g.log()); }), J, "right log");
    near(right_jac2(q, [](const Qd& g) { return Vec3(g.log()); }), J, "right log");
    x.log<R>(&K);
    near(compute_jac<R>(x, [](const DQ& g) { return Vec6(g.log()); }), K, "right log of a dual quaternion");
    // acting on vectors
    const Vec3 v = vec();
    const Mat3 A = q.R().matrix().transpose();
    near(compute_jac<L>(q, [&](const Qd& g) { return Vec3(g.rota(v)); }), Mat3(-skew(q.rota(v))), "rota, left");
    near(compute_jac<R>(q, [&](const Qd& g) { return Vec3(g.rota(v)); }), Mat3(-A * skew(v)), "rota, right");
    near(compute_jac<L>(q, [&](const Qd& g) { return Vec3(g.rotp(v)); }), Mat3(A.transpose() * skew(v)), "rotp, left");
    near(compute_jac<R>(q, [&](const Qd& g) { return Vec3(g.rotp(v)); }), Mat3(skew(q.rotp(v))), "rotp, right");
    near(right_jac2(q, [](const Qd& g, const Vec3& u) { return Vec3(g.rotp(u)); }, v), Mat3(skew(q.rotp(v))), "rotp, right");
    near(left_jac2(q, [](const Qd& g, const Vec3& u) { return Vec3(g.rota(u)); }, v), Mat3(-skew(q.rota(v))), "rota, left");
    Mat36 T;
    T << -skew(x.transforma(v)), Mat3::Identity();
    near(compute_jac<L>(x, [&](const DQ& g) { return Vec3(g.transforma(v)); }), T, "transforma, left");
    T << -A * skew(v), A;
    near(compute_jac<R>(x, [&](const DQ& g) { return Vec3(g.transforma(v)); }), T, "transforma, right");
    T << skew(x.transformp(v)), -Mat3::Identity();
    near(compute_jac<R>(x, [&](const DQ& g) { return Vec3(g.transformp(v)); }), T, "transformp, right");
    // Euclidean arguments
    const Mat3 B = Mat3(q.R().matrix()) * 2;
    near(compute_jac(v, [&](const Vec3& u) { return Vec3(B * u); }), B, "linear map");
    near(Vec3(difference<L>(Vec3(perturb<R>(v, w)), v)), w, "Euclidean difference");
    s.nontrivial();
}
