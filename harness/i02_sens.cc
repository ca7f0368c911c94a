// I02: sensitivities, covariance and bias correction of the inertial factor
#include <memory>
#include "imugen.h"
using namespace mc::models;
using V4 = Eigen::Matrix<ld, 4, 1>;
static V4 qmul(const V4& a, const V4& b)
{
    V4 o;
    o << a(0) * b(0) - a(1) * b(1) - a(2) * b(2) - a(3) * b(3), a(0) * b(1) + a(1) * b(0) + a(2) * b(3) - a(3) * b(2),
        a(0) * b(2) - a(1) * b(3) + a(2) * b(0) + a(3) * b(1), a(0) * b(3) + a(1) * b(2) - a(2) * b(1) + a(3) * b(0);
    return o;
}
static V4 pure(const V3& v) { V4 o; o << 0, v; return o; }
static M3 rotm(const V4& q)
{
    const V3 u = q.tail<3>();
    return M3::Identity() + 2 * q(0) * skewl(u) + 2 * skewl(u) * skewl(u);
}
static V3 logm(const M3& R)  // principal, away from the half-turn
{
    const V3 v(R(2, 1) - R(1, 2), R(0, 2) - R(2, 0), R(1, 0) - R(0, 1));
    const ld sn = v.norm() / 2, cs = (R.trace() - 1) / 2, th = atan2l(sn, cs);
    if (sn < 1e-12L) return v / 2;
    return v * (th / (2 * sn));
}
struct Par  // parameters, as rotation and translation
{
    V4 q0, q1;
    V3 p0, p1, v0, v1;
    Eigen::Matrix<ld, 6, 1> b;
};
static V4 q4(const Qd& q) { V4 o(q.w(), q.x(), q.y(), q.z()); return o / o.norm(); }
static V3 transl(const DQ& x) { return 2 * qmul(V4(x.dual().arr_.cast<ld>()), V4(x.real().w(), -x.real().x(), -x.real().y(), -x.real().z())).tail<3>(); }
// the documented residual: first-order correction of the motion for the change of bias
static V9 residual(const Par& p, const Pre& pre, const M96& J, const Vec6& b0, V3* rot_err = nullptr)
{
    const V9 adj = J * (p.b - b0.cast<ld>());
    const M3 R0 = rotm(p.q0), R1 = rotm(p.q1), G = pre.G * rodrigues(V3(adj.tail<3>()));
    V9 r;
    r.segment<3>(0) = R0.transpose() * (p.p1 - p.p0 - GRAV * pre.T * pre.T / 2) - p.v0 * pre.T - (pre.a + adj.head<3>());
    r.segment<3>(3) = G * p.v1 - p.v0 - R0.transpose() * GRAV * pre.T - (pre.b + adj.segment<3>(3));
    r.segment<3>(6) = logm(M3(G.transpose() * R0.transpose() * R1));
    return r;
}
struct Setup
{
    ImuCase c;
    DQ x0, x1;
    Vec3 v0, v1;
    Vec6 b;
    Par par() const { Par p; p.q0 = q4(x0.real()); p.q1 = q4(x1.real()); p.p0 = transl(x0); p.p1 = transl(x1); p.v0 = up(v0); p.v1 = up(v1); p.b = b.cast<ld>(); return p; }
};
static Setup gen_setup(vt::Src& s, const ImuModel& m, const ImuCase& c)
{
    Setup u;
    u.c = c;
    const double pm = s.pick({1.0, 10.0, 1000.0});
    u.x0 = DQ(gen_quat(s), Vec3(s.sym(pm), s.sym(pm), s.sym(pm)));
    const double vm = s.pick({0.0, 1.0, 30.0});
    u.v0 = Vec3(s.sym(vm), s.sym(vm), s.sym(vm));
    const double bm = s.pick({0.0, 0.1, 1.0});
    for (int i = 0; i < 6; ++i) u.b(i) = c.bias(i) + bm * s.sym(i < 3 ? 0.3 : 0.05);
    DQ e;
    Vec3 ve;
    m.computeEndState(u.x0, u.v0, Out(e), Out(ve));
    const double am = s.pick({0.0, 1e-6, 0.1, 2.5});
    const Qd q = e.real() * quat_of(gen_axis(s) * am * s.unit(), s.flip());
    const double dm = s.pick({0.0, 0.1, 10.0});
    u.x1 = DQ(q, Vec3(e.translation() + dm * Vec3(s.sym(1), s.sym(1), s.sym(1))));
    u.v1 = ve + dm * Vec3(s.sym(1), s.sym(1), s.sym(1));
    return u;
}
VT_PROP(derivatives, 500, 15000)
{
    const ImuCase c = gen_imu(s, 2, 25);
    const ImuModel m = build_model(c.z, c.bias, c.R);
    const Setup u = gen_setup(s, m, c);
    Pre pre = preintegrate(c.z, c.bias, c.R, false);
    const M96 J = m.dStatedBias().cast<ld>();
    const Par p = u.par();
    const double sc = 1 + (double)(p.p1 - p.p0).norm() + (double)p.p0.norm() + (u.v0.norm() + u.v1.norm() + 10) * (1 + (double)c.T());
    const V9 ref = residual(p, pre, J, c.bias);
    if ((double)ref.tail<3>().norm() > 3.0) s.discard();
    s.note("T %.3g rot err %.3g bias change %.3g", (double)c.T(), (double)ref.tail<3>().norm(), (u.b - c.bias).norm());
    if (c.wmax > 0 && (double)ref.tail<3>().norm() > 1e-8) s.nontrivial();
    double res[9], j0[72], j1[72], j2[27], j3[27], j4[54];
    const double* par[] = {u.x0.data(), u.x1.data(), u.v0.data(), u.v1.data(), u.b.data()};
    double* jac[] = {j0, j1, j2, j3, j4};
    // any subset of the derivatives may be asked for
    double* want[5];
    const int mask = s.chance(0.5) ? 31 : (int)s.draw(31);
    for (double& x : j0) x = NAN;
    for (double& x : j1) x = NAN;
    for (double& x : j2) x = NAN;
    for (double& x : j3) x = NAN;
    for (double& x : j4) x = NAN;
    for (int i = 0; i < 5; ++i) want[i] = (mask >> i) & 1 ? jac[i] : nullptr;
    VT_REQ(m.Evaluate(par, res, mask ? want : nullptr), "Evaluate fails");
    for (int i = 0; i < 9; ++i) VT_REQ(std::abs(res[i] - (double)ref(i)) < 1e-9 * sc, "residual %d is %.12g, should be %.12g", i, res[i], (double)ref(i));
    const ld h = 1e-6L;
    auto der = [&](const std::function<void(Par&, ld)>& f) {
        Par a = p, b = p;
        f(a, h);
        f(b, -h);
        return V9((residual(a, pre, J, c.bias) - residual(b, pre, J, c.bias)) / (2 * h));
    };
    auto cmp = [&](const V9& want_, const V9& got, double k, const char* what, int i) {
        const double d = (double)(want_ - got).norm();
        VT_REQ(d < 1e-7 * k, "derivative with respect to %s %d is off by %g", what, i, d);
    };
    for (int e = 0; e < 2; ++e)  // the start and the end pose, moved along the manifold of rigid transforms
    {
        if (!want[e]) continue;
        const Eigen::Matrix<ld, 9, 8> Jm = Eigen::Map<Eigen::Matrix<double, 9, 8, Eigen::RowMajor>>(jac[e]).cast<ld>();
        const V4 q = e ? p.q1 : p.q0;
        const V3 t = e ? p.p1 : p.p0;
        for (int i = 0; i < 6; ++i)
        {
            Eigen::Matrix<ld, 8, 1> dx;
            V9 d;
            if (i < 3)
            {
                const V3 w = V3::Unit(i);
                const V4 dq = qmul(q, pure(w)) / 2;
                dx << dq, qmul(pure(t), dq) / 2;
                d = der([&](Par& a, ld k) { V4& y = e ? a.q1 : a.q0; const V3 x = w * k / 2; V4 g; g << cosl(x.norm()), x * (sinl(x.norm()) / x.norm()); y = qmul(q, g); });
            }
            else
            {
                const V3 w = V3::Unit(i - 3);
                dx << V4::Zero(), qmul(pure(w), q) / 2;
                d = der([&](Par& a, ld k) { (e ? a.p1 : a.p0) += k * w; });
            }
            cmp(d, V9(Jm * dx), sc, e ? "end pose, direction" : "start pose, direction", i);
        }
    }
    for (int e = 0; e < 2; ++e)
        if (want[2 + e])
            for (int i = 0; i < 3; ++i)
                cmp(der([&](Par& a, ld k) { (e ? a.v1 : a.v0)(i) += k; }), V9(Eigen::Map<Eigen::Matrix<double, 9, 3, Eigen::RowMajor>>(jac[2 + e]).col(i).cast<ld>()), sc, e ? "end velocity" : "start velocity", i);
    if (want[4])
        for (int i = 0; i < 6; ++i)
            cmp(der([&](Par& a, ld k) { a.b(i) += k; }), V9(Eigen::Map<Eigen::Matrix<double, 9, 6, Eigen::RowMajor>>(j4).col(i).cast<ld>()), sc, "bias", i);
}
static double mineig(const Mat9& P)
{
    // scaled to a unit diagonal
    Eigen::Matrix<double, 9, 9> n = P;
    Eigen::Matrix<double, 9, 1> d;
    for (int i = 0; i < 9; ++i) d(i) = P(i, i) > 0 ? 1 / std::sqrt(P(i, i)) : 0;
    n = d.asDiagonal() * n * d.asDiagonal();
    return Eigen::SelfAdjointEigenSolver<Eigen::MatrixXd>(Eigen::MatrixXd(0.5 * (n + n.transpose()))).eigenvalues().minCoeff();
}
VT_PROP(covariance, 400, 10000)
{
    const ImuCase c = gen_imu(s, 3, 40);
    if (c.wmax > 0) s.nontrivial();
    ImuModel m(c.z[0], c.bias, c.R);
    VT_REQ(m.covariance().isZero(0), "covariance of an empty interval is not zero");
    double tr = 0;
    for (size_t i = 1; i < c.z.size(); ++i)
    {
        const Mat9 before = m.covariance();
        m.integrate(c.z[i]);
        const Mat9& P = m.covariance();
        const double n = P.norm();
        VT_REQ((P - P.transpose()).norm() <= 1e-13 * n, "covariance not symmetric after %zu samples", i);
        VT_REQ(mineig(P) > -1e-12, "covariance not positive semi-definite after %zu samples", i);
        // uncertainty of velocity and attitude along the way only accumulates
        const double ta = P.bottomRightCorner(3, 3).trace(), tb = before.bottomRightCorner(3, 3).trace();
        VT_REQ(ta >= tb * (1 - 1e-12), "attitude uncertainty shrinks");
        if (i % 7 == 3 || i + 1 == c.z.size())
        {
            const Pre p = preintegrate(std::vector<meas::ImuSample>(c.z.begin(), c.z.begin() + i + 1), c.bias, c.R);
            VT_REQ((double)(P.cast<ld>() - p.P).norm() <= 1e-10 * (double)p.P.norm(), "covariance is off by %g of %g after %zu samples", (double)(P.cast<ld>() - p.P).norm(), (double)p.P.norm(), i);
            VT_REQ((double)(m.dStatedBias().cast<ld>() - p.J).norm() <= 1e-10 * (double)p.J.norm(), "bias sensitivity is off after %zu samples", i);
        }
        tr = P.trace();
    }
    s.note("%zu samples, trace %g", c.z.size(), tr);
}
// the square root of the information: Xi' Xi is the inverse of the covariance
VT_PROP(information, 200, 5000)
{
    ImuCase c = gen_imu(s, 4, 40);
    for (int i = 0; i < 6; ++i) c.R(i) = s.logu(1e-4, 1);
    ImuModel m = build_model(c.z, c.bias, c.R);
    const Error e = m.finished();
    VT_REQ(e.ok(), "finished reports an error");
    s.nontrivial();
    // compare after scaling to a unit diagonal, the units differ by many orders
    const Mat9 P = m.covariance();
    Vec9 d;
    for (int i = 0; i < 9; ++i) d(i) = std::sqrt(P(i, i));
    const Mat9 C = d.cwiseInverse().asDiagonal() * P * d.cwiseInverse().asDiagonal();
    const Mat9 X = m.Xi() * d.asDiagonal();
    const double cond = 1 / std::max(1e-30, mineig(P));
    if (cond > 1e9) s.discard();
    s.note("condition %g", cond);
    const double err = (X.transpose() * X * C - Mat9::Identity()).norm();
    VT_REQ(err < 1e-12 * cond * 100 + 1e-10, "Xi' Xi P differs from the identity by %g (condition %g)", err, cond);
}
// correcting for a small change of bias reproduces re-integration with that bias
VT_PROP(bias_change, 500, 15000)
{
    const ImuCase c = gen_imu(s, 3, 40);
    const ImuModel m = build_model(c.z, c.bias, c.R);
    Vec6 db;
    const double bm = s.pick({1e-3, 1e-2, 0.1});
    for (int i = 0; i < 6; ++i) db(i) = s.sym(bm) * (i < 3 ? 1 : 0.3);
    const Vec6 b1 = c.bias + db;
    const Pre re = preintegrate(c.z, b1, c.R, false), was = preintegrate(c.z, c.bias, c.R, false);
    const V9 adj = m.dStatedBias().cast<ld>() * db.cast<ld>();
    // what the factor uses: the residual at the end state predicted by re-integration, with the new bias
    const ImuModel m1 = build_model(c.z, b1, c.R);
    const DQ x0(gen_quat(s), Vec3(s.sym(10), s.sym(10), s.sym(10)));
    const Vec3 v0(s.sym(5), s.sym(5), s.sym(5));
    DQ x1;
    Vec3 v1;
    m1.computeEndState(x0, v0, Out(x1), Out(v1));
    double res[9], res0[9];
    const double* par[] = {x0.data(), x1.data(), v0.data(), v1.data(), b1.data()};
    m.Evaluate(par, res, nullptr);
    const double T = (double)c.T(), A = c.amax, W = c.wmax;
    double h = 0;
    for (size_t i = 1; i < c.z.size(); ++i) h = std::max(h, (double)secs(c.z[i].t, c.z[i - 1].t));
    const double dw = db.tail<3>().norm(), da = db.head<3>().norm();
    // second order in the change, and the discretisation of the sensitivity
    const double er = 1e-9 + 2 * dw * dw * T * T + dw * T * h * W * 2 + dw * T * W * W * h * h;
    const double ev0 = 1e-9 + (A * T + 1) * er + da * T * (dw * T + h * W * 2) + dw * T * h * A * 4;
    const double ev = ev0 + er * (v1.norm() + 1);
    const double ep = 1e-9 + T * ev0 + (da + A * dw * T) * T * h * 4 + er * (A * T * T);
    double worst[3] = {0, 0, 0};
    for (int k = 0; k < 9; ++k) worst[k / 3] = std::max(worst[k / 3], std::abs(res[k]));
    s.note("T %.3g h %.3g A %.3g W %.3g change %.3g: residual %g %g %g, bounds %g %g %g", T, h, A, W, db.norm(), worst[0], worst[1], worst[2], ep, ev, er);
    // non-trivial when the uncorrected difference is well above the bound
    const double un = std::max({(double)(re.a - was.a).norm() / ep, (double)(re.b - was.b).norm() / ev, (double)logm(M3(was.G.transpose() * re.G)).norm() / er});
    if (un > 5) s.nontrivial();
    VT_REQ(worst[2] < er && worst[1] < ev && worst[0] < ep, "after correcting for a change of bias: residual %g %g %g, bounds %g %g %g", worst[0], worst[1], worst[2], ep, ev, er);
    (void)res0;
    (void)adj;
}
// the preintegrated state as a manifold, error states as values
static ImuState gen_state(vt::Src& s)
{
    ImuState x;
    x.alpha = gen_vec(s);
    x.beta = gen_vec(s);
    x.gamma = gen_quat(s);
    return x;
}
VT_PROP(states, 2000, 40000)
{
    const ImuState x = gen_state(s), y = gen_state(s);
    s.nontrivial();
    const ImuErrorState d = y - x;
    const double n = 1 + x.alpha.norm() + x.beta.norm() + y.alpha.norm() + y.beta.norm();
    VT_REQ((d.alpha - (y.alpha - x.alpha)).norm() < 1e-15 * n && (d.beta - (y.beta - x.beta)).norm() < 1e-15 * n, "difference");
    VT_REQ(d.norm() == d.norm() && d.head<3>() == d.alpha && d.segment<3>(3) == d.beta && d.tail<3>() == d.gamma, "the parts of an error state are not its elements");
    const ImuState z = x + d;
    VT_REQ((z.alpha - y.alpha).norm() < 1e-14 * n && (z.beta - y.beta).norm() < 1e-14 * n && (double)(active(z.gamma) - active(y.gamma)).norm() < 1e-13, "x + (y - x) is not y");
    ImuState w = x;
    w += d;
    VT_REQ(w.alpha == z.alpha && w.beta == z.beta && w.gamma == z.gamma, "+ and += differ");
    const ImuErrorState zero = x - x;
    VT_REQ(zero.norm() < 1e-13, "x - x is not zero");
    ImuErrorState e;
    for (int i = 0; i < 9; ++i) e(i) = s.sym(3) / 1.8;
    const ImuErrorState back = (x + e) - x;
    VT_REQ((back - e).norm() < 1e-13 * n, "(x + e) - x is not e");
    // copies are independent of the original
    std::unique_ptr<ImuErrorState> src(new ImuErrorState(e));
    ImuErrorState copy(*src), assigned;
    assigned = *src;
    const Vec9 was = *src;
    src->setConstant(42);
    VT_REQ(Vec9(copy) == was && copy.alpha == was.head<3>() && copy.beta == was.segment<3>(3) && copy.gamma == was.tail<3>(), "a copied error state follows the original");
    VT_REQ(Vec9(assigned) == was && assigned.alpha == was.head<3>() && assigned.gamma == was.tail<3>(), "an assigned error state differs");
    src.reset();
    copy.alpha += Vec3::Ones();
    VT_REQ(copy.head<3>() == was.head<3>() + Vec3::Ones(), "the parts of a copied error state are not its elements");
    std::vector<ImuErrorState> v(3, e);
    v.push_back(e);
    for (auto& k : v) VT_REQ(k.gamma == was.tail<3>() && k.gamma.data() == k.data() + 6, "an error state in a vector refers to another one");
    ImuState c1 = x, c2;
    c2 = x;
    ImuState m = gen_state(s);
    c1 = m;
    VT_REQ(c1.gamma == m.gamma && c2.gamma == x.gamma && c2.alpha == x.alpha, "a copied state");
}
