// G03: clock dynamics and pose prior
#include "models/gnss_dynamics_model.h"
#include "models/pose_error_model.h"
#include "modelgen.h"
using namespace mg;
using L3 = Eigen::Matrix<ld, 3, 1>;
using models::GnssDynamics;
using models::PoseError;
VT_PROP(clock_dynamics, 20000, 400000)
{
    const UTCTime t0(s.range(0, 4000000000ll), s.range(0, 999999999));
    const int64_t ns = s.weighted({3, 1, 1}) == 0 ? s.range(1000000ll, 10000000000ll) : (s.flip() ? s.range(-5000000000ll, 0) : s.range(0, 86400000000000ll));
    const UTCTime t1 = satgen::at(t0, ns);
    const ld dt = ns * 1e-9L;
    const Vec3 Xi(s.logu(1e-3, 1e3), s.logu(1e-3, 1e3), s.logu(1e-3, 1e3));
    const double m = s.pick({1.0, 1e3, 1e6});
    Vec2 a(s.sym(m), s.sym(m / 10)), b(s.sym(m), s.sym(m / 10));
    double sa = s.real(0, 1), sb = s.flip() ? sa : s.real(0, 1);
    const bool steady = s.chance(0.3);
    if (steady) b = Vec2((double)(a(0) + a(1) * dt), a(1));
    const GnssDynamics f(t0, t1, Xi);
    const double* par[] = {a.data(), b.data(), &sa, &sb};
    double j0[6], j1[6], j2[3], j3[3];
    double* jac[4] = {j0, j1, j2, j3};
    const int size[4] = {6, 6, 3, 3};
    for (int i = 0; i < 4; ++i) std::fill(jac[i], jac[i] + size[i], NAN);
    const int mask = (int)s.draw(15);
    double* want[4];
    for (int i = 0; i < 4; ++i) want[i] = (mask >> i) & 1 ? jac[i] : nullptr;
    Vec3 r, r2;
    VT_REQ(f.Evaluate(par, r.data(), s.flip() ? want : nullptr) && f.Evaluate(par, r2.data(), want), "Evaluate fails");
    VT_REQ(r == r2, "the residual depends on which derivatives are asked for");
    s.note("dt %.9Lg clocks %.6g %.6g -> %.6g %.6g", dt, a(0), a(1), b(0), b(1));
    if (dt != 0 && b(1) != a(1)) s.nontrivial();
    const L3 e((ld)b(0) - a(0) - dt * ((ld)a(1) + b(1)) / 2, (ld)b(1) - a(1), (ld)sb - sa);
    for (int i = 0; i < 3; ++i)
    {
        const ld w = Xi(i) * e(i);
        const ld tol = Xi(i) * 1e-12L * (1 + m * (1 + (i == 0 ? fabsl(dt) : 0)));
        VT_REQ((double)fabsl(w - r(i)) <= (double)tol, "residual %d is %.12g, not %.12g", i, r(i), (double)w);
        if (steady && i < 2) VT_REQ((double)fabsl(r(i)) <= (double)tol, "constant drift gives residual %d of %g", i, r(i));
    }
    Eigen::Matrix<ld, 3, 6> D = Eigen::Matrix<ld, 3, 6>::Zero();  // by clk1, clk2, sw1, sw2
    D << -1, -dt / 2, 1, -dt / 2, 0, 0, 0, -1, 0, 1, 0, 0, 0, 0, 0, 0, -1, 1;
    for (int q = 0; q < 4; ++q)
        for (int i = 0; i < 3; ++i)
            for (int k = 0; k < size[q] / 3; ++k)
            {
                const int w = size[q] / 3;
                const double got = jac[q][i * w + k];
                if (!want[q]) { VT_REQ(std::isnan(got), "derivative %d written though not asked for", q); continue; }
                const ld d = (ld)Xi(i) * D(i, q < 2 ? 2 * q + k : 2 + q);
                VT_REQ((double)fabsl(d - got) <= 1e-12 * (double)(1 + fabsl(d)), "derivative of row %d by parameter %d element %d is %.12g, not %.12g", i, q, k, got, (double)d);
            }
}
static M3 Rof(const V4& q)
{
    const V3 u = q.tail<3>();
    return M3::Identity() + 2 * q(0) * skewl(u) + 2 * skewl(u) * skewl(u);
}
// log of a rigid transform (rotation vector, translation part), long double
static V6 logp(V4 q, const V3& t)
{
    if (q(0) < 0) q = -q;
    const V3 u = q.tail<3>();
    const ld n = u.norm(), th = 2 * atan2l(n, q(0));
    const V3 w = n > 0 ? V3(u * (th / n)) : V3(2 * u);
    // inverse of the left Jacobian of SO(3)
    const M3 J = left_jac_series<M3>(skewl(w));
    V6 o;
    o << w, J.inverse() * t;
    return o;
}
static V6 rel_log(const Pose& a, const Pose& b)
{
    const V4 ai(a.q(0), -a.q(1), -a.q(2), -a.q(3));
    return logp(qmul(ai, b.q), Rof(ai) * (b.t - a.t));
}
struct PoseCase
{
    DQ anchor, pose;
    Vec6 Xi;
};
static PoseCase gen(vt::Src& s)
{
    PoseCase c;
    c.anchor = gen_pose(s);
    // relative rotations up to 3 rad: the logarithm's derivative is singular at a half turn
    const Vec3 w = gen_rotvec(s, false);
    const double m = s.pick({1e-3, 1.0, 100.0});
    c.pose = s.chance(0.1) ? c.anchor : c.anchor * DQ(quat_of(w, s.flip()), Vec3(s.sym(m), s.sym(m), s.sym(m)));
    for (int i = 0; i < 6; ++i) c.Xi(i) = s.logu(1e-2, 1e2);
    return c;
}
VT_PROP(pose_prior, 6000, 120000)
{
    const PoseCase c = gen(s);
    const PoseError f(c.anchor, c.Xi);
    const double* par[] = {c.pose.data()};
    double j[48];
    std::fill(j, j + 48, NAN);
    double* jac[1] = {j};
    double* none[1] = {nullptr};
    Vec6 r, r1, r2;
    VT_REQ(f.Evaluate(par, r.data(), nullptr) && f.Evaluate(par, r1.data(), jac) && f.Evaluate(par, r2.data(), none), "Evaluate fails");
    const Pose a(c.anchor), b(c.pose);
    const V6 want = rel_log(a, b);
    const ld sz = 1 + a.t.norm() + b.t.norm();
    s.note("turn %.6g shift %.6g", (double)want.head<3>().norm(), (double)want.tail<3>().norm());
    if (want.head<3>().norm() > 1e-3L && want.tail<3>().norm() > 1e-3L) s.nontrivial();
    for (int i = 0; i < 6; ++i)
    {
        const ld tol = c.Xi(i) * (i < 3 ? 1e-9L : 2e-9L * sz);
        VT_REQ((double)fabsl(r(i) - c.Xi(i) * want(i)) <= (double)tol, "residual %d is %.12g, not %.12g", i, r(i), (double)(c.Xi(i) * want(i)));
        VT_REQ(std::abs(r1(i) - r(i)) <= (double)tol && std::abs(r2(i) - r(i)) <= (double)tol, "the residual depends on whether derivatives are asked for");
    }
    for (int k = 0; k < 6; ++k)
    {
        const V8 d = b.param_dir(k);
        const ld h = k < 3 ? 1e-3L : 1e-2L;
        V6 lp = rel_log(a, b.moved(k, h)), lm = rel_log(a, b.moved(k, -h)), lp2 = rel_log(a, b.moved(k, 2 * h)), lm2 = rel_log(a, b.moved(k, -2 * h));
        const V6 D = (8 * (lp - lm) - (lp2 - lm2)) / (12 * h);
        // differences across the half turn are no derivative
        if ((lp2 - lm2).head<3>().norm() > 1) continue;
        for (int i = 0; i < 6; ++i)
        {
            ld got = 0;
            for (int q = 0; q < 8; ++q) got += (ld)j[i * 8 + q] * d(q);
            const ld w = c.Xi(i) * D(i);
            const ld near = 3.2L - std::min((ld)3.1, want.head<3>().norm());
            const ld tol = c.Xi(i) * 1e-7L * (1 + D.norm()) * (1 + (b.t - a.t).norm()) / powl(near, 3);
            VT_REQ((double)fabsl(got - w) <= (double)tol, "derivative of row %d by direction %d is %.9g, not %.9g (allowed %.3g)", i, k, (double)got, (double)w, (double)tol);
        }
    }
}
static std::unique_ptr<PoseError> __attribute__((noinline)) prior_from_temporaries(const PoseCase& c)
{
    DQ* T = new DQ(c.anchor);
    Vec6* X = new Vec6(c.Xi);
    std::unique_ptr<PoseError> f(new PoseError(*T, *X));
    T->arr_.setConstant(1);
    X->setConstant(-3);
    delete T;
    delete X;
    return f;
}
static std::unique_ptr<GnssDynamics> __attribute__((noinline)) clock_from_temporaries(const Vec3& Xi, const UTCTime& a, const UTCTime& b)
{
    Vec3* X = new Vec3(Xi);
    std::unique_ptr<GnssDynamics> f(new GnssDynamics(UTCTime(a), UTCTime(b), *X));
    X->setConstant(-3);
    delete X;
    return f;
}
VT_PROP(own_copy, 1000, 10000)
{
    const PoseCase c = gen(s);
    s.nontrivial();
    const auto f = prior_from_temporaries(c);
    const PoseError g(c.anchor, c.Xi);
    const double* par[] = {c.pose.data()};
    Vec6 a, b;
    f->Evaluate(par, a.data(), nullptr);
    g.Evaluate(par, b.data(), nullptr);
    VT_REQ(a == b, "a pose prior built from temporaries gives another residual");
    const Vec3 Xi(c.Xi.head<3>());
    const UTCTime t0(1000, (int64_t)5), t1(1001, (int64_t)70);
    const auto h = clock_from_temporaries(Xi, t0, t1);
    const GnssDynamics k(t0, t1, Xi);
    const Vec2 c0(s.sym(10), s.sym(1)), c1(s.sym(10), s.sym(1));
    const double s0 = s.unit(), s1 = s.unit();
    const double* p2[] = {c0.data(), c1.data(), &s0, &s1};
    Vec3 x, y;
    h->Evaluate(p2, x.data(), nullptr);
    k.Evaluate(p2, y.data(), nullptr);
    VT_REQ(x == y, "a clock model built from temporaries gives another residual");
}
