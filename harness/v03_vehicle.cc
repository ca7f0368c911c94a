// V03: simulated vehicle motion
#include "modelgen.h"
#include "sim/dynamics/car.h"
using namespace mg;
using sim::dynamics::SimCar;
using V6 = Eigen::Matrix<ld, 6, 1>;
static SimCar::Options params(vt::Src& s)
{
    SimCar::Options o;
    o.t0 = satgen::at(UTCTime(satgen::gps_sec(2000, 0), 0), s.range(0, 1000000000000ll));
    o.wheel_radius = s.logu(0.05, 1);
    o.axle_width = s.logu(0.5, 3);
    o.track = s.logu(0.5, 5);
    static_cast<sim::dynamics::Dynamics::Options&>(o).mass = s.chance(0.3) ? 1.0 : s.logu(0.5, 2000);
    if (s.chance(0.7)) o.inertia_ = Vec3(s.logu(0.5, 1000), s.logu(0.5, 1000), s.logu(0.5, 1000));
    return o;
}
// wheels push forwards; the turning moment is their difference times half the axle
static V6 accel(const SimCar::Options& o, const Vec2& u)
{
    const ld fl = (ld)u(0) / o.wheel_radius, fr = (ld)u(1) / o.wheel_radius;
    V6 a = V6::Zero();
    a(3) = (fl + fr) / o.mass;
    a(2) = (fr - fl) * ((ld)o.axle_width / 2) / o.inertia_(2);
    return a;
}
static void check_pose(vt::Src&, const DQ& x, const Pose& want, double tol, int i)
{
    const Pose g(x);
    ld qd = (g.q - want.q).norm();
    qd = std::min(qd, (g.q + want.q).norm());
    VT_REQ((double)qd < 1e-10, "step %d: attitude off by %g", i, (double)qd);
    VT_REQ((double)(g.t - want.t).norm() < tol, "step %d: position off by %.3g m", i, (double)(g.t - want.t).norm());
}
VT_PROP(wrench, 10000, 200000)
{
    const SimCar::Options o = params(s);
    SimCar car(o);
    const Vec2 u(s.sym(50), s.chance(0.2) ? 0 : s.sym(50));
    math::DQuat<double>::TangentVector w;
    w.setConstant(s.pick({0.0, 1e30}));
    math::TwoJet<double> st = math::TwoJet<double>::Identity();
    st.x = gen_pose(s);
    st.dx.setRandom();
    car.compute_wrench(st, u, mc::Out<math::DQuat<double>::TangentVector>(w));
    const V6 a = accel(o, u);
    s.note("u %g %g r %g axle %g", u(0), u(1), o.wheel_radius, o.axle_width);
    VT_REQ(std::abs((double)(w.linear()(0) - a(3) * o.mass)) < 1e-9 * (1 + std::abs(w.linear()(0))) && w.linear()(1) == 0 && w.linear()(2) == 0, "force %g %g %g, the wheels push with %g", w.linear()(0), w.linear()(1), w.linear()(2), (double)(a(3) * o.mass));
    VT_REQ(std::abs((double)(w.angular()(2) - a(2) * o.inertia_(2))) < 1e-9 * (1 + u.norm() * o.axle_width / o.wheel_radius) && w.angular()(0) == 0 && w.angular()(1) == 0, "moment %g, the wheels turn with %g", w.angular()(2), (double)(a(2) * o.inertia_(2)));
    VT_REQ(u(1) - u(0) == 0 || w.angular()(2) * (u(1) - u(0)) > 0, "the right wheel pushes harder by %g, the moment is %g", u(1) - u(0), w.angular()(2));
    math::DQuat<double>::TangentVector d;
    d.setConstant(7);
    car.f(st, u, mc::Out<math::DQuat<double>::TangentVector>(d));
    for (int i = 0; i < 3; ++i)
    {
        VT_REQ(std::abs(d.linear()(i) - w.linear()(i) / static_cast<const sim::dynamics::Dynamics::Options&>(o).mass) < 1e-12 * (1 + std::abs(d.linear()(i))), "linear acceleration");
        VT_REQ(std::abs(d.angular()(i) - w.angular()(i) / o.inertia_(i)) < 1e-12 * (1 + std::abs(d.angular()(i))), "angular acceleration");
    }
    s.nontrivial();
}
// any history of torques: body velocity is the integral of the acceleration, time advances as
// stepped, the pose is the integral of the body velocity
VT_PROP(history, 4000, 80000)
{
    const SimCar::Options o = params(s);
    SimCar car(o);
    VT_REQ(car.t() == o.t0, "starts at another time");
    const int n = s.irange(1, 60);
    const double scale = s.pick({0.01, 1.0, 10.0}) * o.wheel_radius * std::min(o.mass, o.inertia_(2));
    UTCTime t = o.t0;
    Pose want(car.x.x);
    V6 dx = V6::Zero();
    const int mode = s.irange(0, 2);
    double travel = 0, err = 0;
    Vec2 u(0, 0);
    bool turning = false;
    for (int i = 0; i < n; ++i)
    {
        const int64_t step = s.weighted({4, 1}) == 0 ? s.range(1, 20000000) : s.range(1, 200000000);
        if (i == 0 || s.chance(0.5)) u = Vec2(s.sym(scale), s.sym(scale));
        if (mode == 1) u(1) = u(0);
        if (s.chance(0.15)) u.setZero();
        t = satgen::at(t, step);
        const ld dt = step * 1e-9L;
        car.step(t, u);
        VT_REQ(car.t() == t, "stepped to another time");
        const V6 a = accel(o, u);
        // exact motion of this interval: fine integration of the pose along the body velocity
        const int m = 16;
        for (int k = 0; k < m; ++k)
        {
            const V6 w = dx + a * (dt * (k + 0.5L) / m);
            const V3 th = w.head<3>() * (dt / m);
            const V4 half = qexp(V3(th / 2));
            Pose mid = want;
            mid.q = qmul(want.q, half);
            want.t += mid.R() * V3(w.tail<3>() * (dt / m));
            want.q = qmul(want.q, qexp(th));
        }
        // what one step of constant twist cannot know: velocity and turn rate changing together
        const ld wz = std::fabs(dx(2)) + std::fabs(a(2)) * dt, v = std::fabs(dx(3)) + std::fabs(a(3)) * dt;
        err += (double)(((std::fabs(a(3)) * wz + std::fabs(a(2)) * v) * dt * dt * dt / 4) + v * wz * wz * dt * dt * dt / 512 + travel * 0);
        dx += a * dt;
        travel += (double)(v * dt);
        if (wz > 1e-6) turning = true;
        for (int k = 0; k < 6; ++k)
        {
            const double got = k < 3 ? car.x.dx.angular()(k) : car.x.dx.linear()(k - 3), acc = k < 3 ? car.x.d2x.angular()(k) : car.x.d2x.linear()(k - 3);
            VT_REQ(std::abs((double)(got - dx(k))) < 1e-12 * (1 + std::abs((double)dx(k))) * (i + 1), "step %d: component %d of the body velocity is %.12g, expected %.12g", i, k, got, (double)dx(k));
            VT_REQ(std::abs((double)(acc - a(k))) < 1e-12 * (1 + std::abs((double)a(k))), "step %d: component %d of the acceleration is %.12g, expected %.12g", i, k, acc, (double)a(k));
        }
        check_pose(s, car.x.x, want, 1e-9 * (1 + travel) * (i + 1) + err * 1.01, i);
    }
    s.note("%d steps, %s, travel %.3g m, bound %.3g m", n, mode == 1 ? "straight" : "any", travel, err);
    if (n > 3 && turning) s.nontrivial();
}
// coasting: velocity kept, and one long step is many short ones
VT_PROP(coasting, 6000, 100000)
{
    const SimCar::Options o = params(s);
    SimCar a(o), b(o);
    a.x.x = gen_pose(s);
    for (int k = 0; k < 3; ++k)
    {
        a.x.dx.angular()(k) = s.chance(0.3) ? 0 : s.sym(2);
        a.x.dx.linear()(k) = s.chance(0.3) ? 0 : s.sym(20);
    }
    if (s.flip())
        for (int k = 0; k < 3; ++k) a.x.d2x.linear()(k) = s.sym(5), a.x.d2x.angular()(k) = s.sym(1);
    b.x = a.x;
    const int64_t total = s.range(1000, 1500000000ll);
    const int n = s.irange(2, 30);
    a.step(satgen::at(o.t0, total), Vec2(0, 0));
    std::vector<int64_t> cut;
    for (int i = 0; i + 1 < n; ++i) cut.push_back(s.range(0, total));
    cut.push_back(total);
    std::sort(cut.begin(), cut.end());
    const math::TwoJet<double> x0 = b.x;
    for (int64_t c : cut) b.step(satgen::at(o.t0, c), Vec2(0, 0));
    VT_REQ((a.x.dx - x0.dx).norm() == 0 && (b.x.dx - x0.dx).norm() == 0, "undisturbed motion changes its velocity");
    check_pose(s, b.x.x, Pose(a.x.x), 1e-9, 0);
    s.note("%d pieces of %.3g s", n, total * 1e-9);
    if (x0.dx.angular().norm() > 0 && x0.dx.linear().norm() > 0) s.nontrivial();
}
