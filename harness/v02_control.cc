// V02: controllers and waypoint logic
#include <new>
#include "common/math/two_jet.h"
#include "sim/dynamics/car.h"
#include "vt.h"
using namespace mc;
using sim::controllers::PID;
using Follower = sim::dynamics::SimCar::WaypointFollower;
static PID::Options gains(vt::Src& s)
{
    PID::Options o;
    o.kp = s.chance(0.15) ? 0 : s.logu(1e-2, 100);
    o.ki = s.chance(0.25) ? 0 : s.logu(1e-3, 30);
    o.kd = s.chance(0.4) ? 0 : s.logu(1e-3, 10);
    if (s.chance(0.8)) o.max = s.logu(1e-2, 1e3);
    o.tau = s.logu(1e-3, 1);
    return o;
}
// the law of the gains, over histories; the derivative is given
VT_PROP(pid_law, 20000, 400000)
{
    const PID::Options o = gains(s);
    PID pid(o);
    long double integral = 0;
    bool wound = false, always = true;
    const int n = s.irange(1, 60);
    s.note("kp %g ki %g kd %g max %g", o.kp, o.ki, o.kd, o.max);
    double xc = s.sym(10);
    int unsat = 0;
    for (int i = 0; i < n; ++i)
    {
        const double dt = s.logu(1e-5, 0.2);
        const double x = s.sym(s.pick({0.1, 1.0, 20.0})), xd = s.sym(5);
        if (s.chance(0.2)) xc = s.sym(10);
        const bool upd = s.chance(0.8);
        s.note("[dt %g x %g xc %g %d xd %g]", dt, x, xc, upd, xd);
        const double u = pid.run(dt, x, xc, upd, xd);
        VT_REQ(std::abs(u) <= o.max, "output %.12g exceeds the limit %.12g", u, o.max);
        const long double e = (long double)xc - x;
        if (upd) integral += e * dt;
        else always = false;
        const long double pd = o.kp * e - (o.kd > 0 ? (long double)o.kd * xd : 0);
        const long double full = pd + (o.ki > 0 ? o.ki * integral : 0), bare = pd;
        const double tol = 1e-12 * (double)(std::fabs(pd) + std::fabs(full) + 1);
        auto is = [&](long double v) {
            const long double w = std::min<long double>(o.max, std::max<long double>(-o.max, v));
            return std::fabs((double)(u - w)) <= tol;
        };
        if (o.ki == 0)
            VT_REQ(is(bare), "output %.12g, the gains give %.12Lg", u, bare);
        else if (upd && !wound)
        {
            VT_REQ(is(full), "output %.12g, the gains give %.12Lg", u, full);
        }
        else if (!upd && !wound)
            VT_REQ(is(full) || is(bare), "output %.12g, the gains give %.12Lg or without the integral %.12Lg", u, full, bare);
        // once the output has been limited the integral may have been held back
        if (std::fabs((double)(upd ? full : bare)) > o.max * (1 - 1e-9) || std::fabs((double)full) > o.max * (1 - 1e-9)) wound = true;
        else ++unsat;
    }
    if (unsat > 1 && n > 2 && !(always && o.ki == 0)) s.nontrivial();
}
VT_PROP(pid_windup, 10000, 200000)
{
    PID::Options o = gains(s);
    o.kd = s.flip() ? 0 : s.logu(1e-2, 10);
    o.ki = s.logu(1e-2, 50);
    o.max = s.logu(1e-2, 100);
    PID pid(o);
    const double sg = s.flip() ? 1 : -1, dt = s.logu(1e-3, 0.1);
    const int n = s.irange(1, 400);
    const double base = s.sym(5);
    int sat = 0;
    const double xd = o.kd > 0 ? s.sym(5) : 0, back = -sg * s.logu(1e-2, 20);
    const double steady = -o.kd * xd;  // what the derivative contributes throughout
    s.note("kp %g ki %g kd %g max %g dt %g rate %g, %d steps", o.kp, o.ki, o.kd, o.max, dt, xd, n);
    for (int i = 0; i < n; ++i)
    {
        const double e = sg * s.logu(1e-2, 20);
        const double u = pid.run(dt, base, base + e, true, xd);
        VT_REQ(std::abs(u) <= o.max, "output %g exceeds the limit %g", u, o.max);
        VT_REQ(u * sg >= 0 || steady * sg < 0, "error %g, output %g", e, u);
        if (u * sg == o.max) ++sat;
    }
    const double u = pid.run(dt, base, base + back, true, xd);
    // unless the other terms saturate it by themselves
    if ((o.kp * back + steady) * sg < o.max * (1 - 1e-9)) VT_REQ(u * sg < o.max, "after %d of %d saturated steps the error reversed to %g and the output is still at its limit %g", sat, n, back, u);
    if (sat > 10) s.nontrivial();
    // and soon follows the sign of the error
    double v = u;
    const int most = 2 + (int)std::min(1e6, std::ceil((o.max + std::abs(steady)) / (o.ki * std::abs(back) * dt))) + 1;
    if (most < 20000)
    {
        int k = 0;
        for (; k < most && (k == 0 || v * sg > 0); ++k) v = pid.run(dt, base, base + back, true, 0.0);
        VT_REQ(v * sg <= 0, "after %d steps with the error reversed the output is still %g", k, v);
    }
}
// the filtered derivative: a ramp gives its slope, a constant gives none, no step gives none
VT_PROP(pid_derivative, 5000, 100000)
{
    PID::Options o;
    o.kp = 0;
    o.ki = 0;
    o.kd = s.logu(1e-2, 10);
    o.tau = s.logu(1e-3, 0.5);
    PID pid(o);
    const double m = s.chance(0.2) ? 0 : s.sym(10), x0 = s.sym(10), dt = s.logu(2e-4, 2 * o.tau < 2.1e-4 ? 2.1e-4 : 2 * o.tau);
    const int n = (int)std::ceil(60 * (o.tau + dt) / dt) + 2;
    double u = 0;
    for (int i = 0; i < n; ++i) u = pid.run(dt, x0 + m * dt * i, s.sym(10), true);
    s.note("tau %g dt %g slope %g: %d steps", o.tau, dt, m, n);
    VT_REQ(std::abs(u + o.kd * m) <= 1e-6 * o.kd * (1 + std::abs(x0 / o.tau) + std::abs(m) / o.tau), "slope %g gives the output %g, expected %g", m, u, -o.kd * m);
    const double z = pid.run(s.pick({0.0, 1e-5, 5e-5}), s.sym(10), 0, true);
    VT_REQ(z == 0, "no time has passed, yet the derivative term is %g", z);
    if (m != 0) s.nontrivial();
}
// the filtered derivative over histories: the low-pass of the changes between successive inputs, however the
// steps vary; a call with no time elapsed yields none and only renews the previous input
VT_PROP(pid_filter, 5000, 100000)
{
    PID::Options o;
    o.kp = s.chance(0.5) ? 0 : s.logu(1e-2, 10);
    o.ki = 0;
    o.kd = s.logu(1e-2, 10);
    o.tau = s.logu(1e-3, 0.5);
    PID pid(o);
    long double d = 0, prev = 0, mag = 0;
    const int n = s.irange(1, 40);
    int still = 0, moved = 0;
    double x = s.sym(10);
    s.note("tau %g kp %g kd %g", o.tau, o.kp, o.kd);
    for (int i = 0; i < n; ++i)
    {
        const double dt = s.chance(i == 0 ? 0.5 : 0.2) ? s.pick({0.0, 1e-6, 9e-5}) : s.logu(1.1e-4, 0.3);
        const double xc = s.sym(10);
        if (s.chance(0.7)) x = s.sym(s.pick({0.1, 20.0}));
        const double u = pid.run(dt, x, xc, s.flip());
        long double want = o.kp * ((long double)xc - x);
        if (dt > 1e-4)
        {
            const long double t2 = 2 * (long double)o.tau;
            d = (t2 - dt) / (t2 + dt) * d + 2 / (t2 + dt) * (x - prev);
            want -= o.kd * d;
            ++moved;
        }
        else
            ++still;
        mag = std::max(mag, std::fabs(d));
        prev = x;
        s.note("[dt %g x %g xc %g]", dt, x, xc);
        const double tol = 1e-11 * (double)(1 + o.kp * 40 + o.kd * (mag + 40 / o.tau));
        VT_REQ(std::fabs((double)(u - want)) <= tol, "call %d: output %.12g, expected %.12Lg", i, u, want);
    }
    if (still > 0 && moved > 1) s.nontrivial();
}
static math::DQuat<double> at(const Vec3& p, double yaw)
{
    return math::DQuat<double>(math::Quat<double>::exp(Vec3(0, 0, yaw)), p);
}
VT_PROP(waypoints, 20000, 400000)
{
    Follower::Options o;
    o.waypoints.clear();
    const int n = s.irange(1, 6);
    for (int i = 0; i < n; ++i) o.waypoints.push_back(Vec3(s.sym(200), s.sym(200), 0));
    o.close_enough_threshold = s.logu(1e-2, 5);
    o.max_speed = s.logu(0.1, 50);
    o.max_omega = s.logu(0.05, 5);
    // whatever the memory held before
    alignas(Follower) static thread_local unsigned char raw[sizeof(Follower)];
    memset(raw, s.irange(0, 255), sizeof raw);
    Follower* f = new (raw) Follower(o);
    struct Guard { Follower* f; ~Guard() { f->~Follower(); } } guard{f};
    int wp = 0;
    const int steps = s.irange(1, 30);
    int reached = 0;
    for (int i = 0; i < steps; ++i)
    {
        VT_REQ(f->current_waypoint() == o.waypoints[wp % n], "step %d: heading for another waypoint than number %d of %d", i, wp % n, n);
        const Vec3 goal = o.waypoints[wp % n];
        Vec3 p;
        switch (s.irange(0, 2))
        {
        case 0:
        {
            const double r = o.close_enough_threshold * s.pick({0.0, 0.5, 0.999, 1.001, 2.0}), a = s.sym(M_PI);
            p = goal + Vec3(r * std::cos(a), r * std::sin(a), 0);
            break;
        }
        default:
            p = Vec3(s.sym(250), s.sym(250), 0);
        }
        const bool close = (goal - p).norm() < o.close_enough_threshold;
        if (std::abs((goal - p).norm() - o.close_enough_threshold) < 1e-9 * (1 + p.norm())) s.discard();
        if (close) ++wp, ++reached;
        const Vec3 e = o.waypoints[wp % n] - p;
        const double bearing = std::atan2(e.y(), e.x());
        double off = s.pick({0.0, 1e-3, 0.1, 0.2, 0.3, 1.0, 2.0, 2.9, 3.1, M_PI});
        if (s.flip()) off = -off;
        if (s.chance(0.4)) off = s.sym(M_PI);
        const double yaw = bearing - off;  // the waypoint lies off to the left of the heading by off
        const Vec2 vw = f->follow(at(p, yaw));
        s.note("wp %d dist %.3g off %.3g -> %.4g %.4g", wp % n, e.norm(), off, vw(0), vw(1));
        VT_REQ(std::isfinite(vw(0)) && std::isfinite(vw(1)), "not finite");
        VT_REQ(std::abs(vw(0)) <= o.max_speed * (1 + 1e-12), "speed %g exceeds %g", vw(0), o.max_speed);
        VT_REQ(std::abs(vw(1)) <= o.max_omega * (1 + 1e-12), "turn rate %g exceeds %g", vw(1), o.max_omega);
        VT_REQ(vw(0) >= 0, "speed %g", vw(0));
        if (e.norm() > 1e-6)
        {
            const double tol = 1e-9;
            if (std::abs(off) > 1e-6 && std::abs(off) < M_PI - 1e-6) VT_REQ(vw(1) * off > 0, "the waypoint is %g rad to the left, the turn rate is %g", off, vw(1));
            // facing away it turns rather than drive off
            if (std::abs(off) > M_PI / 2 + 1e-6) VT_REQ(std::abs(vw(1)) >= o.max_omega * 0.25 - tol, "the waypoint is %g rad off the heading, the turn rate is only %g of %g at speed %g", off, vw(1), o.max_omega, vw(0));
            if (off == 0) VT_REQ(std::abs(vw(0) - o.max_speed) < 1e-9 * o.max_speed && std::abs(vw(1)) < 1e-9 * o.max_omega, "straight ahead: %g %g", vw(0), vw(1));
        }
    }
    if (reached && n > 1) s.nontrivial();
}
// the wheels are driven so that the force and the moment are those of the two laws, however the car is built
VT_PROP(wheel_torques, 4000, 80000)
{
    using sim::dynamics::SimCar;
    SimCar::Options a;
    a.t0 = UTCTime(s.range(1200000000, 1500000000), 0);
    static_cast<sim::dynamics::Dynamics::Options&>(a).mass = s.logu(0.5, 2000);
    a.heading_controller_gains = gains(s);
    a.velocity_controller_gains = gains(s);
    a.heading_controller_gains.kd = a.velocity_controller_gains.kd = 0;
    auto size = [&](SimCar::Options& o) {
        o.wheel_radius = s.logu(0.02, 2);
        o.axle_width = s.logu(0.2, 5);
        o.track = s.chance(0.1) ? 0 : s.logu(0.2, 5);
    };
    size(a);
    SimCar::Options b = a;
    size(b);
    SimCar c1(a), c2(b);
    const int n = s.irange(1, 12);
    s.note("radius %g/%g axle %g/%g track %g/%g, %d steps", a.wheel_radius, b.wheel_radius, a.axle_width, b.axle_width, a.track, b.track, n);
    UTCTime t = a.t0;
    for (int i = 0; i < n; ++i)
    {
        t = t + s.logu(1e-3, 0.2);
        // any motion
        const Vec3 v(s.sym(20), s.sym(2), s.sym(2)), w(s.sym(1), s.sym(1), s.sym(2));
        c1.x.dx.linear() = c2.x.dx.linear() = v;
        c1.x.dx.angular() = c2.x.dx.angular() = w;
        const Vec2 want(v.x() + s.sym(5), w.z() + s.sym(2));
        const Vec2 u1 = c1.controller(t, want), u2 = c2.controller(t, want);
        math::DQuat<double>::TangentVector w1, w2;
        c1.compute_wrench(c1.x, u1, mc::Out<math::DQuat<double>::TangentVector>(w1));
        c2.compute_wrench(c2.x, u2, mc::Out<math::DQuat<double>::TangentVector>(w2));
        const auto& g = a.velocity_controller_gains;
        const double force = std::min(g.max, std::max(-g.max, g.kp * (want(0) - v.x())));
        const auto& h = a.heading_controller_gains;
        const double turn = std::min(h.max, std::max(-h.max, h.kp * (want(1) - w.z())));
        const double tol = 1e-9 * (std::abs(force) + 1e-3), tol2 = 1e-9 * (std::abs(turn) + std::abs(force) * (a.axle_width + b.axle_width) + 1e-3);
        VT_REQ(std::abs(w1.linear()(0) - force) <= tol && std::abs(w2.linear()(0) - force) <= tol, "step %d: forces %.12g and %.12g, the velocity law gives %.12g", i, w1.linear()(0), w2.linear()(0), force);
        VT_REQ(std::abs(w1.angular()(2) - w2.angular()(2)) <= tol2, "step %d: moments %.12g and %.12g of two cars whose laws both give %.12g", i, w1.angular()(2), w2.angular()(2), turn);
        VT_REQ(std::abs(turn) < 1e-6 * (1 + std::abs(force)) || w1.angular()(2) * turn > 0, "step %d: moment %g, the law gives %g", i, w1.angular()(2), turn);
        if (turn != 0 && force != 0) s.nontrivial();
    }
}
VT_PROP(no_waypoints, 20, 100)
{
    const auto r = vt::in_child([&] {
        Follower::Options o;
        o.waypoints.clear();
        Follower f(o);
        return std::string("accepted");
    });
    VT_REQ(r.refused(), "an empty list of waypoints was accepted");
    s.nontrivial();
}
