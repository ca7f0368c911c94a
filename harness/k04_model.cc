// K04: the RTK filter's motion and measurement models, and their derivatives
#include "ekfgen.h"
using namespace eg;
using ekf::fixAndHoldMeas;
using ekf::obsMeas;
using ekf::pointPosMeas;
static const char* part(int i)
{
    static const struct { int at; const char* name; } p[] = {{30, "sd"}, {27, "T_I2e translation"}, {24, "T_I2e rotation"}, {21, "lever arm"}, {19, "glo_clk"}, {17, "gal_clk"}, {15, "gps_clk"}, {12, "gyro bias"}, {9, "acc bias"}, {6, "velocity"}, {3, "position"}, {0, "attitude"}};
    for (auto& q : p) if (i >= q.at) return q.name;
    return "?";
}
VT_PROP(motion, 600, 15000)
{
    const int n = s.chance(0.3) ? (int)s.range(0, 30) : s.pick({0, 1, 2, 30});
    const State x = gen_state(s, n, s.flip());
    const Input u = gen_input(s);
    const S xr(x);
    const V3 a = up(u.accel), w = up(u.gyro);
    ekf::StateJac A;
    ekf::InputJac B;
    A.setRandom(), B.setRandom();
    const LX got = dense(ekf::dynamics(x, u, &A, &B), n), plain = dense(ekf::dynamics(x, u, nullptr, nullptr), n);
    VT_REQ(got == plain, "the rate of change depends on whether derivatives are asked for");
    const LX want = rate(xr, a, w);
    s.note("%d sd, |v| %.3g |w| %.3g", n, (double)x.vel.norm(), u.gyro.norm());
    if (x.vel.norm() > 0 && u.gyro.norm() > 0) s.nontrivial();
    const ld scale = 10 + a.norm() + (w.norm() + 1) * (1 + xr.vel.norm());
    for (int i = 0; i < want.size(); ++i)
        VT_REQ(fabsl(got(i) - want(i)) <= 1e-11L * scale + 1e-14L * fabsl(want(i)), "rate of %s element %d is %.12g, not %.12g", part(i), i, (double)got(i), (double)want(i));
    // derivatives: growth rate of a small deviation, by central differences in time and deviation
    const ld h = 1e-4L, k = 1e-4L;
    const int N = want.size();
    auto growth = [&](const LX& dx, const V3& da, const V3& dw) {
        LX g[2];
        for (int q = 0; q < 2; ++q)
        {
            const ld sg = q ? -1 : 1;
            const S y = xr.plus(sg * dx);
            const LX ry = rate(y, a + sg * da, w + sg * dw);
            g[q] = (y.plus(h * ry).minus(xr.plus(h * want)) - y.plus(-h * ry).minus(xr.plus(-h * want))) / (2 * h);
        }
        return LX((g[0] - g[1]) / (2 * k));
    };
    LM Ar(N, N), Br(N, 6);
    for (int i = 0; i < N; ++i)
    {
        if (i >= 30) { Ar.col(i).setZero(); continue; }
        LX d = LX::Zero(N);
        d(i) = k;
        Ar.col(i) = growth(d, V3::Zero(), V3::Zero());
    }
    for (int i = 0; i < 6; ++i) Br.col(i) = growth(LX::Zero(N), i < 3 ? V3(V3::Unit(i) * k) : V3(V3::Zero()), i < 3 ? V3(V3::Zero()) : V3(V3::Unit(i - 3) * k));
    const Eigen::MatrixXd Ad = A.dense(n), Bd = B.dense(n);
    VT_REQ(Ad.rows() == N && Ad.cols() == N && Bd.rows() == N && Bd.cols() == 6, "derivatives have %dx%d and %dx%d elements", (int)Ad.rows(), (int)Ad.cols(), (int)Bd.rows(), (int)Bd.cols());
    const ld tol = 1e-6L * scale;
    for (int i = 0; i < N; ++i)
    {
        for (int j = 0; j < N; ++j)
            VT_REQ(fabsl(Ad(i, j) - Ar(i, j)) <= tol, "derivative of the rate of %s %d by %s %d is %.9g, not %.9g", part(i), i, part(j), j, Ad(i, j), (double)Ar(i, j));
        for (int j = 0; j < 6; ++j)
            VT_REQ(fabsl(Bd(i, j) - Br(i, j)) <= tol, "derivative of the rate of %s %d by input %d is %.9g, not %.9g", part(i), i, j, Bd(i, j), (double)Br(i, j));
    }
    // error dynamics are the linear map of those derivatives
    LX dx(N);
    for (int i = 0; i < N; ++i) dx(i) = s.sym(1);
    Input eta;
    eta.accel = vec(s, 1), eta.gyro = vec(s, 1);
    LX en(6);
    en << up(eta.accel), up(eta.gyro);
    const LX e = dense(ekf::errorStateDynamics(sparse(dx), x, u, eta), n), er = Ar * dx + Br * en;
    for (int i = 0; i < N; ++i)
        VT_REQ(fabsl(e(i) - er(i)) <= 20 * tol, "error rate of %s %d is %.9g, not %.9g", part(i), i, (double)e(i), (double)er(i));
}
template <typename F>
static LM numeric(const S& x, F f)
{
    LM J;
    for (int i = 0; i < x.n(); ++i)
    {
        const ld k = i >= 15 && i < 21 ? 10.0L : i < 3 ? 1e-3L : (i >= 24 && i < 27) ? 1e-4L : 0.1L;
        LX d = LX::Zero(x.n()), d2;
        d(i) = k;
        d2 = 2 * d;
        const LX c = (8 * (f(x.plus(d)) - f(x.plus(-d))) - (f(x.plus(d2)) - f(x.plus(-d2)))) / (12 * k);
        if (J.size() == 0) J = LM::Zero(c.size(), x.n());
        J.col(i) = c;
    }
    return J;
}
static void compare(const Eigen::MatrixXd& got, const LM& want, const std::function<ld(int, int)>& tol)
{
    VT_REQ(got.rows() == want.rows() && got.cols() == want.cols(), "derivative has %dx%d elements, not %dx%d", (int)got.rows(), (int)got.cols(), (int)want.rows(), (int)want.cols());
    for (int i = 0; i < want.rows(); ++i)
        for (int j = 0; j < want.cols(); ++j)
            VT_REQ(fabsl(got(i, j) - want(i, j)) <= tol(i, j), "derivative of residual %d by %s %d is %.12g, not %.12g", i, part(j), j, got(i, j), (double)want(i, j));
}
VT_PROP(point_position, 1000, 40000)
{
    const int n = s.pick({0, 0, 1, 7, 30});
    const State x = gen_state(s, n, s.flip());
    const Input u = gen_input(s);
    const S xr(x);
    const V3 w = up(u.gyro);
    Vec6 z;
    const V3 p = xr.antenna_e(), v = xr.antenna_vel_e(w);
    for (int i = 0; i < 3; ++i) z(i) = (double)p(i) + s.sym(100), z(3 + i) = (double)v(i) + s.sym(10);
    pointPosMeas::Jac J;
    const auto res = ekf::h<pointPosMeas>(z, x, &J, u), plain = ekf::h<pointPosMeas>(z, x, nullptr, u);
    VT_REQ(res == plain, "the residual depends on whether derivatives are asked for");
    s.note("|p| %.6g |v| %.4g", (double)p.norm(), (double)v.norm());
    if (x.p_b2g.norm() > 0 && u.gyro.norm() > 0) s.nontrivial();
    auto f = [&](const S& y) {
        LX r(6);
        r << up(z.head<3>()) - y.antenna_e(), up(z.tail<3>()) - y.antenna_vel_e(w);
        return r;
    };
    const LX want = f(xr);
    const ld sc = 1 + p.norm() + xr.pose.topRightCorner<3, 1>().norm() + xr.T_I2e.topRightCorner<3, 1>().norm(), sv = 1 + v.norm() + w.norm() * xr.lever.norm();
    for (int i = 0; i < 6; ++i)
        VT_REQ(fabsl(res(i) - want(i)) <= 4e-15L * (i < 3 ? sc : sv), "residual %d is %.12g, not %.12g", i, res(i), (double)want(i));
    compare(J.dense(n), numeric(xr, f), [&](int i, int j) { return 1e-9L + 1e-13L * ((j < 3 || (j >= 24 && j < 27)) ? (i < 3 ? sc : sv) : 1 + w.norm()); });
}
struct Bundle
{
    std::vector<satellite::SatelliteCache> sats;
    std::vector<int> ids;
    obsMeas::ZType z;
};
VT_PROP(observations, 600, 12000)
{
    const int n = s.pick({0, 0, 1, 7, 30});
    const State x = gen_state(s, n, true);
    const Input u = gen_input(s);
    const S xr(x);
    const V3 w = up(u.gyro), p = xr.antenna_e(), v = xr.antenna_vel_e(w);
    const int m = s.chance(0.3) ? s.pick({1, 30}) : (int)s.range(1, 30);
    Bundle b;
    for (int i = 0; i < m; ++i)
    {
        satellite::SatelliteCache c;
        c.cache_rec_pos = p.cast<double>();
        c.state.t = x.t;
        const Vec3 dir = gen_axis(s);
        c.state.pos = p.cast<double>() + dir * s.real(1.9e7, 2.7e7);
        c.state.vel = vec(s, 3500);
        c.state.clk = Vec2(s.sym(s.pick({1e-5, 1e-3})), s.sym(1e-11));
        c.sagnac = s.sym(40);
        c.atm.ionospheric_delay_m = s.real(0, 30);
        c.atm.tropospheric_delay_m = s.real(0, 30);
        b.sats.push_back(c);
        b.ids.push_back(s.pick({(int)GnssID::GPS, (int)GnssID::Galileo, (int)GnssID::Glonass}));
    }
    auto range = [&](const S& y, int i) {
        const auto& c = b.sats[i];
        const L2& k = y.clk[b.ids[i] == GnssID::GPS ? 0 : b.ids[i] == GnssID::Galileo ? 1 : 2];
        return (up(c.state.pos) - y.antenna_e()).norm() + (ld)c.sagnac + c.atm.ionospheric_delay_m + c.atm.tropospheric_delay_m + CL * (k(0) * 1e-9L - c.state.clk(0));
    };
    auto doppler = [&](const S& y, int i) {
        // rate of the distance and of the Earth-rotation term, by difference quotient in time
        const auto& c = b.sats[i];
        const V3 q = y.antenna_e(), qv = y.antenna_vel_e(w), sp = up(c.state.pos), sv = up(c.state.vel);
        const L2& k = y.clk[b.ids[i] == GnssID::GPS ? 0 : b.ids[i] == GnssID::Galileo ? 1 : 2];
        auto d = [&](ld t) {
            const V3 a = sp + sv * t, r = q + qv * t;
            return (a - r).norm() + WE / CL * (a.x() * r.y() - a.y() * r.x());
        };
        const ld h = 1;
        return (8 * (d(h) - d(-h)) - (d(2 * h) - d(-2 * h))) / (12 * h) + CL * (k(1) * 1e-9L - c.state.clk(1));
    };
    for (int i = 0; i < m; ++i)
        b.z.push_back({Vec2((double)range(xr, i) + s.sym(100), (double)doppler(xr, i) + s.sym(10)), b.sats[i], b.ids[i]});
    obsMeas::Jac J;
    J.setZero();
    const auto res = ekf::h<obsMeas>(b.z, x, &J, u), plain = ekf::h<obsMeas>(b.z, x, nullptr, u);
    VT_REQ(res == plain, "the residual depends on whether derivatives are asked for");
    s.note("%d observations, %d sd", m, n);
    for (int i = 1; i < m; ++i) if (b.ids[i] != b.ids[0]) s.nontrivial();
    auto f = [&](const S& y) {
        LX r(2 * m);
        for (int i = 0; i < m; ++i) r(2 * i) = (ld)b.z[i].z(0) - range(y, i), r(2 * i + 1) = (ld)b.z[i].z(1) - doppler(y, i);
        return r;
    };
    const LX want = f(xr);
    for (int i = 0; i < 2 * m; ++i)
        VT_REQ(fabsl(res(i) - want(i)) <= (i % 2 ? 1e-8L : 1e-6L), "residual %d (constellation %d) is %.12g, not %.12g", i, b.ids[i / 2], res(i), (double)want(i));
    for (int i = 2 * m; i < res.size(); ++i) VT_REQ(res(i) == 0, "residual %d of %d observations is %g", i, m, res(i));
    // scale of a derivative: per metre or radian (times the distance to the Earth's centre)
    const ld R = 7e6L, vel = 4000 + v.norm();
    compare(J.dense(m, n), numeric(xr, f), [&](int i, int j) {
        const ld arm = j < 3 ? xr.lever.norm() + 1 : (j >= 24 && j < 27) ? R : 1;
        if (i % 2 == 0) return 2e-8L * arm;
        const ld spin = j < 3 || (j >= 24 && j < 27) ? vel : j >= 21 && j < 24 ? w.norm() : 1;
        return 2e-9L * spin + 5e-9L + 1e-13L * arm;
    });
}
VT_PROP(held_ambiguities, 4000, 40000)
{
    const int n = (int)s.range(0, 30);
    const State x = gen_state(s, n, false);
    fixAndHoldMeas::ZType z(n);
    for (auto& v : z) v(0) = s.sym(100);
    fixAndHoldMeas::Jac J;
    J.setRandom();
    const auto res = ekf::h<fixAndHoldMeas>(z, x, &J);
    if (n > 1) s.nontrivial();
    s.note("%d held", n);
    for (int i = 0; i < res.size(); ++i)
        VT_REQ(res(i) == (i < n ? z[i](0) - x.sd[i](0) : 0), "residual %d of %d is %g", i, n, res(i));
    const Eigen::MatrixXd d = J.dense(n, n);
    VT_REQ(d.rows() == n && d.cols() == 30 + n, "derivative has %dx%d elements", (int)d.rows(), (int)d.cols());
    for (int i = 0; i < n; ++i)
        for (int j = 0; j < 30 + n; ++j) VT_REQ(d(i, j) == (j == 30 + i ? -1 : 0), "derivative %d,%d is %g", i, j, d(i, j));
}
// an update moves the state so that the measurement is better predicted
VT_PROP(correction, 2000, 40000)
{
    const int n = (int)s.range(0, 30);
    ekf::Snapshot sn;
    sn.x = gen_state(s, n, s.flip());
    sn.x.acc_bias.setZero();
    sn.u = gen_input(s);
    sn.cov = ekf::Covariance();
    const double pp = s.logu(1e-4, 1e-2), pv = s.logu(1e-4, 1e-2), ps = s.logu(1e-2, 10);
    sn.cov.pose_pose.bottomRightCorner<3, 3>() = Mat3::Identity() * pp;
    sn.cov.vel_vel = Mat3::Identity() * pv;
    sn.cov.sd_sd(n) = Eigen::MatrixXd::Identity(n, n) * ps;
    s.nontrivial();
    if (s.flip() && n > 0)
    {
        fixAndHoldMeas::ZType z(n);
        for (int i = 0; i < n; ++i) z[i](0) = sn.x.sd[i](0) + s.sym(10);
        const double r = s.logu(1e-3, 10);
        const auto before = ekf::h<fixAndHoldMeas>(z, sn.x, nullptr);
        const auto res = ekf::update<fixAndHoldMeas>(make_out(sn), z, Vec1(r));
        VT_REQ(res.ok(), "update refused");
        const auto after = ekf::h<fixAndHoldMeas>(z, sn.x, nullptr);
        s.note("held: variance %.3g measured %.3g", ps, r);
        for (int i = 0; i < n; ++i)
            VT_REQ(std::abs(after(i) - before(i) * r / (ps + r)) <= 1e-10 * (1 + std::abs(before(i))), "residual %d goes from %.9g to %.9g with variances %g and %g", i, before(i), after(i), ps, r);
        return;
    }
    // position and velocity: the attitude is known, so the model is linear in what is corrected
    const S xr(sn.x);
    Vec6 z;
    z << xr.antenna_e().cast<double>(), xr.antenna_vel_e(up(sn.u.gyro)).cast<double>();
    for (int i = 0; i < 6; ++i) z(i) += s.sym(1);
    const double r = s.logu(1e-5, 1);
    const Vec6 before = ekf::h<pointPosMeas>(z, sn.x, nullptr, sn.u);
    const auto res = ekf::update<pointPosMeas>(make_out(sn), z, Vec6(Vec6::Constant(r)), sn.u);
    VT_REQ(res.ok(), "update refused");
    const Vec6 after = ekf::h<pointPosMeas>(z, sn.x, nullptr, sn.u);
    s.note("position: variance %.3g %.3g measured %.3g", pp, pv, r);
    for (int i = 0; i < 6; ++i)
    {
        const double want = before(i) * r / ((i < 3 ? pp : pv) + r);
        VT_REQ(std::abs(after(i) - want) <= 1e-7, "residual %d goes from %.9g to %.9g, not %.9g", i, before(i), after(i), want);
    }
}
