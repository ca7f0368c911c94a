// the RTK filter: states, inputs, satellites in any configuration, long-double physics
#pragma once
#include "core/ekf/rtk_ekf.h"
#include "modelgen.h"
namespace eg {
using namespace mg;
using ekf::ErrorState;
using ekf::Input;
using ekf::State;
using LX = Eigen::Matrix<ld, Eigen::Dynamic, 1>;
using LM = Eigen::Matrix<ld, Eigen::Dynamic, Eigen::Dynamic>;
using L2 = Eigen::Matrix<ld, 2, 1>;
inline M4 mat(const DQ& x)
{
    const Pose p(x);
    M4 m = M4::Identity();
    m.topLeftCorner<3, 3>() = p.R();
    m.topRightCorner<3, 1>() = p.t;
    return m;
}
inline M4 inv(const M4& m)
{
    M4 o = M4::Identity();
    o.topLeftCorner<3, 3>() = m.topLeftCorner<3, 3>().transpose();
    o.topRightCorner<3, 1>() = -(m.topLeftCorner<3, 3>().transpose() * m.topRightCorner<3, 1>());
    return o;
}
// logarithm of a rigid transform with a small rotation
inline V6 small_log(const M4& m)
{
    const M3 R = m.topLeftCorner<3, 3>();
    V3 s;
    s << R(2, 1) - R(1, 2), R(0, 2) - R(2, 0), R(1, 0) - R(0, 1);
    s /= 2;
    const ld n = s.norm(), th = asinl(std::min((ld)1, n));
    const V3 w = n > 0 ? V3(s * (th / n)) : s;
    V6 o;
    o << w, left_jac_series<M3>(skewl(w)).inverse() * V3(m.topRightCorner<3, 1>());
    return o;
}
struct S  // a state in long double
{
    M4 pose, T_I2e;
    V3 vel, ab, gb, lever;
    L2 clk[3];
    LX sd;
    S() = default;
    explicit S(const State& x) : pose(mat(x.pose)), T_I2e(mat(x.T_I2e)), vel(up(x.vel)), ab(up(x.acc_bias)), gb(up(x.gyro_bias)), lever(up(x.p_b2g))
    {
        clk[0] = x.gps_clk.cast<ld>(), clk[1] = x.gal_clk.cast<ld>(), clk[2] = x.glo_clk.cast<ld>();
        sd.resize(x.num_sd);
        for (size_t i = 0; i < x.num_sd; ++i) sd(i) = x.sd[i](0);
    }
    int n() const { return 30 + (int)sd.size(); }
    S plus(const LX& d) const
    {
        S o = *this;
        o.pose = pose * se3exp(V6(d.segment<6>(0)));
        o.vel += d.segment<3>(6), o.ab += d.segment<3>(9), o.gb += d.segment<3>(12);
        for (int k = 0; k < 3; ++k) o.clk[k] += d.segment<2>(15 + 2 * k);
        o.lever += d.segment<3>(21);
        o.T_I2e = T_I2e * se3exp(V6(d.segment<6>(24)));
        o.sd += d.tail(sd.size());
        return o;
    }
    LX minus(const S& b) const  // difference of nearby states
    {
        LX d(n());
        d.segment<6>(0) = small_log(inv(b.pose) * pose);
        d.segment<3>(6) = vel - b.vel, d.segment<3>(9) = ab - b.ab, d.segment<3>(12) = gb - b.gb;
        for (int k = 0; k < 3; ++k) d.segment<2>(15 + 2 * k) = clk[k] - b.clk[k];
        d.segment<3>(21) = lever - b.lever;
        d.segment<6>(24) = small_log(inv(b.T_I2e) * T_I2e);
        d.tail(sd.size()) = sd - b.sd;
        return d;
    }
    V3 antenna_e() const { const M4 i = inv(T_I2e); return i.topLeftCorner<3, 3>() * (pose.topLeftCorner<3, 3>() * lever + pose.topRightCorner<3, 1>()) + i.topRightCorner<3, 1>(); }
    V3 antenna_vel_e(const V3& gyro) const { return T_I2e.topLeftCorner<3, 3>().transpose() * (pose.topLeftCorner<3, 3>() * (gyro.cross(lever) + vel)); }
};
// rate of change of the state: strap-down kinematics with gravity along the navigation z axis,
// biases and lever arm constant, clock offsets moved by their drifts. The body-frame velocity's
// rate is the difference quotient of the body-frame projection of the navigation-frame velocity.
inline LX rate(const S& x, const V3& accel, const V3& gyro)
{
    LX d = LX::Zero(x.n());
    const V3 w = gyro - x.gb, a = accel - x.ab, g(0, 0, 9.80665);
    const M3 R = x.pose.topLeftCorner<3, 3>();
    const V3 v_nav = R * x.vel, a_nav = R * a + g;
    const ld h = 1e-5L;
    auto body = [&](ld t) { return V3((R * rodrigues(V3(w * t))).transpose() * (v_nav + a_nav * t)); };
    d.segment<3>(0) = w;
    d.segment<3>(3) = x.vel;
    d.segment<3>(6) = (8 * (body(h) - body(-h)) - (body(2 * h) - body(-2 * h))) / (12 * h);
    for (int k = 0; k < 3; ++k) d(15 + 2 * k) = x.clk[k](1);
    return d;
}
inline LX dense(const ErrorState& e, int num_sd)
{
    LX d(30 + num_sd);
    d.segment<6>(0) = e.pose.cast<ld>();
    d.segment<3>(6) = e.vel.cast<ld>(), d.segment<3>(9) = e.acc_bias.cast<ld>(), d.segment<3>(12) = e.gyro_bias.cast<ld>();
    d.segment<2>(15) = e.gps_clk.cast<ld>(), d.segment<2>(17) = e.gal_clk.cast<ld>(), d.segment<2>(19) = e.glo_clk.cast<ld>();
    d.segment<3>(21) = e.p_b2g.cast<ld>();
    d.segment<6>(24) = e.T_I2e.cast<ld>();
    for (int i = 0; i < num_sd; ++i) d(30 + i) = e.sd(i)(0);
    return d;
}
inline ErrorState sparse(const LX& d)
{
    ErrorState e = ErrorState::Zero();
    e.pose = d.segment<6>(0).cast<double>();
    e.vel = d.segment<3>(6).cast<double>(), e.acc_bias = d.segment<3>(9).cast<double>(), e.gyro_bias = d.segment<3>(12).cast<double>();
    e.gps_clk = d.segment<2>(15).cast<double>(), e.gal_clk = d.segment<2>(17).cast<double>(), e.glo_clk = d.segment<2>(19).cast<double>();
    e.p_b2g = d.segment<3>(21).cast<double>();
    e.T_I2e = d.segment<6>(24).cast<double>();
    for (int i = 30; i < d.size(); ++i) e.sd(i - 30)(0) = (double)d(i);
    return e;
}
inline State gen_state(vt::Src& s, int num_sd, bool at_earth)
{
    State x;
    x.pose = gen_pose(s);
    const double mv = s.pick({1.0, 30.0, 300.0});
    x.vel = vec(s, mv);
    x.acc_bias = vec(s, s.pick({0.1, 2.0}));
    x.gyro_bias = vec(s, s.pick({0.01, 0.5}));
    Vec2* c[3] = {&x.gps_clk, &x.gal_clk, &x.glo_clk};
    for (Vec2* p : c) *p = Vec2(s.sym(s.pick({10.0, 1e6})), s.sym(s.pick({1.0, 1e3})));
    x.p_b2g = vec(s, s.pick({0.5, 10.0}));
    x.T_I2e = at_earth ? utils::WGS84::dq_ecef2ned(gen_rec(s)).inverse() : DQ(gen_quat(s), Vec3(s.sym(1e4), s.sym(1e4), s.sym(1e4)));
    x.num_sd = num_sd;
    for (int i = 0; i < num_sd; ++i) x.sd[i](0) = s.sym(100);
    x.t = UTCTime(s.range(1000000000, 2000000000), s.range(0, 999999999));
    return x;
}
inline Input gen_input(vt::Src& s)
{
    Input u;
    u.accel = vec(s, s.pick({1.0, 20.0}));
    u.gyro = vec(s, s.pick({0.1, 5.0}));
    return u;
}
}  // namespace eg
