// inertial sample sequences and a long-double reference of the preintegration
#pragma once
#include "liegen.h"
#include "models/imu_model.h"
#include "timegen.h"
using namespace lie;
using V9 = Eigen::Matrix<ld, 9, 1>;
using M9 = Eigen::Matrix<ld, 9, 9>;
using M96 = Eigen::Matrix<ld, 9, 6>;
inline const V3 GRAV = V3(0, 0, 9.80665L);
inline ld secs(const mc::UTCTime& a, const mc::UTCTime& b)  // a - b
{
    return (ld)(int64_t)(total(a) - total(b)) * 1e-9L;
}
inline mc::UTCTime at_ns(i128 t)
{
    mc::UTCTime o;
    o.sec = (int64_t)(t / NS);
    o.nsec = (int64_t)(t % NS);
    return o;
}
struct ImuCase
{
    std::vector<mc::meas::ImuSample> z;
    mc::Vec6 bias, R;
    double amax = 0, wmax = 0;  // of the corrected samples
    ld T() const { return secs(z.back().t, z.front().t); }
};
inline ImuCase gen_imu(vt::Src& s, int minn = 2, int maxn = 60)
{
    ImuCase c;
    const int n = s.irange(minn, maxn);
    const double am = s.pick({1.0, 10.0, 10.0, 100.0}), wm = s.pick({0.0, 0.1, 1.0, 1.0, 10.0});
    const int rate = s.weighted({3, 2, 1});
    const double dt0 = s.logu(2e-4, 5e-2);
    i128 t = (i128)s.range(0, 2000000000) * NS + s.range(0, 999999999);
    mc::Vec3 a(s.sym(am), s.sym(am), s.sym(am)), w(s.sym(wm), s.sym(wm), s.sym(wm));
    const bool walk = s.flip();
    c.bias = s.chance(0.2) ? mc::Vec6(mc::Vec6::Zero()) : mc::Vec6();
    if (c.bias != mc::Vec6::Zero() || true)
    {
        const bool zero = s.chance(0.2);
        for (int i = 0; i < 6; ++i) c.bias(i) = zero ? 0 : s.sym(i < 3 ? 0.5 : 0.1);
    }
    for (int i = 0; i < 6; ++i) c.R(i) = s.chance(0.1) ? 0.0 : s.logu(1e-8, 1);
    for (int i = 0; i < n; ++i)
    {
        mc::meas::ImuSample m;
        m.t = at_ns(t);
        m.accel = a;
        m.gyro = w;
        c.z.push_back(m);
        c.amax = std::max(c.amax, (a - c.bias.head<3>()).norm());
        c.wmax = std::max(c.wmax, (w - c.bias.tail<3>()).norm());
        if (walk)
        {
            a += 0.1 * am * mc::Vec3(s.sym(1), s.sym(1), s.sym(1));
            w += 0.1 * wm * mc::Vec3(s.sym(1), s.sym(1), s.sym(1));
        }
        else
        {
            a = mc::Vec3(s.sym(am), s.sym(am), s.sym(am));
            w = mc::Vec3(s.sym(wm), s.sym(wm), s.sym(wm));
        }
        double dt = dt0;
        if (rate == 1) dt = dt0 * s.real(0.6, 1.6);
        if (rate == 2) dt = s.logu(1.2e-4, 8e-2);
        dt = std::max(dt, 1.2e-4);
        t += (i128)(int64_t)(dt * 1e9);
    }
    return c;
}
struct Pre  // the preintegrated motion: kinematics in the frame of the first sample
{
    V3 a = V3::Zero(), b = V3::Zero();  // displacement and velocity change, gravity aside
    M3 G = M3::Identity();              // rotation, body at the end to body at the start
    M9 P = M9::Zero();
    M96 J = M96::Zero();
    ld T = 0;
};
inline Pre preintegrate(const std::vector<mc::meas::ImuSample>& z, const mc::Vec6& bias, const mc::Vec6& R, bool second = true)
{
    Pre p;
    const V3 ba = up(mc::Vec3(bias.head<3>())), bw = up(mc::Vec3(bias.tail<3>()));
    for (size_t i = 1; i < z.size(); ++i)
    {
        const ld dt = secs(z[i].t, z[i - 1].t);
        const V3 acc = (up(z[i].accel) + up(z[i - 1].accel)) / 2 - ba;
        const V3 om = (up(z[i].gyro) + up(z[i - 1].gyro)) / 2 - bw;
        if (second)
        {
            M9 A = M9::Zero();
            A.block<3, 3>(0, 3) = M3::Identity() * dt;
            A.block<3, 3>(3, 6) = -p.G * skewl(acc) * dt;
            A.block<3, 3>(6, 6) = -skewl(om) * dt;
            M96 B = M96::Zero();
            B.block<3, 3>(3, 0) = -p.G * dt;
            B.block<3, 3>(6, 3) = -M3::Identity() * dt;
            const M9 F = M9::Identity() + A + A * A / 2;
            p.P = F * p.P * F.transpose() + B * R.cast<ld>().asDiagonal() * B.transpose();
            p.J = F * p.J + B;
        }
        p.a += p.b * dt;
        p.b += p.G * acc * dt;
        p.G = p.G * rodrigues(V3(om * dt));
        p.T += dt;
    }
    return p;
}
inline mc::models::ImuModel build_model(const std::vector<mc::meas::ImuSample>& z, const mc::Vec6& bias, const mc::Vec6& R)
{
    mc::models::ImuModel m(z.front(), bias, R);
    for (size_t i = 1; i < z.size(); ++i) m.integrate(z[i]);
    return m;
}
