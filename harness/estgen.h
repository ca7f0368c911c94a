// the RTK estimator: measurement histories, and a reference that applies them one after another
#pragma once
#include "core/ekf/rtk_ekf_estimator.h"
#include "ekfgen.h"
namespace eg {
using ekf::Covariance;
using ekf::fixAndHoldMeas;
using ekf::ImuMeas;
using ekf::InputCovariance;
using ekf::obsMeas;
using ekf::pointPosMeas;
using ekf::ProcessCovariance;
using ekf::RtkEkfEstimator;
using ekf::Snapshot;
using Obs = std::vector<meas::GnssObservation>;
static const int64_t HALF = 50000;  // half the time resolution, in nanoseconds
struct M
{
    int64_t ns;  // after the start
    int kind;    // 0 inertial, 1 satellites, 2 position, 3 held ambiguities
    Input imu;
    pointPosMeas pos;
    fixAndHoldMeas held;
    Obs obs;
};
struct Setup
{
    UTCTime t0;
    State x0;
    Covariance P0;
    Vec6 pos_cov;
    Vec2 obs_cov;
    Vec1 held_cov;
    InputCovariance imu_cov;
    ProcessCovariance proc;
    std::vector<Sats> sats;
    std::vector<GPSEphemeris> gps;
    std::vector<GalileoEphemeris> gal;
    void start(RtkEkfEstimator& e) const
    {
        e.init(t0, x0, P0, pos_cov, obs_cov, held_cov, imu_cov, proc);
        for (auto& g : gps) e.ephCb(g);
        for (auto& g : gal) e.ephCb(g);
    }
};
inline Setup gen_setup(vt::Src& s, bool with_sats)
{
    Setup u;
    u.x0 = gen_state(s, s.pick({0, 0, 1, 4, 30}), true);
    u.x0.acc_bias *= 0.1;
    u.x0.gyro_bias *= 0.1;
    if (u.x0.vel.norm() > 30) u.x0.vel *= 30 / u.x0.vel.norm();
    u.P0 = Covariance::Identity();
    // uncertainties as in the repository's configuration
    const double p = s.logu(1e-4, 1);
    u.P0.pose_pose *= p * 1e-2, u.P0.vel_vel *= p * 1e-1, u.P0.pB2g_pB2g *= p * 1e-2, u.P0.accBias_accBias *= 1e-2, u.P0.gyroBias_gyroBias *= 1e-2;
    u.P0.TI2e_TI2e *= p * 1e2;
    u.P0.TI2e_TI2e.topLeftCorner<3, 3>() = Mat3::Identity() * 1e-12;
    u.pos_cov = Vec6::Constant(s.logu(1e-2, 10));
    u.obs_cov = Vec2::Constant(s.logu(1e-2, 10));
    u.held_cov = Vec1::Constant(s.logu(1e-2, 10));
    u.imu_cov.accel = Vec3::Constant(s.logu(1e-4, 1e-1)), u.imu_cov.gyro = Vec3::Constant(s.logu(1e-5, 1e-2));
    u.proc = ProcessCovariance::Identity();
    u.proc.pose *= 1e-6, u.proc.vel *= 1e-5, u.proc.accBias *= 1e-6, u.proc.gyroBias *= 1e-7, u.proc.TI2e *= 1e-9, u.proc.pB2g *= 1e-8;
    u.t0 = u.x0.t;
    if (with_sats)
    {
        GPSEphemeris g(1);
        satgen::gen_kepler(s, g, GnssID::GPS, 1);
        g.ecc = std::min(g.ecc, 0.05);
        u.gps.push_back(g);
        u.t0 = satgen::at(g.toe, s.range(-1200000000000ll, 1200000000000ll));
        GPSEphemeris h = g;
        h.sat = 2, h.m0 += 1;
        u.gps.push_back(h);
    }
    u.x0.t = u.t0;
    return u;
}
inline M gen_meas(vt::Src& s, const Setup& u, int64_t ns)
{
    M m;
    m.ns = ns;
    m.kind = s.weighted({5, u.gps.empty() ? 0 : 1, 2, 1});
    // a vehicle that keeps about its velocity
    const S x(u.x0);
    const V3 rest = x.ab - x.pose.topLeftCorner<3, 3>().transpose() * V3(0, 0, 9.80665L);
    const double ma = s.pick({0.1, 1.0, 3.0}), mg = s.pick({0.001, 0.05});
    for (int i = 0; i < 3; ++i) m.imu.accel(i) = (double)rest(i) + s.sym(ma), m.imu.gyro(i) = u.x0.gyro_bias(i) + s.sym(mg);
    const V3 v = x.antenna_vel_e(V3::Zero()), p = x.antenna_e() + v * (ns * 1e-9L);
    const double sd = std::sqrt(u.pos_cov(0));
    for (int i = 0; i < 3; ++i) m.pos.z(i) = (double)p(i) + s.sym(3) * sd, m.pos.z(3 + i) = (double)v(i) + s.sym(3) * sd;
    if (m.kind == 3) for (size_t i = 0; i < u.x0.num_sd; ++i) m.held.z.push_back(Vec1(s.sym(100)));
    if (m.kind == 1)
    {
        const int n = s.irange(1, 2), first = s.irange(1, 2);
        for (int i = 0; i < n; ++i)
        {
            meas::GnssObservation o;
            o.setZero();
            o.t = satgen::at(u.t0, ns);
            o.gnss_id = GnssID::GPS;
            o.sat_num = i ? 3 - first : first;
            o.pseudorange = 2.2e7 + s.sym(1e6);
            o.doppler = s.sym(1000);
            m.obs.push_back(o);
        }
    }
    return m;
}
inline Error give(RtkEkfEstimator& e, const Setup& u, const M& m)
{
    const UTCTime t = satgen::at(u.t0, m.ns);
    switch (m.kind)
    {
    case 0: return e.addMeasurement(t, ImuMeas{m.imu});
    case 1: return e.addMeasurement(t, m.obs);
    case 2: return e.addMeasurement(t, m.pos);
    default: return e.addMeasurement(t, m.held);
    }
}
inline int64_t ns_of(const Setup& u, const UTCTime& t) { return (int64_t)(t.sec - u.t0.sec) * 1000000000ll + t.nsec - u.t0.nsec; }
// applies measurements, already in order, each once
inline std::vector<Snapshot, Eigen::aligned_allocator<Snapshot>> reference(const Setup& u, const std::vector<M>& in)
{
    std::vector<Snapshot, Eigen::aligned_allocator<Snapshot>> h(1);
    h[0].x = u.x0;
    h[0].cov = u.P0;
    h[0].u.accel = Vec3(0, 0, -9.80665);
    h[0].u.gyro.setZero();
    int64_t at = 0;
    for (const M& m : in)
    {
        const UTCTime t = satgen::at(u.t0, m.ns);
        if (m.ns - at > HALF)
        {
            Snapshot n;
            const Input in = m.kind == 0 ? m.imu : h.back().u;
            ekf::predict(h.back(), t, in, u.proc, u.imu_cov, make_out(n));
            h.push_back(n);
            at = m.ns;
        }
        if (m.kind == 2) ekf::update<pointPosMeas>(make_out(h.back()), m.pos.z, u.pos_cov, h.back().u);
        if (m.kind == 3) ekf::update<fixAndHoldMeas>(make_out(h.back()), m.held.z, u.held_cov);
    }
    return h;
}
inline LX flat(const State& x)
{
    LX d(38 + x.num_sd);
    int k = 0;
    auto put = [&](double v) { d(k++) = v; };
    for (const DQ* q : {&x.pose, &x.T_I2e}) for (int i = 0; i < 8; ++i) put(q->data()[i]);
    for (const Vec3* v : {&x.vel, &x.acc_bias, &x.gyro_bias, &x.p_b2g}) for (int i = 0; i < 3; ++i) put((*v)(i));
    for (const Vec2* v : {&x.gps_clk, &x.gal_clk, &x.glo_clk}) for (int i = 0; i < 2; ++i) put((*v)(i));
    for (size_t i = 0; i < x.num_sd; ++i) put(x.sd[i](0));
    return d.head(k);
}
inline std::string differ(const Setup& u, const Snapshot& a, const Snapshot& b)
{
    if (std::llabs(ns_of(u, a.x.t) - ns_of(u, b.x.t)) > 2) return vt::sfmt("times %lld and %lld ns", (long long)ns_of(u, a.x.t), (long long)ns_of(u, b.x.t));
    if (a.x.num_sd != b.x.num_sd) return "number of ambiguities";
    const LX fa = flat(a.x), fb = flat(b.x);
    for (int i = 0; i < fa.size(); ++i)
        if (!(fabsl(fa(i) - fb(i)) <= 1e-9L * (1 + fabsl(fa(i))))) return vt::sfmt("state element %d: %.15g and %.15g", i, (double)fa(i), (double)fb(i));
    if ((a.u.accel - b.u.accel).norm() > 0 || (a.u.gyro - b.u.gyro).norm() > 0) return "input";
    const Eigen::MatrixXd ca = a.cov.dense(a.x.num_sd), cb = b.cov.dense(b.x.num_sd);
    for (int i = 0; i < ca.rows(); ++i)
        for (int j = 0; j < ca.cols(); ++j)
            if (!(std::abs(ca(i, j) - cb(i, j)) <= 1e-9 * (1e-6 + std::sqrt(std::abs(ca(i, i) * ca(j, j)))))) return vt::sfmt("covariance %d,%d: %.15g and %.15g", i, j, ca(i, j), cb(i, j));
    return "";
}
}  // namespace eg
