// V01: simulated sensors against the simulated truth
#include "modelgen.h"
#include "loggen.h"
#include "sim/sim.h"
#include "skygen.h"
using namespace mg;
using sim::sensors::GnssSim;
using sim::sensors::ImuSim;
static double spread(const std::vector<double>& v)
{
    double a = 0;
    for (double x : v) a += x * x;
    return std::sqrt(a / v.size());
}
static math::TwoJet<double> gen_state(vt::Src& s)
{
    math::TwoJet<double> x;
    x.x = gen_pose(s);
    for (int k = 0; k < 3; ++k)
    {
        x.dx.angular()(k) = s.chance(0.2) ? 0 : s.sym(3);
        x.dx.linear()(k) = s.chance(0.2) ? 0 : s.sym(30);
        x.d2x.angular()(k) = s.chance(0.2) ? 0 : s.sym(3);
        x.d2x.linear()(k) = s.chance(0.2) ? 0 : s.sym(10);
    }
    return x;
}
struct Rate  // emitted when the interval has passed since the last one, and only then
{
    double hz;
    UTCTime last;
    int verdict(const UTCTime& t)  // 1 must, 0 must not, -1 either
    {
        const ld dt = (t.sec - last.sec) + (t.nsec - last.nsec) * 1e-9L, T = 1 / (ld)hz;
        if (std::fabs(dt - T) < 2e-9L) return -1;
        return dt > T;
    }
};
VT_PROP(imu, 6000, 150000)
{
    ImuSim::Options o;
    o.update_rate_hz = s.pick({1.0, 10.0, 100.0, 250.0, 333.3, 1000.0});
    const int mix = s.weighted({3, 1, 1}), mixw = s.weighted({3, 1, 1});  // both sensors, or one of them
    const bool noise = s.chance(0.3), walk = s.chance(0.5);
    o.accel_noise_stdev = noise && mix != 1 ? s.logu(1e-3, 10) : 0;
    o.gyro_noise_stdev = noise && mix != 2 ? s.logu(1e-3, 10) : 0;
    o.accel_walk_stdev = walk && mixw != 1 ? s.logu(1e-4, 1) : 0;
    o.gyro_walk_stdev = walk && mixw != 2 ? s.logu(1e-4, 1) : 0;
    const UTCTime t0(satgen::gps_sec(2000, 0) + s.range(0, 1000000), s.range(0, 999999999));
    ImuSim imu(o, t0);
    Rate rate{o.update_rate_hz, t0};
    UTCTime t = t0;
    const int n = s.chance(0.15) ? 400 : s.irange(1, 40);
    const double period = 1 / o.update_rate_hz;
    int emitted = 0, held = 0;
    std::vector<double> na, ng, wa, wg;
    Vec3 ba = imu.accel_bias_, bg = imu.gyro_bias_;
    VT_REQ(ba.norm() <= 12 * o.accel_walk_stdev && bg.norm() <= 12 * o.gyro_walk_stdev, "the sensor starts with biases %g and %g, deviations %g and %g", ba.norm(), bg.norm(), o.accel_walk_stdev, o.gyro_walk_stdev);
    for (int i = 0; i < n; ++i)
    {
        t = satgen::at(t, std::max<int64_t>(1, (int64_t)llround(period * 1e9 * s.pick({0.1, 0.4, 0.99, 1.0, 1.01, 1.7, 3.0}))));
        const math::TwoJet<double> x = gen_state(s);
        meas::ImuSample z;
        z.setZero();
        const int must = rate.verdict(t);
        const Vec3 pa = imu.accel_bias_, pg = imu.gyro_bias_;
        const bool got = imu.sample(t, x, make_out(z));
        VT_REQ(must < 0 || got == (must == 1), "%s %.9f s after the last sample, the interval is %.9f s", got ? "emitted" : "nothing", (t - rate.last).toSec(), period);
        if (!got)
        {
            ++held;
            VT_REQ(pa == imu.accel_bias_ && pg == imu.gyro_bias_, "the bias moved without a sample");
            continue;
        }
        const double dt = (t - rate.last).toSec();
        rate.last = t;
        ++emitted;
        VT_REQ(z.t == t, "sampled at another time");
        const V3 w = up(Vec3(x.dx.angular())), v = up(Vec3(x.dx.linear()));
        const V3 f = up(Vec3(x.d2x.linear())) + w.cross(v) - Pose(x.x).R().transpose() * V3(0, 0, 9.80665L) + up(imu.accel_bias_);
        const V3 g = w + up(imu.gyro_bias_);
        for (int k = 0; k < 3; ++k)
        {
            const double da = (double)(z.accel(k) - f(k)), dg = (double)(z.gyro(k) - g(k));
            if (o.accel_noise_stdev == 0) VT_REQ(std::abs(da) < 1e-10, "specific force %d is %.12g, the true motion gives %.12g", k, z.accel(k), (double)f(k));
            else na.push_back(da / o.accel_noise_stdev);
            if (o.gyro_noise_stdev == 0) VT_REQ(std::abs(dg) < 1e-12, "rate %d is %.12g, the true motion gives %.12g", k, z.gyro(k), (double)g(k));
            else ng.push_back(dg / o.gyro_noise_stdev);
            const double sa = imu.accel_bias_(k) - pa(k), sg = imu.gyro_bias_(k) - pg(k);
            if (o.accel_walk_stdev > 0) wa.push_back(sa / (o.accel_walk_stdev * dt));
            else VT_REQ(sa == 0, "the force bias wanders by %g though it should not", sa);
            if (o.gyro_walk_stdev > 0) wg.push_back(sg / (o.gyro_walk_stdev * dt));
            else VT_REQ(sg == 0, "the rate bias wanders by %g though it should not", sg);
        }
    }
    if (emitted > 300)
        for (auto* v : {&na, &ng, &wa, &wg})
            if (!v->empty())
            {
                const double d = spread(*v);
                VT_REQ(d > 0.8 && d < 1.25, "%s of %g times the configured deviation", v == &na ? "force noise" : v == &ng ? "rate noise" : v == &wa ? "force bias steps" : "rate bias steps", d);
            }
    s.note("%d emitted, %d held, noise %d walk %d", emitted, held, noise, walk);
    if (emitted > 3 && (held || noise || walk)) s.nontrivial();
}
// ---- satellites --------------------------------------------------------------------------------
static GnssSim::Options gnss_options(vt::Src& s, const Sky& k, bool noise)
{
    GnssSim::Options o;
    o.ephemeris_log = k.path;
    o.update_rate_hz_ = s.pick({0.5, 1.0, 5.0, 10.0, 20.0});
    o.pseudorange_stdev_ = noise ? s.logu(1e-1, 10) : 0;
    o.carrier_phase_stdev_ = noise ? s.logu(1e-3, 0.05) : 0;
    o.doppler_stdev_ = noise ? s.logu(1e-2, 10) : 0;
    const bool clk = s.chance(0.7);
    o.clock_init_stdev_ = clk ? s.logu(1e-9, 1e-4) : 0;
    o.clock_walk_stdev_ = clk ? s.logu(1e-11, 1e-8) : 0;
    const Vec3 rec = gen_rec(s);
    o.T_e2n = utils::WGS84::dq_ecef2ned(rec);
    o.p_b2g = s.chance(0.3) ? Vec3(Vec3::Zero()) : vec(s, 5);
    return o;
}
struct Truth
{
    ld range, rate, lambda;
    double soft;  // what a centimetre of satellite position makes of the atmosphere (grows without bound at the horizon)
};
// what the true motion and clock imply
static Truth truth(const Sky& k, int gnss, int num, const UTCTime& t, const GnssSim::Options& o, const math::TwoJet<double>& x, const Vec2& clk)
{
    auto it = k.sats.find({gnss, num});
    VT_REQ(it != k.sats.end(), "an observation of satellite %d of system %d, which has no ephemeris", num, gnss);
    const Pose E(o.T_e2n), B(x.x);
    const V3 lever = up(o.p_b2g);
    const V3 p = E(B(lever));
    const V3 v = E.R() * (B.R() * (up(Vec3(x.dx.linear())) + up(Vec3(x.dx.angular())).cross(lever)));
    const Vec3 rec((double)p.x(), (double)p.y(), (double)p.z());
    const SatelliteState st = transmit(*it->second, t, rec);
    const V3 sp = up(st.pos), sv = up(st.vel), los = sp - p;
    AtmosphericCorrection a;
    computeAtmCorrection(t, rec, st, make_out(a));
    Truth r;
    r.soft = 0;
    for (int i = 0; i < 6; ++i)
    {
        SatelliteState q = st;
        q.pos(i / 2) += i % 2 ? 1e-2 : -1e-2;
        AtmosphericCorrection b;
        computeAtmCorrection(t, rec, q, make_out(b));
        r.soft += std::abs(a.ionospheric_delay_m + a.tropospheric_delay_m - b.ionospheric_delay_m - b.tropospheric_delay_m);
    }
    r.range = los.norm() + WE / CL * (sp.x() * p.y() - sp.y() * p.x()) + a.ionospheric_delay_m + a.tropospheric_delay_m + CL * ((ld)clk(0) - st.clk(0));
    r.rate = los.dot(sv - v) / los.norm() + WE / CL * (sv.x() * p.y() + sp.x() * v.y() - sv.y() * p.x() - sp.y() * v.x()) + CL * ((ld)clk(1) - st.clk(1));
    r.lambda = gnss == GnssID::Glonass ? CL / (1602.0e6L + 562500.0L * ((num * 5) % 14 - 7)) : CL / 1575.42e6L;
    return r;
}
struct Cycles  // per satellite: whole, bounded and the same for ever
{
    std::map<std::pair<int, int>, long> n;
    double check(int gnss, int num, ld cycles, double tol)
    {
        auto it = n.find({gnss, num});
        if (it == n.end())
        {
            const long k = (long)llroundl(cycles);
            VT_REQ(std::fabs((double)(cycles - k)) < tol, "satellite %d/%d: the carrier phase is %.6f cycles off the range, not a whole number", gnss, num, (double)cycles);
            n[{gnss, num}] = k;
            return (double)(cycles - k);
        }
        VT_REQ(std::fabs((double)(cycles - it->second)) < tol, "satellite %d/%d: the carrier phase was %ld cycles off the range, now it is %.6f", gnss, num, it->second, (double)cycles);
        return (double)(cycles - it->second);
    }
};
VT_PROP(gnss, 1500, 20000)
{
    ScratchDir dir;
    Sky k = gen_sky(s, dir.path, 20000000000ll);
    const bool noise = s.chance(0.3);
    const GnssSim::Options o = gnss_options(s, k, noise);
    GnssSim g(o, k.t0);
    VT_REQ(g.satellites_.size() == k.sats.size(), "%zu satellites, the log holds %zu", g.satellites_.size(), k.sats.size());
    if (o.clock_walk_stdev_ == 0) VT_REQ(g.clock_bias_.norm() == 0, "a perfect clock starts off by %g", g.clock_bias_.norm());
    Rate rate{o.update_rate_hz_, k.t0};
    UTCTime t = k.t0;
    Cycles cyc;
    const int n = noise && s.flip() ? 60 : s.irange(1, 15);
    int emitted = 0, held = 0;
    std::vector<double> np, nc, nd, nw;
    const bool reuse = s.flip();  // the same vector for every request
    std::vector<meas::GnssObservation> keep;
    for (int i = 0; i < n; ++i)
    {
        t = satgen::at(t, (int64_t)llround(1e9 / o.update_rate_hz_ * s.pick({0.1, 0.5, 0.99, 1.0, 1.01, 1.7})));
        const math::TwoJet<double> x = gen_state(s);
        std::vector<meas::GnssObservation> fresh_obs, &obs = reuse ? keep : fresh_obs;
        const size_t before = obs.size();
        const int must = rate.verdict(t);
        const Vec2 c0 = g.clock_bias_;
        const bool got = g.sample(t, x, make_out(obs));
        VT_REQ(must < 0 || got == (must == 1), "%s %.9f s after the last sample, the interval is %.9f s", got ? "emitted" : "nothing", (t - rate.last).toSec(), 1 / o.update_rate_hz_);
        if (!got)
        {
            ++held;
            VT_REQ(obs.size() == before && c0 == g.clock_bias_, "nothing is due, yet there are observations or the clock moved");
            continue;
        }
        const double dt = (t - rate.last).toSec();
        rate.last = t;
        ++emitted;
        // the clock: the rate wanders, the offset is its integral
        const double step = g.clock_bias_(1) - c0(1);
        if (o.clock_walk_stdev_ > 0) nw.push_back(step / (o.clock_walk_stdev_ * dt));
        else VT_REQ(step == 0, "the clock rate wanders by %g though it should not", step);
        VT_REQ(std::abs(g.clock_bias_(0) - c0(0) - dt * (c0(1) + g.clock_bias_(1)) / 2) < 1e-15 * (1 + std::abs(c0(0)) * 1e3) + 1e-12 * std::abs(dt * c0(1)), "the clock offset moved by %g, its rate was %g", g.clock_bias_(0) - c0(0), c0(1));
        std::set<std::pair<int, int>> seen;
        for (auto& z : obs)
        {
            const Truth r = truth(k, z.gnss_id, z.sat_num, t, o, x, g.clock_bias_);
            VT_REQ(seen.insert({z.gnss_id, z.sat_num}).second, "satellite %d/%d observed twice", z.gnss_id, z.sat_num);
            VT_REQ(z.t == t, "satellite %d/%d: the observation bears another time", z.gnss_id, z.sat_num);
            const double ep = (double)(z.pseudorange - r.range), ed = (double)(z.doppler - r.rate);
            if (!noise)
            {
                VT_REQ(std::abs(ep) < 5e-3 + r.soft, "satellite %d/%d: pseudorange off by %.5f m", z.gnss_id, z.sat_num, ep);
                VT_REQ(std::abs(ed) < 3e-5 * (1 + std::abs((double)r.rate) * 1e-4), "satellite %d/%d: range rate off by %.7f m/s", z.gnss_id, z.sat_num, ed);
                cyc.check(z.gnss_id, z.sat_num, z.carrier_phase - z.pseudorange / r.lambda, 1e-4);
            }
            else
            {
                if (r.soft < 1e-2) np.push_back(ep / o.pseudorange_stdev_);
                nd.push_back(ed / o.doppler_stdev_);
                const double dc = (cyc.check(z.gnss_id, z.sat_num, z.carrier_phase - r.range / r.lambda, 8 * o.carrier_phase_stdev_ + 0.05 + (double)(r.soft / r.lambda)) / (o.carrier_phase_stdev_ + 0.02));
                if (r.soft < 1e-3) nc.push_back(dc);
            }
        }
        VT_REQ(seen.size() == k.sats.size(), "%zu satellites observed of %zu", seen.size(), k.sats.size());
        VT_REQ(g.T_e2g_.translation().isApprox(o.T_e2n.transforma(x.x.transforma(o.p_b2g)), 1e-12), "the logged true antenna position is another");
    }
    if (np.size() > 200)
    {
        const double a = spread(np), b = spread(nd), c = spread(nc);
        VT_REQ(a > 0.75 && a < 1.35 && b > 0.75 && b < 1.35, "noise of %g / %g times the configured deviation", a, b);
        VT_REQ(c < 1.4, "carrier noise of %g times the configured deviation", c);
    }
    if (nw.size() > 40)
    {
        const double a = spread(nw);
        VT_REQ(a > 0.45 && a < 2, "the clock rate wanders by %g times the configured deviation", a);
    }
    s.note("%zu satellites, %d emitted, %d held, noise %d", k.sats.size(), emitted, held, noise);
    if (emitted > 1 && k.sats.size() > 1) s.nontrivial();
}
// ---- the whole simulation ------------------------------------------------------------------------
struct Hand
{
    std::vector<std::string> want;
    std::vector<UTCTime> when;
    size_t next = 0;
    template <typename E>
    void load(const std::vector<std::pair<UTCTime, E>>& l)
    {
        for (auto& p : l) want.push_back(bytes(p.second)), when.push_back(p.first);
    }
    void got(const std::string& b, const UTCTime& t, const char* what)
    {
        VT_REQ(next < want.size(), "a %s ephemeris beyond the %zu in the log", what, want.size());
        VT_REQ(b == want[next], "the %zu. %s ephemeris handed out is not the %zu. of the log", next + 1, what, next + 1);
        VT_REQ(when[next] <= t, "the %zu. %s ephemeris is handed out %.3f s before its time", next + 1, what, (when[next] - t).toSec());
        ++next;
    }
    bool due(const UTCTime& t) const { return next < want.size() && when[next] <= t; }
};
VT_PROP(whole, 700, 9000)
{
    ScratchDir dir;
    Sky k = gen_sky(s, dir.path, 300000000ll);
    sim::Sim::Options o;
    o.gnss_options = gnss_options(s, k, false);
    o.imu_options.accel_noise_stdev = o.imu_options.accel_walk_stdev = o.imu_options.gyro_noise_stdev = o.imu_options.gyro_walk_stdev = 0;
    o.imu_options.update_rate_hz = s.pick({5.0, 20.0, 250.0});
    o.car_options.t0 = k.t0;
    o.input_noise = s.pick({0.0, 0.01, 1.0});
    sim::Sim sim(o);
    VT_REQ(sim.t() == k.t0, "starts at another time");
    VT_REQ(sim.logPath() == k.path, "log path %s", sim.logPath().c_str());
    Hand gps, gal, glo;
    gps.load(k.gps), gal.load(k.gal), glo.load(k.glo);
    const size_t total = gps.want.size() + gal.want.size() + glo.want.size();
    std::vector<meas::GnssObservation> obs;
    int nobs = 0, nimu = 0;
    meas::ImuSample z;
    bool imu = false;
    std::vector<std::string> gq, aq, lq;
    const bool listen = s.chance(0.9);
    if (listen)
    {
        sim.registerGnssCB([&](std::vector<meas::GnssObservation> v) { obs = v; });
        sim.registerImuCB([&](meas::ImuSample v) { z = v, imu = true; });
        sim.registerGPSEphCb([&](const GPSEphemeris& e) { gq.push_back(bytes(e)); });
        sim.registerGalEphCb([&](const GalileoEphemeris& e) { aq.push_back(bytes(e)); });
        sim.registerGloEphCb([&](const GlonassEphemeris& e) { lq.push_back(bytes(e)); });
    }
    Rate grate{o.gnss_options.update_rate_hz_, k.t0}, irate{o.imu_options.update_rate_hz, k.t0};
    Cycles cyc;
    const int n = s.irange(5, 60);
    UTCTime t = k.t0;
    auto step = [&](int64_t ns) {
        obs.clear(), imu = false;
        const double dt = ns * 1e-9;
        // a car whose controller diverges at this step length leaves the solar system
        if (!(sim.x().x.translation().norm() < 1e5 && sim.x().dx.norm() < 300)) s.discard();
        sim.step(dt);
        VT_REQ(std::abs((sim.t() - t).toSec() - dt) < 1.5e-9, "a step of %.9f s moved the time by %.9f s", dt, (sim.t() - t).toSec());
        t = sim.t();
        if (!listen) return;
        const int must = grate.verdict(t);
        VT_REQ(must < 0 || !obs.empty() == (must == 1), "observations %d, due %d", (int)obs.size(), must);
        if (!obs.empty())
        {
            grate.last = t;
            ++nobs;
            for (auto& v : obs)
            {
                const Truth r = truth(k, v.gnss_id, v.sat_num, t, o.gnss_options, sim.x(), sim.clk());
                VT_REQ(v.t == t, "an observation bears another time than the simulation");
                VT_REQ(std::abs((double)(v.pseudorange - r.range)) < 5e-3 + r.soft, "satellite %d/%d: pseudorange off by %.5f m", v.gnss_id, v.sat_num, (double)(v.pseudorange - r.range));
                VT_REQ(std::abs((double)(v.doppler - r.rate)) < 3e-5 * (1 + std::abs((double)r.rate) * 1e-4), "satellite %d/%d: range rate off by %.7f m/s", v.gnss_id, v.sat_num, (double)(v.doppler - r.rate));
                cyc.check(v.gnss_id, v.sat_num, v.carrier_phase - v.pseudorange / r.lambda, 1e-4);
            }
        }
        const int imust = irate.verdict(t);
        VT_REQ(imust < 0 || imu == (imust == 1), "inertial sample %d, due %d", imu, imust);
        if (imu)
        {
            irate.last = t;
            ++nimu;
            VT_REQ(z.t == t, "an inertial sample bears another time than the simulation");
            const math::TwoJet<double>& x = sim.x();
            const V3 w = up(Vec3(x.dx.angular())), v = up(Vec3(x.dx.linear()));
            const V3 f = up(Vec3(x.d2x.linear())) + w.cross(v) - Pose(x.x).R().transpose() * V3(0, 0, 9.80665L);
            VT_REQ((double)(up(z.accel) - f).norm() < 1e-9 * (1 + f.norm()) && (double)(up(z.gyro) - w).norm() < 1e-9 * (1 + w.norm()), "the inertial sample is not that of the motion");
        }
        for (auto& b : gq) gps.got(b, t, "GPS");
        for (auto& b : aq) gal.got(b, t, "Galileo");
        for (auto& b : lq) glo.got(b, t, "GLONASS");
        gq.clear(), aq.clear(), lq.clear();
    };
    for (int i = 0; i < n; ++i) step(s.range(1000000, s.pick({20000000, 200000000})));
    for (int i = 0; i < 40 && listen; ++i) step(50000000ll);
    if (listen) VT_REQ(!gps.due(t) && !gal.due(t) && !glo.due(t), "an ephemeris logged long ago was not handed out");
    // beyond the end of the log nothing is left to hand out
    for (int i = 0; i < 4; ++i) step(50000000ll);
    if (listen) VT_REQ(gps.next + gal.next + glo.next == total, "%zu of %zu ephemerides handed out by the end", gps.next + gal.next + glo.next, total);
    s.note("%d steps, %d observation sets, %d inertial samples, %zu ephemerides", n, nobs, nimu, total);
    if (nobs > 1 && nimu > 1 && total > 1) s.nontrivial();
}
// the same options and inputs give the same sequence
VT_PROP(repeatable, 120, 1500)
{
    ScratchDir dir;
    Sky k = gen_sky(s, dir.path, 300000000ll);
    sim::Sim::Options o;
    o.gnss_options = gnss_options(s, k, true);
    o.car_options.t0 = k.t0;
    o.input_noise = s.logu(1e-3, 1);
    const double dt = s.logu(5e-3, 0.1);
    auto run = [&] {
        std::ostringstream out;
        srand(7);
        sim::Sim sim(o);
        sim.registerGnssCB([&](std::vector<meas::GnssObservation> v) { for (auto& z : v) out << z.pseudorange << ' ' << z.doppler << ' ' << z.carrier_phase << '\n'; });
        sim.registerImuCB([&](meas::ImuSample v) { out << v.accel.transpose() << ' ' << v.gyro.transpose() << '\n'; });
        out.precision(17);
        for (int i = 0; i < 60; ++i)
        {
            sim.step(dt);
            out << sim.x().x.translation().transpose() << " " << sim.x().dx.linear().transpose() << ' ' << sim.clk().transpose() << '\n';
        }
        return out.str();
    };
    const auto a = vt::in_child(run), b = vt::in_child(run);
    VT_REQ(a.exited && b.exited && a.code == 0 && b.code == 0, "the simulation stopped");
    VT_REQ(a.data == b.data, "two runs of the same simulation differ");
    if (a.data.size() > 10000) s.nontrivial();
}
