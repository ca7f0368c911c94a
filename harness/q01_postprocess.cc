// Q01: post-processing a log is running the filter over it, from the configured or the true start
#include "core/ekf/rtk_ekf_estimator.h"
#include "progs.h"
extern "C" int post_main(int, char**);
using namespace mg;
using ekf::InputCovariance;
using ekf::ProcessCovariance;
using ekf::RtkEkfEstimator;
using ekf::State;
using math::DQuat;
using Obs = std::vector<meas::GnssObservation>;
using Mat30 = Mat<30>;
static const double LIMIT = 45.0, EVERY = 0.01, SPLIT = 0.01, VALID = 7200;
struct PostConfig
{
    std::string yaml;
    State x;
    ekf::Input u;
    ProcessCovariance p0, q;
    Vec6 point;
    Vec2 obs;
    Vec1 hold;
    InputCovariance imu;
};
template <typename V>
static V stdevs(vt::Src& s, double lo, double hi)
{
    V v;
    const bool z = s.chance(0.15), same = s.chance(0.3);
    const double c = s.logu(lo, hi);
    for (int i = 0; i < v.size(); ++i) v(i) = z ? 0 : same ? c : s.logu(lo, hi);
    return v;
}
static ProcessCovariance gen_block(vt::Src& s, PostConfig& c, const std::string& key, double k)
{
    ProcessCovariance p;
    std::string& y = c.yaml;
    y += key + ":\n";
    auto put = [&](const char* name, auto& to, double lo, double hi) {
        using V = std::decay_t<decltype(to)>;
        const V v = stdevs<V>(s, lo * k, hi * k);
        to = v.cwiseProduct(v);
        y += std::string("  ") + name + ": " + list(v) + "\n";
    };
    Vec3 r, t;
    put("rotation", r, 1e-4, 0.1);
    put("translation", t, 1e-3, 1);
    p.pose << r, t;
    put("vel", p.vel, 1e-2, 0.3);
    put("acc_bias", p.accBias, 1e-3, 0.3);
    put("gyro_bias", p.gyroBias, 1e-4, 0.1);
    put("gps_clk", p.gpsClk, 1e-2, 3);
    put("gal_clk", p.galClk, 1e-2, 3);
    put("glo_clk", p.gloClk, 1e-2, 3);
    put("p_b2g", p.pB2g, 1e-3, 0.1);
    put("T_I2e", p.TI2e, 1e-6, 1e-2);
    put("sd", p.sd, 1e-3, 1);
    return p;
}
// what does not depend on the way the filter is started
static PostConfig gen_config(vt::Src& s)
{
    PostConfig c;
    c.p0 = gen_block(s, c, "P0_stdev", 1);
    c.q = gen_block(s, c, "process_stdev", 0.1);
    auto put = [&](const std::string& name, auto& to, double lo, double hi) {
        using V = std::decay_t<decltype(to)>;
        V v;
        for (int i = 0; i < v.size(); ++i) v(i) = s.logu(lo, hi);
        to = v.cwiseProduct(v);
        c.yaml += name + ": " + list(v) + "\n";
    };
    put("point_pos_stdev", c.point, 1e-2, 10);
    put("obs_stdev", c.obs, 1e-2, 10);
    c.yaml += "imu_stdev:\n";
    put("  accel", c.imu.accel, 1e-3, 1);
    put("  gyro", c.imu.gyro, 1e-4, 1e-1);
    const double h = s.logu(1e-4, 1);
    c.hold(0) = h * h;
    c.yaml += "fix_and_hold_stdev: " + num(h) + "\n";
    c.x.vel.setZero(), c.x.acc_bias.setZero(), c.x.gyro_bias.setZero(), c.x.p_b2g.setZero();
    c.x.gps_clk.setZero(), c.x.gal_clk.setZero(), c.x.glo_clk.setZero();
    c.u.accel << 0, 0, -9.80665;
    c.u.gyro.setZero();
    return c;
}
static void put_start(PostConfig& c, bool truth, const Vec3& lever, const Vec3& p, const Vec4& q, const Vec3& v, const Vec3& lla_deg, double heading)
{
    c.yaml += std::string("use_init_sim_state: ") + (truth ? "true" : "false") + "\n";
    c.yaml += "p_b2g0: " + list(lever) + "\ntranslation0: " + list(p) + "\nrotation0: " + list(q) + "\nvel0: " + list(v) + "\nlla0_deg: " + list(lla_deg) + "\nheading0_deg: " + num(heading) + "\n";
    c.x.p_b2g = lever;
}
// ---- the log: what is in it, in the order it is replayed ---------------------------------------
struct Input
{
    UTCTime start;
    Recorded rec;
    std::vector<std::pair<UTCTime, int>> order;  // the inertial samples and observations
    std::vector<GPSEphemeris> gps;
    std::vector<GalileoEphemeris> gal;
    std::vector<GlonassEphemeris> glo;
};
static Input read_input(const std::string& path)
{
    Input in;
    in.rec = recorded(path);
    Quiet q;
    {
        logging::LogReader log(path);
        in.start = log.startTime();
        log.setCallback(logging::IMU_SAMPLE, [&](const UTCTime& t, int k, logging::StreamReader& f) { meas::ImuSample z; f.get(z); in.order.push_back({t, k}); });
        log.setCallback(logging::GNSS_OBS, [&](const UTCTime& t, int k, logging::StreamReader& f) { meas::GnssObservation z; f.get(z); in.order.push_back({t, k}); });
        log.read();
    }
    logging::LogReader log(path);
    auto fresh = [](const UTCTime& t, const UTCTime& toe) { return std::abs((double)(t.sec - toe.sec) + (t.nsec - toe.nsec) * 1e-9) <= VALID; };
    log.setCallback(logging::GPS_EPH, [&](const UTCTime& t, int, logging::StreamReader& f) { GPSEphemeris e; f.get(e); if (fresh(t, e.toe)) in.gps.push_back(e); });
    log.setCallback(logging::GAL_EPH, [&](const UTCTime& t, int, logging::StreamReader& f) { GalileoEphemeris e; f.get(e); if (fresh(t, e.toe)) in.gal.push_back(e); });
    log.setCallback(logging::GLO_EPH, [&](const UTCTime& t, int, logging::StreamReader& f) { GlonassEphemeris e; f.get(e); if (fresh(t, e.toe)) in.glo.push_back(e); });
    log.read();
    return in;
}
struct Est
{
    UTCTime t;
    DQuat<double> pose;
    Vec3 vel, gyro, accel, p_ecef;
    Vec2 gps, gal, glo;
    Mat30 cov;
};
struct Res
{
    UTCTime t;
    int sat;
    Vec2 res, z, zhat;
};
struct Output
{
    std::vector<Est> est;
    std::vector<Res> res;
};
static Output read_output(const std::string& path)
{
    Quiet q;
    Output o;
    logging::LogReader log(path);
    log.setCallback(logging::ESTIMATE, [&](const UTCTime& t, int, logging::StreamReader& f) {
        Est e;
        e.t = t;
        f.get(e.pose, e.vel, e.gyro, e.accel, e.p_ecef, e.gps, e.gal, e.glo, e.cov);
        o.est.push_back(e);
    });
    log.setCallback(logging::GPS_OBS_RESIDUAL, [&](const UTCTime& t, int, logging::StreamReader& f) {
        Res r;
        r.t = t;
        f.get(r.sat, r.res, r.z, r.zhat);
        o.res.push_back(r);
    });
    log.read();
    return o;
}
// the filter over the log, by a driver of its own
static Output drive(const PostConfig& c, const Input& in, const std::string& tmp)
{
    Quiet quiet;
    Output o;
    RtkEkfEstimator f;
    for (auto& e : in.gps) f.ephCb(e);
    for (auto& e : in.gal) f.ephCb(e);
    for (auto& e : in.glo) f.ephCb(e);
    {
        logging::Logger log(c.x.t, tmp);
        f.init(c.x.t, c.x, c.p0, c.point, c.obs, c.hold, c.imu, c.q, &log);
        f.u() = c.u;
        UTCTime next = in.start;
        size_t i = 0, g = 0;
        for (auto& ev : in.order)
        {
            if (ev.first >= next.quantized())
            {
                if ((ev.first - c.x.t).toSec() > LIMIT) break;
                o.est.push_back({f.t(), f.x().pose, f.x().vel, f.u().gyro, f.u().accel, f.p_ecef(), f.x().gps_clk, f.x().gal_clk, f.x().glo_clk, Mat30(f.cov().dense(0))});
                next += EVERY;
            }
            if (ev.second == logging::IMU_SAMPLE)
            {
                const auto& z = in.rec.imu[i++];
                ekf::ImuMeas m;
                m.z.accel = z.v.accel, m.z.gyro = z.v.gyro;
                f.addMeasurement(z.t, m);
                continue;
            }
            // an epoch ends where no observation follows within the splitting interval
            const auto& all = in.rec.obs;
            const size_t k = g++;
            if (k + 1 < all.size() && !((all[k + 1].t - all[k].t).toSec() > SPLIT)) continue;
            size_t a = k;
            while (a > 0 && !((all[a].t - all[a - 1].t).toSec() > SPLIT)) --a;
            Obs b;
            for (size_t j = a; j <= k; ++j)
                if (all[j].v.t == all[a].v.t) b.push_back(all[j].v);
            f.addMeasurement(all[k].t, b);
        }
        log.close(satgen::at(c.x.t, 100000000000ll));
    }
    o.res = read_output(tmp).res;
    return o;
}
static bool near(double a, double b, double tol) { return std::abs(a - b) <= tol * (1 + std::abs(b)); }
static void same(const Output& want, const Output& got, const PostConfig& c)
{
    VT_REQ(got.est.size() == want.est.size(), "%zu estimates, the filter over this log gives %zu", got.est.size(), want.est.size());
    for (size_t i = 0; i < want.est.size(); ++i)
    {
        const Est &a = want.est[i], &b = got.est[i];
        const double at = (a.t - c.x.t).toSec();
        VT_REQ(a.t == b.t, "estimate %zu is stamped %.9f s from the start, should be %.9f s", i, (b.t - c.x.t).toSec(), at);
        const Pose pa(a.pose), pb(b.pose);
        VT_REQ((double)(pa.t - pb.t).norm() < 1e-8 * (1 + (double)pa.t.norm()) && (double)(pa.R() - pb.R()).norm() < 1e-9, "estimate %zu (%.3f s): pose off by %g m, %g rad", i, at, (double)(pa.t - pb.t).norm(), (double)(pa.R() - pb.R()).norm());
        VT_REQ((a.vel - b.vel).norm() < 1e-9 * (1 + a.vel.norm()), "estimate %zu (%.3f s): velocity off by %g", i, at, (a.vel - b.vel).norm());
        VT_REQ((a.gyro - b.gyro).norm() < 1e-12 && (a.accel - b.accel).norm() < 1e-11, "estimate %zu (%.3f s): input off by %g, %g", i, at, (a.gyro - b.gyro).norm(), (a.accel - b.accel).norm());
        VT_REQ((a.p_ecef - b.p_ecef).norm() < 2e-6, "estimate %zu (%.3f s): antenna off by %g m", i, at, (a.p_ecef - b.p_ecef).norm());
        VT_REQ(a.gps == b.gps && a.gal == b.gal && a.glo == b.glo, "estimate %zu (%.3f s): clocks differ", i, at);
        for (int r = 0; r < 30; ++r)
            for (int k = 0; k < 30; ++k) VT_REQ(std::abs(a.cov(r, k) - b.cov(r, k)) <= 1e-7 * (std::sqrt(std::abs(a.cov(r, r) * a.cov(k, k))) + 1e-9), "estimate %zu (%.3f s): covariance (%d,%d) is %g, should be %g", i, at, r, k, b.cov(r, k), a.cov(r, k));
    }
    VT_REQ(got.res.size() == want.res.size(), "%zu residuals, the filter over this log gives %zu", got.res.size(), want.res.size());
    for (size_t i = 0; i < want.res.size(); ++i)
    {
        const Res &a = want.res[i], &b = got.res[i];
        VT_REQ(a.t == b.t && a.sat == b.sat && a.z == b.z, "residual %zu: of another observation", i);
        VT_REQ(near(a.zhat(0), b.zhat(0), 1e-11) && near(a.zhat(1), b.zhat(1), 1e-8) && near(b.z(0) - b.zhat(0), b.res(0), 1e-7), "residual %zu: predicted %.6f %.9f, should be %.6f %.9f", i, b.zhat(0), b.zhat(1), a.zhat(0), a.zhat(1));
    }
}
static Output run_post(const ScratchDir& dir, const PostConfig& c, const std::string& log)
{
    write_file(dir.path + "/post.yaml", c.yaml);
    const auto r = run_program(post_main, dir.path + "/work/run", {"post_process", "--config_file", dir.path + "/post.yaml", "--log", log});
    VT_REQ(r.exited, "the program stopped (code %d, signal %d) %s", r.code, r.sig, r.data.c_str());
    return read_output(dir.path + "/work/logs/post_process");
}
// ---- the simulation, post-processed: the estimates are the truth -------------------------------
VT_PROP(simulated_log, 14, 300)
{
    ScratchDir dir;
    const Sky k = gen_sky(s, dir.path + "/eph", 1000000000ll);
    const SimConfig sc = gen_sim_config(s, k, dir.path + "/out", true);
    const auto r = run_simulate(dir, sc);
    VT_REQ(r.code == 0 && r.sig == 0, "the simulation stopped (code %d, signal %d) %s", r.code, r.sig, r.data.c_str());
    PostConfig c = gen_config(s);
    const Vec3 lever = sc.o.gnss_options.p_b2g;
    put_start(c, true, lever, vec(s, 10), Vec4(1, 0, 0, 0), vec(s, 3), vec(s, 50), s.sym(180));
    const Output got = run_post(dir, c, dir.path + "/out");
    const Input in = read_input(dir.path + "/out");
    const TruthRec& t0 = in.rec.truth.at(0);
    for (auto& x : in.rec.truth)
        if (!(x.x.dx.norm() < 100)) s.discard();  // a car whose controller diverges
    VT_REQ(!got.est.empty(), "no estimates");
    VT_REQ(got.est[0].t == t0.t, "the filter starts %.3f s off the first true pose", (got.est[0].t - t0.t).toSec());
    VT_REQ((got.est[0].p_ecef - t0.T_e2g.translation()).norm() < 1e-5, "the filter starts with the antenna %g m from where it is", (got.est[0].p_ecef - t0.T_e2g.translation()).norm());
    // dead reckoning with each step's last acceleration and rate: first order in the step length
    double bound = 1e-5, vb = 1e-6, rb = 1e-9, path = 0;
    size_t j = 0, seen = 0;
    UTCTime last = t0.t;
    for (auto& e : got.est)
    {
        while (j < in.rec.truth.size() && in.rec.truth[j].t < e.t)
        {
            const auto &a = in.rec.truth[j].x, &b = in.rec.truth[std::min(j + 1, in.rec.truth.size() - 1)].x;
            const double h = sc.dt, w = std::max(a.dx.angular().norm(), b.dx.angular().norm()), v = std::max(a.dx.linear().norm(), b.dx.linear().norm());
            rb += h * ((a.dx.angular() - b.dx.angular()).norm() + h * (w * w + a.d2x.angular().norm() + b.d2x.angular().norm()));
            vb += h * ((a.d2x - b.d2x).norm() + rb * (10 + v + w * v) + h * (1 + w) * (1 + w) * (a.d2x.norm() + b.d2x.norm() + v + 10)) ;
            bound += h * (vb + rb * v + h * (a.d2x.linear().norm() + w * v));
            path += h * v;
            ++j;
        }
        if (j >= in.rec.truth.size()) break;
        const TruthRec& x = in.rec.truth[j];
        if (!(x.t == e.t)) continue;
        ++seen;
        const double off = (e.p_ecef - x.T_e2g.translation()).norm();
        VT_REQ(off < bound + 3 * rb * lever.norm(), "%.3f s after the start the antenna is %g m from the truth (bound %g)", (e.t - t0.t).toSec(), off, bound);
        const Pose a(e.pose), b(x.x.x);
        VT_REQ((double)(a.t - b.t).norm() < bound, "%.3f s after the start the vehicle is %g m from the truth (bound %g)", (e.t - t0.t).toSec(), (double)(a.t - b.t).norm(), bound);
    }
    VT_REQ(seen > 0, "no estimate at the time of a true pose");
    c.x.t = t0.t;
    c.x.pose = t0.x.x;
    c.x.vel = t0.x.dx.linear();
    c.x.T_I2e = sc.o.gnss_options.T_e2n.inverse();
    c.u.accel = t0.x.d2x.linear() - Vec3(0, 0, 9.80665);
    c.u.gyro = t0.x.dx.angular();
    same(drive(c, in, dir.path + "/ref"), got, c);
    s.note("%zu estimates, %zu residuals, %zu satellites, %.1f m driven, bound %.3f m", got.est.size(), got.res.size(), k.sats.size(), path, bound);
    if (got.est.size() > 3 && got.res.size() > 0) s.nontrivial();
}
// ---- any log ------------------------------------------------------------------------------------
VT_PROP(any_log, 60, 1500)
{
    ScratchDir dir;
    const Sky k = gen_sky(s, dir.path + "/eph", 1000000000ll, true);
    PostConfig c = gen_config(s);
    const bool truth = s.chance(0.4), longrun = s.chance(0.12);
    const Vec3 lever = s.chance(0.2) ? Vec3(Vec3::Zero()) : vec(s, 3), p = vec(s, 100), v = vec(s, 20);
    const Vec3 lla(s.chance(0.1) ? 0 : s.sym(89), s.chance(0.1) ? 0 : s.sym(180), s.chance(0.25) ? s.real(-400, 0) : s.real(0, 3000));
    const double heading = s.pick({0.0, 90.0, s.sym(180), s.sym(180), s.sym(10)});
    math::Quat<double> q = math::Quat<double>::from_euler(s.sym(3), s.sym(1.5), s.sym(3));
    // what the start should be
    const Vec3 rad(lla(0) * M_PI / 180, lla(1) * M_PI / 180, lla(2));
    const Vec3 origin = utils::WGS84::lla2ecef(rad);
    c.x.pose = DQuat<double>(q, p);
    c.x.vel = v;
    c.x.t = k.t0;
    DQuat<double> T_e2n = utils::WGS84::dq_ecef2ned(origin);
    if (!truth && heading != 0)
    {
        // the same origin, turned about the vertical there
        const double h = -heading * M_PI / 180;
        Vec4 hq(std::cos(h / 2), 0, 0, std::sin(h / 2));
        const math::Quat<double> turn(hq.data());
        T_e2n = T_e2n * DQuat<double>(turn, Vec3(0, 0, 0));
    }
    c.x.T_I2e = T_e2n.inverse();
    const std::string in_dir = dir.path + "/in";
    std::string path;
    int bundles = 0;
    {
        Quiet quiet;
        logging::Logger log(k.t0, in_dir);
        path = in_dir + "/" + log.logId();
        log.initStream<meas::ImuSample>(logging::IMU_SAMPLE, {"imu"});
        log.initStream<meas::GnssObservation>(logging::GNSS_OBS, {"obs"});
        log.initStream<math::TwoJet<double>, DQuat<double>, Vec2>(logging::TRUTH_POSE, {"pose", "T_e2g", "clk"});
        log.amends(k.path);
        const int64_t span = longrun ? s.range(44, 60) * 1000000000ll : s.range(20, 3000) * 1000000ll;
        // where it is when the log starts, or a little later
        const int64_t tt = s.chance(0.5) ? 0 : s.range(0, 200) * 1000000ll;
        math::TwoJet<double> j;
        j.x = c.x.pose;
        for (int i = 0; i < 3; ++i) j.dx.angular()(i) = s.sym(1), j.d2x.angular()(i) = s.sym(1), j.d2x.linear()(i) = s.sym(5);
        j.dx.linear() = v;
        const math::Quat<double> q_b2e = j.x.rotation().inverse() * T_e2n.inverse().rotation();
        const DQuat<double> T_e2g(q_b2e.inverse(), T_e2n.transforma(j.x.transforma(lever)));
        log.log(logging::TRUTH_POSE, satgen::at(k.t0, tt), j, T_e2g, Vec2(Vec2::Zero()));
        if (truth)
        {
            c.x.t = satgen::at(k.t0, tt);
            c.u.accel = j.d2x.linear() - Vec3(0, 0, 9.80665);
            c.u.gyro = j.dx.angular();
        }
        const int64_t step = longrun ? s.pick({200, 500}) * 1000000ll : s.pick({4, 10, 25, 100}) * 1000000ll;
        const bool jitter = s.flip();
        for (int64_t ns = s.range(0, step); ns < span; ns += jitter ? s.range(step / 3, step * 2) : step)
        {
            meas::ImuSample z;
            z.t = satgen::at(k.t0, ns);
            for (int i = 0; i < 3; ++i) z.accel(i) = s.sym(3) - (i == 2 ? 9.8 : 0), z.gyro(i) = s.sym(0.5);
            log.log(logging::IMU_SAMPLE, z.t, z);
        }
        std::vector<std::pair<int, int>> sats;
        for (auto& x : k.sats) sats.push_back(x.first);
        const int64_t period = longrun ? 5000000000ll : s.pick({50, 100, 200, 1000}) * 1000000ll;
        const int mode = s.irange(0, 3);
        for (int64_t ns = s.range(0, period); ns < span; ns += period + (mode == 3 ? s.range(-9, 9) * 1000000ll : 0))
        {
            UTCTime at = satgen::at(k.t0, ns);
            const UTCTime epoch = at;
            ++bundles;
            for (auto& x : sats)
            {
                if (s.chance(0.1)) continue;
                meas::GnssObservation z;
                z.setZero();
                z.t = mode == 1 && s.chance(0.2) ? satgen::at(epoch, s.range(1, 5) * 1000000ll) : epoch;
                z.gnss_id = x.first;
                z.sat_num = s.chance(0.01) ? 30 : x.second;
                if (!k.stale.empty() && s.chance(0.03))
                {
                    const auto& q = k.stale[s.irange(0, (int)k.stale.size() - 1)];
                    z.gnss_id = q.first, z.sat_num = q.second;
                }
                z.pseudorange = 2.2e7 + s.sym(3e6);
                z.doppler = s.sym(800);
                z.carrier_phase = s.sym(1e8);
                log.log(logging::GNSS_OBS, at, z);
                if (mode == 2) at = satgen::at(at, s.pick({0, 0, 1, 9, 11}) * 1000000ll);
            }
            ns += ((at.sec - epoch.sec) * 1000000000ll + (at.nsec - epoch.nsec));
        }
        log.close(satgen::at(k.t0, span));
    }
    put_start(c, truth, lever, p, Vec4(q.w(), q.x(), q.y(), q.z()), v, lla, heading);
    const Output got = run_post(dir, c, s.flip() ? path : in_dir);
    const Input in = read_input(path);
    const Output want = drive(c, in, dir.path + "/ref");
    same(want, got, c);
    s.note("%s, %zu inertial samples, %d epochs, %zu estimates, %zu residuals, heading %g", truth ? "true start" : "configured start", in.rec.imu.size(), bundles, got.est.size(), got.res.size(), truth ? 0 : heading);
    if (got.est.size() > 3 && got.res.size() > 0) s.nontrivial();
}
