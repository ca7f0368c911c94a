// the repository's programs, run in a child, and what their logs should hold
#pragma once
#include <fcntl.h>
#include "sim/sim.h"
#include "skygen.h"
#include "common/logging/log_key.h"
extern "C" int simulate_main(int, char**);
namespace mg {
struct SimConfig
{
    std::string yaml;
    sim::Sim::Options o;
    double dt = 0.01, tmax = 300.0;
    int given = 0;
};
inline std::string num(double v) { return vt::sfmt("%.17g", v); }
template <typename V>
std::string list(const V& v)
{
    std::string o = "[";
    for (int i = 0; i < (int)v.size(); ++i) o += (i ? ", " : "") + num(v(i));
    return o + "]";
}
// clean: nothing but what the vehicle and the satellites do
inline SimConfig gen_sim_config(vt::Src& s, const Sky& k, const std::string& out, bool clean)
{
    SimConfig c;
    auto line = [&](const std::string& l) { c.yaml += l + "\n"; };
    line("eph_log: \"" + k.path + "\"");
    line("output_dir: \"" + out + "\"");
    auto set = [&](const char* key, double& to, double v, bool must = false) {
        if (!must && s.chance(0.25)) return;
        to = v;
        ++c.given;
        line(std::string(key) + ": " + num(v));
    };
    c.o.gnss_options.ephemeris_log = k.path;
    set("dt", c.dt, clean ? s.pick({0.01, 0.02}) : s.pick({0.005, 0.01, 0.02, 0.04}), clean);
    set("tmax", c.tmax, c.dt * s.irange(1, clean ? 600 : 150), true);
    set("max_speed", c.o.wp_options.max_speed, s.real(0.5, 20));
    set("max_omega", c.o.wp_options.max_omega, s.real(0.05, 1));
    set("gnss_update_rate", c.o.gnss_options.update_rate_hz_, s.pick({1.0, 5.0, 10.0, 40.0}), clean);
    auto noise = [&](double v) { return clean || s.chance(0.3) ? 0.0 : v; };
    set("prange_stdev", c.o.gnss_options.pseudorange_stdev_, noise(s.logu(0.1, 10)), clean);
    set("cphase_stdev", c.o.gnss_options.carrier_phase_stdev_, noise(s.logu(1e-3, 0.1)), clean);
    set("doppler_stdev", c.o.gnss_options.doppler_stdev_, noise(s.logu(1e-2, 10)), clean);
    set("multipath_prob", c.o.gnss_options.multipath_probability_, noise(s.unit()));
    set("lol_probability", c.o.gnss_options.loss_of_lock_probability_, noise(s.unit()));
    set("clock_walk_stdev", c.o.gnss_options.clock_walk_stdev_, noise(s.logu(1e-11, 1e-8)), clean);
    set("clock_init_stdev", c.o.gnss_options.clock_init_stdev_, noise(s.logu(1e-9, 1e-4)), clean);
    set("update_rate", c.o.imu_options.update_rate_hz, clean ? 250 : s.pick({10.0, 50.0, 100.0, 250.0}), clean);
    set("accel_noise_stdev", c.o.imu_options.accel_noise_stdev, noise(s.logu(1e-3, 1)), clean);
    set("accel_walk_stdev", c.o.imu_options.accel_walk_stdev, noise(s.logu(1e-4, 1e-1)), clean);
    set("gyro_noise_stdev", c.o.imu_options.gyro_noise_stdev, noise(s.logu(1e-3, 1)), clean);
    set("gyro_walk_stdev", c.o.imu_options.gyro_walk_stdev, noise(s.logu(1e-4, 1e-1)), clean);
    set("input_noise", c.o.input_noise, noise(s.logu(1e-3, 1)), clean);
    Vec3 lla(deg2Rad(40.246184), -deg2Rad(111.647769), 1387.998309);
    if (s.chance(0.8))
    {
        lla << s.sym(1.5), s.sym(3.1), s.chance(0.25) ? s.real(-400, 0) : s.real(0, 4000);
        line("ref_lla: " + list(lla));
        ++c.given;
    }
    c.o.gnss_options.T_e2n = utils::WGS84::dq_ecef2ned(utils::WGS84::lla2ecef(lla));
    c.o.gnss_options.p_b2g = s.chance(0.2) ? Vec3(Vec3::Zero()) : vec(s, 3);
    line("p_b2g: " + list(c.o.gnss_options.p_b2g));
    if (s.chance(0.6))
    {
        c.o.wp_options.waypoints.clear();
        std::string l = "waypoints: [";
        const int n = s.irange(1, 4);
        for (int i = 0; i < n; ++i)
        {
            const Vec3 w(s.sym(200), s.sym(200), s.chance(0.5) ? 0 : s.sym(5));
            c.o.wp_options.waypoints.push_back(w);
            l += (i ? ", " : "") + list(w);
        }
        line(l + "]");
        ++c.given;
    }
    c.o.car_options.t0 = k.t0;
    return c;
}
struct TruthRec
{
    UTCTime t;
    math::TwoJet<double> x;
    math::DQuat<double> T_e2g;
    Vec2 clk;
};
template <typename T>
struct At
{
    UTCTime t;
    T v;
};
struct Recorded
{
    UTCTime start, end;
    std::vector<TruthRec> truth;
    std::vector<At<meas::ImuSample>> imu;
    std::vector<At<meas::GnssObservation>> obs;
};
template <typename... T>
std::string bytes_of(const T&... x)
{
    std::ostringstream o;
    (logging::log(o, x), ...);
    return o.str();
}
inline void quiet_child()
{
    int fd = open("/dev/null", O_WRONLY);
    dup2(fd, 1);
    dup2(fd, 2);
}
inline std::vector<char*> argv_of(std::vector<std::string>& a)
{
    std::vector<char*> v;
    for (auto& x : a) v.push_back(x.data());
    v.push_back(nullptr);
    return v;
}
inline void write_file(const std::string& p, const std::string& t)
{
    std::ofstream f(p);
    f << t;
}
// what a program finds on its stack is not zeros
__attribute__((noinline)) inline void dirty_stack()
{
    volatile unsigned char b[1 << 19];
    for (size_t i = 0; i < sizeof b; ++i) b[i] = 0x40;
}
inline vt::ChildResult run_program(int (*fn)(int, char**), const std::string& cwd, std::vector<std::string> args)
{
    fs::create_directories(cwd);
    return vt::in_child([&] {
        quiet_child();
        if (chdir(cwd.c_str())) _exit(77);
        srand(7);
        auto v = argv_of(args);
        dirty_stack();
        fn((int)args.size(), v.data());
        return std::string("end");
    });
}
inline vt::ChildResult run_simulate(const ScratchDir& dir, const SimConfig& c)
{
    write_file(dir.path + "/sim.yaml", c.yaml);
    fs::create_directories(dir.path + "/out");
    return run_program(simulate_main, dir.path + "/run", {"simulate", "--config_file", dir.path + "/sim.yaml"});
}
// call after the program: it starts from the same state of the random generators
inline Recorded simulated(const SimConfig& c)
{
    Quiet q;
    srand(7);
    Recorded r;
    sim::Sim sim(c.o);
    r.start = sim.t();
    sim.registerGnssCB([&](std::vector<meas::GnssObservation> v) {
        for (auto& z : v) r.obs.push_back({sim.t(), z});
    });
    sim.registerImuCB([&](meas::ImuSample v) { r.imu.push_back({sim.t(), v}); });
    const UTCTime end = r.start + c.tmax;
    while (sim.t() < end)
    {
        sim.step(c.dt);
        r.truth.push_back({sim.t(), sim.x(), sim.T_e2g(), sim.clk()});
    }
    return r;
}
inline Recorded recorded(const std::string& path)
{
    Quiet q;
    Recorded r;
    logging::LogReader log(path);
    r.start = log.startTime();
    r.end = log.endTime();
    log.setCallback(logging::TRUTH_POSE, [&](const UTCTime& t, int, logging::StreamReader& f) {
        TruthRec x;
        f.get(x.x, x.T_e2g, x.clk);
        x.t = t;
        r.truth.push_back(x);
    });
    log.setCallback(logging::IMU_SAMPLE, [&](const UTCTime& t, int, logging::StreamReader& f) {
        meas::ImuSample z;
        f.get(z);
        r.imu.push_back({t, z});
    });
    log.setCallback(logging::GNSS_OBS, [&](const UTCTime& t, int, logging::StreamReader& f) {
        meas::GnssObservation z;
        f.get(z);
        r.obs.push_back({t, z});
    });
    log.read();
    return r;
}
inline std::vector<std::string> read_eph(const std::string& path)
{
    Quiet q;
    std::vector<std::string> v;
    logging::LogReader log(path);
    log.setCallback(logging::GPS_EPH, [&](const UTCTime& t, int, logging::StreamReader& f) { GPSEphemeris e; f.get(e); v.push_back(bytes_of(t.sec, t.nsec, e)); });
    log.setCallback(logging::GAL_EPH, [&](const UTCTime& t, int, logging::StreamReader& f) { GalileoEphemeris e; f.get(e); v.push_back(bytes_of(t.sec, t.nsec, e)); });
    log.setCallback(logging::GLO_EPH, [&](const UTCTime& t, int, logging::StreamReader& f) { GlonassEphemeris e; f.get(e); v.push_back(bytes_of(t.sec, t.nsec, e)); });
    log.read();
    std::sort(v.begin(), v.end());
    return v;
}
// what reading a written pose gives (it is stored as rotation and translation)
inline TruthRec reread(const TruthRec& x)
{
    std::stringstream f;
    logging::log(f, x.x), logging::log(f, x.T_e2g), logging::log(f, x.clk);
    TruthRec y = x;
    logging::read(f, y.x, y.T_e2g, y.clk);
    return y;
}
template <typename T>
At<T> reread(const At<T>& x) { return x; }
inline std::string rec_bytes(const TruthRec& x) { return bytes_of(x.t.sec, x.t.nsec, x.x, x.T_e2g, x.clk); }
template <typename T>
std::string rec_bytes(const At<T>& x) { return bytes_of(x.t.sec, x.t.nsec, x.v); }
template <typename V>
void same_records(const V& want, const V& got, const char* what, const std::string& cfg)
{
    VT_REQ(want.size() == got.size(), "%zu %s records, the simulation makes %zu\n%s", got.size(), what, want.size(), cfg.c_str());
    for (size_t i = 0; i < want.size(); ++i)
        VT_REQ(rec_bytes(reread(want[i])) == rec_bytes(got[i]), "%s record %zu (at %.9f s) is not that of the simulation with these options\n%s", what, i, (want[i].t - want[0].t).toSec(), cfg.c_str());
}
}  // namespace mg
