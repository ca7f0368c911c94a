// K09: the residuals that the filter logs are the innovations of the measurements it applied
#include "estgen.h"
#include "common/logging/log_key.h"
#include "common/logging/log_reader.h"
#include "common/satellite/satellite.h"
#include "loggen.h"
using namespace eg;
struct Rec
{
    UTCTime t;
    int sat = 0;
    Eigen::VectorXd res, z, zhat;
};
struct Logs
{
    std::vector<Rec> obs, pos, held;
};
static Logs read_logs(const std::string& path)
{
    Logs o;
    logging::LogReader log(path);
    log.setCallback(logging::GPS_OBS_RESIDUAL, [&](const UTCTime& t, int, logging::StreamReader& f) {
        Rec r;
        Vec2 a, b, c;
        f.get(r.sat, a, b, c);
        r.t = t, r.res = a, r.z = b, r.zhat = c;
        o.obs.push_back(r);
    });
    log.setCallback(logging::POINT_POS_RESIDUAL, [&](const UTCTime& t, int, logging::StreamReader& f) {
        Rec r;
        pointPosMeas::Residual a;
        pointPosMeas::ZType b, c;
        f.get(a, b, c);
        r.t = t, r.res = a, r.z = b, r.zhat = c;
        o.pos.push_back(r);
    });
    log.setCallback(logging::FIX_AND_HOLD_RESIDUAL, [&](const UTCTime& t, int, logging::StreamReader& f) {
        Rec r;
        fixAndHoldMeas::Residual a, b, c;
        f.get(a, b, c);
        r.t = t, r.res = a, r.z = b, r.zhat = c;
        o.held.push_back(r);
    });
    log.read();
    return o;
}
// what the predictions should be, from a run in order
struct Want
{
    M m;
    std::vector<int> sats;
    Eigen::VectorXd zhat;
};
static std::vector<Want> innovations(const Setup& u, std::vector<M> in)
{
    std::sort(in.begin(), in.end(), [](const M& a, const M& b) { return a.ns != b.ns ? a.ns < b.ns : a.kind < b.kind; });
    std::vector<Want> w;
    Snapshot cur;
    cur.x = u.x0;
    cur.cov = u.P0;
    cur.u.accel = Vec3(0, 0, -9.80665);
    cur.u.gyro.setZero();
    int64_t at = 0;
    for (const M& m : in)
    {
        const UTCTime t = satgen::at(u.t0, m.ns);
        if (m.ns - at > HALF)
        {
            Snapshot n;
            const Input in = m.kind == 0 ? m.imu : cur.u;
            ekf::predict(cur, t, in, u.proc, u.imu_cov, make_out(n));
            cur = n;
            at = m.ns;
        }
        if (m.kind == 0 || (m.kind == 3 && m.held.z.empty())) continue;  // nothing to apply
        Want o;
        o.m = m;
        const S x(cur.x);
        const V3 p = x.antenna_e(), v = x.antenna_vel_e(up(cur.u.gyro));
        if (m.kind == 2)
        {
            o.zhat.resize(6);
            for (int i = 0; i < 3; ++i) o.zhat(i) = (double)p(i), o.zhat(3 + i) = (double)v(i);
            ekf::update<pointPosMeas>(make_out(cur), m.pos.z, u.pos_cov, cur.u);
        }
        if (m.kind == 3)
        {
            o.zhat.resize(m.held.z.size());
            for (size_t i = 0; i < m.held.z.size(); ++i) o.zhat(i) = cur.x.sd[i](0);
            ekf::update<fixAndHoldMeas>(make_out(cur), m.held.z, u.held_cov);
        }
        if (m.kind == 1)
        {
            o.zhat.resize(2 * m.obs.size());
            for (size_t i = 0; i < m.obs.size(); ++i)
            {
                satellite::SatelliteCache c;
                satellite::Satellite<GPSEphemeris> sat(GnssID::GPS, m.obs[i].sat_num);
                for (auto& e : u.gps) if (e.sat == m.obs[i].sat_num) sat.addEph(e);
                c.update(t, Vec3((double)p(0), (double)p(1), (double)p(2)), sat);
                const Vec2 zero = Vec2::Zero();
                obsMeas::ZType z;
                z.push_back({zero, c, GnssID::GPS});
                o.zhat.segment<2>(2 * i) = -ekf::h<obsMeas>(z, cur.x, nullptr, cur.u).head<2>();
                o.sats.push_back(m.obs[i].sat_num);
            }
        }
        w.push_back(o);
    }
    return w;
}
static bool tied(const Rec& r, double tol)
{
    for (int i = 0; i < r.res.size(); ++i)
        if (!(std::abs(r.z(i) - r.zhat(i) - r.res(i)) <= tol * (1 + std::abs(r.z(i))))) return false;
    return true;
}
// in order: one record per applied measurement; out of order: every record is of a measurement that was
// accepted, and the last one of each shows the estimate with everything earlier applied
static void run(vt::Src& s, bool late)
{
    const Setup u = gen_setup(s, s.chance(0.5));
    const int n = s.irange(1, 25);
    const int64_t span = s.pick({20000000ll, 300000000ll, 900000000ll});
    std::vector<M> h;
    std::set<std::pair<int64_t, int>> used;
    int64_t last = 0;
    for (int i = 0; i < n; ++i)
    {
        const int64_t t = i && s.chance(0.3) ? std::max<int64_t>(1, last + s.pick({0, 1, 49999, 50001, 100001})) : s.range(1, span);
        const M m = gen_meas(s, u, t);
        // records are told apart by their time
        if (!used.insert({m.ns, m.kind}).second) continue;
        last = m.ns;
        h.push_back(m);
    }
    if (late)
    {
        const auto p = s.perm((int)h.size());
        std::vector<M> q;
        for (int i : p) q.push_back(h[i]);
        h = q;
    }
    else
        std::sort(h.begin(), h.end(), [](const M& a, const M& b) { return a.ns != b.ns ? a.ns < b.ns : a.kind < b.kind; });
    ScratchDir dir;
    const std::string out = dir.path + "/out";
    std::vector<M> acc;
    int refused = 0, moved = 0;
    int64_t newest = -1;
    auto e = std::make_unique<RtkEkfEstimator>();
    std::string path;
    {
        Quiet q;
        logging::Logger log(u.t0, out);
        path = out + "/" + log.logId();
        e->init(u.t0, u.x0, u.P0, u.pos_cov, u.obs_cov, u.held_cov, u.imu_cov, u.proc, &log);
        for (auto& g : u.gps) e->ephCb(g);
        for (auto& g : u.gal) e->ephCb(g);
        for (const M& m : h)
        {
            if (s.chance(0.15))
            {
                // a measurement that cannot be used: nothing about it is logged
                M b = m;
                if (b.kind == 1) b.obs[0].sat_num = 17;
                else if (b.kind == 2) b.pos.z(s.irange(0, 5)) = s.pick({(double)NAN, (double)INFINITY});
                else if (b.kind == 3) b.held.z.push_back(Vec1(1.0));
                else b.imu.gyro(1) = NAN;
                VT_REQ(!give(*e, u, b).ok(), "an unusable measurement of kind %d was accepted", b.kind);
                ++refused;
            }
            if (m.ns < newest) ++moved;
            if (give(*e, u, m).ok()) acc.push_back(m), newest = std::max(newest, m.ns);
        }
        log.close(satgen::at(u.t0, 10000000000ll));
    }
    Logs got;
    {
        Quiet q;
        got = read_logs(path);
    }
    const auto want = innovations(u, acc);
    size_t nobs = 0, npos = 0, nheld = 0;
    for (auto& w : want)
    {
        const UTCTime t = satgen::at(u.t0, w.m.ns);
        const double at = w.m.ns * 1e-9;
        auto find = [&](const std::vector<Rec>& v, int sat) {
            const Rec* r = nullptr;
            int k = 0;
            for (auto& x : v)
                if (x.t == t && x.sat == sat) r = &x, ++k;
            VT_REQ(r, "nothing logged for the measurement of kind %d at %.9f s", w.m.kind, at);
            VT_REQ(late || k == 1, "%d records for the measurement of kind %d at %.9f s", k, w.m.kind, at);
            return r;
        };
        if (w.m.kind == 2)
        {
            ++npos;
            const Rec* r = find(got.pos, 0);
            VT_REQ(r->z == Eigen::VectorXd(w.m.pos.z), "position at %.9f s: another measurement logged", at);
            for (int i = 0; i < 6; ++i)
                VT_REQ(std::abs(r->zhat(i) - w.zhat(i)) <= (i < 3 ? 1e-6 : 1e-7) * (1 + 1e-3 * w.zhat.head<3>().norm() * 1e-3), "position at %.9f s: element %d predicted %.9f, should be %.9f", at, i, r->zhat(i), w.zhat(i));
        }
        if (w.m.kind == 3)
        {
            ++nheld;
            const Rec* r = find(got.held, 0);
            for (int i = 0; i < r->z.size(); ++i)
            {
                if (i >= w.zhat.size())
                {
                    VT_REQ(std::isnan(r->z(i)) && std::isnan(r->zhat(i)), "held at %.9f s: element %d of %d is given", at, i, (int)w.zhat.size());
                    continue;
                }
                VT_REQ(r->z(i) == w.m.held.z[i](0), "held at %.9f s: element %d is %g, measured %g", at, i, r->z(i), w.m.held.z[i](0));
                VT_REQ(std::abs(r->zhat(i) - w.zhat(i)) <= 1e-8 * (1 + std::abs(w.zhat(i))) && std::abs(r->z(i) - r->zhat(i) - r->res(i)) <= 1e-9 * (1 + std::abs(r->z(i))), "held at %.9f s: element %d predicted %.9f (residual %.9f), should be %.9f", at, i, r->zhat(i), r->res(i), w.zhat(i));
            }
        }
        if (w.m.kind == 1)
            for (size_t i = 0; i < w.sats.size(); ++i)
            {
                ++nobs;
                const Rec* r = find(got.obs, w.sats[i]);
                VT_REQ(r->z(0) == w.m.obs[i].pseudorange && r->z(1) == w.m.obs[i].doppler, "satellite %d at %.9f s: another satellite's measurement logged", w.sats[i], at);
                VT_REQ(std::abs(r->zhat(0) - w.zhat(2 * i)) <= 3e-3 && std::abs(r->zhat(1) - w.zhat(2 * i + 1)) <= 1e-4, "satellite %d at %.9f s: predicted %.6f %.9f, should be %.6f %.9f", w.sats[i], at, r->zhat(0), r->zhat(1), w.zhat(2 * i), w.zhat(2 * i + 1));
            }
    }
    for (auto& r : got.pos) VT_REQ(tied(r, 1e-12), "a position record's residual is not measured less predicted");
    for (auto& r : got.obs) VT_REQ(tied(r, 1e-12), "an observation record's residual is not measured less predicted");
    if (!late) VT_REQ(got.pos.size() == npos && got.held.size() == nheld && got.obs.size() == nobs, "%zu, %zu, %zu records, %zu, %zu, %zu measurements applied", got.obs.size(), got.pos.size(), got.held.size(), nobs, npos, nheld);
    auto known = [&](const Rec& r, int kind) {
        for (auto& w : want)
            if (w.m.kind == kind && r.t == satgen::at(u.t0, w.m.ns) && (kind != 1 || std::count(w.sats.begin(), w.sats.end(), r.sat))) return true;
        return false;
    };
    for (auto& r : got.pos) VT_REQ(known(r, 2), "a position record of no accepted measurement");
    for (auto& r : got.held) VT_REQ(known(r, 3), "a held-ambiguity record of no accepted measurement");
    for (auto& r : got.obs) VT_REQ(known(r, 1), "an observation record of no accepted measurement (satellite %d)", r.sat);
    s.note("%zu observations, %zu positions, %zu held (%d ambiguities), %d late, %d refused", nobs, npos, nheld, (int)u.x0.num_sd, moved, refused);
    if (late ? moved > 1 && npos + nheld + nobs > 2 : npos + nheld + nobs > 3) s.nontrivial();
}
VT_PROP(in_order, 500, 12000) { run(s, false); }
VT_PROP(out_of_order, 400, 10000) { run(s, true); }
