// measurement models: satellites of the three constellations, receivers, long-double kinematics
#pragma once
#include <memory>
#include "common/measurements/gnss_observation.h"
#include "common/satellite/atm_correction.h"
#include "liegen.h"
#include "satgen.h"
#include "utils/wgs84.h"
namespace mg {
using namespace lie;
using namespace mc;
using namespace mc::satellite;
using namespace mc::ephemeris;
using V4 = Eigen::Matrix<ld, 4, 1>;
using V8 = Eigen::Matrix<ld, 8, 1>;
inline const ld CL = 299792458.0L, WE = 7.2921151467e-5L;
inline V4 qmul(const V4& a, const V4& b)
{
    V4 o;
    o << a(0) * b(0) - a(1) * b(1) - a(2) * b(2) - a(3) * b(3), a(0) * b(1) + a(1) * b(0) + a(2) * b(3) - a(3) * b(2),
        a(0) * b(2) - a(1) * b(3) + a(2) * b(0) + a(3) * b(1), a(0) * b(3) + a(1) * b(2) - a(2) * b(1) + a(3) * b(0);
    return o;
}
inline V4 pure(const V3& v) { V4 o; o << 0, v; return o; }
inline V4 qexp(const V3& w)
{
    const ld n = w.norm();
    V4 g;
    g << cosl(n / 2), (n > 0 ? V3(w * (sinl(n / 2) / n)) : V3(w / 2));
    return g;
}
struct Pose  // rotation and translation; the dual quaternion's action is x -> R x + t
{
    V4 q;
    V3 t;
    Pose() = default;
    explicit Pose(const DQ& x)
    {
        q = V4(x.real().w(), x.real().x(), x.real().y(), x.real().z());
        const V4 d = V4(x.dual().w(), x.dual().x(), x.dual().y(), x.dual().z());
        const V4 c(q(0), -q(1), -q(2), -q(3));
        t = 2 * qmul(d, c).tail<3>() / q.squaredNorm();
        q /= q.norm();
    }
    M3 R() const
    {
        const V3 u = q.tail<3>();
        return M3::Identity() + 2 * q(0) * skewl(u) + 2 * skewl(u) * skewl(u);
    }
    V3 operator()(const V3& x) const { return R() * x + t; }
    // along the manifold: direction i < 3 turns about the body's axis i, else shifts along axis i-3
    Pose moved(int i, ld k) const
    {
        Pose o = *this;
        if (i < 3) o.q = qmul(q, qexp(V3(V3::Unit(i) * k)));
        else o.t += V3::Unit(i - 3) * k;
        return o;
    }
    // the change of the eight stored numbers along that direction
    V8 param_dir(int i) const
    {
        V8 dx;
        if (i < 3)
        {
            const V4 dq = qmul(q, pure(V3::Unit(i))) / 2;
            dx << dq, qmul(pure(t), dq) / 2;
        }
        else
            dx << V4::Zero(), qmul(pure(V3::Unit(i - 3)), q) / 2;
        return dx;
    }
};
struct Sats
{
    std::shared_ptr<SatelliteBase> sat;
    UTCTime toe;
    int gnss;
};
inline Sats gen_sat(vt::Src& s)
{
    Sats o;
    o.gnss = s.weighted({2, 1, 1});
    const int num = s.irange(1, 24);
    if (o.gnss == 0)
    {
        GPSEphemeris g(num);
        satgen::gen_kepler(s, g, GnssID::GPS, num);
        g.ecc = std::min(g.ecc, 0.05);
        auto* p = new Satellite<GPSEphemeris>(GnssID::GPS, num);
        p->addEph(g);
        o.sat.reset(p);
        o.toe = g.toe;
    }
    else if (o.gnss == 1)
    {
        GalileoEphemeris g(num);
        satgen::gen_kepler(s, g, GnssID::Galileo, num);
        g.ecc = std::min(g.ecc, 0.05);
        auto* p = new Satellite<GalileoEphemeris>(GnssID::Galileo, num);
        p->addEph(g);
        o.sat.reset(p);
        o.toe = g.toe;
    }
    else
    {
        GlonassEphemeris g(num);
        satgen::gen_glonass(s, g, num);
        auto* p = new Satellite<GlonassEphemeris>(GnssID::Glonass, num);
        p->addEph(g);
        o.sat.reset(p);
        o.toe = g.toe;
    }
    return o;
}
inline UTCTime gen_time(vt::Src& s, const Sats& o)
{
    const UTCTime t = satgen::at(o.toe, o.gnss == 2 ? s.range(-800000000000ll, 800000000000ll) : s.range(-6000000000000ll, 6000000000000ll));
    return t;
}
// the satellite at the instant the signal received at t left it (own iteration, to 1e-12 s)
inline SatelliteState transmit(const SatelliteBase& sat, const UTCTime& t, const Vec3& rec)
{
    SatelliteState st;
    double tau = 0.07;
    for (int i = 0; i < 8; ++i)
    {
        sat.getState(satgen::at(t, -(int64_t)llround(tau * 1e9)), make_out(st));
        const ld sg = WE * (st.pos.x() * (ld)rec.y() - st.pos.y() * (ld)rec.x()) / CL;
        tau = (double)((up(st.pos) - up(rec)).norm() + sg) / (double)CL;
    }
    return st;
}
inline Vec3 gen_rec(vt::Src& s)
{
    const satgen::V3 p = satgen::wgs84(satgen::gen_lat(s), satgen::gen_lon(s), s.weighted({4, 1}) == 0 ? s.sym(4000) : s.logu(1e3, 1e6));
    return Vec3((double)p.x, (double)p.y, (double)p.z);
}
inline DQ small_frame(vt::Src& s)  // reference frame to navigation frame
{
    if (s.chance(0.15)) return DQ::identity();
    const Vec3 w = s.flip() ? Vec3(0, 0, s.sym(M_PI)) : gen_rotvec(s);
    const double m = s.pick({1.0, 100.0});
    return DQ(quat_of(w, s.flip()), Vec3(s.sym(m), s.sym(m), s.sym(m)));
}
inline DQ gen_pose(vt::Src& s)
{
    const double m = s.pick({1.0, 10.0, 1000.0});
    return DQ(gen_quat(s), Vec3(s.sym(m), s.sym(m), s.sym(m)));
}
inline Vec3 vec(vt::Src& s, double m) { return s.chance(0.08) ? Vec3(Vec3::Zero()) : Vec3(s.sym(m), s.sym(m), s.sym(m)); }
// DQ frames of the repository: T_e2r has R() passive, rota active: same action as Pose
}  // namespace mg
