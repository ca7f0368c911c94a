// S04: transmission states, azimuth and elevation
#include "common/satellite/azel.h"
#include "common/satellite/satellite_cache.h"
#include "satgen.h"
using namespace satgen;
using namespace mc::satellite;
using namespace mc::ephemeris;
static Vec3 gen_rec(vt::Src& s)
{
    const double h = s.weighted({3, 1}) == 0 ? s.sym(3000) : s.logu(1e3, 2e6);
    const V3 p = wgs84(gen_lat(s), gen_lon(s), h);
    return Vec3((double)p.x, (double)p.y, (double)p.z);
}
// any satellite: a straight line in space with a clock, so that the iteration is tested by itself
struct Line : SatelliteBase
{
    Vec3 p0, v;
    UTCTime t0;
    Line() : SatelliteBase(0, 1) {}
    Error getState(const UTCTime& t, Out<SatelliteState> o) const override
    {
        o->t = t;
        o->pos = p0 + v * (t - t0).toSec();
        o->vel = v;
        o->clk = Vec2(0, 0);
        return Error::none();
    }
    double carrierWavelength(int) const override { return 0.19; }
    int almanacSize() const override { return 1; }
};
static void check_cache(const SatelliteCache& c, const UTCTime& t, const Vec3& rec, const SatelliteBase& sat)
{
    SatelliteState ref;
    sat.getState(c.state.t, make_out(ref));
    VT_REQ(ref.pos == c.state.pos && ref.vel == c.state.vel && ref.clk == c.state.clk, "the cached state is not the satellite's state at its time");
    const Vec3& p = c.state.pos;
    // rotate the satellite into the frame of the reception instant: the exact Earth-rotation effect
    const double sg = 7.2921151467e-5 * (p.x() * rec.y() - p.y() * rec.x()) / 299792458.0;
    const double tau = ((p - rec).norm() + sg) / 299792458.0;
    const UTCTime d = t - c.state.t;
    const double travel = d.sec + d.nsec * 1e-9;
    VT_REQ(std::abs(tau - travel) < 2.5e-9, "travel time %.12f, state is %.12f before reception", tau, travel);
    const double th = 7.2921151467e-5 * tau;
    const Vec3 q(cos(th) * p.x() + sin(th) * p.y(), -sin(th) * p.x() + cos(th) * p.y(), p.z());
    VT_REQ(std::abs((q - rec).norm() - tau * 299792458.0) < 0.01 + 1e-10 * p.squaredNorm() / p.norm(), "rotated range %.4f, light time %.4f", (q - rec).norm(), tau * 299792458.0);
    VT_REQ(std::abs(c.sagnac - sg) < 1e-3, "Sagnac term %g, expected %g", c.sagnac, sg);
    AtmosphericCorrection a;
    computeAtmCorrection(t, rec, c.state, make_out(a));
    VT_REQ(a.ionospheric_delay_m == c.atm.ionospheric_delay_m && a.tropospheric_delay_m == c.atm.tropospheric_delay_m, "atmospheric terms");
}
VT_PROP(real_satellites, 6000, 120000)
{
    GPSEphemeris g; GalileoEphemeris ga(5); GlonassEphemeris gl(9);
    gen_kepler(s, g, GnssID::GPS, 4); gen_kepler(s, ga, GnssID::Galileo, 5); gen_glonass(s, gl, 9);
    g.ecc = std::min(g.ecc, 0.05); ga.ecc = std::min(ga.ecc, 0.05);
    Satellite<GPSEphemeris> a(GnssID::GPS, 4); Satellite<GalileoEphemeris> b(GnssID::Galileo, 5); Satellite<GlonassEphemeris> c(GnssID::Glonass, 9);
    a.addEph(g); b.addEph(ga); c.addEph(gl);
    SatelliteCache cache;
    const int n = s.irange(1, 5);
    for (int i = 0; i < n; ++i)
    {
        const int k = s.irange(0, 2);
        const SatelliteBase& sat = k == 0 ? (const SatelliteBase&)a : k == 1 ? (const SatelliteBase&)b : c;
        const UTCTime toe = k == 0 ? g.toe : k == 1 ? ga.toe : gl.toe;
        const UTCTime t = at(toe, k == 2 ? s.range(-900000000000ll, 900000000000ll) : s.range(-7000000000000ll, 7000000000000ll));
        const Vec3 rec = gen_rec(s);
        cache.update(t, rec, sat);
        s.note("gnss %d rec (%.0f %.0f %.0f)", sat.gnssId(), rec.x(), rec.y(), rec.z());
        check_cache(cache, t, rec, sat);
    }
    if (n > 1) s.nontrivial();
}
VT_PROP(any_motion, 6000, 120000)
{
    Line l;
    l.t0 = UTCTime((int64_t)1600000000, (int64_t)s.irange(0, 999999999));
    const double r = s.logu(7e6, 5e7);
    l.p0 = Vec3(s.gauss(), s.gauss(), s.gauss()).normalized() * r;
    l.v = Vec3(s.gauss(), s.gauss(), s.gauss()).normalized() * s.real(100, 9000);
    const UTCTime t = at(l.t0, s.range(-1000000000ll, 1000000000ll));
    const Vec3 rec = gen_rec(s);
    if (((l.p0 - rec).norm()) < 1e4) s.discard();
    SatelliteCache cache;
    cache.update(t, rec, l);
    s.note("|p| %.0f |v| %.0f", r, l.v.norm());
    check_cache(cache, t, rec, l);
    s.nontrivial();
}
VT_PROP(azimuth_elevation, 20000, 400000)
{
    const double lat = gen_lat(s), lon = gen_lon(s), h = s.weighted({3, 1}) == 0 ? s.sym(5000) : s.logu(1e3, 2e6);
    const V3 pl = wgs84(lat, lon, h);
    const Vec3 rec((double)pl.x, (double)pl.y, (double)pl.z);
    double el, az = gen_lon(s);
    switch (s.weighted({5, 1, 1}))
    {
    case 0: el = s.sym(M_PI / 2); break;
    case 1: el = s.pick({0.0, M_PI / 2, -M_PI / 2}); break;
    default: el = M_PI / 2 - s.logu(1e-9, 0.1); break;
    }
    const double rng = s.logu(1.0, 4e7);
    const Mat3 R = ned_axes(lat, lon);
    const Vec3 dir_ned(cos(el) * cos(az), cos(el) * sin(az), -sin(el));
    const Vec3 los = R * dir_ned * rng;
    // at the poles north is a convention: compare only what the direction determines
    const bool pole = std::hypot(rec.x(), rec.y()) < 1.0;
    const AzimuthElevation ae = los2AzEl(rec, los);
    s.note("lat %.9f lon %.6f az %.6f el %.9f", lat, lon, az, el);
    VT_REQ(std::isfinite(ae.az) && std::isfinite(ae.el), "not finite");
    VT_REQ(std::abs(ae.el) <= M_PI / 2 && std::abs(ae.az) <= M_PI, "out of range");
    VT_REQ(std::abs(ae.el - el) < 1e-8, "elevation %.12f, expected %.12f", ae.el, el);
    if (!pole)
    {
        const Vec3 got(cos(ae.el) * cos(ae.az), cos(ae.el) * sin(ae.az), -sin(ae.el));
        const double tol = 1e-8 + 1e-8 / std::hypot(rec.x(), rec.y());
        VT_REQ((got - dir_ned).norm() < 2 * tol, "direction off by %g (az %.9f)", (got - dir_ned).norm(), ae.az);
    }
    SatelliteState st;
    st.pos = rec + los;
    const AzimuthElevation a2 = getAzEl(rec, st);
    VT_REQ(std::abs(a2.el - ae.el) < 1e-7 + 2e-9 / rng * 10, "getAzEl differs");
    s.nontrivial();
}
