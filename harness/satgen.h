// plausible satellites, and independent reference algorithms (long double)
#pragma once
#include "common/ephemeris/galileo.h"
#include "common/ephemeris/glonass.h"
#include "common/ephemeris/gps.h"
#include "common/satellite/satellite.h"
#include "common/satellite/satellite_state.h"
#include "vt.h"
namespace satgen {
using namespace mc;
using ld = long double;
inline const ld PIl = 3.14159265358979323846264338327950288L;
inline int64_t gps_sec(int64_t week, int64_t tow) { return 315964800 + 18 + week * 604800 + tow; }
struct V3 { ld x, y, z; };
inline ld norm(const V3& a) { return sqrtl(a.x * a.x + a.y * a.y + a.z * a.z); }
// biased: 0, small, anything
inline double coef(vt::Src& s, double a)
{
    switch (s.weighted({5, 1, 1, 1}))
    {
    case 0: return s.sym(a);
    case 1: return 0.0;
    case 2: return s.sym(a * 1e-3);
    default: return s.flip() ? a : -a;
    }
}
inline double angle(vt::Src& s)
{
    switch (s.weighted({5, 1}))
    {
    case 0: return s.sym(M_PI);
    default: return s.pick({0.0, M_PI / 2, -M_PI / 2, M_PI, -M_PI});
    }
}
template <typename Eph>
inline void gen_kepler(vt::Src& s, Eph& e, int gnss, int sat)
{
    e.gnssID = gnss;
    e.sat = sat;
    e.week = s.weighted({4, 1}) ? s.irange(0, 3000) : s.irange(1500, 2400);
    const int step = gnss == GnssID::GPS ? 16 : 60;
    e.toes = s.weighted({4, 1, 1}) == 0 ? s.irange(0, (604800 - 1) / step) * step
                                        : (s.flip() ? s.irange(0, 60) * step : 604800 - s.irange(1, 60) * step);
    e.toe = UTCTime(gps_sec(e.week, e.toes), (int64_t)0);
    int64_t toc = gps_sec(e.week, e.toes);
    if (s.flip()) toc += s.irange(-7200 / step, 7200 / step) * step;
    e.toc = UTCTime(toc, (int64_t)0);
    e.tocs = (uint32_t)(((toc - gps_sec(0, 0)) % 604800 + 604800) % 604800);
    e.tow = e.toes;
    e.iode = s.irange(0, 255);
    e.iodc = e.iode;
    e.af0 = coef(s, 1e-3);
    e.af1 = coef(s, 1e-9);
    e.af2 = coef(s, 1e-15);
    e.m0 = angle(s);
    e.delta_n = coef(s, 6e-9);
    e.ecc = s.weighted({5, 1, 1}) == 0 ? s.real(0, 0.03) : (s.flip() ? 0.0 : s.real(0, 0.3));
    e.sqrta = gnss == GnssID::GPS ? 5153.6 + s.sym(20) : 5440.6 + s.sym(20);
    e.omega0 = angle(s);
    e.i0 = s.weighted({5, 1}) == 0 ? 0.96 + s.sym(0.1) : s.sym(3.1);
    e.w = angle(s);
    e.omegadot = coef(s, 1e-8);
    e.idot = coef(s, 1e-9);
    e.cuc = coef(s, 2e-5);
    e.cus = coef(s, 2e-5);
    e.crc = coef(s, 500);
    e.crs = coef(s, 500);
    e.cic = coef(s, 1e-6);
    e.cis = coef(s, 1e-6);
}
// ICD orbit: IS-GPS-200 table 20-IV, Galileo OS SIS ICD 5.1.1
template <typename Eph>
inline V3 icd_pos(const Eph& e, bool galileo, ld tk, ld* E_out = nullptr)
{
    const ld mu = galileo ? 3.986004418e14L : 3.986005e14L, we = 7.2921151467e-5L;
    const ld A = (ld)e.sqrta * e.sqrta;
    const ld M = e.m0 + (sqrtl(mu / (A * A * A)) + e.delta_n) * tk;
    // Kepler's equation by bisection on the monotone function E - e sin E - M
    ld lo = M - 1, hi = M + 1;
    for (int i = 0; i < 80; ++i)
    {
        const ld m = (lo + hi) / 2;
        if (m - e.ecc * sinl(m) < M) lo = m; else hi = m;
    }
    const ld E = (lo + hi) / 2;
    if (E_out) *E_out = E;
    const ld nu = 2 * atan2l(sqrtl(1 + (ld)e.ecc) * sinl(E / 2), sqrtl(1 - (ld)e.ecc) * cosl(E / 2));
    const ld phi = nu + e.w;
    const ld u = phi + e.cus * sinl(2 * phi) + e.cuc * cosl(2 * phi);
    const ld r = A * (1 - e.ecc * cosl(E)) + e.crs * sinl(2 * phi) + e.crc * cosl(2 * phi);
    const ld i = e.i0 + e.cis * sinl(2 * phi) + e.cic * cosl(2 * phi) + e.idot * tk;
    const ld O = e.omega0 + (e.omegadot - we) * tk - we * e.toes;
    const ld x = r * cosl(u), y = r * sinl(u);
    return {x * cosl(O) - y * cosl(i) * sinl(O), x * sinl(O) + y * cosl(i) * cosl(O), y * sinl(i)};
}
template <typename Eph>
inline ld icd_clk(const Eph& e, bool galileo, ld tk, ld tc)
{
    ld E;
    icd_pos(e, galileo, tk, &E);
    const ld mu = galileo ? 3.986004418e14L : 3.986005e14L, c = 299792458.0L;
    return e.af0 + e.af1 * tc + e.af2 * tc * tc - 2 * sqrtl(mu) * (ld)e.sqrta * e.ecc * sinl(E) / (c * c);
}
// an instant dt seconds (to the nanosecond) from another
inline UTCTime at(const UTCTime& t, int64_t ns) { return UTCTime(t.sec, t.nsec + ns); }
// ---- GLONASS -----------------------------------------------------------------------------------
inline void gen_glonass(vt::Src& s, ephemeris::GlonassEphemeris& e, int sat)
{
    e.gnssID = GnssID::Glonass;
    e.sat = sat;
    e.toe = UTCTime(gps_sec(s.irange(1500, 2400), 0) - 18 + s.irange(0, 671) * 900, (int64_t)0);
    e.tof = e.toe;
    e.slot = s.irange(-7, 6);
    e.svh = e.sva = e.age = 0;
    e.iode = s.irange(0, 127);
    // a near-circular orbit of GLONASS radius, any orientation
    const double r = 25508e3 + s.sym(30e3), u = angle(s), inc = s.flip() ? 1.13 + s.sym(0.05) : s.sym(3.1), O = angle(s);
    const double n = std::sqrt(3.9860044e14 / (r * r * r)), we = 7.292115e-5;
    const double x = r * cos(u), y = r * sin(u), vx = -r * n * sin(u), vy = r * n * cos(u);
    e.pos = Vec3(x * cos(O) - y * cos(inc) * sin(O), x * sin(O) + y * cos(inc) * cos(O), y * sin(inc));
    e.vel = Vec3(vx * cos(O) - vy * cos(inc) * sin(O) + we * e.pos.y(), vx * sin(O) + vy * cos(inc) * cos(O) - we * e.pos.x(), vy * sin(inc));
    e.acc = Vec3(coef(s, 6e-6), coef(s, 6e-6), coef(s, 6e-6));
    e.taun = coef(s, 1e-3);
    e.gamn = coef(s, 1e-9);
    e.dtaun = coef(s, 1e-8);
}
// ICD 5.1 appendix A.3.1.2 equations of motion, fourth-order with a fine step, long double
inline void icd_glo(const ephemeris::GlonassEphemeris& e, ld dt, ld out[6])
{
    const ld mu = 398600.44e9L, ae = 6378136.0L, c20 = -1082.6257e-6L, w = 7.292115e-5L;
    auto f = [&](const ld* s, ld* d) {
        const ld r = sqrtl(s[0] * s[0] + s[1] * s[1] + s[2] * s[2]);
        const ld k = mu / (r * r * r), q = 1.5L * c20 * mu * ae * ae / powl(r, 5), z2 = s[2] * s[2] / (r * r);
        d[0] = s[3]; d[1] = s[4]; d[2] = s[5];
        d[3] = -k * s[0] + q * s[0] * (1 - 5 * z2) + w * w * s[0] + 2 * w * s[4] + e.acc.x();
        d[4] = -k * s[1] + q * s[1] * (1 - 5 * z2) + w * w * s[1] - 2 * w * s[3] + e.acc.y();
        d[5] = -k * s[2] + q * s[2] * (3 - 5 * z2) + e.acc.z();
    };
    ld y[6];
    for (int i = 0; i < 3; ++i) { y[i] = e.pos[i]; y[i + 3] = e.vel[i]; }
    const int n = 1 + (int)(fabsl(dt) / 15);
    const ld h = dt / n;
    for (int k = 0; k < n; ++k)
    {
        ld a[6], b[6], c[6], d[6], t[6];
        f(y, a);
        for (int i = 0; i < 6; ++i) t[i] = y[i] + h / 2 * a[i];
        f(t, b);
        for (int i = 0; i < 6; ++i) t[i] = y[i] + h / 2 * b[i];
        f(t, c);
        for (int i = 0; i < 6; ++i) t[i] = y[i] + h * c[i];
        f(t, d);
        for (int i = 0; i < 6; ++i) y[i] += h / 6 * (a[i] + 2 * b[i] + 2 * c[i] + d[i]);
    }
    for (int i = 0; i < 6; ++i) out[i] = y[i];
}
// ---- the ellipsoid -----------------------------------------------------------------------------
inline V3 wgs84(ld lat, ld lon, ld h)
{
    const ld a = 6378137.0L, f = 1 / 298.257223563L, e2 = f * (2 - f);
    const ld N = a / sqrtl(1 - e2 * sinl(lat) * sinl(lat));
    return {(N + h) * cosl(lat) * cosl(lon), (N + h) * cosl(lat) * sinl(lon), (N * (1 - e2) + h) * sinl(lat)};
}
inline Mat3 ned_axes(double lat, double lon)  // columns: north, east, down in ECEF
{
    Mat3 R;
    R << -sin(lat) * cos(lon), -sin(lon), -cos(lat) * cos(lon),
         -sin(lat) * sin(lon), cos(lon), -cos(lat) * sin(lon),
         cos(lat), 0, -sin(lat);
    return R;
}
inline double gen_lat(vt::Src& s)
{
    switch (s.weighted({5, 1, 1}))
    {
    case 0: return s.sym(M_PI / 2);
    case 1: return s.pick({0.0, M_PI / 2, -M_PI / 2});
    default: { const double d = s.logu(1e-12, 1e-2); const double b = s.pick({0.0, M_PI / 2, -M_PI / 2}); return b > 0 ? b - d : b < 0 ? b + d : (s.flip() ? d : -d); }
    }
}
inline double gen_lon(vt::Src& s)
{
    switch (s.weighted({5, 1, 1}))
    {
    case 0: return s.sym(M_PI);
    case 1: return s.pick({0.0, M_PI, -M_PI, M_PI / 2, -M_PI / 2});
    default: { const double d = s.logu(1e-12, 1e-2); return s.pick({M_PI - d, -M_PI + d, d, -d}); }
    }
}
}  // namespace satgen
