// S05: atmosphere models
#include "common/satellite/atm_correction.h"
#include "satgen.h"
#include "third_party/rtklib/rtklib.h"
#include "third_party/rtklib/rtklib_adapter.h"
using namespace satgen;
using namespace mc::satellite;
// the parameters the program uses
static const double ION[8] = {0.1118E-07, -0.7451E-08, -0.5961E-07, 0.1192E-06, 0.1167E+06, -0.2294E+06, -0.1311E+06, 0.1049E+07};
// IS-GPS-200 20.3.3.5.2.5, all angles in semicircles
static double klobuchar(double lat, double lon, double az, double el, double tow)
{
    const double E = el / M_PI, phi_u = lat / M_PI, lam_u = lon / M_PI;
    const double psi = 0.0137 / (E + 0.11) - 0.022;
    double phi_i = phi_u + psi * cos(az);
    if (phi_i > 0.416) phi_i = 0.416;
    if (phi_i < -0.416) phi_i = -0.416;
    const double lam_i = lam_u + psi * sin(az) / cos(phi_i * M_PI);
    const double phi_m = phi_i + 0.064 * cos((lam_i - 1.617) * M_PI);
    double t = fmod(4.32e4 * lam_i + tow, 86400.0);
    if (t < 0) t += 86400.0;
    const double F = 1.0 + 16.0 * pow(0.53 - E, 3);
    double amp = 0, per = 0;
    for (int n = 3; n >= 0; --n) { amp = amp * phi_m + ION[n]; per = per * phi_m + ION[4 + n]; }
    if (amp < 0) amp = 0;
    if (per < 72000) per = 72000;
    const double x = 2 * M_PI * (t - 50400) / per;
    if (std::abs(x) < 1.57) return 299792458.0 * F * (5e-9 + amp * (1 - x * x / 2 + x * x * x * x / 24));
    return 299792458.0 * F * 5e-9;
}
static double saastamoinen(double lat, double h, double el)
{
    const double hg = h < 0 ? 0 : h;
    const double P = 1013.25 * pow(1 - 2.2557e-5 * hg, 5.2568), T = 15 - 6.5e-3 * hg + 273.16;
    const double e = 6.108 * 0.7 * exp((17.15 * T - 4684) / (T - 38.45));
    const double z = M_PI / 2 - el;
    return 0.0022768 * P / (1 - 0.00266 * cos(2 * lat) - 0.00028 * hg / 1e3) / cos(z) + 0.002277 * (1255 / T + 0.05) * e / cos(z);
}
struct In { Vec3 lla; AzimuthElevation ae; UTCTime t; double tow; };
static In gen(vt::Src& s)
{
    In i;
    i.lla = Vec3(gen_lat(s), gen_lon(s), 0);
    switch (s.weighted({4, 1, 1, 1}))
    {
    case 0: i.lla.z() = s.real(-500, 9000); break;
    case 1: i.lla.z() = s.pick({-1000.0, -999.999, -1000.001, -100.0, -100.001, -99.999, 0.0, 10000.0, 10000.001, 9999.999}); break;
    case 2: i.lla.z() = -s.logu(1, 1e5); break;
    default: i.lla.z() = s.logu(1, 2e7); break;
    }
    i.ae.az = gen_lon(s);
    switch (s.weighted({5, 1, 1, 1}))
    {
    case 0: i.ae.el = s.real(0.01, M_PI / 2); break;
    case 1: i.ae.el = s.pick({0.0, M_PI / 2, -M_PI / 2, -0.11 * M_PI, 1e-9, -1e-9}); break;
    case 2: i.ae.el = s.sym(M_PI / 2); break;
    default: i.ae.el = s.logu(1e-6, 1.5); break;
    }
    const int week = s.irange(1000, 2500);
    const int64_t ms = s.flip() ? s.range(0, 604799999) : s.irange(0, 604799) * 1000ll;
    i.t = UTCTime(gps_sec(week, ms / 1000), ms % 1000 * 1000000);
    i.tow = ms * 1e-3;
    return i;
}
static bool near(double a, double b) { return std::abs(a - b) <= 1e-9 + 1e-7 * std::abs(b); }
VT_PROP(ionosphere, 40000, 800000)
{
    const In i = gen(s);
    const double got = computeIonosphericDelay(i.t, i.lla, i.ae);
    s.note("lat %.4f lon %.4f h %.1f az %.3f el %.4f tow %.3f -> %.6f", i.lla.x(), i.lla.y(), i.lla.z(), i.ae.az, i.ae.el, i.tow, got);
    VT_REQ(std::isfinite(got) && got >= 0, "%g", got);
    VT_REQ(computeIonosphericDelay(i.t, i.lla, i.ae) == got, "not repeatable");
    if (i.ae.el <= 0 || i.lla.z() < -1e3) { VT_REQ(got == 0, "%g m where the model gives none", got); s.label("no correction"); return; }
    // the model's own jump where |x| passes 1.57 is 2 % of the amplitude; the daily boundary is continuous.
    // See known finding iono_time: the time of week is taken 18 s late
    const double a = klobuchar(i.lla.x(), i.lla.y(), i.ae.az, i.ae.el, i.tow + 18), b = klobuchar(i.lla.x(), i.lla.y(), i.ae.az, i.ae.el, i.tow);
    const double ap = klobuchar(i.lla.x(), i.lla.y(), i.ae.az, i.ae.el, i.tow + 18 + 1e-5), am = klobuchar(i.lla.x(), i.lla.y(), i.ae.az, i.ae.el, i.tow + 18 - 1e-5);
    const double bp = klobuchar(i.lla.x(), i.lla.y(), i.ae.az, i.ae.el, i.tow + 1e-5), bm = klobuchar(i.lla.x(), i.lla.y(), i.ae.az, i.ae.el, i.tow - 1e-5);
    VT_REQ(near(got, a) || near(got, b) || near(got, ap) || near(got, am) || near(got, bp) || near(got, bm), "%.9f, model %.9f", got, b);
    const double night = 299792458.0 * 5e-9 * (1 + 16 * pow(0.53 - i.ae.el / M_PI, 3));
    s.label(got > night * 1.0001 ? "day" : "night");
    s.nontrivial();
}
// the repository's ionosphere parameters are those of the bundled RTKLIB; its routine agrees as well
VT_PROP(ionosphere_rtklib, 10000, 200000)
{
    In i = gen(s);
    const double pos[3] = {i.lla.x(), i.lla.y(), i.lla.z()}, azel[2] = {i.ae.az, i.ae.el};
    const double got = computeIonosphericDelay(i.t, i.lla, i.ae);
    // scan the few candidate time offsets between the two conventions
    double best = 1e9;
    for (int d = -54; d <= 54; d += 18)
        for (double j : {0.0, 1e-5, -1e-5})
        {
            auto t = third_party::rtklib::toRtklib(UTCTime(i.t.sec + d, i.t.nsec));
            t.sec += j;
            best = std::min(best, std::abs(third_party::rtklib::ionmodel(t, ION, pos, azel) - got));
        }
    VT_REQ(best < 1e-6 + 1e-7 * got, "RTKLIB differs by %g (%g)", best, got);
    if (i.ae.el > 0) s.nontrivial();
}
VT_PROP(troposphere, 40000, 800000)
{
    const In i = gen(s);
    const double got = computeTroposphericDelay(i.t, i.lla, i.ae);
    s.note("lat %.4f h %.3f el %.6f -> %.6f", i.lla.x(), i.lla.z(), i.ae.el, got);
    VT_REQ(std::isfinite(got) && got >= 0, "%g", got);
    if (i.ae.el <= 0 || i.lla.z() < -100 || i.lla.z() > 1e4) { VT_REQ(got == 0, "%g m where the model gives none", got); s.label("no correction"); return; }
    const double m = saastamoinen(i.lla.x(), i.lla.z(), i.ae.el);
    VT_REQ(near(got, m), "%.9f, model %.9f", got, m);
    const double pos[3] = {i.lla.x(), i.lla.y(), i.lla.z()}, azel[2] = {i.ae.az, i.ae.el};
    const double r = third_party::rtklib::tropmodel(third_party::rtklib::toRtklib(i.t), pos, azel, 0.7);
    VT_REQ(near(got, r), "RTKLIB %.9f", r);
    s.nontrivial();
}
// the correction of a satellite is that of its direction, in any order of evaluation
VT_PROP(combined, 8000, 150000)
{
    In i = gen(s);
    const V3 p = wgs84(i.lla.x(), i.lla.y(), i.lla.z());
    const Vec3 rec((double)p.x, (double)p.y, (double)p.z);
    s.note("lat %.6f lon %.6f h %.3f az %.6f el %.6f tow %.3f", i.lla.x(), i.lla.y(), i.lla.z(), i.ae.az, i.ae.el, i.tow);
    if (std::abs(i.lla.x()) > 1.57) s.discard();  // azimuth is a convention at the poles
    SatelliteState st;
    st.pos = rec + ned_axes(i.lla.x(), i.lla.y()) * Vec3(cos(i.ae.el) * cos(i.ae.az), cos(i.ae.el) * sin(i.ae.az), -sin(i.ae.el)) * 2.2e7;
    AtmosphericCorrection a{-1, -1}, b{7, 7};
    if (s.flip()) computeAtmCorrection(UTCTime((int64_t)1500000000, (int64_t)0), Vec3(6378137, 0, 0), st, make_out(a));
    computeAtmCorrection(i.t, rec, st, make_out(a));
    const double ti = computeTroposphericDelay(i.t, i.lla, i.ae), io = computeIonosphericDelay(i.t, i.lla, i.ae);
    computeAtmCorrection(i.t, rec, st, make_out(b));
    VT_REQ(a.ionospheric_delay_m == b.ionospheric_delay_m && a.tropospheric_delay_m == b.tropospheric_delay_m, "not repeatable");
    // stay clear of the steps of the models (horizon, heights, day/night switch)
    if (i.ae.el < 0.01 && i.ae.el > -1e-6) s.discard(); 
    if (std::abs(i.ae.el) > M_PI / 2 - 1e-4) s.discard();  // azimuth means nothing at the zenith
    for (double b2 : {-1000.0, -100.0, 10000.0}) if (std::abs(i.lla.z() - b2) < 0.01) s.discard();
    VT_REQ(std::abs(a.tropospheric_delay_m - ti) < 1e-4 * (1 + ti), "troposphere %g, %g", a.tropospheric_delay_m, ti);
    // the model steps by 2 % of the amplitude between day and night
    const double io1 = computeIonosphericDelay(at(i.t, 1000000), i.lla, i.ae), io2 = computeIonosphericDelay(at(i.t, -1000000), i.lla, i.ae);
    if (std::abs(io1 - io2) > 1e-3) s.discard();
    VT_REQ(std::abs(a.ionospheric_delay_m - io) < 1e-4 * (1 + io), "ionosphere %g, %g", a.ionospheric_delay_m, io);
    if (ti > 0 && io > 0) s.nontrivial();
}
VT_KNOWN(iono_time)
{
    const AzimuthElevation ae{0.3, 0.7};
    const Vec3 lla(0.5, 0.2, 100);
    const double tow = 3 * 86400 + 36000;
    const double got = computeIonosphericDelay(UTCTime(gps_sec(2000, (int64_t)tow), (int64_t)0), lla, ae);
    const double right = klobuchar(lla.x(), lla.y(), ae.az, ae.el, tow);
    what = "ionosphere at tow 295200 is " + std::to_string(got) + ", broadcast model " + std::to_string(right);
    return std::abs(got - right) > 1e-6;
}
