// compares decoded ephemerides with the transmitted fields
#pragma once
#include "common/ephemeris/galileo.h"
#include "common/ephemeris/glonass.h"
#include "common/ephemeris/gps.h"
#include "navgen.h"
namespace nav {
using namespace mc;
using namespace mc::ephemeris;
inline const double SC = M_PI;
inline int64_t gps_instant(int64_t week, int64_t tow) { return 315964800 + 18 + week * 604800 + tow; }
inline int adjust(int week, int toe, int tow) { return toe - tow > 302400 ? week - 1 : toe - tow < -302400 ? week + 1 : week; }
inline double p2(double v, int e) { return std::ldexp(v, e); }
inline void check_orbit(const GPSEphemeris& e, const Gps& g)
{
    VT_FIELD(e, iode, g.iode); VT_FIELD(e, iodc, g.iodc);
    VT_FIELD(e, af0, p2(g.af0, -31)); VT_FIELD(e, af1, p2(g.af1, -43)); VT_FIELD(e, af2, p2(g.af2, -55));
    VT_FIELD(e, crs, p2(g.crs, -5)); VT_FIELD(e, delta_n, p2(g.dn, -43) * SC); VT_FIELD(e, m0, p2(g.m0, -31) * SC);
    VT_FIELD(e, cuc, p2(g.cuc, -29)); VT_FIELD(e, ecc, p2(g.ecc, -33)); VT_FIELD(e, cus, p2(g.cus, -29));
    VT_FIELD(e, sqrta, p2(g.sqrta, -19)); VT_FIELD(e, toes, g.toe * 16); VT_FIELD(e, tocs, g.toc * 16);
    VT_FIELD(e, cic, p2(g.cic, -29)); VT_FIELD(e, omega0, p2(g.omega0, -31) * SC); VT_FIELD(e, cis, p2(g.cis, -29));
    VT_FIELD(e, i0, p2(g.i0, -31) * SC); VT_FIELD(e, crc, p2(g.crc, -5)); VT_FIELD(e, w, p2(g.w, -31) * SC);
    VT_FIELD(e, omegadot, p2(g.omegadot, -43) * SC); VT_FIELD(e, idot, p2(g.idot, -43) * SC);
}
inline void check_gps(const GPSEphemeris& e, const Gps& g)
{
    check_orbit(e, g);
    VT_FIELD(e, code_on_L2, g.l2); VT_FIELD(e, ura, g.ura); VT_FIELD(e, health, g.health); VT_FIELD(e, L2_P_data_flag, g.l2p);
    VT_FIELD(e, tgd, g.tgd == -128 ? 0.0 : p2(g.tgd, -31));
    VT_FIELD(e, fit_interval_flag, g.fit ? 0 : 4);
    VT_FIELD(e, age_of_data_offset, g.aodo * 900); VT_FIELD(e, alert_flag, g.alert); VT_FIELD(e, anti_spoof, g.as);
    VT_FIELD(e, tow, g.tow6 * 6);
    const int wk = adjust(g.week + 2048, g.toe * 16, g.tow6 * 6);
    VT_REQ(e.toe.sec == gps_instant(wk, g.toe * 16) && e.toe.nsec == 0, "toe %lld want %lld", (long long)e.toe.sec, (long long)gps_instant(wk, g.toe * 16));
    VT_REQ(e.toc.sec == gps_instant(wk, g.toc * 16) && e.toc.nsec == 0, "toc %lld want %lld", (long long)e.toc.sec, (long long)gps_instant(wk, g.toc * 16));
}
inline void check_orbit(const GalileoEphemeris& e, const Gal& g)
{
    VT_FIELD(e, iode, g.iod & 0xFF); VT_FIELD(e, iodc, g.iod);
    VT_FIELD(e, toes, g.toe * 60); VT_FIELD(e, tocs, g.toc * 60);
    VT_FIELD(e, m0, p2(g.m0, -31) * SC); VT_FIELD(e, ecc, p2(g.ecc, -33)); VT_FIELD(e, sqrta, p2(g.sqrta, -19));
    VT_FIELD(e, omega0, p2(g.omega0, -31) * SC); VT_FIELD(e, i0, p2(g.i0, -31) * SC); VT_FIELD(e, w, p2(g.w, -31) * SC);
    VT_FIELD(e, idot, p2(g.idot, -43) * SC); VT_FIELD(e, omegadot, p2(g.omegadot, -43) * SC); VT_FIELD(e, delta_n, p2(g.dn, -43) * SC);
    VT_FIELD(e, cuc, p2(g.cuc, -29)); VT_FIELD(e, cus, p2(g.cus, -29)); VT_FIELD(e, crc, p2(g.crc, -5)); VT_FIELD(e, crs, p2(g.crs, -5));
    VT_FIELD(e, cic, p2(g.cic, -29)); VT_FIELD(e, cis, p2(g.cis, -29));
    VT_FIELD(e, af0, p2(g.af0, -34)); VT_FIELD(e, af1, p2(g.af1, -46)); VT_FIELD(e, af2, p2(g.af2, -59));
}
inline void check_gal(const GalileoEphemeris& e, const Gal& g)
{
    check_orbit(e, g);
    VT_FIELD(e, tow, g.tow);
    VT_FIELD(e, ai0, p2(g.ai0, -2)); VT_FIELD(e, ai1, p2(g.ai1, -8)); VT_FIELD(e, ai2, p2(g.ai2, -15));
    VT_FIELD(e, bgd_e1_e5a, p2(g.bgda, -32)); VT_FIELD(e, bgd_e1_e5b, p2(g.bgdb, -32));
    VT_FIELD(e, e5b_hs, g.e5bhs); VT_FIELD(e, e1b_hs, g.e1bhs); VT_FIELD(e, e5b_dvs, g.e5bdvs); VT_FIELD(e, e1b_dvs, g.e1bdvs);
    const int wk = adjust(g.week, g.toe * 60, g.tow) + 1024;  // GST week 0 is GPS week 1024
    VT_FIELD(e, week, wk);
    VT_REQ(e.toe.sec == gps_instant(wk, g.toe * 60) && e.toe.nsec == 0, "toe %lld want %lld", (long long)e.toe.sec, (long long)gps_instant(wk, g.toe * 60));
    VT_REQ(e.toc.sec == gps_instant(wk, g.toc * 60) && e.toc.nsec == 0, "toc %lld want %lld", (long long)e.toc.sec, (long long)gps_instant(wk, g.toc * 60));
}
inline void check_orbit(const GlonassEphemeris& e, const Glo& g)
{
    for (int i = 0; i < 3; ++i)
    {
        VT_FIELD(e, pos[i], p2((double)g.pos[i], -11) * 1e3); VT_FIELD(e, vel[i], p2((double)g.vel[i], -20) * 1e3);
        VT_FIELD(e, acc[i], p2((double)g.acc[i], -30) * 1e3);
    }
    VT_FIELD(e, taun, p2(g.tau, -30)); VT_FIELD(e, gamn, p2(g.gam, -40)); VT_FIELD(e, iode, g.tb);
}
inline void check_glo(const GlonassEphemeris& e, const Glo& g)
{
    check_orbit(e, g);
    VT_FIELD(e, dtaun, p2(g.dtau, -30)); VT_FIELD(e, svh, g.bn); VT_FIELD(e, sva, g.ft); VT_FIELD(e, age, g.en); VT_FIELD(e, slot, g.n);
    // four-year interval N4 starts 1996 + 4 (N4 - 1); GLONASS time is UTC + 3 h
    const int64_t day = 9496 + (int64_t)(g.n4 - 1) * 1461 + g.nt - 1;  // 1996-01-01 is day 9496 of 1970
    const int64_t toe = day * 86400 - 10800 + g.tb * 900, tof = day * 86400 - 10800 + g.h * 3600 + g.m * 60 + g.half * 30;
    VT_REQ(e.toe.sec == toe && e.toe.nsec == 0, "toe %lld want %lld", (long long)e.toe.sec, (long long)toe);
    VT_REQ(e.tof.sec == tof && e.tof.nsec == 0, "tof %lld want %lld", (long long)e.tof.sec, (long long)tof);
}
}  // namespace nav
