#include <sstream>
#include "timegen.h"
using namespace mc;
// days since 1970-01-01 of a civil date (independent of timegm)
static int64_t civil(int y, int m, int d)
{
    int64_t days = 0;
    auto leap = [](int k) { return (k % 4 == 0 && k % 100 != 0) || k % 400 == 0; };
    for (int k = 1970; k < y; ++k) days += leap(k) ? 366 : 365;
    for (int k = 1969; k >= y; --k) days -= leap(k) ? 366 : 365;
    static const int md[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
    for (int k = 1; k < m; ++k) days += md[k - 1] + (k == 2 && leap(y));
    return days + d - 1;
}
static int mdays(int y, int m)
{
    static const int md[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
    return md[m - 1] + (m == 2 && ((y % 4 == 0 && y % 100 != 0) || y % 400 == 0));
}
static const i128 MS = 1000000;
static const int WEEK = 604800;
// GPS time: 1980-01-06 00:00:00 plus 18 s of leap seconds. (The library adds the leap seconds to the
// epoch so that an instant's number is ahead of POSIX by none: UTC = GPS + epoch + LEAP.)
static const int64_t GPS0 = civil(1980, 1, 6) * 86400 + 18;
static int gen_week(vt::Src& s)
{
    switch (s.weighted({3, 2, 2, 1}))
    {
    case 0: return s.irange(0, 2500);
    case 1: return s.irange(2000, 4095);
    case 2: return s.pick({0, 1, 1023, 1024, 2047, 2048, 3550, 3551, 3552, 4095});
    default: return s.irange(0, 8191);
    }
}
static int gen_tow(vt::Src& s)
{
    switch (s.weighted({3, 2, 2, 2}))
    {
    case 0: return s.irange(0, WEEK * 1000 - 1);
    case 1: return s.irange(0, WEEK - 1) * 1000;
    case 2: return s.irange(0, 6) * 86400000 + s.irange(0, 3000);
    default: { const int d = s.irange(1, 7); return d * 86400000 - 1 - s.irange(0, 3000); }
    }
}
VT_PROP(gps_and_galileo_week, 40000, 1000000)
{
    const int w = gen_week(s), tow = gen_tow(s);
    const bool gal = s.flip();
    s.note("%s week %d tow %d ms", gal ? "Galileo" : "GPS", w, tow);
    if (tow % 1000) { s.nontrivial(); s.label("sub-second"); }
    if (w >= 2048) s.nontrivial();
    const UTCTime t = gal ? UTCTime::fromGalileo(w, tow) : UTCTime::fromGPS(w, tow);
    const i128 want = ((i128)GPS0 + (i128)w * WEEK) * NS + (i128)tow * MS;
    VT_REQ(total(t) == want, "got %s want %s", show(t).c_str(), show(want).c_str());
    VT_REQ(t.nsec >= 0 && t.nsec < NS, "not normalised %s", show(t).c_str());
    VT_REQ(t.GpsWeek() == w, "GpsWeek %d", t.GpsWeek());
    VT_REQ(std::abs(t.GpsTow() - tow * 1e-3) < 2e-9, "GpsTow %.9f", t.GpsTow());
}
VT_PROP(gps_fields_of_any_instant, 20000, 500000)
{
    const UTCTime t(GPS0 + (s.flip() ? s.range(0, 2500ll * WEEK) : (int64_t)gen_week(s) * WEEK + s.range(0, 2)), gen_nsec(s));
    s.note("%s", show(t).c_str());
    s.nontrivial();
    const i128 since = total(t) - (i128)GPS0 * NS;
    VT_REQ(t.GpsWeek() == (int)(since / ((i128)WEEK * NS)), "GpsWeek %d", t.GpsWeek());
    VT_REQ(std::abs(t.GpsTow() - (double)(since % ((i128)WEEK * NS)) * 1e-9) < 2e-9, "GpsTow %.9f", t.GpsTow());
}
VT_PROP(glonass_week, 40000, 1000000)
{
    const int w = gen_week(s), tow = gen_tow(s);
    s.note("GLONASS week %d tow %d ms", w, tow);
    if (tow % 1000) { s.nontrivial(); s.label("sub-second"); }
    if (w >= 2048) s.nontrivial();
    const UTCTime t = UTCTime::fromGlonass(w, tow);
    const i128 want = ((i128)w * WEEK - 3 * 3600) * NS + (i128)tow * MS;
    VT_REQ(total(t) == want, "got %s want %s", show(t).c_str(), show(want).c_str());
    VT_REQ(t.nsec >= 0 && t.nsec < NS, "not normalised %s", show(t).c_str());
    if (total(t) >= -3ll * 3600 * NS)
    {
        VT_REQ(t.GlonassWeek() == w, "GlonassWeek %d", t.GlonassWeek());
        VT_REQ(t.GlonassDayOfWeek() == tow / 86400000, "GlonassDayOfWeek %d", t.GlonassDayOfWeek());
    }
}
VT_PROP(glonass_time_of_day, 40000, 1000000)
{
    // reference anywhere, time of day biased to the two midnights and to noon away
    const int64_t day = s.range(0, 40000);
    int64_t rsec = day * 86400 - 3 * 3600;
    switch (s.draw(2))
    {
    case 0: rsec += s.range(0, 86399); break;
    case 1: rsec += s.range(0, 1800); break;
    default: rsec += 86399 - s.range(0, 1800);
    }
    if (rsec < 0) s.discard();
    const UTCTime ref(rsec, gen_nsec(s));
    int tod;
    switch (s.draw(2))
    {
    case 0: tod = s.irange(0, 86399999); break;
    case 1: tod = s.irange(0, 3600000); break;
    default: tod = 86399999 - s.irange(0, 3600000);
    }
    s.note("reference %s tod %d ms", show(ref).c_str(), tod);
    const UTCTime t = UTCTime::fromGlonassTimeOfDay(ref, tod);
    // same time of day in Moscow time
    const i128 DAY = (i128)86400 * NS;
    i128 m = (total(t) + (i128)3 * 3600 * NS) % DAY;
    if (m < 0) m += DAY;
    VT_REQ(m == (i128)tod * MS, "%s has another time of day", show(t).c_str());
    i128 d = total(t) - total(ref);
    if (d < 0) d = -d;
    i128 sameday = (total(ref) + (i128)3 * 3600 * NS) / DAY * DAY + (i128)tod * MS - (i128)3 * 3600 * NS - total(ref);
    if (sameday < 0) sameday = -sameday;
    if (2 * sameday > DAY) { s.nontrivial(); s.label("other_day"); }
    if (tod % 1000) s.nontrivial();
    VT_REQ(2 * d <= DAY, "%s is %s from the reference", show(t).c_str(), show(d).c_str());
}
VT_PROP(calendar, 30000, 600000)
{
    const int y = s.flip() ? s.irange(1971, 2099) : s.irange(1900, 2200), mo = s.irange(1, 12);
    const int d = s.flip() ? s.irange(1, mdays(y, mo)) : (s.flip() ? 1 : mdays(y, mo));
    const int h = s.irange(0, 23), mi = s.irange(0, 59);
    double sec;
    switch (s.draw(3))
    {
    case 0: sec = s.irange(0, 59); break;
    case 1: sec = s.real(0, 59.999); break;
    case 2: sec = s.irange(0, 59) + s.irange(0, 999) * 1e-3; break;
    default: sec = std::nextafter((double)s.irange(1, 60), 0.0);
    }
    s.note("%04d/%02d/%02d %02d:%02d:%.17g", y, mo, d, h, mi, sec);
    if (sec != std::floor(sec)) s.nontrivial();
    const UTCTime t = UTCTime::fromCalendar(y, mo, d, h, mi, sec);
    const i128 want = ((i128)civil(y, mo, d) * 86400 + h * 3600 + mi * 60) * NS + (i128)llround(sec * 1e9);
    i128 e = total(t) - want;
    if (e < 0) e = -e;
    VT_REQ(e <= 1, "got %s want %s", show(t).c_str(), show(want).c_str());
    VT_REQ(t.nsec >= 0 && t.nsec < NS, "not normalised %s", show(t).c_str());
    // printing: the digits denote the instant
    const std::string a = t.str();
    int Y, M, D, H, I;
    char secs[64];
    VT_REQ(sscanf(a.c_str(), "%d/%d/%d %d:%d:%60s", &Y, &M, &D, &H, &I, secs) == 6, "str '%s'", a.c_str());
    const double back = atof(secs);
    const i128 got = ((i128)civil(Y, M, D) * 86400 + H * 3600 + I * 60) * NS + (i128)llround(back * 1e9);
    e = got - total(t);
    if (e < 0) e = -e;
    VT_REQ(e <= MS, "str() '%s' denotes %s, not %s", a.c_str(), show(got).c_str(), show(t).c_str());
    std::stringstream ss;
    ss << t;
    if (y != 1970)
        VT_REQ(ss.str() == a, "<< '%s' str '%s'", ss.str().c_str(), a.c_str());
}
VT_PROP(printed_duration, 5000, 50000)
{
    // small instants (durations) print as seconds
    const UTCTime t(s.range(0, 31535999), gen_nsec(s));
    std::stringstream ss;
    ss << t;
    s.note("%s prints %s", show(t).c_str(), ss.str().c_str());
    s.nontrivial();
    const long double v = strtold(ss.str().c_str(), nullptr);
    VT_REQ(std::abs((double)(v - (t.sec + (long double)t.nsec * 1e-9L))) <= 1.0001e-3, "denotes %.9Lf", v);
}
// 2019-07-20 22:00:00 GPS time is 2019-07-20 21:59:42 UTC
VT_KNOWN(gps_leap_sign)
{
    const UTCTime g = UTCTime::fromGPS(2062, (6 * 86400 + 22 * 3600) * 1000), u = UTCTime::fromCalendar(2019, 7, 20, 21, 59, 42);
    what = "the instant built from GPS time 2019-07-20 22:00:00 and the one built from the calendar date of the same moment (21:59:42 UTC) differ by " +
           std::to_string((g - u).toSec()) + " s";
    return (g - u).toSec() != 0;
}
