import sys; sys.path.insert(0, '/verif/tools')
from mkplant import *
mkplant("B01-emplace-full", "B01", [("common/circular_buffer.h", """        if (full())
            pop_front();
        new (&*tail_) T(args...);
        ++tail_;
""", """        new (&*tail_) T(args...);
        ++tail_;
        if (tail_ == head_)
            ++head_;
""")], "emplace_back on a full buffer, with elements that own something (a destructor that matters)",
"The element dropped from the front of a full buffer is overwritten without ever being destroyed: whatever it owns leaks, one element per arrival.",
r'''
#include <cstdio>
#include <memory>
#include "common/circular_buffer.h"
int main()
{
    auto tracker = std::make_shared<int>(7);
    mc::CircularBuffer<std::shared_ptr<int>, 5> b;
    for (int i = 0; i < 20; ++i) b.emplace_back(tracker);
    const long want = 1 + (long)b.size();
    printf("size %zu use count %ld (want %ld)\n", b.size(), tracker.use_count(), want);
    return tracker.use_count() == want ? 0 : 1;
}
''')
mkplant("E06-glo-mark-byte", "E06", [("common/ephemeris/glonass.cxx", "int time_mark = (uint16_t)(buf[12] << 8) | buf[13];", "uint8_t time_mark = buf[13];")],
"strings of two GLONASS superframes whose superframe marks differ only in the high byte, with strings lost in between",
"The parser does not notice that the superframe changed and publishes an ephemeris assembled from two of them.",
r'''
#include <cstdio>
#include <cstring>
#include "common/ephemeris/glonass.h"
#include "utils/crc.h"
using namespace mc;
// one string: number in bits 1-4, x word from bit 21 on; check bits found by trial
static bool make(uint8_t b[16], int num, int fill, int mark)
{
    memset(b, 0, 16);
    b[0] = num << 3;
    for (int i = 2; i < 10; ++i) b[i] = fill * (i + 1);
    if (num == 4) { b[7] = 0x00; b[8] = 0x20; }
    b[12] = mark >> 8; b[13] = mark;
    for (int c = 0; c < 256; ++c)
    {
        b[9] = (b[9] & 0xfe) | 0; b[10] = 0;
        b[9] = (b[9] & 0xf8) | ((c >> 5) & 7); b[10] = c << 3;
        if (utils::gloTest(b)) return true;
    }
    return false;
}
int main()
{
    ephemeris::GlonassEphemeris e(3);
    int out = 0;
    auto send = [&](int num, int fill, int mark) {
        uint8_t b[16], w[16];
        if (!make(b, num, fill, mark)) { printf("no code\n"); return false; }
        for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) w[4 * i + j] = b[4 * i + 3 - j];
        return e.parse(w, 16);
    };
    const int m1 = 0x0142, m2 = 0x0242;
    for (int n : {1, 2, 3}) out += send(n, 1, m1);
    for (int n : {4, 5}) out += send(n, 2, m2);  // the next superframe, its first strings lost
    printf("completed %d\n", out);
    return out == 0 ? 0 : 1;
}
''', sources=NAV)
mkplant("S03-glo-backward", "S03", [("common/satellite/satellite_state.cxx", "if (abs(dt) < TSTEP)", "if (dt < TSTEP)")],
"a GLONASS state requested before the reference time of its ephemeris",
"For instants before the reference time the whole interval is integrated in one step of up to half an hour instead of steps of a minute, which loses metres.",
r'''
#include <cstdio>
#include "common/satellite/satellite_state.h"
using namespace mc;
int main()
{
    ephemeris::GlonassEphemeris e(3);
    e.toe = UTCTime(1600000000, 0);
    e.pos = Vec3(7003008.789, -12206626.953, 21280765.625);
    e.vel = Vec3(783.5417, 2804.2530, 1352.5150);
    e.acc.setZero();
    e.taun = e.gamn = 0;
    satellite::SatelliteState a, b;
    satellite::eph2Sat(e.toe + (-900.0), e, make_out(a));
    // the same instant in fifteen steps of a minute, through intermediate ephemerides
    ephemeris::GlonassEphemeris f(e);
    for (int i = 0; i < 90; ++i)
    {
        satellite::eph2Sat(f.toe + (-10.0), f, make_out(b));
        f.toe = f.toe + (-10.0);
        f.pos = b.pos;
        f.vel = b.vel;
    }
    printf("difference %g m\n", (a.pos - b.pos).norm());
    return (a.pos - b.pos).norm() < 1e-3 ? 0 : 1;
}
''', sources=SAT)
mkplant("S05-iono-fmod", "S05", [("common/satellite/atm_correction.cxx", "t -= floor(t / 86400.0) * 86400.0;", "t = std::fmod(t, 86400.0);")],
"a receiver at a western longitude during the first hours (UTC) of Sunday, when the local time of day taken from the time of week is negative",
"The local time is negative instead of wrapping to the previous day, so the afternoon bulge of the ionospheric delay is missed.",
r'''
#include <cmath>
#include <cstdio>
#include "common/satellite/atm_correction.h"
using namespace mc;
int main()
{
    // half past ten UTC at local 14h (10 h west is local half past midnight; 150 deg W)
    satellite::AzimuthElevation az;
    az.az = 0.3;
    az.el = 1.0;
    const Vec3 lla(0.3, -2.4, 100.0);
    const UTCTime sunday = UTCTime::fromGPS(2100, 0) + 60.0, monday = sunday + 86400.0;
    const double a = satellite::computeIonosphericDelay(sunday, lla, az), b = satellite::computeIonosphericDelay(monday, lla, az);
    printf("same local time of day: %.3f m on Sunday, %.3f m on Monday\n", a, b);
    return std::abs(a - b) < 1e-6 ? 0 : 1;
}
''', sources=SAT)
mkplant("T02-wrap-boundary", "T02", [("common/utctime.cxx", "else if (nsec >= E9)", "else if (nsec > E9)")],
"a sum whose sub-second parts add up to exactly one second",
"The instant holds 1000000000 nanoseconds: it is unequal to, and ordered before, the same instant written as the next second.",
r'''
#include <cstdio>
#include "common/utctime.h"
using namespace mc;
int main()
{
    const UTCTime a = UTCTime(100, 750000000) + UTCTime(0, 250000000), b(101, 0);
    printf("%ld %ld\n", (long)a.sec, (long)a.nsec);
    return a == b && !(a < b) ? 0 : 1;
}
''', sources=BASE)
mkplant("E03-af2-sign", "E03", [("common/ephemeris/gps.cxx", "af2 = getBit<8, Signed>(buf, 192) * P2_55;", "af2 = getBit<8>(buf, 192) * P2_55;")],
"a GPS subframe 1 with a negative clock acceleration (rare: normally zero)",
"A negative af2 decodes as a large positive one.",
r'''
#include <cstdio>
#include <cstring>
#include "common/ephemeris/gps.h"
using namespace mc;
int main()
{
    ephemeris::GPSEphemeris e(1);
    uint8_t f[30] = {0x8B};
    f[5] = 1 << 2;          // subframe 1
    f[24] = 0xFF;           // af2 = -1
    uint32_t w[10];
    for (int i = 0; i < 10; ++i) w[i] = ((uint32_t)f[3 * i] << 22) | ((uint32_t)f[3 * i + 1] << 14) | ((uint32_t)f[3 * i + 2] << 6);
    e.parse(reinterpret_cast<const uint8_t*>(w), 40);
    printf("af2 %g\n", e.af2);
    return e.af2 < 0 ? 0 : 1;
}
''', sources=NAV)
mkplant("M03-dual-exp-right", "M03", [("common/math/dquat.h", """            const Mat3 C = (c - b) * Mat3::Identity() - C1 * sk_w + C2 * w * w.transpose();
            const Mat3 D = -b * skew(v) + c * B + gm * C;
""", """            const Mat3 C = (c - b) * Mat3::Identity() + C1 * sk_w + C2 * w * w.transpose();
            const Mat3 D = -b * skew(v) + c * B + gm * C;
""")], "the right-hand Jacobian of the exponential, for a rotation and a translation that are not perpendicular",
"The coupling block of the right Jacobian of DQuat::exp has one term of the wrong sign.",
r'''
#include <cstdio>
#include "common/math/dquat.h"
using namespace mc;
int main()
{
    Vec6 x;
    x << 0.7, -0.4, 0.9, 1.0, 2.0, 3.0;
    Mat6 L, R;
    math::DQuat<double>::exp<JacobianSide::LEFT>(x, &L);
    math::DQuat<double>::exp<JacobianSide::RIGHT>(Vec6(-x), &R);
    const double d = (L - R).norm();  // Jr(-x) = Jl(x)
    printf("%g\n", d);
    return d < 1e-9 ? 0 : 1;
}
''')
mkplant("S02-rdot-sign", "S02", [("common/satellite/satellite_state.cxx", "2.0 * (eph.crs * c2uk - eph.crc * s2uk) * takdot;", "2.0 * (eph.crs * c2uk + eph.crc * s2uk) * takdot;")],
"a Kepler ephemeris with a large crc, away from the nodes and their quarters",
"The reported velocity is not the derivative of the reported position.",
r'''
#include <cmath>
#include <cstdio>
#include "common/satellite/satellite_state.h"
#include "common/ephemeris/gps.h"
using namespace mc;
int main()
{
    ephemeris::GPSEphemeris e(1);
    e.sqrta = 5153.7; e.ecc = 0.01; e.i0 = 0.95; e.m0 = 0.4; e.w = 0.3; e.omega0 = 1; e.crc = 300; e.crs = 0;
    e.cuc = e.cus = e.cic = e.cis = e.idot = e.omegadot = e.delta_n = e.af0 = e.af1 = e.af2 = 0;
    e.toes = 100000; e.toe = e.toc = UTCTime::fromGPS(2100, 100000000);
    satellite::SatelliteState a, b, c;
    satellite::eph2Sat(e.toe + 1000.0, e, make_out(a));
    satellite::eph2Sat(e.toe + 1000.25, e, make_out(b));
    satellite::eph2Sat(e.toe + 999.75, e, make_out(c));
    const double d = ((b.pos - c.pos) / 0.5 - a.vel).norm();
    printf("velocity off by %g m/s\n", d);
    return d < 2e-2 ? 0 : 1;
}
''', sources=SAT)
