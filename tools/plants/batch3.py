import os, sys; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mkplant import *
KEPLER = r'''
static ephemeris::KeplerianEphemeris orbit(double ecc)
{
    ephemeris::KeplerianEphemeris e;
    e.gnssID = GnssID::GPS;
    e.sat = 1;
    e.toe = UTCTime::fromGPS(2000, 93600000);
    e.toc = e.toe;
    e.toes = 93600.0;
    e.sqrta = 5153.79589081;
    e.delta_n = 0;
    e.m0 = 1.05827953357;
    e.ecc = ecc;
    e.w = 2.06374037770;
    e.cus = e.cuc = e.crs = e.crc = e.cis = e.cic = e.idot = 0;
    e.i0 = 0.961685061380;
    e.omega0 = 1.64046615454;
    e.omegadot = 0;
    e.af0 = e.af1 = e.af2 = 0;
    return e;
}
'''
mkplant("G02-sagnac-epoch", "G02", [("models/relative_carrier_phase_model.cxx", "los2_norm + computeSagnac(sat2_, p_e2b2)", "los2_norm + computeSagnac(sat1_, p_e2b2)")],
"two epochs many seconds apart", "The Earth-rotation correction of the second epoch is made with the satellite's position at the first one.",
r'''
#include <cmath>
#include <cstdio>
#include "common/defs.h"
#include "models/relative_carrier_phase_model.h"
using namespace mc;
// a satellite that flies straight
struct Straight : satellite::SatelliteBase
{
    UTCTime t0;
    Vec3 p0, v;
    explicit Straight(UTCTime t) : SatelliteBase(GnssID::GPS, 3), t0(t), p0(2.0e7, 1.2e7, 1.0e7), v(-1500, 2500, 0) {}
    Error getState(const UTCTime& t, Out<satellite::SatelliteState> s) const override
    {
        s->t = t;
        s->pos = p0 + v * (t - t0).toSec();
        s->vel = v;
        s->clk.setZero();
        return Error::none();
    }
    double carrierWavelength(int) const override { return 1.0; }
    int almanacSize() const override { return 1; }
};
static double range(const Straight& sat, const UTCTime& t, const Vec3& rec)
{
    double tau = 0.07, sag = 0, r = 0;
    for (int i = 0; i < 20; ++i)
    {
        const Vec3 p = sat.p0 + sat.v * ((t - sat.t0).toSec() - tau);
        sag = OMEGA_EARTH * (p.x() * rec.y() - p.y() * rec.x()) / C_LIGHT;
        r = (p - rec).norm();
        tau = (r + sag) / C_LIGHT;
    }
    return r + sag;
}
int main()
{
    const UTCTime t(1600000000, 0), t2 = t + 90.0;
    Straight sat(t);
    const Vec3 rec(6.378e6, 1000, 2000);
    meas::GnssObservation o1, o2;
    o1.t = t, o2.t = t2;
    o1.gnss_id = o2.gnss_id = GnssID::GPS;
    o1.sat_num = o2.sat_num = 3;
    o1.freq = o2.freq = 0;
    o1.carrier_phase = 0;
    o2.carrier_phase = range(sat, t2, rec) - range(sat, t, rec);
    math::DQuat<double> I = math::DQuat<double>::identity();
    models::RelativeCarrierPhase f(o1, o2, sat, rec, I, 1.0);
    math::DQuat<double> x1(math::Quat<double>::Identity(), rec), x2 = x1, frame = I;
    double clk[4] = {0, 0, 0, 0}, sw[2] = {1, 1}, lever[3] = {0, 0, 0}, r;
    const double* p[] = {x1.data(), x2.data(), clk, clk + 2, sw, sw + 1, frame.data(), lever};
    f.Evaluate(p, &r, nullptr);
    printf("residual %g m\n", r);
    return std::abs(r) < 0.05 ? 0 : 1;
}
''', sources=SAT + " models/relative_carrier_phase_model.cxx")
mkplant("K08-zero-times-scalar", "K08", [("core/ekf/ekf_gen/symb_matrix.py", "            out_cols = other.cols if not other.is_scalar else self.cols\n", "            out_cols = other.cols\n")],
"a zero block with several columns multiplied by a scalar in a larger expression",
"The product of a zero matrix and a scalar gets the scalar's width, so adding it to anything of the right size fails or has the wrong size.",
None, script='''#!/bin/bash
exec python3 - <<'P'
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, ".")
from core.ekf.ekf_gen.symb_matrix import ConstBlock
z = ConstBlock("0", 3, 4) * ConstBlock("dt", 1, 1)
print(z.shape)
sys.exit(0 if z.shape == (3, 4) else 1)
P
''')
mkplant("P01-full-buffer", "P01", [("parsers/ubx/ubx.cxx", "if (length_ > BUFFER_SIZE)", "if (length_ >= BUFFER_SIZE)")],
"a message whose payload is exactly as long as the receive buffer", "The longest message that fits is refused.",
r'''
#include <cstdio>
#include <vector>
#include "parsers/ubx/ubx.h"
using namespace mc::parsers::ublox;
struct Count : UBXListener
{
    int n = 0;
    void gotUBX(uint8_t, uint8_t, const UbxMessage&, size_t) override { ++n; }
    void got_ubx(const uint8_t, const uint8_t, const UbxMessage&) { ++n; }
};
int main()
{
    async_comm::Comm ser;
    Ubx u(ser);
    std::vector<uint8_t> m = {0xB5, 0x62, 0x02, 0x99, 0x00, 0x08};
    for (int i = 0; i < 2048; ++i) m.push_back(i * 7);
    uint8_t a = 0, b = 0;
    for (size_t i = 2; i < m.size(); ++i) a += m[i], b += a;
    m.push_back(a), m.push_back(b);
    ser.listener->receive_callback(m.data(), m.size());
    printf("%d messages\n", (int)u.numMessagesReceived());
    return u.numMessagesReceived() == 1 ? 0 : 1;
}
''', sources=BASE + " parsers/ubx/ubx.cxx", flags='-I"$here"', libs="-lfmt",
files={})
d = os.path.join(V, "seeded", "P01-full-buffer")
os.makedirs(d + "/async_comm"); shutil.copy(os.path.join(V, "harness/async_comm/comm.h"), d + "/async_comm/"); shutil.copy(os.path.join(V, "harness/async_comm/serial.h"), d + "/async_comm/")
s = open(d + "/demo.cc").read(); i = s.index("struct Count"); j = s.index("int main"); open(d + "/demo.cc", "w").write(s[:i] + s[j:])
mkplant("S02-clock-reference", "S02", [("common/satellite/satellite_state.cxx", "const double clk_dt = (t - eph.toc).toSec();", "const double clk_dt = (t - eph.toe).toSec();")],
"an ephemeris whose clock and orbit reference times differ", "The clock polynomial is evaluated from the orbit's reference time.",
r'''
#include <cmath>
#include <cstdio>
#include "common/satellite/satellite_state.h"
using namespace mc;
''' + KEPLER + r'''
int main()
{
    ephemeris::KeplerianEphemeris e = orbit(0);
    e.af1 = 1e-9;
    e.toc = e.toe + 600.0;
    satellite::SatelliteState s;
    satellite::eph2Sat(e.toc + 100.0, e, make_out(s));
    printf("clock %g\n", s.clk(0));
    return std::abs(s.clk(0) - 1e-7) < 1e-12 ? 0 : 1;
}
''', sources=SAT)
mkplant("S02-kepler-steps", "S02", [("common/satellite/satellite_state.cxx", "abs(ek - ek_prev) > 1e-13 && i < 30", "abs(ek - ek_prev) > 1e-13 && i < 2")],
"a satellite on a markedly eccentric orbit (Galileo E14 and E18 have 0.16)", "Kepler's equation is left unsolved on eccentric orbits.",
r'''
#include <cmath>
#include <cstdio>
#include "common/satellite/satellite_state.h"
using namespace mc;
''' + KEPLER + r'''
int main()
{
    double worst = 0;
    for (int i = 0; i < 200; ++i)
    {
        ephemeris::KeplerianEphemeris e = orbit(0.2);
        e.m0 = -3.1 + 0.031 * i;
        satellite::SatelliteState s;
        satellite::eph2Sat(e.toe, e, make_out(s));
        double E = e.m0;
        for (int k = 0; k < 200; ++k) E = e.m0 + e.ecc * std::sin(E);
        const double r = e.sqrta * e.sqrta * (1 - e.ecc * std::cos(E));
        const double x = e.sqrta * e.sqrta * (std::cos(E) - e.ecc), y = e.sqrta * e.sqrta * std::sqrt(1 - e.ecc * e.ecc) * std::sin(E);
        worst = std::max(worst, std::abs(s.pos.norm() - r));
        // height over the equator depends on the place along the orbit
        const double z = (x * std::sin(e.w) + y * std::cos(e.w)) * std::sin(e.i0);
        worst = std::max(worst, std::abs(s.pos.z() - z));
    }
    printf("off by %g m\n", worst);
    return worst < 1e-3 ? 0 : 1;
}
''', sources=SAT)
mkplant("S03-last-step", "S03", [("common/satellite/satellite_state.cxx", "while (abs(dt) > 1e-9)", "while (abs(dt) > 1e-3)")],
"a query within a millisecond of a whole number of minutes from the reference time", "The last fraction of the integration is left out: up to three metres.",
r'''
#include <cmath>
#include <cstdio>
#include "common/satellite/satellite_state.h"
using namespace mc;
int main()
{
    ephemeris::GlonassEphemeris e;
    e.toe = UTCTime(1600000000, 0);
    e.pos << 1.0e7, 1.5e7, 1.8e7;
    e.vel << -2000, 2500, -900;
    e.acc.setZero();
    e.taun = e.gamn = 0;
    satellite::SatelliteState a, b;
    satellite::eph2Sat(e.toe + 120.0, e, make_out(a));
    satellite::eph2Sat(e.toe + 120.0008, e, make_out(b));
    const Vec3 d = b.pos - a.pos - a.vel * 0.0008;
    printf("off by %g m\n", d.norm());
    return d.norm() < 0.01 ? 0 : 1;
}
''', sources=SAT)
mkplant("B02-matrix-order", "B02", [("utils/config.h", "Eigen::Matrix<typename T::Scalar, Rows, Cols, Eigen::RowMajor>>(", "Eigen::Matrix<typename T::Scalar, Rows, Cols>>(")],
"a configured matrix that is not symmetric", "Matrices come out transposed.",
r'''
#include <cstdio>
#include "utils/config.h"
using namespace mc;
int main()
{
    utils::Config c(YAML::Load("m: [1, 2, 3, 4]"));
    Eigen::Matrix2d m;
    c.get("m", make_out(m), true);
    printf("%g %g / %g %g\n", m(0, 0), m(0, 1), m(1, 0), m(1, 1));
    return m(0, 1) == 2 && m(1, 0) == 3 ? 0 : 1;
}
''', sources=BASE + " utils/config.cxx utils/split_string.cxx third_party/backward/backward.cxx", libs="-lfmt -lyaml-cpp -ldl")
