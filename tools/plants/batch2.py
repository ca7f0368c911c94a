import os, sys; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mkplant import *
mkplant("N01-evict-newest", "N01", [("core/sat_manager.cxx", "            sat_vec.pop_front();", "            sat_vec.pop_back();")],
"more than thirty satellites of one constellation over a session",
"When the registry is full the satellite heard of last is forgotten instead of the oldest.",
r'''
#include <cstdio>
#include "core/sat_manager.h"
using namespace mc;
int main()
{
    SatelliteManager m;
    for (int i = 1; i <= 32; ++i)
    {
        ephemeris::GalileoEphemeris e(i);
        e.toe = UTCTime(1600000000, 0);
        m.ephCb(e);
    }
    const satellite::SatelliteBase* s = nullptr;
    int bad = 0;
    for (int i = 25; i <= 32; ++i) bad += !m.getSat(GnssID::Galileo, i, make_out(s)).ok();
    printf("%d of the last eight satellites lost\n", bad);
    return bad;
}
''', sources=SAT + " core/sat_manager.cxx")
mkplant("W01-pole-cap", "W01", [("utils/wgs84.cxx", "if (r2 > 1e-12)", "if (r2 > 1.0)")],
"a position less than a metre from the Earth's axis",
"Latitude is rounded to the pole and longitude to zero within a metre of the axis: converting back misses the point.",
r'''
#include <cstdio>
#include "utils/wgs84.h"
using namespace mc;
int main()
{
    const Eigen::Vector3d p(0.3, -0.6, -6356800.0);
    const Eigen::Vector3d q = utils::WGS84::lla2ecef(utils::WGS84::ecef2lla(p));
    printf("off by %g m\n", (p - q).norm());
    return (p - q).norm() < 1e-3 ? 0 : 1;
}
''', sources=SAT)
mkplant("A01-search-bound", "A01", [("core/solver/lambda.cxx", "double Chi2 = 1e18;", "double Chi2 = 1e6;")],
"ambiguities known to a ten-thousandth of a cycle or better that lie between integers (a wrong float solution)",
"The initial search region excludes the true least-squares integers when the variances are very small, so all candidates come back zero.",
r'''
#include <cstdio>
#include "core/solver/lambda.h"
int main()
{
    using namespace mc;
    Eigen::VectorXd a(2);
    a << 5.4, -3.3;
    Eigen::MatrixXd F(2, 2);
    Eigen::VectorXd s(2);
    Eigen::MatrixXd L = Eigen::MatrixXd::Identity(2, 2);
    Eigen::VectorXd D(2);
    D << 1e-8, 1e-8;
    core::solver::search(a, L, D, 2, F, s);
    printf("%g %g\n", F(0, 0), F(1, 0));
    return F(0, 0) == 5 && F(1, 0) == -3 && s(0) > 0 ? 0 : 1;
}
''', sources=BASE + " core/solver/lambda.cxx")
mkplant("V02-derivative-pause", "V02", [("sim/controllers/pid.cxx", """        xdot = differentiator_;
    }
    else
    {
        xdot = (double)0.0;
    }
    prev_x_ = x;
""", """        xdot = differentiator_;
        prev_x_ = x;
    }
    else
    {
        xdot = (double)0.0;
    }
""")], "a controller called twice at (almost) the same time with a changed input, then again later",
"The step that fell into the empty interval is counted again as a derivative of the next one.",
r'''
#include <cmath>
#include <cstdio>
#include "sim/controllers/pid.h"
int main()
{
    mc::sim::controllers::PID::Options o;
    o.kp = 0; o.ki = 0; o.kd = 1; o.max = 1e9; o.tau = 0.05;
    mc::sim::controllers::PID c(o);
    c.run(0.0, 10.0, 0.0, true);              // the first call only sets the previous input
    const double u = c.run(0.1, 10.0, 0.0, true);  // nothing moved since
    printf("derivative action %g\n", u);
    return std::abs(u) < 1e-9 ? 0 : 1;
}
''', sources="$(ls sim/controllers/pid.cxx)")
mkplant("M02-log-series", "M02", [("common/math/dquat.h", "        if (th2 > (T)1e-8)", "        if (th2 > (T)4e-2)")],
"the logarithm of a rigid transform that rotates by ten to twenty degrees and translates far",
"A power series meant for tiny angles is used up to 23 degrees, so exp(log(T)) misses T by parts in 100 000.",
r'''
#include <cstdio>
#include "common/math/dquat.h"
using namespace mc;
int main()
{
    Vec6 x;
    x << 0.2, -0.25, 0.15, 100.0, 200.0, -300.0;
    const math::DQuat<double> T = math::DQuat<double>::exp(x);
    const double d = (T.log() - x).norm();
    printf("off by %g\n", d);
    return d < 1e-6 ? 0 : 1;
}
''')
mkplant("L02-amended-chain", "L02", [("common/logging/log_reader.cxx", """    if (node["amends"])
    {""", """    if (node["amends"] && amends_.empty())
    {""")], "a log that amends a log which itself amends a third one",
"The streams only the third log has are not read any more.",
r'''
#include <cstdio>
#include <fstream>
#include <string>
#include "common/logging/log_reader.h"
#include "common/logging/log_writer.h"
#include "common/utctime.h"
using namespace mc;
using namespace mc::logging;
int main()
{
    std::string last;
    for (int i = 0; i < 3; ++i)
    {
        Logger log(UTCTime(1600000000 + 100 * i, 0), "log" + std::to_string(i));
        log.initStream<double>(100 + i, {"x"});
        if (i > 0) log.amends("log" + std::to_string(i - 1) + "/" + last);
        for (int k = 0; k < 3; ++k) log.log(100 + i, UTCTime(1600000000 + k, 0), (double)k);
        last = log.logId();
    }
    int seen[3] = {0, 0, 0};
    LogReader r("log2/" + last);
    for (int i = 0; i < 3; ++i)
        r.setCallback(100 + i, [&seen, i](const UTCTime&, int, StreamReader& s) {
            double x;
            s.get(x);
            ++seen[i];
        });
    r.read();
    printf("records %d %d %d\n", seen[0], seen[1], seen[2]);
    return seen[0] == 3 && seen[1] == 3 && seen[2] == 3 ? 0 : 1;
}
''', sources=NAV + " $(ls common/logging/*.cxx | grep -v _test) $(ls utils/*.cxx | grep -v 'test\\|crc\\|main')", libs="-lfmt -lyaml-cpp -lstdc++fs")
