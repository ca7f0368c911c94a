// V04: the simulation program does what its configuration says, and its log is the simulation
#include "progs.h"
using namespace mg;
VT_PROP(program, 60, 900)
{
    ScratchDir dir;
    Sky k = gen_sky(s, dir.path + "/eph", 20000000000ll);
    SimConfig c = gen_sim_config(s, k, dir.path + "/out", false);
    const auto r = run_simulate(dir, c);
    VT_REQ(r.code == 0 && r.sig == 0, "the program stopped (code %d, signal %d) %s\n%s", r.code, r.sig, r.data.c_str(), c.yaml.c_str());
    const Recorded want = simulated(c), got = recorded(dir.path + "/out");
    VT_REQ(got.start == k.t0, "the log starts at another time");
    VT_REQ(!(got.end < want.truth.back().t), "the log ends before its last record");
    same_records(want.truth, got.truth, "truth", c.yaml);
    same_records(want.imu, got.imu, "inertial", c.yaml);
    same_records(want.obs, got.obs, "observation", c.yaml);
    // the log extends the ephemeris log: what replays it finds the ephemerides
    std::vector<std::string> eph = read_eph(dir.path + "/out");
    VT_REQ(eph == read_eph(k.path) && eph.size() == k.gps.size() + k.gal.size() + k.glo.size(), "%zu ephemerides reach a reader of the log, %zu were simulated", eph.size(), k.gps.size() + k.gal.size() + k.glo.size());
    s.note("%zu truth, %zu inertial, %zu observations, %d options", got.truth.size(), got.imu.size(), got.obs.size(), c.given);
    if (got.truth.size() > 3 && got.imu.size() > 1 && got.obs.size() > 1 && c.given > 3) s.nontrivial();
}
