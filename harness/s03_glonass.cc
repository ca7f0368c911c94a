// S03: GLONASS satellites against an independent integration, and query histories
#include "satgen.h"
#include "third_party/rtklib/rtklib_adapter.h"
using namespace satgen;
using namespace mc::satellite;
using namespace mc::ephemeris;
static int64_t gen_dt(vt::Src& s)
{
    switch (s.weighted({5, 1, 1, 2}))
    {
    case 0: return s.range(-1800000000000ll, 1800000000000ll);
    case 1: return 0;
    case 2: return s.range(-30, 30) * 60000000000ll;      // whole integration steps
    default: return s.range(-30, 30) * 60000000000ll + s.pick({-1ll, 1ll, 1000ll, -1000000ll, 1000000000ll});
    }
}
VT_PROP(queries, 5000, 100000)
{
    const int sv = s.irange(1, 24);
    GlonassEphemeris e(sv);
    gen_glonass(s, e, sv);
    Satellite<GlonassEphemeris> sat(GnssID::Glonass, sv);
    sat.addEph(e);
    SatelliteState st;
    st.pos = Vec3(1, 2, 3); st.vel = Vec3(4, 5, 6); st.clk = Vec2(7, 8);
    const int n = s.irange(1, 5);
    std::vector<int64_t> asked;
    std::vector<SatelliteState> got;
    for (int i = 0; i < n; ++i)
    {
        const bool again = !asked.empty() && s.chance(0.3);
        const int k = again ? s.irange(0, (int)asked.size() - 1) : 0;
        const int64_t ns = again ? asked[k] : gen_dt(s);
        const UTCTime t = at(e.toe, ns);
        VT_REQ((s.flip() ? sat.getState(t, make_out(st)) : eph2Sat(t, e, make_out(st))).ok(), "error");
        s.note("dt %.9f", ns * 1e-9);
        VT_REQ(st.t == t, "time of the state");
        if (again)
        {
            VT_REQ(st.pos == got[k].pos && st.vel == got[k].vel && st.clk == got[k].clk, "the same time again gives another state");
            s.label("asked again");
        }
        else
        {
            const ld dt = ns * 1e-9L;
            ld y[6];
            icd_glo(e, dt, y);
            const double dp = (double)norm({y[0] - st.pos.x(), y[1] - st.pos.y(), y[2] - st.pos.z()});
            const double dv = (double)norm({y[3] - st.vel.x(), y[4] - st.vel.y(), y[5] - st.vel.z()});
            VT_REQ(dp < 0.01, "position off by %g m", dp);
            VT_REQ(dv < 1e-4, "velocity off by %g m/s", dv);
            VT_REQ(fabsl(-(ld)e.taun + (ld)e.gamn * dt - st.clk(0)) < 1e-14, "clock offset");
            VT_REQ(std::abs(st.clk(1) - e.gamn) <= 1e-20, "clock drift");
            if (fabsl(dt) <= 1800)
            {
                auto g = third_party::rtklib::toRtklib(e);
                double rs[6], dts, var;
                third_party::rtklib::geph2pos(third_party::rtklib::toRtklib(t), &g, rs, &dts, &var);
                VT_REQ((Vec3(rs[0], rs[1], rs[2]) - st.pos).norm() < 0.01, "RTKLIB position differs");
            }
            if (ns < 0) s.label("backwards");
            asked.push_back(ns);
            got.push_back(st);
        }
    }
    if (asked.size() > 1) s.nontrivial();
}
// composing propagations: re-referencing an ephemeris to a later instant predicts the same orbit
VT_PROP(rereference, 3000, 50000)
{
    GlonassEphemeris e(1), e2(1);
    gen_glonass(s, e, 1);
    const int64_t a = gen_dt(s) / 2, b = gen_dt(s) / 2;
    SatelliteState m, d, c;
    eph2Sat(at(e.toe, a), e, make_out(m));
    e2 = e;
    e2.toe = at(e.toe, a);
    e2.pos = m.pos; e2.vel = m.vel;
    eph2Sat(at(e2.toe, b), e2, make_out(d));
    eph2Sat(at(e.toe, a + b), e, make_out(c));
    VT_REQ((d.pos - c.pos).norm() < 0.01 && (d.vel - c.vel).norm() < 1e-4, "via %ld ns: %g m", (long)a, (d.pos - c.pos).norm());
    if (a && b) s.nontrivial();
}
