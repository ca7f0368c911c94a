// S02: Keplerian satellites against the ICD algorithm
#include "satgen.h"
#include "third_party/rtklib/rtklib_adapter.h"
using namespace satgen;
using namespace mc::satellite;
using namespace mc::ephemeris;
static int64_t gen_dt(vt::Src& s)  // ns, within validity
{
    switch (s.weighted({5, 1, 1, 1}))
    {
    case 0: return s.range(-7200000000000ll, 7200000000000ll);
    case 1: return 0;
    case 2: return s.flip() ? 7200000000000ll : -7200000000000ll;
    default: return s.range(-7200, 7200) * 1000000000ll;
    }
}
template <typename E>
static void run(vt::Src& s, int gnss, bool through_satellite)
{
    E e;
    const int sv = s.irange(1, 32);
    gen_kepler(s, e, gnss, sv);
    if (s.chance(0.1)) { e.m0 = s.pick({0.0, M_PI}); }
    const int64_t ns = gen_dt(s);
    const UTCTime t = at(e.toe, ns);
    SatelliteState st;
    st.pos = Vec3(s.sym(1e7), 1, 2); st.vel = Vec3(3, 4, 5); st.clk = Vec2(6, 7);  // leftovers
    if (through_satellite)
    {
        Satellite<E> sat(gnss, sv);
        sat.addEph(e);
        VT_REQ(sat.getState(t, make_out(st)).ok(), "error");
    }
    else
        VT_REQ(eph2Sat(t, e, make_out(st)).ok(), "error");
    const bool gal = gnss == GnssID::Galileo;
    const ld tk = ns * 1e-9L, tc = tk + (ld)(e.toe.sec - e.toc.sec);
    s.note("gnss %d ecc %.4f i0 %.3f dt %.9Lf toc-toe %ld", gnss, e.ecc, e.i0, tk, (long)(e.toc.sec - e.toe.sec));
    const V3 p = icd_pos(e, gal, tk);
    const double dp = (double)norm({p.x - st.pos.x(), p.y - st.pos.y(), p.z - st.pos.z()});
    VT_REQ(dp < 1e-3, "position off by %g m", dp);
    const ld clk = icd_clk(e, gal, tk, tc);
    VT_REQ(fabsl(clk - st.clk(0)) < 1e-12, "clock off by %Lg s", clk - st.clk(0));
    const ld h = 0.25L;
    // sixth-order central difference
    auto diff = [&](auto f) { return (45 * (f(h) - f(-h)) - 9 * (f(2 * h) - f(-2 * h)) + (f(3 * h) - f(-3 * h))) / (60 * h); };
    const ld vx = diff([&](ld d) { return icd_pos(e, gal, tk + d).x; }), vy = diff([&](ld d) { return icd_pos(e, gal, tk + d).y; }),
             vz = diff([&](ld d) { return icd_pos(e, gal, tk + d).z; });
    const double dv = (double)norm({vx - st.vel.x(), vy - st.vel.y(), vz - st.vel.z()});
    VT_REQ(dv < 5e-5, "velocity off by %g m/s", dv);
    const ld cd = diff([&](ld d) { return icd_clk(e, gal, tk + d, tc + d); });
    // known finding relativistic_rate: the drift may lack the relativistic term, and only that
    E e0 = e;
    e0.af0 = e0.af1 = e0.af2 = 0;
    const ld rel = diff([&](ld d) { return icd_clk(e0, gal, tk + d, tc + d); });
    VT_REQ(fabsl(cd - st.clk(1)) < 1e-14 || fabsl(cd - rel - st.clk(1)) < 1e-16, "clock drift off by %Lg (%Lg)", cd - st.clk(1), cd - rel - st.clk(1));
    VT_REQ(st.t == t, "time of the state");
    if (gnss == GnssID::GPS)
    {
        auto re = third_party::rtklib::toRtklib(e);
        re.sva = 0;
        re.flag = 0;
        double rs[6], dts, var;
        third_party::rtklib::eph2pos(third_party::rtklib::toRtklib(t), &re, rs, &dts, &var);
        const double d = (Vec3(rs[0], rs[1], rs[2]) - st.pos).norm();
        VT_REQ(d < 2e-3, "RTKLIB position differs by %g m", d);
    }
    if (ns != 0 && e.ecc > 0) s.nontrivial();
    if (e.toc.sec != e.toe.sec) s.label("toc differs from toe");
    if (e.ecc > 0.03) s.label("very eccentric");
}
VT_PROP(gps, 12000, 300000) { run<GPSEphemeris>(s, GnssID::GPS, s.flip()); }
VT_PROP(galileo, 12000, 300000) { run<GalileoEphemeris>(s, GnssID::Galileo, s.flip()); }
VT_PROP(validity, 1200, 12000)
{
    GPSEphemeris e;
    gen_kepler(s, e, GnssID::GPS, 3);
    const bool inside = s.flip();
    const int64_t lim = 7200000000000ll;
    // right at the edge the seconds are rounded to double; 1 us either side is unambiguous
    int64_t ns = inside ? lim - (int64_t)s.logu(1e3, 7e12) : lim + (int64_t)s.logu(1e3, 1e16);
    if (s.flip()) ns = -ns;
    const auto r = vt::in_child([&] { SatelliteState st; return eph2Sat(at(e.toe, ns), e, make_out(st)).ok() ? std::string("ok") : std::string("err"); });
    s.note("dt %ld ns", (long)ns);
    s.nontrivial();
    if (inside) VT_REQ(r.exited && r.data == "ok", "refused inside validity");
    else VT_REQ(r.refused() || r.data == "err", "a state was produced outside validity");
}
VT_KNOWN(relativistic_rate)
{
    GPSEphemeris e;
    e.gnssID = GnssID::GPS; e.sat = 1; e.toe = e.toc = UTCTime((int64_t)1600000000, (int64_t)0); e.toes = 0;
    e.af0 = e.af1 = e.af2 = e.delta_n = e.omegadot = e.idot = e.cuc = e.cus = e.crc = e.crs = e.cic = e.cis = 0;
    e.m0 = 0.1; e.ecc = 0.02; e.sqrta = 5153; e.omega0 = 1; e.i0 = 0.9; e.w = 0.5;
    SatelliteState a, b, c;
    eph2Sat(e.toe, e, make_out(a)); eph2Sat(at(e.toe, 10000000000ll), e, make_out(b)); eph2Sat(at(e.toe, 5000000000ll), e, make_out(c));
    const double r = (b.clk(0) - a.clk(0)) / 10;
    what = "clock offset changes by " + std::to_string(r * 1e12) + "e-12 s/s, reported drift " + std::to_string(c.clk(1) * 1e12) + "e-12";
    return std::abs(r - c.clk(1)) > 1e-13;
}
