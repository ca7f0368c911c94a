// S01: almanac against a sorted map
#include "satgen.h"
using namespace satgen;
using namespace mc::satellite;
using namespace mc::ephemeris;
template <typename E>
static void run(vt::Src& s, int gnss)
{
    const int sv = s.irange(1, 36);
    Satellite<E> sat(gnss, sv);
    VT_REQ(sat.almanacSize() == 0 && sat.gnssId() == gnss && sat.sat_num() == sv, "fresh satellite");
    std::map<int64_t, int> model;  // toe (half seconds) -> tag
    const bool bulk = s.chance(0.02);  // months of broadcasts
    const int n = bulk ? s.irange(60, 600) : s.irange(1, 30);
    const int spread = bulk ? s.pick({200, 1000, 5000}) : s.pick({3, 10, 200});
    const bool sub = s.chance(0.3);  // reference times that differ by less than a second
    const int64_t T0 = gps_sec(2000, 0);
    const int64_t step = sub ? s.pick({1, 1000, 250000000}) : (int64_t)900 * 1000000000;
    bool reord = false, dup = false;
    int64_t last = INT64_MIN;
    auto when = [&](int64_t ns) { return UTCTime(T0, ns); };
    for (int i = 0; i < n; ++i)
    {
        const int64_t k = s.irange(0, spread);
        E e;
        e.gnssID = gnss;
        e.sat = sv;
        e.toe = when(k * step);
        e.iode = i;
        if (model.count(k)) dup = true;
        if (k < last) reord = true;
        last = k;
        model[k] = i;
        VT_REQ(sat.addEph(e).ok(), "addEph reported an error");
        VT_REQ(sat.almanacSize() == (int)model.size(), "%d entries, %zu distinct reference times", sat.almanacSize(), model.size());
        // a look-up after every arrival
        for (int q = 0; q < (bulk ? 1 : 3); ++q)
        {
            int64_t d;
            switch (s.weighted({3, 2, 1}))
            {
            case 0: d = s.range(-2, 2 * spread + 4) * step / 2; break;
            case 1: d = s.irange(0, spread) * step + s.range(-step / 2 - 1, step / 2 + 1); break;
            default: d = s.flip() ? -step * 5000 : step * 5000; break;
            }
            const E& got = sat.findClosestEphemeris(when(d));
            // nearest by exact integer distance; the search works in double seconds, so distances
            // that agree to 1e-9 relative are ties
            int64_t best = INT64_MAX;
            for (auto& m : model) best = std::min<int64_t>(best, std::llabs(m.first * step - d));
            const UTCTime gd = got.toe - when(0);
            const int64_t gt = gd.sec * 1000000000ll + gd.nsec;
            VT_REQ(gt % step == 0 && model.count(gt / step), "an entry that was never added");
            VT_REQ(std::llabs(gt - d) <= best + (best >> 40), "query %ld ns: got %ld, nearest is %ld ns away", (long)d, (long)gt, (long)best);
            VT_REQ(got.iode == (decltype(got.iode))model[gt / step], "entry %ld is not the latest received", (long)(gt / step));
        }
    }
    // every distinct one is there: a query at each reference time returns it
    for (auto& m : model)
    {
        const E& got = sat.findClosestEphemeris(when(m.first * step));
        VT_REQ(got.toe == when(m.first * step) && got.iode == (decltype(got.iode))m.second, "entry %ld missing or stale", (long)m.first);
        VT_REQ(got.sat == sv && got.gnssID == gnss, "identity");
    }
    if (bulk) s.label("bulk");
    if (reord) s.label("reordered");
    if (dup) s.label("duplicate");
    if (model.size() >= 3 && (reord || dup)) s.nontrivial();
    s.note("gnss %d: %d arrivals, %zu distinct, step %ld ns", gnss, n, model.size(), (long)step);
}
VT_PROP(gps, 6000, 100000) { run<GPSEphemeris>(s, GnssID::GPS); }
VT_PROP(galileo, 4000, 60000) { run<GalileoEphemeris>(s, GnssID::Galileo); }
VT_PROP(glonass, 4000, 60000) { run<GlonassEphemeris>(s, GnssID::Glonass); }
// another satellite or constellation is refused, whatever the almanac holds
template <typename E>
static void refuse(vt::Src& s, int gnss)
{
    const int sv = s.irange(0, 255);
    Satellite<E> sat(gnss, sv);
    const int n = s.irange(0, 3);
    E e;
    e.gnssID = gnss; e.sat = sv;
    for (int i = 0; i < n; ++i) { e.toe = UTCTime((int64_t)1600000000 + 900 * i, (int64_t)0); sat.addEph(e); }
    const int g2 = s.flip() ? gnss : s.pick({0, 1, 2, 3, 5, 6});
    const int s2 = g2 != gnss && s.flip() ? sv : s.irange(0, 255);
    e.gnssID = g2; e.sat = s2;
    e.toe = UTCTime((int64_t)1600000000 + s.irange(-1, 4) * 900, (int64_t)0);
    const auto r = vt::in_child([&] { return sat.addEph(e).ok() ? std::string("ok") : std::string("error"); });
    const bool same = g2 == gnss && s2 == sv;
    if (same) VT_REQ(r.exited && r.data == "ok", "own ephemeris refused");
    else { s.nontrivial(); VT_REQ(r.refused() || r.data == "error", "ephemeris of %d/%d accepted by %d/%d", g2, s2, gnss, sv); }
}
VT_PROP(refuse_foreign, 600, 6000)
{
    switch (s.irange(0, 2))
    {
    case 0: refuse<GPSEphemeris>(s, GnssID::GPS); break;
    case 1: refuse<GalileoEphemeris>(s, GnssID::Galileo); break;
    default: refuse<GlonassEphemeris>(s, GnssID::Glonass); break;
    }
}
// the state a satellite computes is that of its closest ephemeris
VT_PROP(state_of_closest, 3000, 40000)
{
    Satellite<GPSEphemeris> sat(GnssID::GPS, 7);
    std::vector<GPSEphemeris> v;
    GPSEphemeris first;
    gen_kepler(s, first, GnssID::GPS, 7);
    const int n = s.irange(1, 6);
    for (int i = 0; i < n; ++i)
    {
        GPSEphemeris e;
        gen_kepler(s, e, GnssID::GPS, 7);
        e.toe = UTCTime(first.toe.sec + s.irange(-8, 8) * 1800, (int64_t)0);
        bool dup = false;
        for (auto& x : v) if (x.toe == e.toe) { x = e; dup = true; }
        if (!dup) v.push_back(e);
        sat.addEph(e);
    }
    const UTCTime t = at(v[s.irange(0, (int)v.size() - 1)].toe, s.range(-3600ll, 3600) * 1000000000ll + s.irange(1, 999));
    const GPSEphemeris* best = nullptr;
    for (auto& x : v) if (!best || std::abs((t - x.toe).toSec()) < std::abs((t - best->toe).toSec())) best = &x;
    SatelliteState a, b;
    sat.getState(t, make_out(a));
    eph2Sat(t, *best, make_out(b));
    VT_REQ(a.t == t && a.pos == b.pos && a.vel == b.vel && a.clk == b.clk, "state is not the one of the closest ephemeris");
    if (v.size() > 1) s.nontrivial();
}
