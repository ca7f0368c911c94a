// changeovers between issues of data: a completed ephemeris is all of one issue
#include "navcheck.h"
using namespace nav;
// broadcast-like streams: messages cycle, some are lost or repeated, the issue changes at any point
template <class Eph, class Raw, class Msg>
static void stream(vt::Src& s, Eph& e, const std::vector<Raw>& g, const std::vector<int>& cycle, Msg msg, int& done)
{
    size_t cur = 0;
    int at = s.irange(0, (int)cycle.size() - 1);
    const int len = s.irange(8, 60);
    const double loss = s.pick({0.0, 0.1, 0.4}), jump = s.pick({0.0, 0.1, 0.3}), change = s.pick({0.03, 0.1, 0.3});
    std::set<size_t> since;
    for (int k = 0; k < len; ++k)
    {
        if (cur + 1 < g.size() && s.chance(change)) { ++cur; s.note("|issue %zu", cur); }
        if (s.chance(jump)) at = s.irange(0, (int)cycle.size() - 1);
        const int t = cycle[at];
        at = (at + 1) % cycle.size();
        if (s.chance(loss)) continue;
        const auto v = msg(g[cur], t, cur);
        const bool r = e.parse(v.data(), v.size());
        s.note("%d%s", t, r ? "*" : "");
        if (r)
        {
            ++done;
            // it must equal one of the issues sent so far, entirely
            std::string why;
            bool ok = false;
            for (size_t i = 0; i <= cur && !ok; ++i)
            {
                try { check_orbit(e, g[i]); ok = true; }
                catch (const vt::Failure& f) { why = f.msg; }
            }
            VT_REQ(ok, "completed ephemeris is none of the %zu issues sent: %s", cur + 1, why.c_str());
            if (cur > 0) s.nontrivial();
        }
    }
}
VT_PROP(gps, 12000, 200000)
{
    GPSEphemeris e(4);
    std::vector<Gps> g;
    const int n = s.irange(2, 5);
    std::set<int> used;
    for (int i = 0; i < n; ++i)
    {
        int iode;
        do iode = s.flip() ? s.irange(0, 4) : s.irange(0, 255); while (used.count(iode));
        used.insert(iode);
        g.push_back(gen_gps(s, iode));
        s.note("issue %d iode %d", i, iode);
    }
    int done = 0;
    stream(s, e, g, {1, 2, 3, 4, 5}, [&](const Gps& x, int t, size_t) { return gps_msg(x, t, s); }, done);
}
VT_PROP(galileo, 8000, 120000)
{
    GalileoEphemeris e(12);
    std::vector<Gal> g;
    const int n = s.irange(2, 5);
    std::set<int> used;
    for (int i = 0; i < n; ++i)
    {
        int iod;
        do iod = s.flip() ? s.irange(0, 4) : s.irange(0, 1023); while (used.count(iod));
        used.insert(iod);
        g.push_back(gen_gal(s, 12, iod));
        s.note("issue %d iod %d", i, iod);
    }
    // a page with another satellite's number in word 4 may show up (cross-correlation)
    Gal alien = gen_gal(s, 30, s.pick({g[0].iod, g[1].iod, 1000}));
    const double ap = s.pick({0.0, 0.15});
    int done = 0;
    stream(s, e, g, {2, 4, 6, 7, 8, 1, 3, 5, 0}, [&](const Gal& x, int t, size_t) {
        if (t == 4 && s.chance(ap)) { s.note("alien"); return gal_msg(alien, 4, s); }
        return gal_msg(x, t, s);
    }, done);
}
VT_PROP(glonass, 8000, 120000)
{
    GlonassEphemeris e(2);
    std::vector<Glo> g;
    const int n = s.irange(2, 5);
    for (int i = 0; i < n; ++i) g.push_back(gen_glo(s));
    const int m0 = s.irange(0, 0xFFFF), step = s.pick({1, 1, 256, 512, 4096, 257, 255});  // marks that differ in one byte only
    int done = 0;
    // the issue changes with the superframe, whose number comes with each string
    stream(s, e, g, {1, 2, 3, 4, 5, 6, 7}, [&](const Glo& x, int t, size_t i) { return glo_msg(x, t, (m0 + step * (int)i) & 0xFFFF, s); }, done);
}
