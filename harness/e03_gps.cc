#include "navcheck.h"
using namespace nav;
static bool feed(GPSEphemeris& e, const vector<uint8_t>& v, vt::Src&) { return e.parse(v.data(), v.size()); }
// one pass of the three subframes in any order, other subframes between them
VT_PROP(fields, 20000, 400000)
{
    GPSEphemeris e(s.irange(1, 32));
    const Gps g = gen_gps(s);
    const auto order = s.perm(3);
    int seen = 0;
    s.note("order %d%d%d iodc %d week %d tow %d toe %d", order[0] + 1, order[1] + 1, order[2] + 1, g.iodc, g.week, g.tow6 * 6, g.toe * 16);
    if (order[0] || order[1] != 1) s.nontrivial();
    if (std::abs(g.toe * 16 - g.tow6 * 6) > 302400) { s.label("toe in another week"); s.nontrivial(); }
    for (int k : order)
    {
        while (s.chance(0.3))
        {
            const int other = s.pick({0, 4, 5, 6, 7});
            VT_REQ(!feed(e, gps_msg(g, other, s), s), "subframe %d completed", other);
        }
        if (s.chance(0.2) && seen < 3)  // a repeat of a subframe already sent
            for (int j = 0; j < seen; ++j) VT_REQ(!feed(e, gps_msg(g, order[j] + 1, s), s), "repeat completed");
        const bool r = feed(e, gps_msg(g, k + 1, s), s);
        VT_REQ(r == (++seen == 3), "complete=%d after %d subframes", r, seen);
    }
    check_gps(e, g);
    VT_REQ(e.gnssID == GnssID::GPS, "an ephemeris of system %d", (int)e.gnssID);
}
// any history: completion exactly when the three latest parts share an issue, none used before
VT_PROP(completion_history, 6000, 100000)
{
    GPSEphemeris e(7);
    std::vector<Gps> g;
    const int n = s.irange(1, 3);
    for (int i = 0; i < n; ++i) g.push_back(gen_gps(s, s.flip() ? s.irange(0, 1) : s.irange(0, 255)));
    // issues with the same number are the same data
    for (int i = 1; i < n; ++i)
        for (int j = 0; j < i; ++j)
            if (g[i].iode == g[j].iode) g[i] = g[j];
    int last[3] = {-1, -1, -1}, done = 0;
    const int len = s.irange(3, 25);
    for (int k = 0; k < len; ++k)
    {
        const int w = s.irange(0, n - 1), f = s.irange(0, 3);
        if (f == 3) { VT_REQ(!feed(e, gps_msg(g[w], 4, s), s), "subframe 4 completed"); continue; }
        last[f] = w;
        const bool want = last[0] >= 0 && last[1] >= 0 && last[2] >= 0 && g[last[0]].iode == g[last[1]].iode && g[last[0]].iode == g[last[2]].iode;
        const bool r = feed(e, gps_msg(g[w], f + 1, s), s);
        s.note("%d:%d%s", f + 1, g[w].iode, r ? "*" : "");
        VT_REQ(r == want, "complete=%d want %d after subframe %d of issue %d", r, want, f + 1, g[w].iode);
        if (r)
        {
            check_gps(e, g[last[0]]);
            last[0] = last[1] = last[2] = -1;
            if (++done > 1) s.nontrivial();
        }
    }
    if (done && n > 1) s.nontrivial();
}
