#include "navcheck.h"
using namespace nav;
VT_PROP(fields, 12000, 200000)
{
    GlonassEphemeris e(s.irange(1, 24));
    const Glo g = gen_glo(s);
    const int mark = s.irange(0, 0xFFFF);
    s.note("n4 %d nt %d na %d tb %d tk %d:%d:%d mark %d", g.n4, g.nt, g.na, g.tb, g.h, g.m, g.half * 30, mark);
    bool done = false;
    int fed = 0;
    for (int round = 0; round < 2 && !done; ++round)
        for (int k : s.perm(5))
        {
            if (s.chance(0.2)) VT_REQ(!e.parse(glo_msg(g, s.irange(6, 15), mark, s).data(), 16), "other string completed");
            if (s.chance(0.1))
            {
                Bits b = glo_string(g, k + 1, s);
                glo_code(b);
                b.b[s.irange(0, 76)] ^= 1;
                const auto v = glo_block(b, mark, s);
                VT_REQ(!e.parse(v.data(), 16), "corrupted string completed");
            }
            const auto v = glo_msg(g, k + 1, mark, s);
            ++fed;
            if (e.parse(v.data(), v.size())) { VT_REQ(fed >= 5, "complete after %d strings", fed); done = true; break; }
        }
    if (g.na != g.nt) s.nontrivial();
    if (g.pos[0] < 0 || g.acc[1] < 0) s.nontrivial();
    VT_REQ(done, "not complete after every string twice");
    check_glo(e, g);
    VT_REQ(e.gnssID == GnssID::Glonass, "an ephemeris of system %d", (int)e.gnssID);
}
VT_PROP(histories, 4000, 60000)
{
    GlonassEphemeris e(9);
    std::vector<Glo> g;
    const int n = s.irange(1, 3);
    for (int i = 0; i < n; ++i) g.push_back(gen_glo(s));
    int cur = 0, mark = s.irange(1, 1000), last[5];
    std::fill(last, last + 5, -1);
    const int len = s.irange(5, 40);
    bool any = false;
    for (int k = 0; k < len; ++k)
    {
        if (s.chance(0.1))
        {
            cur = s.irange(0, n - 1);
            mark = (mark + (s.chance(0.3) ? s.pick({256, 512, 4096, 32768, 1, 65280}) : s.irange(1, 500))) & 0xFFFF;
            std::fill(last, last + 5, -1);
        }
        const int t = s.irange(1, 6);
        const bool r = e.parse(glo_msg(g[cur], t == 6 ? 9 : t, mark, s).data(), 16);
        if (t == 6) { VT_REQ(!r, "string 9 completed"); continue; }
        last[t - 1] = cur;
        s.note("%d:%d%s", t, cur, r ? "*" : "");
        if (r)
        {
            any = true;
            for (int j = 0; j < 5; ++j) VT_REQ(last[j] == cur, "complete without string %d of this superframe", j + 1);
            check_glo(e, g[cur]);
        }
    }
    if (any && n > 1) s.nontrivial();
    bool done = false;
    for (int round = 0; round < 2 && !done; ++round)
        for (int k : s.perm(5))
            if (e.parse(glo_msg(g[cur], k + 1, mark, s).data(), 16)) { done = true; break; }
    VT_REQ(done, "never completes");
    check_glo(e, g[cur]);
}
