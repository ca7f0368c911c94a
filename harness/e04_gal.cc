#include "navcheck.h"
#include "third_party/rtklib/rtklib.h"
using namespace nav;
VT_PROP(fields, 12000, 200000)
{
    const int sv = s.irange(1, 36);
    GalileoEphemeris e(sv);
    const Gal g = gen_gal(s, sv);
    s.note("iod %d week %d tow %d toe %d toc %d", g.iod, g.week, g.tow, g.toe * 60, g.toc * 60);
    if (std::abs(g.toe * 60 - g.tow) > 302400) { s.label("toe in another week"); s.nontrivial(); }
    bool done = false;
    // the words repeat as broadcast, in some cyclic order; two rounds always suffice
    const auto order = s.perm(6);
    for (int round = 0; round < 2 && !done; ++round)
        for (int k : order)
        {
            if (s.chance(0.2)) VT_REQ(!e.parse(gal_msg(g, s.irange(7, 63), s).data(), 36), "other word completed");
            if (k) s.nontrivial();
            const auto v = gal_msg(g, k, s);
            if (e.parse(v.data(), v.size())) { done = true; break; }
        }
    VT_REQ(done, "not complete after every word twice");
    check_gal(e, g);
    VT_REQ(e.gnssID == GnssID::Galileo, "an ephemeris of system %d", (int)e.gnssID);
    // the same against the bundled RTKLIB decoder
    vector<uint8_t> sub;
    for (int k = 0; k < 6; ++k) { const auto w = gal_word(g, k, s).pack(); sub.insert(sub.end(), w.begin(), w.end()); }
    third_party::rtklib::eph_t r;
    memset(&r, 0, sizeof r);
    VT_REQ(third_party::rtklib::decode_gal_inav(sub.data(), &r) == 1, "RTKLIB refused");
    VT_FIELD(e, m0, r.M0); VT_FIELD(e, omega0, r.OMG0); VT_FIELD(e, af0, r.f0); VT_FIELD(e, af2, r.f2); VT_FIELD(e, week, r.week);
    VT_FIELD(e, toe.sec, r.toe.time + 18); VT_FIELD(e, toc.sec, r.toc.time + 18); VT_FIELD(e, idot, r.idot); VT_FIELD(e, bgd_e1_e5a, r.tgd[0]);
}
// histories: completion happens exactly when the words since the last word 2 are all there and agree
VT_PROP(completion_history, 4000, 60000)
{
    const int sv = 5;
    GalileoEphemeris e(sv);
    std::vector<Gal> g;
    const int n = s.irange(1, 3);
    for (int i = 0; i < n; ++i) g.push_back(gen_gal(s, sv, s.flip() ? s.irange(0, 1) : s.irange(0, 1023)));
    for (int i = 1; i < n; ++i)
        for (int j = 0; j < i; ++j)
            if (g[i].iod == g[j].iod) g[i] = g[j];
    int last[6] = {-1, -1, -1, -1, -1, -1}, cur = 0;
    const int len = s.irange(8, 60);
    bool any = false;
    const int seq[7] = {2, 4, 6, 1, 3, 5, 0};
    int at = s.irange(0, 6);
    for (int k = 0; k < len; ++k)
    {
        if (n > 1 && s.chance(0.1)) cur = s.irange(0, n - 1);
        const int t = s.chance(0.75) ? seq[++at % 7] : s.irange(0, 6);
        auto v = gal_msg(g[cur], t == 6 ? 10 : t, s);
        if (s.chance(0.05))  // lost or corrupted
        {
            v[s.irange(0, 11)] ^= 1 << s.irange(0, 7);
            VT_REQ(!e.parse(v.data(), v.size()), "corrupted page completed an ephemeris");
            continue;
        }
        if (s.chance(0.05))  // an alert page, or halves that are not an even and an odd one: no word, whatever it looks like
        {
            const auto a = gal_block(gal_page(gal_word(g[cur], t == 6 ? 10 : t, s), s, false, s.irange(1, 15)), s);
            VT_REQ(!e.parse(a.data(), a.size()), "a page that carries no word completed an ephemeris");
            continue;
        }
        const bool r = e.parse(v.data(), v.size());
        if (t == 6) { VT_REQ(!r, "word 10 completed"); continue; }
        last[t] = cur;
        s.note("%d:%d%s", t, g[cur].iod, r ? "*" : "");
        if (r)
        {
            any = true;
            for (int j = 0; j < 6; ++j) VT_REQ(last[j] >= 0, "complete without word %d", j);
            for (int j = 2; j < 5; ++j) VT_REQ(g[last[j]].iod == g[last[1]].iod, "complete from issues %d and %d", g[last[1]].iod, g[last[j]].iod);
            Gal m = g[last[1]];
            m.week = g[last[0]].week; m.tow = g[last[0]].tow;
            const Gal& f = g[last[5]];
            m.ai0 = f.ai0; m.ai1 = f.ai1; m.ai2 = f.ai2; m.bgda = f.bgda; m.bgdb = f.bgdb; m.e5bhs = f.e5bhs; m.e1bhs = f.e1bhs; m.e5bdvs = f.e5bdvs; m.e1bdvs = f.e1bdvs;
            check_gal(e, m);
        }
    }
    if (any && n > 1) s.nontrivial();
    // and with nothing more going wrong it completes
    bool done = false;
    const auto order = s.perm(6);
    for (int round = 0; round < 2 && !done; ++round)
        for (int k : order)
        {
            const auto v = gal_msg(g[cur], k, s);
            if (e.parse(v.data(), v.size()) && e.iodc == g[cur].iod) { done = true; break; }
        }
    VT_REQ(done, "never completes again");
    check_orbit(e, g[cur]);
}

VT_KNOWN(last_16_bits)
{
    vt::Src s(1);
    GalileoEphemeris e(9);
    Gal g = gen_gal(s, 9);
    g.tow = 0x12345;
    Page p = gal_page(gal_word(g, 0, s), s, true);
    p.odd.put(106, 22, 0);
    e.parse(gal_block(p, s).data(), 32);
    what = vt::sfmt("word 0 with time of week %d decodes to %d: the last 16 data bits of a word are read from the end of the odd page (bit 106 on) instead of bit 2 on", g.tow, (int)e.tow);
    return e.tow != (uint32_t)g.tow;
}
