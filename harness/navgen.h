// Independent encoders of the three navigation messages, written from the interface specifications.
#pragma once
#include <array>
#include "vt.h"
namespace nav {
using std::vector;
// ---- bit strings, most significant bit first --------------------------------------------------
struct Bits
{
    vector<uint8_t> b;  // one bit each
    explicit Bits(size_t n) : b(n, 0) {}
    void put(int pos, int len, int64_t v)
    {
        for (int i = 0; i < len; ++i) b[pos + i] = (uint64_t)v >> (len - 1 - i) & 1;
    }
    void sm(int pos, int len, int64_t v, bool negzero = false)  // sign and magnitude
    {
        b[pos] = v < 0 || negzero;
        put(pos + 1, len - 1, v < 0 ? -v : v);
    }
    vector<uint8_t> pack() const
    {
        vector<uint8_t> o((b.size() + 7) / 8, 0);
        for (size_t i = 0; i < b.size(); ++i) o[i / 8] |= b[i] << (7 - i % 8);
        return o;
    }
};
inline int64_t field(vt::Src& s, int len, bool sgn)
{
    const uint64_t full = len == 64 ? ~0ull : (1ull << len) - 1;
    uint64_t v;
    switch (s.weighted({4, 1, 1, 1, 1}))
    {
    case 0: v = s.draw(full); break;
    case 1: v = 0; break;
    case 2: v = full; break;
    case 3: v = 1ull << (len - 1); break;
    default: v = (1ull << (len - 1)) - 1; break;
    }
    if (sgn && (v >> (len - 1) & 1)) return (int64_t)v - (int64_t)(len == 64 ? 0 : (1ull << len));
    return (int64_t)v;
}
inline int64_t smfield(vt::Src& s, int len)
{
    const int64_t full = (1ll << (len - 1)) - 1;
    int64_t v;
    switch (s.weighted({4, 1, 1}))
    {
    case 0: v = s.range(0, full); break;
    case 1: v = 0; break;
    default: v = full; break;
    }
    return s.flip() ? -v : v;
}
// ---- GPS LNAV ----------------------------------------------------------------------------------
struct Gps
{
    int tow6, alert, as, week, l2, ura, health, iodc, l2p, tgd, toc, af2, af1, af0;
    int iode, crs, dn, cuc, cus, toe, fit, aodo;
    int64_t m0, ecc, sqrta, omega0, i0, w;
    int cic, cis, crc, omegadot, idot;
};
inline Gps gen_gps(vt::Src& s, int iode = -1)
{
    Gps g;
    g.iodc = (int)field(s, 10, false);
    if (iode >= 0) g.iodc = (g.iodc & 0x300) | iode;
    g.iode = g.iodc & 0xFF;
    g.week = (int)field(s, 10, false);
    // toe within half a week of the transmission (it is within hours), toc equal in the same week
    g.toe = s.irange(0, 37799);
    const int off = s.weighted({3, 1}) ? s.irange(-300000, 300000) : s.irange(-14400, 14400);
    int t = g.toe * 16 + off;
    t = ((t % 604800) + 604800) % 604800;
    g.tow6 = t / 6;
    g.toc = s.flip() ? g.toe : s.irange(0, 37799);
    g.alert = s.flip(); g.as = s.flip(); g.l2 = (int)field(s, 2, false); g.ura = (int)field(s, 4, false);
    g.health = (int)field(s, 6, false); g.l2p = s.flip(); g.tgd = (int)field(s, 8, true);
    g.af2 = (int)field(s, 8, true); g.af1 = (int)field(s, 16, true); g.af0 = (int)field(s, 22, true);
    g.crs = (int)field(s, 16, true); g.dn = (int)field(s, 16, true); g.cuc = (int)field(s, 16, true);
    g.cus = (int)field(s, 16, true); g.fit = s.flip(); g.aodo = (int)field(s, 5, false);
    g.m0 = field(s, 32, true); g.ecc = field(s, 32, false); g.sqrta = field(s, 32, false);
    g.omega0 = field(s, 32, true); g.i0 = field(s, 32, true); g.w = field(s, 32, true);
    g.cic = (int)field(s, 16, true); g.cis = (int)field(s, 16, true); g.crc = (int)field(s, 16, true);
    g.omegadot = (int)field(s, 24, true); g.idot = (int)field(s, 14, true);
    return g;
}
// ten words of 24 bits
inline Bits gps_subframe(const Gps& g, int id, vt::Src& s)
{
    Bits b(240);
    b.put(0, 8, 0x8B);
    b.put(8, 14, (int64_t)s.draw(0x3FFF));
    b.put(22, 2, (int64_t)s.draw(3));
    b.put(24, 17, id == 1 ? g.tow6 : (g.tow6 + id - 1) % 100800);
    b.put(41, 1, g.alert);
    b.put(42, 1, g.as);
    b.put(43, 3, id);
    b.put(46, 2, (int64_t)s.draw(3));
    if (id == 1)
    {
        b.put(48, 10, g.week); b.put(58, 2, g.l2); b.put(60, 4, g.ura); b.put(64, 6, g.health);
        b.put(70, 2, g.iodc >> 8); b.put(72, 1, g.l2p);
        for (int p = 73; p < 160; ++p) b.put(p, 1, (int64_t)s.draw(1));
        b.put(160, 8, g.tgd); b.put(168, 8, g.iodc & 0xFF); b.put(176, 16, g.toc);
        b.put(192, 8, g.af2); b.put(200, 16, g.af1); b.put(216, 22, g.af0);
    }
    else if (id == 2)
    {
        b.put(48, 8, g.iode); b.put(56, 16, g.crs); b.put(72, 16, g.dn); b.put(88, 32, g.m0);
        b.put(120, 16, g.cuc); b.put(136, 32, g.ecc); b.put(168, 16, g.cus); b.put(184, 32, g.sqrta);
        b.put(216, 16, g.toe); b.put(232, 1, g.fit); b.put(233, 5, g.aodo);
    }
    else if (id == 3)
    {
        b.put(48, 16, g.cic); b.put(64, 32, g.omega0); b.put(96, 16, g.cis); b.put(112, 32, g.i0);
        b.put(144, 16, g.crc); b.put(160, 32, g.w); b.put(192, 24, g.omegadot); b.put(216, 8, g.iode);
        b.put(224, 14, g.idot);
    }
    else
        for (int p = 48; p < 240; ++p) b.put(p, 1, (int64_t)s.draw(1));
    b.put(238, 2, (int64_t)s.draw(3));
    return b;
}
// parity of IS-GPS-200 over 24 data bits, given the last two bits of the previous word
inline uint32_t gps_parity(uint32_t d24, int d29, int d30)
{
    static const char* M[6] = {
        "111011000111110011010010", "011101100011111001101001", "101110110001111100110100",
        "010111011000111110011010", "101011101100011111001101", "001011011110101000100111"};
    const int seed[6] = {d29, d30, d29, d30, d30, d29};
    uint32_t p = 0;
    for (int k = 0; k < 6; ++k)
    {
        int x = seed[k];
        for (int i = 0; i < 24; ++i)
            if (M[k][i] == '1') x ^= d24 >> (23 - i) & 1;
        p = p << 1 | x;
    }
    return p;
}
// forty bytes as the receiver delivers them: little-endian 32-bit words, 30 bits used
inline vector<uint8_t> gps_block(const Bits& b, vt::Src& s)
{
    vector<uint8_t> o;
    int d29 = 0, d30 = 0;
    for (int w = 0; w < 10; ++w)
    {
        uint32_t d = 0;
        for (int i = 0; i < 24; ++i) d = d << 1 | b.b[w * 24 + i];
        const uint32_t par = gps_parity(d, d29, d30);
        d29 = par >> 1 & 1; d30 = par & 1;
        const uint32_t v = (uint32_t)s.draw(3) << 30 | d << 6 | par;
        for (int k = 0; k < 4; ++k) o.push_back(v >> (8 * k));
    }
    return o;
}
inline vector<uint8_t> gps_msg(const Gps& g, int id, vt::Src& s) { return gps_block(gps_subframe(g, id, s), s); }
// ---- Galileo I/NAV -----------------------------------------------------------------------------
struct Gal
{
    int svid, iod, week, tow, toe, toc, idot, omegadot, dn, cuc, cus, crc, crs, sisa, cic, cis, af0, af1, af2;
    int64_t m0, ecc, sqrta, omega0, i0, w;
    int ai0, ai1, ai2, storm, bgda, bgdb, e5bhs, e1bhs, e5bdvs, e1bdvs;
};
inline Gal gen_gal(vt::Src& s, int svid, int iod = -1)
{
    Gal g;
    g.svid = svid;
    g.iod = iod >= 0 ? iod : (int)field(s, 10, false);
    g.week = s.irange(1, 4094);
    g.toe = s.irange(0, 10079);
    const int off = s.weighted({3, 1}) ? s.irange(-300000, 300000) : s.irange(-14400, 14400);
    g.tow = (((g.toe * 60 + off) % 604800) + 604800) % 604800;
    g.toc = s.flip() ? g.toe : s.irange(0, 10079);
    g.idot = (int)field(s, 14, true); g.omegadot = (int)field(s, 24, true); g.dn = (int)field(s, 16, true);
    g.cuc = (int)field(s, 16, true); g.cus = (int)field(s, 16, true); g.crc = (int)field(s, 16, true);
    g.crs = (int)field(s, 16, true); g.sisa = (int)field(s, 8, false); g.cic = (int)field(s, 16, true);
    g.cis = (int)field(s, 16, true); g.af0 = (int)field(s, 31, true); g.af1 = (int)field(s, 21, true);
    g.af2 = (int)field(s, 6, true); g.m0 = field(s, 32, true); g.ecc = field(s, 32, false);
    g.sqrta = field(s, 32, false); g.omega0 = field(s, 32, true); g.i0 = field(s, 32, true); g.w = field(s, 32, true);
    g.ai0 = (int)field(s, 11, false); g.ai1 = (int)field(s, 11, true); g.ai2 = (int)field(s, 14, true);
    g.storm = (int)field(s, 5, false); g.bgda = (int)field(s, 10, true); g.bgdb = (int)field(s, 10, true);
    g.e5bhs = (int)field(s, 2, false); g.e1bhs = (int)field(s, 2, false); g.e5bdvs = s.flip(); g.e1bdvs = s.flip();
    return g;
}
inline Bits gal_word(const Gal& g, int type, vt::Src& s)
{
    Bits b(128);
    b.put(0, 6, type);
    switch (type)
    {
    case 0:
        b.put(6, 2, 2);
        for (int p = 8; p < 96; ++p) b.put(p, 1, (int64_t)s.draw(1));
        b.put(96, 12, g.week); b.put(108, 20, g.tow);
        break;
    case 1:
        b.put(6, 10, g.iod); b.put(16, 14, g.toe); b.put(30, 32, g.m0); b.put(62, 32, g.ecc); b.put(94, 32, g.sqrta);
        break;
    case 2:
        b.put(6, 10, g.iod); b.put(16, 32, g.omega0); b.put(48, 32, g.i0); b.put(80, 32, g.w); b.put(112, 14, g.idot);
        break;
    case 3:
        b.put(6, 10, g.iod); b.put(16, 24, g.omegadot); b.put(40, 16, g.dn); b.put(56, 16, g.cuc); b.put(72, 16, g.cus);
        b.put(88, 16, g.crc); b.put(104, 16, g.crs); b.put(120, 8, g.sisa);
        break;
    case 4:
        b.put(6, 10, g.iod); b.put(16, 6, g.svid); b.put(22, 16, g.cic); b.put(38, 16, g.cis); b.put(54, 14, g.toc);
        b.put(68, 31, g.af0); b.put(99, 21, g.af1); b.put(120, 6, g.af2);
        break;
    case 5:
        b.put(6, 11, g.ai0); b.put(17, 11, g.ai1); b.put(28, 14, g.ai2); b.put(42, 5, g.storm); b.put(47, 10, g.bgda);
        b.put(57, 10, g.bgdb); b.put(67, 2, g.e5bhs); b.put(69, 2, g.e1bhs); b.put(71, 1, g.e5bdvs); b.put(72, 1, g.e1bdvs);
        b.put(73, 12, g.week); b.put(85, 20, g.tow);
        break;
    default:
        for (int p = 6; p < 128; ++p) b.put(p, 1, (int64_t)s.draw(1));
    }
    return b;
}
inline uint32_t crc24q_bits(const vector<uint8_t>& bits)
{
    uint32_t c = 0;
    for (uint8_t x : bits)
    {
        const int top = (c >> 23 & 1) ^ x;
        c = c << 1 & 0xFFFFFF;
        if (top) c ^= 0x864CFB;
    }
    return c;
}
// page halves as bits: even 120, odd 120 (last 6 bits of each are tail), padded to 128 each
struct Page { Bits even{128}, odd{128}; };
// Known finding (E04, probe last_16_bits): the decoder takes the last 16 data bits of a word from the
// end of the odd page instead of its beginning. Unless real_tail is set, the end of the page (reserved
// and tail bits, whose content no property depends on) repeats those 16 bits, so that everything else
// about a page is still checked in full.
// marks: changes to the part (even, odd) and page type bits, which the checksum covers
inline Page gal_page(const Bits& word, vt::Src& s, bool real_tail = false, int marks = 0)
{
    Page p;
    for (int i = 0; i < 112; ++i) p.even.b[2 + i] = word.b[i];
    p.odd.b[0] = 1;
    for (int i = 0; i < 16; ++i) p.odd.b[2 + i] = word.b[112 + i];
    for (int i = 18; i < 82; ++i) p.odd.b[i] = (uint8_t)s.draw(1);
    p.even.b[0] ^= marks & 1, p.even.b[1] ^= marks >> 1 & 1, p.odd.b[0] ^= marks >> 2 & 1, p.odd.b[1] ^= marks >> 3 & 1;
    vector<uint8_t> prot(p.even.b.begin(), p.even.b.begin() + 114);
    prot.insert(prot.end(), p.odd.b.begin(), p.odd.b.begin() + 82);
    p.odd.put(82, 24, crc24q_bits(prot));
    p.even.put(114, 14, (int64_t)s.draw(0x3FFF));
    p.odd.put(106, 8, (int64_t)s.draw(255));
    p.odd.put(114, 14, (int64_t)s.draw(0x3FFF));
    if (!real_tail)
        for (int i = 0; i < 16; ++i) p.odd.b[106 + i] = word.b[112 + i];
    return p;
}
inline vector<uint8_t> swap_words(const vector<uint8_t>& v)
{
    vector<uint8_t> o(v.size());
    for (size_t i = 0; i < v.size(); ++i) o[i / 4 * 4 + 3 - i % 4] = v[i];
    return o;
}
inline vector<uint8_t> gal_block(const Page& p, vt::Src& s)
{
    vector<uint8_t> v = p.even.pack(), o = p.odd.pack();
    v.insert(v.end(), o.begin(), o.end());
    v = swap_words(v);
    if (s.flip())
        for (int i = 0; i < 4; ++i) v.push_back((uint8_t)s.draw(255));  // receivers append a ninth word
    return v;
}
inline vector<uint8_t> gal_msg(const Gal& g, int type, vt::Src& s) { return gal_block(gal_page(gal_word(g, type, s), s), s); }
// ---- GLONASS -----------------------------------------------------------------------------------
struct Glo
{
    int p1, h, m, half, bn, p2, tb, p3, gam, p, ln3, tau, dtau, en, p4, ft, nt, n, mm, na, n4, ln5;
    int64_t pos[3], vel[3], acc[3], tauc, taugps;
    bool negzero;
};
inline Glo gen_glo(vt::Src& s)
{
    Glo g;
    for (int i = 0; i < 3; ++i) { g.pos[i] = smfield(s, 27); g.vel[i] = smfield(s, 24); g.acc[i] = smfield(s, 5); }
    g.p1 = (int)s.draw(3); g.h = s.irange(0, 23); g.m = s.irange(0, 59); g.half = s.flip();
    g.bn = (int)field(s, 3, false); g.p2 = s.flip(); g.tb = s.irange(1, 95); g.p3 = s.flip();
    g.gam = (int)smfield(s, 11); g.p = (int)s.draw(3); g.ln3 = s.flip(); g.tau = (int)smfield(s, 22); g.dtau = (int)smfield(s, 5);
    g.en = (int)field(s, 5, false); g.p4 = s.flip(); g.ft = (int)field(s, 4, false); g.nt = s.irange(1, 1461);
    g.n = s.irange(1, 24); g.mm = (int)s.draw(3);
    g.na = s.weighted({1, 3}) ? s.irange(1, 1461) : g.nt; g.n4 = s.irange(1, 25); g.ln5 = s.flip();
    g.tauc = smfield(s, 32); g.taugps = smfield(s, 22); g.negzero = s.flip();
    return g;
}
// idle bit, 76 data bits, 8 check bits; index 0 is bit 85 of the document
inline Bits glo_string(const Glo& g, int id, vt::Src& s)
{
    Bits b(85);
    b.put(1, 4, id);
    auto xyz = [&](int k) {
        b.sm(21, 24, g.vel[k], g.negzero && !g.vel[k]); b.sm(45, 5, g.acc[k], g.negzero && !g.acc[k]); b.sm(50, 27, g.pos[k], g.negzero && !g.pos[k]);
    };
    switch (id)
    {
    case 1: b.put(7, 2, g.p1); b.put(9, 5, g.h); b.put(14, 6, g.m); b.put(20, 1, g.half); xyz(0); break;
    case 2: b.put(5, 3, g.bn); b.put(8, 1, g.p2); b.put(9, 7, g.tb); xyz(1); break;
    case 3: b.put(5, 1, g.p3); b.sm(6, 11, g.gam); b.put(18, 2, g.p); b.put(20, 1, g.ln3); xyz(2); break;
    case 4:
        b.sm(5, 22, g.tau); b.sm(27, 5, g.dtau); b.put(32, 5, g.en); b.put(51, 1, g.p4); b.put(52, 4, g.ft);
        b.put(59, 11, g.nt); b.put(70, 5, g.n); b.put(75, 2, g.mm);
        break;
    case 5: b.put(5, 11, g.na); b.sm(16, 32, g.tauc); b.put(49, 5, g.n4); b.sm(54, 22, g.taugps); b.put(76, 1, g.ln5); break;
    default:
        for (int p = 5; p < 77; ++p) b.put(p, 1, (int64_t)s.draw(1));
    }
    return b;
}
// extended Hamming code: data bit 9+k sits at the k-th position that is not a power of two
inline void glo_code(Bits& b)
{
    int pos[86];
    for (int n = 9, p = 3; n <= 85; ++n, ++p)
    {
        while ((p & (p - 1)) == 0) ++p;
        pos[n] = p;
    }
    int syn = 0, all = 0;
    for (int n = 9; n <= 85; ++n)
        if (b.b[85 - n]) { syn ^= pos[n]; all ^= 1; }
    for (int i = 0; i < 7; ++i) { b.b[85 - (i + 1)] = syn >> i & 1; all ^= syn >> i & 1; }
    b.b[85 - 8] = all;
}
inline vector<uint8_t> glo_block(const Bits& b, int mark, vt::Src& s)
{
    vector<uint8_t> v = b.pack();
    v.resize(16, 0);
    v[12] = mark >> 8; v[13] = mark; v[14] = (uint8_t)s.draw(255); v[15] = (uint8_t)s.irange(1, 5);
    return swap_words(v);
}
inline vector<uint8_t> glo_msg(const Glo& g, int id, int mark, vt::Src& s)
{
    Bits b = glo_string(g, id, s);
    glo_code(b);
    return glo_block(b, mark, s);
}
inline bool near(double a, double want) { return a == want || std::abs(a - want) <= 1e-12 * std::abs(want); }
}  // namespace nav
#define VT_FIELD(e, f, want)                                                                          \
    VT_REQ(nav::near((double)(e).f, (double)(want)), #f " decoded %.17g transmitted %.17g", (double)(e).f, (double)(want))
