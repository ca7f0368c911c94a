#include "navcheck.h"
#include "utils/crc.h"
using namespace nav;
VT_PROP(crc_equals_polynomial_division, 20000, 500000)
{
    const int n = s.weighted({3, 1}) ? s.irange(0, 200) : s.irange(0, 40);
    const auto v = s.bytes(n);
    s.note("%d bytes", n);
    if (n > 3) s.nontrivial();
    vector<uint8_t> bits;
    for (uint8_t x : v)
        for (int i = 7; i >= 0; --i) bits.push_back(x >> i & 1);
    VT_REQ(mc::utils::crc24(v.data(), n) == crc24q_bits(bits), "got %06x want %06x", mc::utils::crc24(v.data(), n), crc24q_bits(bits));
}
// errors inside the checked part of a Galileo page
VT_PROP(galileo_page_errors_detected, 20000, 500000)
{
    Gal g = gen_gal(s, 11);
    const int type = s.irange(0, 5);
    Page p = gal_page(gal_word(g, type, s), s);
    // protected positions: even 0..113, odd 0..105 (with the checksum)
    auto at = [&](int i) -> uint8_t& { return i < 114 ? p.even.b[i] : p.odd.b[i - 114]; };
    {
        GalileoEphemeris ok(11);
        ok.collected_subframes = 0;
        const auto b = gal_block(p, s);
        ok.parse(b.data(), b.size());
        VT_REQ(ok.collected_subframes == (1 << type), "intact word %d gave flags %x", type, ok.collected_subframes);
    }
    if (s.flip())
    {
        const int n = s.irange(1, 3);
        std::set<int> f;
        while ((int)f.size() < n) f.insert(s.irange(0, 219));
        for (int i : f) { at(i) ^= 1; s.note("flip %d", i); }
        if (n > 1) s.nontrivial();
    }
    else
    {
        const int len = s.irange(1, 24), at0 = s.irange(0, 220 - len);
        uint32_t pat = (uint32_t)s.draw((1u << len) - 1) | 1u | 1u << (len - 1);
        for (int i = 0; i < len; ++i)
            if (pat >> i & 1) at(at0 + i) ^= 1;
        s.note("burst of %d at %d pattern %x", len, at0, pat);
        if (len > 1) s.nontrivial();
    }
    GalileoEphemeris e(11);
    e.collected_subframes = 0;
    const auto b = gal_block(p, s);
    const bool r = e.parse(b.data(), b.size());
    VT_REQ(!r && e.collected_subframes == 0, "corrupted word %d taken", type);
}
VT_PROP(glonass_check_bits, 30000, 1000000)
{
    Bits b(85);
    for (int i = 1; i < 77; ++i) b.b[i] = (uint8_t)s.draw(1);
    b.b[0] = (uint8_t)s.draw(1);
    glo_code(b);
    auto v = b.pack();
    v.resize(16, 0);
    VT_REQ(mc::utils::gloTest(v.data()), "intact string refused");
    if (s.flip())
    {
        const int i = s.irange(0, 76);
        b.b[i] ^= 1;
        s.note("data bit %d flipped", 85 - i);
        s.label("one data bit");
    }
    else
    {
        const int i = s.irange(0, 84), j = s.irange(0, 83), k = j >= i ? j + 1 : j;
        b.b[i] ^= 1; b.b[k] ^= 1;
        s.note("bits %d and %d flipped", 85 - i, 85 - k);
        s.label("two bits");
        s.nontrivial();
    }
    v = b.pack();
    v.resize(16, 0);
    VT_REQ(!mc::utils::gloTest(v.data()), "corrupted string accepted");
}
VT_PROP(glonass_corrupt_strings_contribute_nothing, 5000, 100000)
{
    Glo g = gen_glo(s);
    GlonassEphemeris e(3);
    for (int i = 1; i <= 5; ++i)
    {
        Bits b = glo_string(g, i, s);
        glo_code(b);
        const int n = s.irange(1, 2);
        if (n == 1) b.b[s.irange(0, 76)] ^= 1;
        else { const int p = s.irange(0, 84), j = s.irange(0, 83); b.b[p] ^= 1; b.b[j >= p ? j + 1 : j] ^= 1; }
        const auto v = glo_block(b, 77, s);
        s.nontrivial();
        VT_REQ(!e.parse(v.data(), 16), "completed");
        VT_REQ(e.frame_flags_ == 0, "flags %x", e.frame_flags_);
    }
}
