// arbitrary blocks: no access outside the block, no crash, no completion without valid messages
#include <memory>
#include "navcheck.h"
#include "utils/crc.h"
using namespace nav;
struct Exact  // a heap copy of exactly the given size, so that an overrun is seen
{
    std::unique_ptr<uint8_t[]> p;
    size_t n;
    explicit Exact(const vector<uint8_t>& v) : p(new uint8_t[v.size()]), n(v.size()) { std::copy(v.begin(), v.end(), p.get()); }
};
static vector<uint8_t> mutate(vt::Src& s, vector<uint8_t> v)
{
    switch (s.weighted({2, 3, 2, 2}))
    {
    case 0: break;
    case 1:
        for (int k = s.irange(1, 6); k > 0 && !v.empty(); --k) v[s.irange(0, (int)v.size() - 1)] ^= 1 << s.irange(0, 7);
        break;
    case 2: v.resize(s.irange(0, (int)v.size())); break;
    default:
        for (int k = s.irange(1, 20); k > 0; --k) v.push_back((uint8_t)s.draw(255));
    }
    return v;
}
template <class E, class M>
static void run(vt::Src& s, M msg)
{
    auto e = std::make_unique<E>(s.irange(0, 255));
    const int len = s.irange(1, 30);
    for (int k = 0; k < len; ++k)
    {
        vector<uint8_t> v;
        if (s.chance(0.7)) { v = mutate(s, msg()); s.nontrivial(); }
        else v = s.bytes(s.weighted({3, 1}) ? s.irange(0, 100) : s.irange(0, 44));
        Exact x(v);
        s.note("%zu", x.n);
        e->parse(x.p.get(), x.n);
    }
}
VT_PROP(gps_any_blocks, 6000, 150000)
{
    const Gps g = gen_gps(s);
    run<GPSEphemeris>(s, [&] { return gps_msg(g, s.irange(0, 7), s); });
}
VT_PROP(galileo_any_blocks, 6000, 150000)
{
    const Gal g = gen_gal(s, 8);
    run<GalileoEphemeris>(s, [&] { return gal_msg(g, s.weighted({3, 1}) ? s.irange(0, 63) : s.irange(0, 6), s); });
}
VT_PROP(glonass_any_blocks, 6000, 150000)
{
    const Glo g = gen_glo(s);
    run<GlonassEphemeris>(s, [&] { return glo_msg(g, s.irange(0, 15), s.irange(0, 3), s); });
}
// blocks that fail their checksum never add up to an ephemeris
VT_PROP(no_completion_from_invalid, 6000, 150000)
{
    GalileoEphemeris e(8);
    GlonassEphemeris f(8);
    const Gal g = gen_gal(s, 8);
    const Glo h = gen_glo(s);
    const int len = s.irange(6, 40);
    for (int k = 0; k < len; ++k)
    {
        Page p = gal_page(gal_word(g, s.irange(0, 5), s), s);
        const int n = s.irange(1, 3);
        std::set<int> at;
        while ((int)at.size() < n) at.insert(s.irange(0, 219));
        for (int i : at) (i < 114 ? p.even.b[i] : p.odd.b[i - 114]) ^= 1;
        const auto v = gal_block(p, s);
        VT_REQ(!e.parse(v.data(), v.size()), "Galileo ephemeris from corrupted pages");
        Bits b = glo_string(h, s.irange(1, 5), s);
        glo_code(b);
        const int i = s.irange(0, 84), j = s.irange(0, 83);
        b.b[i] ^= 1; b.b[j >= i ? j + 1 : j] ^= 1;
        const auto w = glo_block(b, 5, s);
        VT_REQ(!f.parse(w.data(), w.size()), "GLONASS ephemeris from corrupted strings");
        s.nontrivial();
    }
}
VT_PROP(checksums_any_block, 4000, 100000)
{
    Exact x(s.bytes(s.irange(0, 300)));
    mc::utils::crc24(x.p.get(), (int)x.n);
    if (x.n) s.nontrivial();
    Exact y(s.bytes(11));
    mc::utils::gloTest(y.p.get());
}
