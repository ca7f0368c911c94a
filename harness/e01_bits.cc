#include <memory>
#include <type_traits>
#include <utility>
#include "vt.h"
#include "common/ephemeris/bit_tools.h"
using namespace mc::ephemeris;
static const int NB = 24;  // bytes
static uint64_t want_u(const uint8_t* b, int pos, int len)
{
    uint64_t v = 0;
    for (int i = 0; i < len; ++i) v = v << 1 | (b[(pos + i) / 8] >> (7 - (pos + i) % 8) & 1);
    return v;
}
static int64_t want_s(const uint8_t* b, int pos, int len)
{
    uint64_t v = want_u(b, pos, len);
    if (v >> (len - 1) & 1) v |= len == 64 ? 0 : ~0ull << len;
    return (int64_t)v;
}
template <int L> static uint64_t gu(const uint8_t* b, int p) { return getBit<L>(b, p); }
template <int L> static int64_t gs(const uint8_t* b, int p) { return getBit<L, Signed>(b, p); }
template <int L> static void su(uint8_t* b, int p, unsigned v) { setBit<L>(b, p, v); }
template <int L> static double gg(const uint8_t* b, int p) { return getBitGlo<L>(b, p); }
static const int MAXL = 56;  // the widest field the templates can hold
template <int... I> static auto tab_u(std::integer_sequence<int, I...>) { static uint64_t (*t[])(const uint8_t*, int) = {gu<I + 1>...}; return t; }
template <int... I> static auto tab_s(std::integer_sequence<int, I...>) { static int64_t (*t[])(const uint8_t*, int) = {gs<I + 1>...}; return t; }
template <int... I> static auto tab_w(std::integer_sequence<int, I...>) { static void (*t[])(uint8_t*, int, unsigned) = {su<I + 1>...}; return t; }
template <int... I> static auto tab_g(std::integer_sequence<int, I...>) { static double (*t[])(const uint8_t*, int) = {gg<I + 2>...}; return t; }
static const auto GU = tab_u(std::make_integer_sequence<int, MAXL>());
static const auto GS = tab_s(std::make_integer_sequence<int, MAXL>());
static const auto SW = tab_w(std::make_integer_sequence<int, MAXL>());
static const auto GG = tab_g(std::make_integer_sequence<int, 31>());
struct Case
{
    std::unique_ptr<uint8_t[]> buf;  // exactly sized, so that an access outside it is seen
    int n, pos, len;
};
static Case gen(vt::Src& s, int maxlen, int minlen = 1)
{
    Case c;
    c.len = s.weighted({4, 1, 1}) ? s.pick({1, 7, 8, 9, 15, 16, 17, 24, 31, 32}) : s.irange(minlen, maxlen);
    if (c.len > maxlen) c.len = maxlen;
    if (c.len < minlen) c.len = minlen;
    c.pos = s.irange(0, NB * 8 - c.len);
    c.n = s.flip() ? NB : (c.pos + c.len + 7) / 8;
    c.buf.reset(new uint8_t[c.n]);
    const auto b = s.weighted({4, 1, 1});
    if (b == 0) { auto v = s.bytes(c.n); std::copy(v.begin(), v.end(), c.buf.get()); }
    else std::fill(c.buf.get(), c.buf.get() + c.n, b == 1 ? 0 : 0xFF);
    if (c.pos % 8 && (c.pos + c.len) % 8) s.label("both ends unaligned");
    if (c.pos % 8 || c.len % 8) s.nontrivial();
    s.note("%d bits at %d of %d bytes", c.len, c.pos, c.n);
    return c;
}
VT_PROP(read_fixed_width, 60000, 2000000)
{
    Case c = gen(s, MAXL);
    VT_REQ(GU[c.len - 1](c.buf.get(), c.pos) == want_u(c.buf.get(), c.pos, c.len), "unsigned got %llx want %llx", (unsigned long long)GU[c.len - 1](c.buf.get(), c.pos), (unsigned long long)want_u(c.buf.get(), c.pos, c.len));
    VT_REQ(GS[c.len - 1](c.buf.get(), c.pos) == want_s(c.buf.get(), c.pos, c.len), "signed got %lld want %lld", (long long)GS[c.len - 1](c.buf.get(), c.pos), (long long)want_s(c.buf.get(), c.pos, c.len));
}
VT_PROP(read_run_time_width, 40000, 1000000)
{
    Case c = gen(s, 32);
    VT_REQ(getBit<Unsigned>(c.buf.get(), c.pos, c.len) == want_u(c.buf.get(), c.pos, c.len), "unsigned");
    VT_REQ(getBit<Signed>(c.buf.get(), c.pos, c.len) == want_s(c.buf.get(), c.pos, c.len), "signed got %d", getBit<Signed>(c.buf.get(), c.pos, c.len));
}
VT_PROP(read_sign_magnitude, 40000, 1000000)
{
    Case c = gen(s, 32, 2);
    const double m = (double)want_u(c.buf.get(), c.pos + 1, c.len - 1);
    const double want = want_u(c.buf.get(), c.pos, 1) ? -m : m;
    VT_REQ(GG[c.len - 2](c.buf.get(), c.pos) == want, "got %.17g want %.17g", GG[c.len - 2](c.buf.get(), c.pos), want);
}
VT_PROP(write_then_read, 60000, 2000000)
{
    Case c = gen(s, 32);
    const bool fixed = s.flip();
    const unsigned v = s.flip() ? (unsigned)s.draw(0xFFFFFFFFu) : s.pick({0u, ~0u, 1u, 0x80000000u});
    std::vector<uint8_t> want(c.buf.get(), c.buf.get() + c.n);
    for (int i = 0; i < c.len; ++i)
    {
        const int p = c.pos + i;
        const uint8_t m = 0x80 >> p % 8;
        want[p / 8] = (v >> (c.len - 1 - i) & 1) ? want[p / 8] | m : want[p / 8] & ~m;
    }
    s.note("write %x %s", v, fixed ? "fixed" : "run-time");
    if (fixed) SW[c.len - 1](c.buf.get(), c.pos, v);
    else setBit<Unsigned>(c.buf.get(), c.pos, v, c.len);
    for (int i = 0; i < c.n; ++i) VT_REQ(c.buf[i] == want[i], "byte %d is %02x want %02x", i, c.buf[i], want[i]);
    const uint64_t mask = c.len == 32 ? 0xFFFFFFFFull : (1ull << c.len) - 1;
    VT_REQ(GU[c.len - 1](c.buf.get(), c.pos) == (v & mask), "read back");
}
