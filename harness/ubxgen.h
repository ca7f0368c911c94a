// UBX protocol, written from the receiver's interface description, independent of parsers/ubx.
#pragma once
#include <unistd.h>
#include <fcntl.h>
#include <memory>
#include "vt.h"
namespace ub {
using Bytes = std::vector<uint8_t>;
inline void le(Bytes& b, size_t at, int n, uint64_t v)
{
    if (b.size() < at + n) b.resize(at + n, 0);
    for (int i = 0; i < n; ++i) b[at + i] = (uint8_t)(v >> (8 * i));
}
inline void sum(const Bytes& b, size_t from, size_t to, uint8_t& a, uint8_t& c)
{
    unsigned x = 0, y = 0;
    for (size_t i = from; i < to; ++i) { x = (x + b[i]) & 255; y = (y + x) & 255; }
    a = (uint8_t)x; c = (uint8_t)y;
}
inline Bytes frame(int cls, int id, const Bytes& p)
{
    Bytes b = {0xB5, 0x62, (uint8_t)cls, (uint8_t)id, (uint8_t)(p.size() & 255), (uint8_t)(p.size() >> 8)};
    b.insert(b.end(), p.begin(), p.end());
    uint8_t x, y;
    sum(b, 2, b.size(), x, y);
    b.push_back(x); b.push_back(y);
    return b;
}
inline const size_t MAX = 2048;  // longest payload the buffer of a message holds
// what a stream of bytes contains: a scan from left to right, resumed behind everything it has read
struct Msg { int cls, id; Bytes p; };
struct Scan
{
    std::vector<Msg> msgs;
    bool inside = false;       // ends within a frame
    int bad = 0, toolong = 0, empty = 0;
};
inline Scan scan(const Bytes& s, size_t end)
{
    Scan r;
    size_t i = 0;
    while (i + 1 < end)
    {
        if (!(s[i] == 0xB5 && s[i + 1] == 0x62)) { ++i; continue; }
        size_t j = i + 2;
        if (j + 4 > end) { r.inside = true; return r; }
        const size_t len = s[j + 2] | s[j + 3] << 8;
        // the byte in front of what follows may itself be the first of the next pair
        if (len > MAX) { r.toolong++; i = j + 3; continue; }
        if (j + 4 + len + 2 > end) { r.inside = true; return r; }
        uint8_t x, y;
        sum(s, j, j + 4 + len, x, y);
        const size_t k = j + 4 + len;
        if (x == s[k] && y == s[k + 1]) { r.msgs.push_back({s[j], s[j + 1], Bytes(s.begin() + j + 4, s.begin() + k)}); if (!len) r.empty++; }
        else r.bad++;
        i = k + 1;
    }
    return r;
}
inline std::string hex(const Bytes& b, size_t n = 24)
{
    std::string o;
    for (size_t i = 0; i < b.size() && i < n; ++i) o += vt::sfmt("%02x", b[i]);
    if (b.size() > n) o += vt::sfmt("..(%zu)", b.size());
    return o;
}
struct Hush
{
    int o, e;
    Hush()
    {
        fflush(stdout); fflush(stderr);
        o = dup(1); e = dup(2);
        const int n = open("/dev/null", O_WRONLY);
        dup2(n, 1); dup2(n, 2);
        ::close(n);
    }
    ~Hush()
    {
        fflush(stdout); fflush(stderr);
        dup2(o, 1); dup2(e, 2);
        ::close(o); ::close(e);
    }
};
// payload bytes, often looking like the start of a frame
inline Bytes payload(vt::Src& s, size_t n)
{
    Bytes p(n);
    const int kind = s.weighted({2, 1, 1});
    size_t i = 0;
    while (i < n)
    {
        const vt::u64 r = s.draw(~0ull);
        for (int k = 0; k < 8 && i < n; ++k, ++i)
        {
            const uint8_t v = (uint8_t)(r >> (8 * k));
            p[i] = kind == 0 ? v : kind == 1 ? (uint8_t)(v & 1 ? 0x62 : 0xB5) : (uint8_t)(v & 3 ? 0 : v);
        }
    }
    return p;
}
}  // namespace ub
