#pragma once
#include "common/utctime.h"
#include "vt.h"
using i128 = __int128;
inline const i128 NS = 1000000000;
inline i128 total(const mc::UTCTime& t) { return (i128)t.sec * NS + t.nsec; }
inline std::string show(i128 v)
{
    const bool n = v < 0;
    if (n) v = -v;
    return vt::sfmt("%s%lld.%09llds", n ? "-" : "", (long long)(v / NS), (long long)(v % NS));
}
inline std::string show(const mc::UTCTime& t)
{
    return vt::sfmt("{%lld,%lld}", (long long)t.sec, (long long)t.nsec);
}
inline int64_t gen_nsec(vt::Src& s)
{
    switch (s.weighted({3, 2, 2, 2, 2}))
    {
    case 0: return s.range(0, 999999999);
    case 1: return s.range(0, 3);
    case 2: return 999999999 - s.range(0, 3);
    case 3: return s.range(0, 999) * 1000000;
    default: return 500000000 + s.range(-2, 2);
    }
}
inline int64_t gen_sec(vt::Src& s)
{
    switch (s.weighted({3, 2, 2, 1}))
    {
    case 0: return s.range(0, 2000000000);
    case 1: return s.range(-3, 3);
    case 2: return -s.range(0, 2000000000);
    default: return s.flip() ? s.range(0, 100000000000ll) : -s.range(0, 100000000000ll);
    }
}
