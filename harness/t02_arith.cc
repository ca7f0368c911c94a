#include "timegen.h"
#include "common/quantized_time.h"
using namespace mc;
#define NORMAL(t) VT_REQ((t).nsec >= 0 && (t).nsec < 1000000000, "%s not normalised", show(t).c_str())
static double gen_dur(vt::Src& s)
{
    double v;
    switch (s.weighted({3, 2, 2, 2, 2, 2}))
    {
    case 0: v = s.real(0, 10); break;
    case 1: v = (double)s.range(0, 100); break;
    case 2:  // just below or above a whole number of seconds
    {
        v = (double)s.range(0, 1000);
        const int k = s.irange(1, 4);
        for (int i = 0; i < k; ++i) v = std::nextafter(v, s.flip() ? 1e9 : -1e9);
        break;
    }
    case 3: v = s.logu(1e-10, 1e9); break;
    case 4: v = (double)s.range(0, 5000) * 1e-3; break;
    default: v = s.range(0, 100) + s.range(0, 1000) * 1e-9;
    }
    return s.flip() ? -v : v;
}
static i128 to_ns(double v)
{
    return (i128)llround(std::floor(v)) * NS + (i128)llround((v - std::floor(v)) * 1e9);
}
static void near(const UTCTime& got, i128 want, double v, const char* what)
{
    i128 d = total(got) - want;
    if (d < 0) d = -d;
    // one nanosecond plus the precision of the double
    const i128 tol = 1 + (i128)std::ceil(std::abs(v) * 2.3e-16 * 1e9 * 2);
    VT_REQ(d <= tol, "%s: got %s want %s", what, show(got).c_str(), show(want).c_str());
    NORMAL(got);
}
VT_PROP(real_durations, 60000, 2000000)
{
    const UTCTime a(gen_sec(s), gen_nsec(s));
    const double v = gen_dur(s);
    s.note("a=%s v=%.17g", show(a).c_str(), v);
    if (v != 0) s.nontrivial();
    if (v < 0) s.label("negative");
    if (std::abs(v - std::round(v)) < 1e-8 && v != std::round(v)) s.label("near_whole");
    UTCTime p = a + v, m = a - v, pi = a, mi = a;
    pi += v;
    mi -= v;
    near(p, total(a) + to_ns(v), v, "a+v");
    near(m, total(a) - to_ns(v), v, "a-v");
    VT_REQ(total(pi) == total(p), "+= %s differs from + %s", show(pi).c_str(), show(p).c_str());
    VT_REQ(total(mi) == total(m), "-= %s differs from - %s", show(mi).c_str(), show(m).c_str());
    NORMAL(pi); NORMAL(mi);
    near(p - v, total(a), v, "(a+v)-v");
    UTCTime c(v);
    near(c, to_ns(v), v, "UTCTime(v)");
    VT_REQ(std::abs(c.toSec() - v) <= 1.1e-9 + std::abs(v) * 1e-15, "toSec %.17g", c.toSec());
    VT_REQ(std::abs((p - a).toSec() - v) <= 1.1e-9 + std::abs(v) * 1e-15, "(a+v-a).toSec %.17g", (p - a).toSec());
}
VT_PROP(whole_seconds, 20000, 500000)
{
    const UTCTime a(gen_sec(s), gen_nsec(s));
    const int v = s.flip() ? s.irange(-100, 100) : s.irange(-2000000000, 2000000000);
    s.note("a=%s v=%d", show(a).c_str(), v);
    s.nontrivial();
    UTCTime pi = a, mi = a;
    pi += v;
    mi -= v;
    VT_REQ(total(a + v) == total(a) + (i128)v * NS, "a+v=%s", show(a + v).c_str());
    VT_REQ(total(a - v) == total(a) - (i128)v * NS, "a-v=%s", show(a - v).c_str());
    VT_REQ(total(pi) == total(a + v) && total(mi) == total(a - v), "in-place differs");
    NORMAL(a + v); NORMAL(a - v); NORMAL(pi); NORMAL(mi);
}
VT_PROP(instant_differences, 40000, 1500000)
{
    const UTCTime a(gen_sec(s), gen_nsec(s)), b(s.flip() ? a.sec + s.range(-2, 2) : gen_sec(s), gen_nsec(s));
    s.note("a=%s b=%s", show(a).c_str(), show(b).c_str());
    if (total(a) != total(b)) s.nontrivial();
    UTCTime d = a - b, di = a, sum = a + b, si = a;
    di -= b;
    si += b;
    VT_REQ(total(d) == total(a) - total(b), "a-b=%s", show(d).c_str());
    VT_REQ(total(sum) == total(a) + total(b), "a+b=%s", show(sum).c_str());
    VT_REQ(total(di) == total(d) && total(si) == total(sum), "in-place differs");
    NORMAL(d); NORMAL(di); NORMAL(sum); NORMAL(si);
    VT_REQ(total(b + d) == total(a), "b+(a-b)=%s", show(b + d).c_str());
    VT_REQ(total(a - d) == total(b), "a-(a-b)=%s", show(a - d).c_str());
    const long double want = (long double)(total(a) - total(b)) * 1e-9L;
    VT_REQ(std::abs((long double)d.toSec() - want) <= 1e-15L * std::abs(want) + 2.3e-16L, "toSec %.17g want %.17Lg", d.toSec(), want);
}
VT_PROP(pair_construction, 20000, 500000)
{
    const int64_t sec = gen_sec(s);
    int64_t ns;
    switch (s.draw(3))
    {
    case 0: ns = s.range(-5000000000ll, 5000000000ll); break;
    case 1: ns = s.range(-3, 3); break;
    case 2: ns = s.range(-3, 3) + 1000000000ll * s.range(-4, 4); break;
    default: ns = s.range(-4000000000000000000ll, 4000000000000000000ll);
    }
    const UTCTime t(sec, ns);
    s.note("UTCTime(%lld,%lld)", (long long)sec, (long long)ns);
    if (ns < 0 || ns >= 1000000000) s.nontrivial();
    VT_REQ(total(t) == (i128)sec * NS + ns, "gave %s", show(t).c_str());
    NORMAL(t);
}
VT_PROP(histories, 6000, 150000)
{
    UTCTime t(gen_sec(s), gen_nsec(s));
    i128 want = total(t);
    double slack = 0;
    const int n = s.irange(1, 30);
    s.note("start %s, %d steps", show(t).c_str(), n);
    if (n > 3) s.nontrivial();
    for (int i = 0; i < n; ++i)
    {
        switch (s.draw(7))
        {
        case 0: { const double v = gen_dur(s); t += v; want += to_ns(v); slack += 1 + std::abs(v) * 5e-7; break; }
        case 1: { const double v = gen_dur(s); t = t - v; want -= to_ns(v); slack += 1 + std::abs(v) * 5e-7; break; }
        case 2: { const int v = s.irange(-1000, 1000); t += v; want += (i128)v * NS; break; }
        case 3: { const int v = s.irange(-1000, 1000); t -= v; want -= (i128)v * NS; break; }
        case 4: { const UTCTime v(s.range(-5, 5), gen_nsec(s)); t += v; want += total(v); break; }
        case 5: { const UTCTime v(s.range(-5, 5), gen_nsec(s)); t -= v; want -= total(v); break; }
        case 6: { const UTCTime v(s.range(-5, 5), gen_nsec(s)); t = t + v; want += total(v); break; }
        default: { const UTCTime v(s.range(-5, 5), gen_nsec(s)); t = t - v; want -= total(v); break; }
        }
        NORMAL(t);
        i128 d = total(t) - want;
        if (d < 0) d = -d;
        VT_REQ((double)d <= slack, "after step %d: %s want %s", i, show(t).c_str(), show(want).c_str());
    }
}
VT_PROP(random_and_now, 200, 2000)
{
    srand((unsigned)s.draw(1u << 30));
    const UTCTime r = UTCTime::Random();
    s.note("Random()=%s", show(r).c_str());
    s.nontrivial();
    NORMAL(r);
    NORMAL(UTCTime::now());
}
