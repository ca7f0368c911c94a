#include "timegen.h"
#include "common/defs.h"
#include "common/quantized_time.h"
using namespace mc;
static void gen_pair(vt::Src& s, UTCTime& a, UTCTime& b)
{
    const int64_t as = gen_sec(s), an = gen_nsec(s);
    int64_t bs = as, bn = an;
    switch (s.weighted({3, 2, 2, 2, 1}))
    {
    case 0: bn = gen_nsec(s); break;                 // same second
    case 1: {                                        // within a few ns
        i128 t = (i128)as * NS + an + s.range(-3, 3);
        bs = (int64_t)(t / NS);
        bn = (int64_t)(t % NS);
        if (bn < 0) { bn += NS; bs -= 1; }
        break;
    }
    case 2: bs = as + s.range(-1, 1); bn = gen_nsec(s); break;
    case 3: bs = gen_sec(s); bn = an; break;         // same nanoseconds
    default: bs = gen_sec(s); bn = gen_nsec(s);
    }
    a = UTCTime(as, an);
    b = UTCTime(bs, bn);
}
VT_PROP(exact_comparisons, 60000, 2000000)
{
    UTCTime a(0, 0), b(0, 0);
    gen_pair(s, a, b);
    const i128 d = total(a) - total(b);
    s.note("a=%s b=%s diff=%s", show(a).c_str(), show(b).c_str(), show(d).c_str());
    if (d != 0 && (d < NS && d > -NS)) s.nontrivial();
    if (a.sec == b.sec && d != 0) s.label("same_second");
    if (d == 0) s.label("identical");
    VT_REQ((a < b) == (d < 0), "gave %d", a < b);
    VT_REQ((a <= b) == (d <= 0), "gave %d", a <= b);
    VT_REQ((a > b) == (d > 0), "gave %d", a > b);
    VT_REQ((a >= b) == (d >= 0), "gave %d", a >= b);
    VT_REQ((a == b) == (d == 0), "gave %d", a == b);
    VT_REQ((a != b) == (d != 0), "gave %d", a != b);
    VT_REQ((b < a) == (d > 0) && (b <= a) == (d >= 0) && (b > a) == (d < 0) && (b >= a) == (d <= 0) &&
               (b == a) == (d == 0) && (b != a) == (d != 0),
           "mirrored comparisons disagree");
}
VT_PROP(sorting, 3000, 60000)
{
    // any sequence sorts into elapsed order with the library's operators
    const int n = s.irange(2, 12);
    std::vector<UTCTime> v;
    UTCTime a(0, 0), b(0, 0);
    for (int i = 0; i < n; ++i)
    {
        gen_pair(s, a, b);
        v.push_back(a);
        v.push_back(b);
    }
    std::vector<UTCTime> w = v;
    std::sort(w.begin(), w.end());
    s.note("%d instants", 2 * n);
    s.nontrivial();
    for (size_t i = 1; i < w.size(); ++i)
    {
        VT_REQ(total(w[i - 1]) <= total(w[i]), "%s before %s", show(w[i - 1]).c_str(), show(w[i]).c_str());
        VT_REQ(w[i - 1] <= w[i] && w[i] >= w[i - 1], "<= / >= not monotone");
    }
    const UTCTime q = v[s.draw(v.size() - 1)];
    const size_t lo = std::lower_bound(w.begin(), w.end(), q) - w.begin();
    const size_t hi = std::upper_bound(w.begin(), w.end(), q) - w.begin();
    size_t cl = 0, ch = 0;
    for (auto& x : v)
    {
        cl += total(x) < total(q);
        ch += total(x) <= total(q);
    }
    VT_REQ(lo == cl && hi == ch, "bounds %zu %zu want %zu %zu", lo, hi, cl, ch);
}
VT_PROP(computed_instants, 30000, 600000)
{
    // instants reached by arithmetic compare like the same instants written down
    UTCTime a(0, 0), b(0, 0);
    gen_pair(s, a, b);
    const UTCTime d = b - a;
    const UTCTime b2 = a + d;
    s.note("a=%s b=%s", show(a).c_str(), show(b).c_str());
    if (total(a) != total(b)) s.nontrivial();
    VT_REQ(b2 == b && !(b2 < b) && !(b2 > b) && b2 <= b && b2 >= b && !(b2 != b), "a+(b-a)=%s", show(b2).c_str());
    const UTCTime zero(0, 0);
    VT_REQ((d < zero) == (a > b) && (d > zero) == (a < b) && (d == zero) == (a == b) && (d <= zero) == (a >= b) &&
               (d >= zero) == (a <= b),
           "sign of difference %s", show(d).c_str());
    // negative durations written as a real number of seconds
    const double x = s.sym(4.0);
    const UTCTime r(x), rz = UTCTime(0, 0) + x;
    s.note("x=%.17g", x);
    VT_REQ((r < zero) == (total(r) < 0) && (r > zero) == (total(r) > 0) && r <= UTCTime(5, 0) && r >= UTCTime(-5.0),
           "UTCTime(%.17g)=%s", x, show(r).c_str());
    VT_REQ(r == rz, "UTCTime(x)=%s but UTCTime(0)+x=%s", show(r).c_str(), show(rz).c_str());
}
VT_PROP(quantised, 60000, 2000000)
{
    const i128 half = (i128)llround(TIME_QUANTIZATION / 2.0 * 1e9);
    UTCTime a(0, 0), b(0, 0);
    gen_pair(s, a, b);
    if (s.draw(3) != 0)
    {
        i128 off;
        switch (s.draw(3))
        {
        case 0: off = half + s.range(-3, 3); break;
        case 1: off = -half + s.range(-3, 3); break;
        case 2: off = s.range(-(int64_t)half, (int64_t)half); break;
        default: off = 2 * half + s.range(-3, 3); if (s.flip()) off = -off;
        }
        i128 t = total(a) + off;
        int64_t bs = (int64_t)(t / NS), bn = (int64_t)(t % NS);
        if (bn < 0) { bn += NS; bs -= 1; }
        b = UTCTime(bs, bn);
        s.nontrivial();
    }
    const i128 d = total(a) - total(b);
    s.note("a=%s b=%s diff=%s half=%s", show(a).c_str(), show(b).c_str(), show(d).c_str(), show(half).c_str());
    if (d == half || d == -half) s.discard();  // the boundary itself is decided by rounding
    const bool eq = d < half && d > -half;
    const QuantizedTime qa = a.quantized(), qb = b.quantized();
    VT_REQ(total(qa) == total(a), "quantized() moved the instant");
    if (eq) s.label("equal");
    VT_REQ((qa == b) == eq, "qa==b"); VT_REQ((a == qb) == eq, "a==qb");
    VT_REQ((qa != b) == !eq, "qa!=b"); VT_REQ((a != qb) == !eq, "a!=qb");
    VT_REQ((qa < b) == (!eq && d < 0), "qa<b"); VT_REQ((a < qb) == (!eq && d < 0), "a<qb");
    VT_REQ((qa > b) == (!eq && d > 0), "qa>b"); VT_REQ((a > qb) == (!eq && d > 0), "a>qb");
    VT_REQ((qa <= b) == (eq || d < 0), "qa<=b"); VT_REQ((a <= qb) == (eq || d < 0), "a<=qb");
    VT_REQ((qa >= b) == (eq || d > 0), "qa>=b"); VT_REQ((a >= qb) == (eq || d > 0), "a>=qb");
    QuantizedTime qc = qb;
    qc = a;
    VT_REQ(total(qc) == total(a), "assignment moved the instant");
}
