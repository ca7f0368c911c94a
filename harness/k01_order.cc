// K01: the filter's estimate does not depend on the order in which measurements arrive
#include "estgen.h"
using namespace eg;
static std::vector<M> history(vt::Src& s, const Setup& u, int n, int64_t span, bool close)
{
    std::vector<M> h;
    std::set<std::pair<int64_t, int>> used;
    int64_t last = 0;
    for (int i = 0; i < n; ++i)
    {
        int64_t t;
        if (close && s.chance(0.4) && i > 0) t = last + s.pick({0, 1, 20000, 49999, 50000, 50001, 60000, 99999, 100001, -1, -20000, -50000, -50001});  // coincident and nearly so
        else t = s.range(1, span);
        if (t < 1) t = 1;
        M m = gen_meas(s, u, t);
        if (!used.insert({m.ns, m.kind}).second) continue;
        last = m.ns;
        h.push_back(m);
    }
    return h;
}
static bool before(const M& a, const M& b) { return a.ns != b.ns ? a.ns < b.ns : a.kind < b.kind; }
static void compare(const Setup& u, const RtkEkfEstimator& e, const std::vector<M>& accepted)
{
    std::vector<M> in = accepted;
    std::sort(in.begin(), in.end(), before);
    const auto ref = reference(u, in);
    const size_t n = e.states_.size();
    VT_REQ(n >= 1 && n <= ref.size(), "%zu states in the history, at most %zu expected", n, ref.size());
    for (size_t i = 1; i <= n; ++i)
    {
        const std::string d = differ(u, e.states_[n - i], ref[ref.size() - i]);
        VT_REQ(d.empty(), "state %zu from the newest differs from that of the in-order run: %s", i - 1, d.c_str());
    }
    // what may have been forgotten is older than the horizon or beyond the buffer's capacity
    const int64_t newest = in.empty() ? 0 : in.back().ns;
    for (size_t i = n; i < ref.size(); ++i)
        VT_REQ(n >= 99 || ns_of(u, ref[ref.size() - 1 - i].x.t) < newest - 1000000000ll + 2, "the state at %lld ns of the in-order run is missing from the history (newest %lld ns)", (long long)ns_of(u, ref[ref.size() - 1 - i].x.t), (long long)newest);
    // the measurements kept are those of the horizon
    size_t k = 0;
    for (const M& m : in) if (m.ns > newest - 1000000000ll) ++k;
    VT_REQ(e.measurements_.size() >= k && e.measurements_.size() <= k + 4, "%zu measurements kept, %zu lie within the horizon", e.measurements_.size(), k);
}
VT_PROP(any_order, 1200, 30000)
{
    const Setup u = gen_setup(s, s.chance(0.3));
    const int n = s.irange(1, 25);
    auto h = history(s, u, n, s.pick({20000000ll, 300000000ll, 950000000ll}), true);
    const auto p = s.perm((int)h.size());
    auto e = std::make_unique<RtkEkfEstimator>();
    u.start(*e);
    std::vector<M> acc;
    int moved = 0;
    int64_t newest = -1;
    for (int i : p)
    {
        if (h[i].ns < newest) ++moved;
        const int64_t front = ns_of(u, e->states_[0].x.t);
        const bool ok = give(*e, u, h[i]).ok();
        VT_REQ(ok || h[i].ns - front <= HALF + 2, "measurement at %lld ns refused, oldest state at %lld ns", (long long)h[i].ns, (long long)front);
        if (ok) acc.push_back(h[i]), newest = std::max(newest, h[i].ns);
    }
    s.note("%zu measurements, %d late", h.size(), moved);
    if (moved > 1) s.nontrivial();
    compare(u, *e, acc);
}
VT_PROP(delays, 250, 6000)
{
    // a stream with sensor delays, over several horizons
    const Setup u = gen_setup(s, s.chance(0.2));
    const int n = s.irange(20, 150);
    auto h = history(s, u, n, s.pick({1000000000ll, 3000000000ll, 10000000000ll}), s.flip());
    const int64_t d[4] = {s.range(0, 5000000), s.range(0, 900000000), s.range(0, 900000000), s.range(0, 1500000000)};
    std::vector<std::pair<int64_t, int>> arrive;
    for (size_t i = 0; i < h.size(); ++i) arrive.push_back({h[i].ns + d[h[i].kind] + s.range(0, 20000000), (int)i});
    std::sort(arrive.begin(), arrive.end());
    auto e = std::make_unique<RtkEkfEstimator>();
    u.start(*e);
    std::vector<M> acc;
    int moved = 0, refused = 0;
    int64_t newest = -1;
    for (auto& a : arrive)
    {
        const M& m = h[a.second];
        if (m.ns < newest) ++moved;
        const int64_t front = ns_of(u, e->states_[0].x.t);
        const bool ok = give(*e, u, m).ok();
        VT_REQ(ok || m.ns - front <= HALF + 2, "measurement at %lld ns refused, oldest state at %lld ns", (long long)m.ns, (long long)front);
        if (ok) acc.push_back(m), newest = std::max(newest, m.ns);
        else ++refused;
    }
    s.note("%zu measurements, %d late, %d refused", h.size(), moved, refused);
    if (moved > 5) s.nontrivial();
    compare(u, *e, acc);
}
