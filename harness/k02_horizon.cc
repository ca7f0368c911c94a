// K02: the filter's history stays ordered, bounded and within its horizon
#include "estgen.h"
using namespace eg;
struct Copy
{
    std::vector<Snapshot, Eigen::aligned_allocator<Snapshot>> st;
    std::vector<std::pair<int64_t, size_t>> ms;
};
static Copy take(const Setup& u, const RtkEkfEstimator& e)
{
    Copy c;
    for (size_t i = 0; i < e.states_.size(); ++i) c.st.push_back(e.states_[i]);
    for (auto& m : e.measurements_) c.ms.push_back({ns_of(u, m.t), m.z.index()});
    return c;
}
static void same(const Setup& u, const Copy& a, const Copy& b)
{
    VT_REQ(a.st.size() == b.st.size() && a.ms == b.ms, "a refused measurement changed the history (%zu to %zu states, %zu to %zu measurements)", a.st.size(), b.st.size(), a.ms.size(), b.ms.size());
    for (size_t i = 0; i < a.st.size(); ++i)
    {
        const std::string d = differ(u, a.st[i], b.st[i]);
        VT_REQ(d.empty(), "a refused measurement changed state %zu: %s", i, d.c_str());
    }
}
static void invariants(const Setup& u, const RtkEkfEstimator& e, int64_t newest, const std::multiset<std::pair<int64_t, size_t>>& accepted)
{
    VT_REQ(e.states_.size() >= 1 && e.states_.size() <= 99, "%zu states kept", e.states_.size());
    int64_t last = 0;
    for (size_t i = 0; i < e.states_.size(); ++i)
    {
        const int64_t t = ns_of(u, e.states_[i].x.t);
        VT_REQ(i == 0 || t > last, "state %zu at %lld ns follows one at %lld ns", i, (long long)t, (long long)last);
        last = t;
    }
    VT_REQ(newest < 0 || (last <= newest + 2 && last >= newest - HALF - 2), "newest state at %lld ns, newest measurement at %lld ns", (long long)last, (long long)newest);
    VT_REQ(newest < 0 || ns_of(u, e.states_[0].x.t) >= newest - 1000000000ll - HALF - 2, "oldest state %lld ns behind the newest measurement", (long long)(newest - ns_of(u, e.states_[0].x.t)));
    std::multiset<std::pair<int64_t, size_t>> kept;
    int64_t prev = INT64_MIN;
    for (auto& m : e.measurements_)
    {
        const int64_t t = ns_of(u, m.t);
        VT_REQ(t >= prev, "measurements not in time order");
        prev = t;
        kept.insert({t, m.z.index()});
    }
    // exactly the accepted ones of the last second (one at exactly a second may go either way)
    for (auto& a : accepted)
        if (a.first > newest - 1000000000ll + 2) VT_REQ(kept.count(a) == accepted.count(a), "the accepted measurement at %lld ns (kind %zu) was dropped; newest %lld ns", (long long)a.first, a.second, (long long)newest);
    for (auto& k : kept)
    {
        VT_REQ(accepted.count(k) == kept.count(k), "a measurement at %lld ns (kind %zu) is kept %zu times, accepted %zu times", (long long)k.first, k.second, kept.count(k), accepted.count(k));
        VT_REQ(k.first >= newest - 1000000000ll - 2, "a measurement %lld ns behind the newest is kept", (long long)(newest - k.first));
    }
}
static void spoil(vt::Src& s, const Setup& u, M& m)
{
    const double bad = s.pick({(double)NAN, (double)INFINITY, -(double)INFINITY});
    switch (m.kind)
    {
    case 0: (s.flip() ? m.imu.accel : m.imu.gyro)(s.irange(0, 2)) = bad; break;
    case 1:
        switch (s.weighted({1, 1, 1, 1}))
        {
        case 0: m.obs[0].pseudorange = bad; break;
        case 1: m.obs[0].sat_num = s.pick({3, 17, 200}); break;
        case 2: m.obs.back().t = satgen::at(m.obs.back().t, s.pick({1, -1, 50000, 1000000000})); break;
        default: while (m.obs.size() <= 30) m.obs.push_back(m.obs[0]); break;
        }
        break;
    case 2: m.pos.z(s.irange(0, 5)) = bad; break;
    default:
        if (s.flip() || m.held.z.empty()) m.held.z.push_back(Vec1(s.sym(1)));
        else if (s.flip()) m.held.z.pop_back();
        else m.held.z[0](0) = bad;
        break;
    }
}
static void run(vt::Src& s, const Setup& u, int n, int64_t step, int fault_pct)
{
    auto e = std::make_unique<RtkEkfEstimator>();
    u.start(*e);
    int64_t now = 0, newest = -1;
    std::multiset<std::pair<int64_t, size_t>> accepted;
    int gaps = 0, stale = 0, refused = 0, late = 0, dup = 0;
    std::vector<M> sent;
    for (int i = 0; i < n; ++i)
    {
        int64_t t;
        // dead reckoning for minutes makes any filter's uncertainty explode: at most four gaps
        switch (s.weighted({20, 4, 2, 2, gaps < 4 ? 1 : 0}))
        {
        case 0: now += s.range(1, 2 * step); t = now; break;
        case 1: t = now - s.range(0, 900000000); break;
        case 2: t = now - s.range(0, 5000000000ll); break;
        case 3: t = std::max<int64_t>(now, 0); break;
        default: ++gaps, now += s.pick({1000000000ll, 999999999ll, 1500000000ll, 2500000000ll}); t = now; break;
        }
        M m = gen_meas(s, u, t);
        if (!sent.empty() && s.chance(0.05)) m = s.pickv(sent), ++dup;
        const bool bad = s.chance(fault_pct / 100.0);
        if (bad) spoil(s, u, m);
        else sent.push_back(m);
        const Copy was = take(u, *e);
        const int64_t front = ns_of(u, e->states_[0].x.t);
        const bool ok = give(*e, u, m).ok();
        VT_REQ(!(bad && ok), "a measurement of kind %d the filter cannot apply was accepted", m.kind);
        if (ok)
        {
            VT_REQ(m.ns >= front - HALF - 2, "a measurement at %lld ns was accepted, older than the oldest state (%lld ns)", (long long)m.ns, (long long)front);
            if (m.ns < newest) ++late;
            newest = std::max(newest, m.ns);
            accepted.insert({m.ns, (size_t)m.kind});
        }
        else
        {
            VT_REQ(bad || m.ns - front <= HALF + 2, "a measurement of kind %d at %lld ns was refused, oldest state %lld ns", m.kind, (long long)m.ns, (long long)front);
            ++(bad ? refused : stale);
            same(u, was, take(u, *e));
        }
        invariants(u, *e, newest, accepted);
    }
    s.note("%d arrivals: %d late, %d stale, %d invalid, %d repeated", n, late, stale, refused, dup);
    if (late > 1 && stale + refused > 0) s.nontrivial();
}
VT_PROP(arrivals, 500, 12000)
{
    const Setup u = gen_setup(s, s.chance(0.4));
    run(s, u, s.irange(1, 80), s.pick({20000ll, 1000000ll, 20000000ll, 200000000ll}), s.pick({0, 5, 30}));
}
VT_PROP(flood, 40, 800)
{
    // more states per second than the history holds
    const Setup u = gen_setup(s, s.chance(0.2));
    run(s, u, s.irange(150, 400), s.pick({1000000ll, 3000000ll, 9000000ll}), 2);
}
