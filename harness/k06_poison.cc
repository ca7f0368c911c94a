// K06: results of a generated filter do not depend on leftover memory
#include "fg.h"
#include "poison.h"
using namespace fg;
static Counts everything()
{
    Counts c;
    for (int k = 0; k < NST; ++k)
        if (ST[k].vi >= 0) c.n[ST[k].vi] = ST[k].max;
    c.lay();
    return c;
}
template <typename B>
static void litter(const World& w, vt::u64& q, B&& b)
{
    for (int j = 0; j < b.cols(); ++j)
        for (int i = 0; i < b.rows(); ++i) b(i, j) = w.num(q);
}
static void litter_any(const World& w, vt::u64& q, double* p, size_t n)
{
    for (size_t i = 0; i < n; ++i) p[i] = w.any(q);
}
// elements beyond the active ones
static void litter_state(const World& w, State& x, const Counts& c)
{
    vt::u64 q = w.seed + 3;
    each(x, [&](int k, int i, auto& e) {
        using E = std::decay_t<decltype(e)>;
        if (i < c.count(k)) return;
        if constexpr (std::is_same_v<E, math::Quat<double>>) litter_any(w, q, e.data(), 4);
        else if constexpr (std::is_same_v<E, math::DQuat<double>>) litter_any(w, q, e.data(), 8);
        else litter_any(w, q, reinterpret_cast<double*>(&e), sizeof(e) / 8);
    });
}
struct Step
{
    int k = -1, nm = 1;  // measurement
    MX A, B, H;
    VX qx, qu, xd, r, rr;
    Input u;
    int64_t ns;
};
struct Script
{
    Counts c;
    State x;
    Input u;
    MX P;
    std::vector<Step> steps;
};
static Script gen_script(vt::Src& s)
{
    Script g;
    g.c = gen_counts(s);
    g.x = fg::gen_state(s, g.c);
    g.u = fg::gen_input(s);
    g.P = gen_psd(s, g.c.total) + MX::Identity(g.c.total, g.c.total);
    const int n = s.irange(1, 4);
    for (int i = 0; i < n; ++i)
    {
        Step t;
        t.u = fg::gen_input(s);
        if (s.flip())
        {
            t.A = gen_mat(s, g.c.total, g.c.total, 1), t.B = gen_mat(s, g.c.total, input_dim(), 1);
            t.qx = VX(NST), t.qu = VX(NIN);
            for (int k = 0; k < NST; ++k) t.qx(k) = s.logu(1e-3, 1);
            for (int k = 0; k < NIN; ++k) t.qu(k) = s.logu(1e-3, 1);
            t.xd = fg::gen_vec(s, g.c.total, 1);
            t.ns = s.range(1000000, 200000000);
        }
        else
        {
            t.k = s.irange(0, NME - 1);
            t.nm = ME[t.k].vi == -1 ? 1 : s.irange(0, ME[t.k].max);
            const int D = t.nm * ME[t.k].dx;
            t.H = gen_mat(s, D, g.c.total, 1);
            t.r = fg::gen_vec(s, D, s.pick({0.1, 0.5, 3.0}));
            t.rr = VX(ME[t.k].dx);
            for (int q = 0; q < t.rr.size(); ++q) t.rr(q) = s.logu(0.1, 10);
        }
        g.steps.push_back(t);
    }
    return g;
}
static void keep(std::vector<double>& o, const MX& m) { for (int j = 0; j < m.cols(); ++j) for (int i = 0; i < m.rows(); ++i) o.push_back(m(i, j)); }
static std::vector<double> run(const Script& g, const World& w)
{
    std::vector<double> o;
    const Counts all = everything();
    vt::u64 q = w.seed + 5;
    Room<Snapshot> a(w), b(w);
    Room<Snapshot>*cur = &a, *next = &b;
    {
        Snapshot& sn = **cur;
        sn.x = g.x;
        litter_state(w, sn.x, g.c);
        sn.u = g.u;
        each(sn.cov, all.n, [&](int, int, auto&& m) { litter(w, q, m); });
        fill(sn.cov, g.c, g.P);
        // the snapshot to be written holds something else
        Snapshot& ot = **next;
        litter_state(w, ot.x, Counts());
        set_counts(ot.x, all.n);
        each(ot.cov, all.n, [&](int, int, auto&& m) { litter(w, q, m); });
    }
    for (const Step& t : g.steps)
    {
        Snapshot& sn = **cur;
        try
        {
            if (t.k < 0)
            {
                auto& an = answer();
                each(an.A, all.n, [&](int, int, auto&& m) { litter(w, q, m); });
                each(an.A, g.c.n, [&](int i, int j, auto&& m) { m = t.A.block(g.c.at[i], g.c.at[j], g.c.dim(i), g.c.dim(j)); });
                each(an.B, g.c.n, [&](int i, int j, auto&& m) { m = t.B.block(g.c.at[i], input_at(j), g.c.dim(i), IN[j].dx); });
                an.xdot = fg::sparse(g.c, t.xd, w.num(q));
                ProcessCovariance Qx;
                InputCovariance Qu;
                each(Qx, [&](int k, auto& v) { v.setConstant(t.qx(k)); });
                each(Qu, [&](int k, auto& v) { v.setConstant(t.qu(k)); });
                const int64_t ns = (int64_t)sn.x.t.sec * 1000000000ll + sn.x.t.nsec + t.ns;
                dirty(w);
                const bool ok = PREDICT(sn, UTCTime(ns / 1000000000ll, ns % 1000000000ll), t.u, Qx, Qu, make_out(**next)).ok();
                o.push_back(ok);
                std::swap(cur, next);
            }
            else
                with_meas(t.k, [&](auto K) {
                    using M = Me<decltype(K)::value>;
                    constexpr int kk = decltype(K)::value;
                    auto& an = meas_answer<kk>();
                    M::each(an.H, ME[kk].vi == -1 ? 1 : ME[kk].max, all.n, [&](int, auto&& m) { litter(w, q, m); });
                    M::each(an.H, t.nm, g.c.n, [&](int k, auto&& m) { m = t.H.middleCols(g.c.at[k], g.c.dim(k)); });
                    litter(w, q, an.r);
                    an.r.head(t.r.size()) = t.r;
                    typename M::T::Covariance R = t.rr;
                    const auto z = M::make(t.nm);
                    dirty(w);
                    const auto res = UPDATE<typename M::T>(make_out(sn), z, R);
                    o.push_back(res.ok());
                    if (res.ok()) keep(o, res.res().head(t.r.size()));
                });
        }
        catch (const std::exception&)
        {
            o.push_back(-1);
            break;
        }
        Snapshot& at = **cur;
        int n[8] = {0};
        get_counts(at.x, n);
        for (int i = 0; i < NV; ++i) o.push_back(n[i]);
        each(at.x, [&](int k, int i, auto& e) { if (i < g.c.count(k)) raw(e, o); });
        keep(o, fg::dense(at.cov, g.c));
        keep(o, full(at.u));
        o.push_back(at.x.t.sec), o.push_back(at.x.t.nsec);
    }
    mallopt(M_PERTURB, 0);
    return o;
}
VT_PROP(same_results, 400, 4000)
{
    const Script g = gen_script(s);
    const World clean{1, 0, false};
    const auto want = run(g, clean);
    const World w{s.draw(1ull << 40) + 1, s.pick({1, 2}), s.flip()};
    const auto got = run(g, w);
    VT_REQ(got.size() == want.size(), "with other leftovers %zu results instead of %zu", got.size(), want.size());
    for (size_t i = 0; i < got.size(); ++i)
        VT_REQ(memcmp(&got[i], &want[i], 8) == 0, "result %zu of %zu is %.17g with clean memory, %.17g with leftovers (kind %d%s)", i, got.size(), want[i], got[i], w.kind, w.nan ? ", not finite" : "");
    const Counts all = everything();
    s.note("%zu steps, size %d of %d, %zu results", g.steps.size(), g.c.total, all.total, got.size());
    if (g.steps.size() > 1) s.nontrivial();
}
