// A01: integer least squares against exhaustive listing
#include "latgen.h"
#include "common/out.h"
using namespace lat;
namespace sv = mc::core::solver;
static bool integral(const VD& v)
{
    return (v.array() == v.array().round()).all();
}
// candidates of search(): integer, distinct, in order, with their own distances, and the nearest
static void judge(vt::Src& s, const Problem& p, const MD& cand, const VD& d, const char* what)
{
    const int m = d.size();
    const L rel = 1e-13L * p.cond + 1e-10L;
    for (int i = 0; i < m; ++i)
    {
        VT_REQ(integral(cand.col(i)), "%s: candidate %d is not an integer vector", what, i);
        const L t = dist2(p, cand.col(i));
        VT_REQ(std::fabs(t - (L)d(i)) <= rel * (t + 1e-12L / p.Q0.diagonal().maxCoeff()) + 1e-18L * p.cond, "%s: candidate %d is said to be at %.12g, it is at %.12Lg", what, i, d(i), t);
        VT_REQ(i == 0 || d(i) >= d(i - 1), "%s: candidate %d (%.12g) before candidate %d (%.12g)", what, i - 1, d(i - 1), i, d(i));
        for (int j = 0; j < i; ++j)
            VT_REQ(cand.col(i) != cand.col(j), "%s: candidates %d and %d are the same", what, i, j);
    }
    std::vector<L> best;
    if (!enumerate(p, dist2(p, cand.col(m - 1)) * (1 + rel) + 1e-15L / p.Q0.diagonal().maxCoeff(), m, best))
    {
        s.label("box-too-big");
        return;
    }
    VT_REQ((int)best.size() >= m, "%s: reference found %d", what, (int)best.size());
    for (int i = 0; i < m; ++i)
        VT_REQ(std::fabs(best[i] - dist2(p, cand.col(i))) <= rel * (best[i] + 1e-12L / p.Q0.diagonal().maxCoeff()), "%s: candidate %d is at %.12Lg, the %d-th nearest integer vector is at %.12Lg", what, i, dist2(p, cand.col(i)), i, best[i]);
    s.label("enumerated");
    if (p.n > 1)
        s.nontrivial();
}
VT_PROP(search_candidates, 15000, 300000)
{
    const Problem p = gen(s, 6);
    note(s, p);
    const int m = s.irange(1, 8), n = p.n;
    VD z(n), D(n), d(m);
    MD Lm(n, n), Z(n, n), c(n, m);
    sv::reduction(p.Q, p.a, z, Lm, D, Z);
    // whatever the outputs held before
    c.setConstant(s.pick({0.0, 7.0, -1e300}));
    d.setConstant(s.pick({0.0, 7.0, -1e300}));
    sv::search(z, Lm, D, m, c, d);
    MD back(n, m);
    const ML Zi = Eigen::PartialPivLU<ML>(Z.cast<L>().transpose()).inverse();
    back = (Zi * c.cast<L>()).unaryExpr([](L x) { return std::round(x); }).cast<double>();
    judge(s, p, back, d, "reduced");
    // without decorrelation, when the problem is easy enough
    if (n <= 4 && p.cond < 1e4L)
    {
        sv::LTDL(p.Q, Lm, D);
        sv::search(p.a, Lm, D, m, c, d);
        judge(s, p, c, d, "plain");
    }
}
VT_PROP(lambda_best, 15000, 300000)
{
    Problem p = gen(s, s.chance(0.2) ? 10 : 6);
    const int n = p.n;
    // ambiguities of real receivers are large
    VD shift(n);
    const double mag = s.pick({0.0, 10.0, 1e3, 1e6, 1e9, 3e9, 1e11});
    for (int i = 0; i < n; ++i)
        shift(i) = std::round(s.sym(mag));
    note(s, p);
    s.note("shift %s", show(shift.transpose()).c_str());
    const int m = s.irange(2, 5);
    VD fix(n), fix2(n), fix3(n);
    fix.setConstant(s.pick({0.0, 1e300, -3.0}));
    double ratio = -1, ratio2 = -1, ratio3 = -1;
    sv::lambda(p.a, p.Q, fix, mc::make_out(ratio), m);
    VT_REQ(integral(fix), "not an integer vector: %s", show(fix.transpose()).c_str());
    const L d0 = dist2(p, fix);
    const L rel = 1e-13L * p.cond + 1e-9L;
    std::vector<L> best;
    bool known = false;
    {
        // the second nearest is no further than the nearest moved by one unit along any axis
        L r2 = 1e300L;
        Eigen::PartialPivLU<ML> lu(p.T);
        const ML Ti = lu.inverse().unaryExpr([](L x) { return std::round(x); });
        const VL z0 = Ti * fix.cast<L>();
        for (int i = 0; i < n; ++i)
            for (int sg = -1; sg <= 1; sg += 2)
            {
                VL dd = z0 - p.a0;
                dd(i) += sg;
                r2 = std::min(r2, dd.dot(p.Q0.ldlt().solve(dd)));
            }
        known = enumerate(p, std::max(r2, d0) * (1 + rel), 2, best) && best.size() == 2;
    }
    if (known)
    {
        VT_REQ(d0 <= best[0] * (1 + rel) + 1e-15L / p.Q0.diagonal().maxCoeff(), "fixed to %s at %.12Lg, the nearest is at %.12Lg", show(fix.transpose()).c_str(), d0, best[0]);
        VT_REQ(std::fabs(ratio - best[0] / best[1]) <= 4 * rel + 1e-12L, "ratio %.12g, the two nearest are at %.12Lg and %.12Lg", ratio, best[0], best[1]);
        s.label("enumerated");
        if (n > 1)
            s.nontrivial();
    }
    VT_REQ(ratio >= 0 && ratio <= 1, "ratio %g", ratio);
    // unless the two nearest are equally near (to rounding), the answer moves with the problem
    const double gap = 1 - ratio;
    if (gap > 1e-5)
    {
        const VD moved = p.a + shift;
        const VD exact_shift = moved - p.a;  // exact only for moderate magnitudes
        sv::lambda(moved, p.Q, fix2, mc::make_out(ratio2), m);
        VT_REQ(integral(fix2), "shifted: not an integer vector");
        if (exact_shift == shift && (moved - shift) == p.a)
        {
            VT_REQ(fix2 - shift == fix, "shift by %s: %s instead of %s", show(shift.transpose()).c_str(), show(fix2.transpose()).c_str(), show(VD(fix + shift).transpose()).c_str());
            VT_REQ(std::abs(ratio2 - ratio) <= 1e-6 + 4 * (double)rel, "ratio %g becomes %g", ratio, ratio2);
            s.label("shifted");
        }
        else if (mag <= 1e6 && gap > 1e-3)
            VT_REQ(fix2 - shift == fix, "shift by %s: %s", show(shift.transpose()).c_str(), show(fix2.transpose()).c_str());
        const std::vector<int> pm = s.perm(n);
        MD P = MD::Zero(n, n);
        for (int i = 0; i < n; ++i)
            P(i, pm[i]) = 1;
        sv::lambda(P * p.a, P * p.Q * P.transpose(), fix3, mc::make_out(ratio3), m);
        VT_REQ(fix3 == P * fix, "permuted: %s instead of %s", show(fix3.transpose()).c_str(), show(VD(P * fix).transpose()).c_str());
        VT_REQ(std::abs(ratio3 - ratio) <= 1e-6 + 4 * (double)rel, "permuted: ratio %g becomes %g", ratio, ratio3);
    }
}
// many ambiguities: integer combinations of small independent groups, each of which can be listed
VT_PROP(many_ambiguities, 1500, 30000)
{
    Problem p;
    p.n = s.irange(7, 24);
    const int n = p.n, m = s.irange(2, 5);
    p.Q0 = ML::Zero(n, n);
    const double spread = s.pick({1.0, 4.0, 30.0}), scale = s.logu(1e-4, 1);
    // groups of up to three that depend on each other, spread over all places
    const std::vector<int> place = s.perm(n);
    std::vector<std::vector<int>> groups;
    for (int i = 0; i < n;)
    {
        std::vector<int> g;
        for (int k = s.irange(1, 3); k > 0 && i < n; --k) g.push_back(place[i++]);
        const ML W = well_conditioned(s, g.size(), spread);
        for (size_t r = 0; r < g.size(); ++r)
            for (size_t c = 0; c < g.size(); ++c) p.Q0(g[r], g[c]) = scale * W(r, c);
        groups.push_back(g);
    }
    p.T = unimodular(s, n, s.irange(0, n), s.irange(1, 2));
    p.a0.resize(n);
    for (int i = 0; i < n; ++i)
        p.a0(i) = s.sym(20);
    // nearest first: per group the m nearest, merged
    std::vector<L> best{0};
    for (const auto& g : groups)
    {
        Problem q;
        q.n = g.size();
        q.Q0.resize(q.n, q.n);
        q.a0.resize(q.n);
        for (int r = 0; r < q.n; ++r)
        {
            q.a0(r) = p.a0(g[r]);
            for (int c = 0; c < q.n; ++c) q.Q0(r, c) = p.Q0(g[r], g[c]);
        }
        VL dd = q.a0.unaryExpr([](L x) { return std::round(x); }) - q.a0;
        L far = 0;
        for (int k = 0; k < m; ++k)
        {
            far = std::max(far, dd.dot(q.Q0.ldlt().solve(dd)));
            dd(0) += 1;
        }
        std::vector<L> one, sum;
        if (!enumerate(q, far, m, one) || (int)one.size() < m) s.discard();
        for (L x : best)
            for (L y : one)
                sum.push_back(x + y);
        std::sort(sum.begin(), sum.end());
        if ((int)sum.size() > m) sum.resize(m);
        best = sum;
    }
    p.Q = (p.T * p.Q0 * p.T.transpose()).cast<double>();
    p.Q = MD(0.5 * (p.Q + p.Q.transpose()));
    p.a = (p.T * p.a0).cast<double>();
    Eigen::SelfAdjointEigenSolver<ML> es(p.Q.cast<L>());
    p.cond = es.eigenvalues()(n - 1) / es.eigenvalues()(0);
    if (!(p.cond > 0 && p.cond < 1e9L))
        s.discard();
    s.note("%d ambiguities, condition %.3Lg, seed %s", n, p.cond, show(p.a.transpose()).c_str());
    const L rel = 1e-13L * p.cond + 1e-9L;
    VD fix(n), z(n), D(n), d(m);
    fix.setConstant(1e300);
    double ratio = -1;
    sv::lambda(p.a, p.Q, fix, mc::make_out(ratio), m);
    VT_REQ(integral(fix), "not an integer vector: %s", show(fix.transpose()).c_str());
    const L d0 = dist2(p, fix);
    VT_REQ(std::fabs(d0 - best[0]) <= rel * best[0], "fixed to a vector at %.12Lg, the nearest is at %.12Lg", d0, best[0]);
    VT_REQ(std::fabs(ratio - best[0] / best[1]) <= 4 * rel, "ratio %.12g, the two nearest are at %.12Lg and %.12Lg", ratio, best[0], best[1]);
    MD Lm(n, n), Z(n, n), c(n, m);
    sv::reduction(p.Q, p.a, z, Lm, D, Z);
    sv::search(z, Lm, D, m, c, d);
    for (int i = 0; i < m; ++i)
    {
        VT_REQ(integral(c.col(i)), "candidate %d is not an integer vector", i);
        VT_REQ(std::fabs((L)d(i) - best[i]) <= rel * best[i], "candidate %d is said to be at %.12g, the %d-th nearest is at %.12Lg", i, d(i), i, best[i]);
    }
    if (p.T != ML::Identity(n, n)) s.nontrivial();
}
