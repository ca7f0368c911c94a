// A02: factorisation, decorrelation, sorting
#include "latgen.h"
using namespace lat;
namespace sv = mc::core::solver;
static L err(const ML& a, const ML& b)
{
    return (a - b).cwiseAbs().maxCoeff();
}
static void unit_lower(const MD& Lm, const VD& D, const char* w)
{
    const int n = D.size();
    for (int i = 0; i < n; ++i)
    {
        VT_REQ(std::abs(Lm(i, i) - 1) < 1e-12, "%s: L(%d,%d) is %.17g", w, i, i, Lm(i, i));
        VT_REQ(D(i) > 0 && std::isfinite(D(i)), "%s: D(%d) is %.17g", w, i, D(i));
        for (int j = i + 1; j < n; ++j)
            VT_REQ(Lm(i, j) == 0, "%s: L(%d,%d) is %.17g", w, i, j, Lm(i, j));
    }
}
static bool integral(const MD& v)
{
    return (v.array() == v.array().round()).all();
}
static ML compose(const MD& Lm, const VD& D)
{
    const ML l = Lm.cast<L>();
    return l.transpose() * D.cast<L>().asDiagonal() * l;
}
VT_PROP(factorisation, 20000, 300000)
{
    const Problem p = gen(s, 12);
    note(s, p);
    const int n = p.n;
    MD Lm(n, n);
    VD D(n);
    Lm.setConstant(s.pick({0.0, 5.0, -1e200}));
    D.setConstant(-1);
    const MD copy = p.Q;
    sv::LTDL(p.Q, Lm, D);
    VT_REQ(p.Q == copy, "input changed");
    unit_lower(Lm, D, "LTDL");
    const double sc = p.Q.cwiseAbs().maxCoeff();
    VT_REQ(err(compose(Lm, D), p.Q.cast<L>()) <= 1e-13L * n * sc, "L^t D L is off by %Lg of %g", err(compose(Lm, D), p.Q.cast<L>()), sc);
    if (n > 1)
        s.nontrivial();
}
VT_PROP(indefinite, 6000, 100000)
{
    Problem p = gen(s, 8);
    const int n = p.n;
    // make one direction negative or exactly null
    Eigen::SelfAdjointEigenSolver<MD> es(p.Q);
    const int k = s.irange(0, n - 1);
    const double lam = -s.pick({1.0, 0.1, 0.3}) * es.eigenvalues()(n - 1);
    MD Q = p.Q + (lam - es.eigenvalues()(k)) * es.eigenvectors().col(k) * es.eigenvectors().col(k).transpose();
    s.note("Q %s", show(Q).c_str());
    const auto r = vt::in_child([&] {
        MD Lm(n, n);
        VD D(n);
        sv::LTDL(Q, Lm, D);
        return std::string("ok");
    });
    VT_REQ(r.refused(), "a covariance with the eigenvalue %g was factored (%s)", lam, r.data.c_str());
    s.nontrivial();
}
static void decorrelated(vt::Src& s, const Problem& p, const MD& Lm, const VD& D, const MD& Z, const VD& z, const char* w)
{
    unit_lower(Lm, D, w);
    VT_REQ(integral(Z), "%s: the transform is not an integer matrix", w);
    const L det = Eigen::PartialPivLU<ML>(Z.cast<L>()).determinant();
    VT_REQ(std::fabs(std::fabs(det) - 1) < 1e-6L, "%s: determinant %Lg", w, det);
    const ML ZQZ = Z.cast<L>().transpose() * p.Q.cast<L>() * Z.cast<L>();
    const L sc = p.Q.cwiseAbs().maxCoeff() * std::max<L>(1, (L)Z.cwiseAbs().maxCoeff());
    VT_REQ(err(compose(Lm, D), ZQZ) <= 1e-12L * p.n * p.n * sc * (1 + Z.cwiseAbs().maxCoeff()), "%s: Z^t Q Z is off by %Lg", w, err(compose(Lm, D), ZQZ));
    const VL zt = Z.cast<L>().transpose() * p.a.cast<L>();
    VT_REQ((zt - z.cast<L>()).cwiseAbs().maxCoeff() <= 1e-13L * p.n * (1 + p.a.cwiseAbs().maxCoeff() * Z.cwiseAbs().maxCoeff()) * p.n, "%s: transformed vector is off by %Lg", w, (zt - z.cast<L>()).cwiseAbs().maxCoeff());
}
VT_PROP(decorrelation, 15000, 300000)
{
    const Problem p = gen(s, s.chance(0.1) ? 20 : 10);
    note(s, p);
    const int n = p.n;
    MD Lm(n, n), Z(n, n);
    VD D(n), z(n);
    Lm.setConstant(3);
    Z.setConstant(s.pick({0.0, 5.0}));
    z.setConstant(9);
    sv::reduction(p.Q, p.a, z, Lm, D, Z);
    decorrelated(s, p, Lm, D, Z, z, "reduction");
    // decorrelated: conditional variances nearly ordered, correlations at most one half
    for (int i = 0; i + 1 < n; ++i)
        VT_REQ(D(i) + Lm(i + 1, i) * Lm(i + 1, i) * D(i + 1) >= D(i + 1) * (1 - 1e-9), "pair %d is left out of order", i);
    for (int i = 0; i < n; ++i)
        for (int j = 0; j < i; ++j)
            VT_REQ(std::abs(Lm(i, j)) <= 0.5 + 1e-6, "L(%d,%d) is %g", i, j, Lm(i, j));
    if (Z != MD::Identity(n, n))
        s.nontrivial();
}
VT_PROP(transform_steps, 10000, 200000)
{
    const Problem p = gen(s, 7);
    note(s, p);
    const int n = p.n;
    if (n < 2)
        s.discard();
    MD Lm(n, n), Z = MD::Identity(n, n);
    VD D(n), z = p.a;
    sv::LTDL(p.Q, Lm, D);
    const int steps = s.irange(1, 12);
    for (int k = 0; k < steps; ++k)
    {
        if (s.flip())
        {
            const int j = s.irange(0, n - 2), i = s.irange(j + 1, n - 1);
            s.note("gauss %d %d", i, j);
            sv::integerGaussTransformations(i, j, Lm, z, Z);
            VT_REQ(std::abs(Lm(i, j)) <= 0.5 + 1e-9 * std::abs(Lm(i, j)), "L(%d,%d) is %g after the transformation", i, j, Lm(i, j));
        }
        else
        {
            const int i = s.irange(0, n - 2);
            s.note("permute %d", i);
            const double delta = D(i) + Lm(i + 1, i) * Lm(i + 1, i) * D(i + 1);
            sv::permute(i, delta, z, Lm, D, Z);
        }
        if (Z.cwiseAbs().maxCoeff() > 1e4 || D.maxCoeff() / D.minCoeff() > 1e7)
            break;
        decorrelated(s, p, Lm, D, Z, z, "step");
    }
    s.nontrivial();
}
VT_PROP(sorting, 20000, 300000)
{
    const int n = s.irange(0, 20);
    VD x(n);
    for (int i = 0; i < n; ++i)
        x(i) = s.weighted({3, 1}) ? s.irange(-2, 2) : s.sym(1e3);
    s.note("x %s", show(x.transpose()).c_str());
    const VD idx = mc::argsort(x);
    VT_REQ(idx.size() == n, "size");
    std::vector<int> seen(n, 0);
    for (int i = 0; i < n; ++i)
    {
        VT_REQ(idx(i) >= 0 && idx(i) < n && idx(i) == std::floor(idx(i)), "index %g", idx(i));
        ++seen[(int)idx(i)];
    }
    for (int i = 0; i < n; ++i)
        VT_REQ(seen[i] == 1, "index %d occurs %d times", i, seen[i]);
    if (n > 0)
    {
        const auto perm = idx.asPermutation();
        const VD y = perm * x;
        for (int i = 0; i + 1 < n; ++i)
            VT_REQ(y(i) <= y(i + 1), "not ordered: %s", show(y.transpose()).c_str());
        MD two(2, n);
        two << x.transpose(), 2 * x.transpose();
        const MD t2 = two * perm.transpose();
        VT_REQ(t2.row(0).transpose() == y, "columns are permuted differently");
    }
    if (n > 1)
        s.nontrivial();
}
VT_PROP(split_fraction, 20000, 300000)
{
    const int n = s.irange(1, 6);
    VD x(n), ip(n);
    for (int i = 0; i < n; ++i)
        x(i) = s.sym(s.pick({1.0, 100.0, 1e8, 2.1e9, 1e12, 1e17}));
    s.note("x %s", show(x.transpose()).c_str());
    const VD f = mc::modf(x, &ip);
    const VD f2 = mc::modf(x);
    for (int i = 0; i < n; ++i)
    {
        VT_REQ(ip(i) == std::round(ip(i)), "integer part %g", ip(i));
        VT_REQ(f(i) + ip(i) == x(i), "%.17g is split into %.17g and %.17g", x(i), ip(i), f(i));
        VT_REQ(std::abs(f(i)) < 1, "fraction %g", f(i));
        VT_REQ(f2(i) == f(i), "the two forms differ");
    }
    s.nontrivial();
}
