// Generators and exhaustive reference for integer least squares
#pragma once
#include "vt.h"
#include <Eigen/Dense>
#include <cmath>
#include <vector>
#include "core/solver/lambda.h"
namespace lat
{
typedef long double L;
typedef Eigen::Matrix<L, Eigen::Dynamic, Eigen::Dynamic> ML;
typedef Eigen::Matrix<L, Eigen::Dynamic, 1> VL;
typedef Eigen::MatrixXd MD;
typedef Eigen::VectorXd VD;
// Q = T Q0 T^t, a = T a0 with T a known unimodular integer matrix and Q0 well conditioned
struct Problem
{
    int n;
    ML Q0, T;
    VL a0;
    MD Q;
    VD a;
    L cond;
};
inline ML well_conditioned(vt::Src& s, int n, double spread)
{
    ML G(n, n);
    for (int i = 0; i < n; ++i)
        for (int j = 0; j < n; ++j)
            G(i, j) = s.sym(1);
    Eigen::HouseholderQR<ML> qr(G);
    const ML O = qr.householderQ();
    VL d(n);
    for (int i = 0; i < n; ++i)
        d(i) = s.logu(1, spread);
    ML Q = O * d.asDiagonal() * O.transpose();
    return 0.5L * (Q + ML(Q.transpose()));
}
inline ML unimodular(vt::Src& s, int n, int ops, int mag)
{
    ML T = ML::Identity(n, n);
    if (n > 1)
        for (int k = 0; k < ops; ++k)
        {
            const int i = s.irange(0, n - 1);
            const int j = (i + s.irange(1, n - 1)) % n;
            const int m = s.irange(-mag, mag);
            if (T.row(i).cwiseAbs().maxCoeff() + std::abs(m) * T.row(j).cwiseAbs().maxCoeff() < 60)
                T.row(i) += (L)m * T.row(j);
        }
    return T;
}
inline Problem gen(vt::Src& s, int nmax)
{
    Problem p;
    p.n = s.irange(1, nmax);
    p.Q0 = well_conditioned(s, p.n, s.pick({1.0, 4.0, 30.0}));
    p.Q0 *= s.chance(0.6) ? s.pick({1.0, 1e-4, 0.01, 0.3, 10.0}) : s.logu(1e-13, 1e6);
    switch (s.irange(0, 3))
    {
    case 0:
        p.Q0 = ML(p.Q0.diagonal().asDiagonal());
        break;
    case 1:
        p.Q0 = ML::Identity(p.n, p.n) * p.Q0(0, 0);
        break;
    }
    p.T = unimodular(s, p.n, s.irange(0, 3 * p.n), s.irange(1, 3));
    p.a0.resize(p.n);
    const int kind = s.irange(0, 4);
    for (int i = 0; i < p.n; ++i)
        p.a0(i) = kind == 0 ? s.sym(3) : kind == 1 ? s.irange(-4, 4) * 0.5 : kind == 2 ? s.irange(-3, 3) + s.sym(1e-3) : kind == 3 ? s.irange(-2, 2) + 0.5 + s.sym(1e-7) : s.sym(40);
    // everything below is exact up to the rounding of the entries
    p.Q = (p.T * p.Q0 * p.T.transpose()).cast<double>();
    p.Q = MD(0.5 * (p.Q + p.Q.transpose()));
    p.a = (p.T * p.a0).cast<double>();
    // the rounded matrix is the problem that is posed: refer it back
    Eigen::PartialPivLU<ML> lu(p.T);
    const ML Ti = lu.inverse().unaryExpr([](L x) { return std::round(x); });
    p.Q0 = Ti * p.Q.cast<L>() * Ti.transpose();
    p.a0 = Ti * p.a.cast<L>();
    Eigen::SelfAdjointEigenSolver<ML> es(p.Q.cast<L>());
    p.cond = es.eigenvalues()(p.n - 1) / es.eigenvalues()(0);
    if (!(p.cond > 0 && p.cond < 1e9L))
        s.discard();
    return p;
}
inline L dist2(const Problem& p, const VD& z)
{
    Eigen::PartialPivLU<ML> lu(p.T);
    const ML Ti = lu.inverse().unaryExpr([](L x) { return std::round(x); });
    const VL d = Ti * (z.cast<L>()) - p.a0;
    return d.dot(p.Q0.ldlt().solve(d));
}
// the squared distances of the m nearest integer vectors, by listing every vector of the box that
// contains the ellipsoid of squared radius r2; false when the box is too big
inline bool enumerate(const Problem& p, L r2, int m, std::vector<L>& best)
{
    const ML W = p.Q0.inverse();
    std::vector<long> lo(p.n), hi(p.n);
    double vol = 1;
    for (int i = 0; i < p.n; ++i)
    {
        const L h = std::sqrt(r2 * p.Q0(i, i)) * 1.0000001L + 1e-9L;
        lo[i] = (long)std::ceil(p.a0(i) - h);
        hi[i] = (long)std::floor(p.a0(i) + h);
        vol *= (double)(hi[i] - lo[i] + 1);
        if (!(vol <= 300000))
            return false;
    }
    best.clear();
    std::vector<long> z(lo);
    if (vol < 1)
        return true;
    while (true)
    {
        VL d(p.n);
        for (int i = 0; i < p.n; ++i)
            d(i) = z[i] - p.a0(i);
        best.push_back(d.dot(W * d));
        int i = 0;
        for (; i < p.n; ++i)
        {
            if (++z[i] <= hi[i])
                break;
            z[i] = lo[i];
        }
        if (i == p.n)
            break;
    }
    std::sort(best.begin(), best.end());
    if ((int)best.size() > m)
        best.resize(m);
    return true;
}
inline std::string show(const MD& m)
{
    std::string o;
    char b[40];
    for (int i = 0; i < m.rows(); ++i)
        for (int j = 0; j < m.cols(); ++j)
        {
            snprintf(b, sizeof b, "%.17g%s", m(i, j), j + 1 == m.cols() ? "; " : " ");
            o += b;
        }
    return o;
}
inline void note(vt::Src& s, const Problem& p)
{
    s.note("Q %s a %s", show(p.Q).c_str(), show(p.a.transpose()).c_str());
}
}  // namespace lat
