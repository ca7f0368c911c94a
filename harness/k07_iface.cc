// K07: the generated interface is the one the description declares
#include <boost/math/distributions/chi_squared.hpp>
#include "fg.h"
namespace fg {
static void require_gate(double got, double prob, int dof, const char* name)
{
    if (prob >= 1) { VT_REQ(got > 1e100, "%s is gated at %g though nothing is to be gated", name, got); return; }
    const double want = boost::math::quantile(boost::math::chi_squared(dof), prob);
    VT_REQ(std::abs(got - want) <= 1e-8 * want, "%s is gated at %.12g, the %g quantile for %d is %.12g", name, got, prob, dof, want);
}
}
#include "iface.h"
using namespace fg;
// every element gets a number of its own
struct Mark
{
    double next = 1;
    template <class B> MX put(B&& b)
    {
        MX v(b.rows(), b.cols());
        for (int j = 0; j < v.cols(); ++j) for (int i = 0; i < v.rows(); ++i) v(i, j) = next, next += 1;
        b = v;
        return v;
    }
};
VT_PROP(declared_sizes, 20, 40)
{
    iface_constants();
    s.note("%d states, %d inputs, %d measurements", NST, NIN, NME);
    if (s.draw(1 << 20) != 0) s.nontrivial();
}
VT_PROP(declared_order, 1500, 10000)
{
    const Counts c = gen_counts(s);
    Mark mk;
    mk.next = s.irange(1, 1000);
    // error state
    Err e = Err::Zero();
    VX d = VX::Zero(c.total);
    each(e, [&](int k, int i, auto&& b) { if (i < c.count(k)) d.segment(c.at[k] + i * ST[k].dx, ST[k].dx) = mk.put(b); });
    VT_REQ(same_bits(MX(all_of(e, c.n)), MX(d)), "the dense error is not in the declared order");
    iface_err(e, c.n, [&](const char* nm, auto one, auto all, int at) { VT_REQ(same_bits(MX(one), MX(all.segment(at, one.size()))), "element of %s is not at its place among all", nm); });
    // from a vector of full size: variable parts lie at multiples of their maximum
    Eigen::Matrix<double, Err::DOF, 1> fv;
    for (int i = 0; i < (int)Err::DOF; ++i) fv(i) = mk.next++;
    const Err fe = Err::fromDense(fv);
    int at = 0, last = -1;
    each(const_cast<Err&>(fe), [&](int k, int i, auto&& b) {
        (void)i;
        VT_REQ(k >= last, "order");
        last = k;
        VT_REQ(same_bits(MX(b), MX(fv.segment(at, ST[k].dx))), "error from a vector: %s[%d] is not in the declared order", ST[k].name, i);
        at += ST[k].dx;
    });
    // covariance: upper blocks
    Covariance P;
    MX Pd = MX::Zero(c.total, c.total);
    each(P, c.n, [&](int i, int j, auto&& b) {
        VT_REQ(b.rows() == c.dim(i) && b.cols() == c.dim(j), "covariance block %s %s is %dx%d", ST[i].name, ST[j].name, (int)b.rows(), (int)b.cols());
        MX v = mk.put(b);
        if (i == j) { v = MX((v + v.transpose()) / 2); b = v; }
        Pd.block(c.at[i], c.at[j], c.dim(i), c.dim(j)) = v;
        if (i != j) Pd.block(c.at[j], c.at[i], c.dim(j), c.dim(i)) = v.transpose();
    });
    VT_REQ(same_bits(MX(all_of(P, c.n)), Pd), "the dense covariance is not in the declared order");
    // derivatives of the motion model
    StateJac A;
    MX Ad = MX::Zero(c.total, c.total);
    each(A, c.n, [&](int i, int j, auto&& b) {
        VT_REQ(b.rows() == c.dim(i) && b.cols() == c.dim(j), "derivative of %s by %s is %dx%d", ST[i].name, ST[j].name, (int)b.rows(), (int)b.cols());
        Ad.block(c.at[i], c.at[j], c.dim(i), c.dim(j)) = mk.put(b);
    });
    VT_REQ(same_bits(MX(all_of(A, c.n)), Ad), "the dense state derivative is not in the declared order");
    InputJac B;
    MX Bd = MX::Zero(c.total, input_dim());
    each(B, c.n, [&](int i, int j, auto&& b) {
        VT_REQ(b.rows() == c.dim(i) && b.cols() == IN[j].dx, "derivative of %s by input %s is %dx%d", ST[i].name, IN[j].name, (int)b.rows(), (int)b.cols());
        Bd.block(c.at[i], input_at(j), c.dim(i), IN[j].dx) = mk.put(b);
    });
    VT_REQ(same_bits(MX(all_of(B, c.n)), Bd), "the dense input derivative is not in the declared order");
    // input
    Input u;
    VX ud(input_dim());
    each(u, [&](int k, int, auto& b) { ud.segment(input_at(k), IN[k].dx) = mk.put(b); });
    VT_REQ(same_bits(MX(u.dense()), MX(ud)), "the dense input is not in the declared order");
    Eigen::Matrix<double, Input::DOF, 1> uv = ud.reverse();
    VT_REQ(same_bits(full(Input::fromDense(uv)), VX(uv)), "input from a vector is not in the declared order");
    ProcessCovariance Qx;
    VX qx(c.total);
    each(Qx, [&](int k, auto& v) { const MX m = mk.put(v); for (int i = 0; i < c.count(k); ++i) qx.segment(c.at[k] + i * ST[k].dx, ST[k].dx) = m; });
    VT_REQ(same_bits(MX(all_of(Qx, c.n)), MX(qx.asDiagonal())), "the dense process covariance is not in the declared order");
    InputCovariance Qu;
    VX qu(input_dim());
    each(Qu, [&](int k, auto& v) { qu.segment(input_at(k), IN[k].dx) = mk.put(v); });
    VT_REQ(same_bits(MX(Qu.dense()), MX(qu.asDiagonal())), "the dense input covariance is not in the declared order");
    // measurements
    for (int k = 0; k < NME; ++k)
        with_meas(k, [&](auto K) {
            using M = Me<decltype(K)::value>;
            constexpr int kk = decltype(K)::value;
            const int nm = ME[kk].vi == -1 ? 1 : s.irange(0, ME[kk].max), D = nm * ME[kk].dx;
            typename M::T::Jac J;
            MX H = MX::Zero(D, c.total);
            M::each(J, nm, c.n, [&](int q, auto&& b) {
                VT_REQ(b.rows() == D && b.cols() == c.dim(q), "derivative of %s by %s is %dx%d", ME[kk].name, ST[q].name, (int)b.rows(), (int)b.cols());
                H.middleCols(c.at[q], c.dim(q)) = mk.put(b);
            });
            VT_REQ(same_bits(M::dense(J, nm, c.n), H), "the dense derivative of %s is not in the declared order", ME[kk].name);
            iface_rows(kk, nm, c.n, [&](auto& J2, auto&& all, auto row, const char* nm2) {
                const MX v = mk.put(all);
                for (int i = 0; i < nm; ++i)
                {
                    auto r = row(J2, i);
                    VT_REQ(same_bits(MX(r), MX(v.middleRows(i * ME[kk].dx, ME[kk].dx))), "element %d of the derivative of %s by %s is not its rows", i, ME[kk].name, nm2);
                }
            });
        });
    s.note("total size %d", c.total);
    if (c.total > 1) s.nontrivial();
}
