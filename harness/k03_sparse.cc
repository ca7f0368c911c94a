// K03: the generated filter computes what the dense formulas give
#include <boost/math/distributions/chi_squared.hpp>
#include "fg.h"
using namespace fg;
static MX put_A(vt::Src& s, const Counts& c, double m)
{
    MX A = MX::Zero(c.total, c.total);
    StateJac J;
    each(J, c.n, [&](int i, int j, auto&& b) {
        VT_REQ(b.rows() == c.dim(i) && b.cols() == c.dim(j), "derivative of %s by %s is %dx%d", ST[i].name, ST[j].name, (int)b.rows(), (int)b.cols());
        const MX v = gen_mat(s, c.dim(i), c.dim(j), m);
        b = v;
        A.block(c.at[i], c.at[j], c.dim(i), c.dim(j)) = v;
    });
    answer().A = J;
    return A;
}
static MX put_B(vt::Src& s, const Counts& c, double m)
{
    MX B = MX::Zero(c.total, input_dim());
    InputJac J;
    each(J, c.n, [&](int i, int j, auto&& b) {
        VT_REQ(b.rows() == c.dim(i) && b.cols() == IN[j].dx, "derivative of %s by input %s is %dx%d", ST[i].name, IN[j].name, (int)b.rows(), (int)b.cols());
        const MX v = gen_mat(s, c.dim(i), IN[j].dx, m);
        b = v;
        B.block(c.at[i], input_at(j), c.dim(i), IN[j].dx) = v;
    });
    answer().B = J;
    return B;
}
static VX noise(vt::Src& s, const Counts& c, ProcessCovariance& Q)
{
    VX q = VX::Zero(c.total);
    each(Q, [&](int k, auto& v) {
        for (int i = 0; i < (int)v.size(); ++i) v(i) = s.chance(0.2) ? 0.0 : s.logu(1e-6, 10);
        for (int i = 0; i < c.count(k); ++i) q.segment(c.at[k] + i * ST[k].dx, ST[k].dx) = v;
    });
    return q;
}
static VX noise(vt::Src& s, InputCovariance& Q)
{
    VX q(input_dim());
    each(Q, [&](int k, auto& v) {
        for (int i = 0; i < (int)v.size(); ++i) v(i) = s.chance(0.2) ? 0.0 : s.logu(1e-6, 10);
        q.segment(input_at(k), IN[k].dx) = v;
    });
    return q;
}
// one propagation; P: the dense covariance of sn, replaced by the new one
static void step_time(vt::Src& s, const Counts& c, Snapshot& sn, MX& P, double ma)
{
    const MX A = put_A(s, c, ma), B = put_B(s, c, ma);
    ProcessCovariance Qx;
    InputCovariance Qu;
    const VX qx = noise(s, c, Qx), qu = noise(s, Qu);
    const VX xd = fg::gen_vec(s, c.total, s.pick({0.0, 1.0, 5.0}));
    answer().xdot = sparse(c, xd);
    const int64_t ns = s.pick({0ll, 0ll, 1ll}) ? s.range(60000, 500000) : s.range(1000000, s.pick({10000000ll, 100000000ll, 500000000ll}));
    const int64_t t_ns = (int64_t)sn.x.t.sec * 1000000000ll + sn.x.t.nsec + ns;
    const UTCTime t(t_ns / 1000000000ll, t_ns % 1000000000ll);
    const double dt = ns * 1e-9;
    const Input u = fg::gen_input(s);
    const State before = sn.x;
    Snapshot out;
    answer().calls = 0;
    const bool ok = PREDICT(sn, t, u, Qx, Qu, make_out(out)).ok();
    VT_REQ(ok, "propagation refused");
    VT_REQ(answer().x == &sn.x && answer().calls == 1, "the motion model is not evaluated once at the state before");
    VT_REQ(same_raw(before, sn.x, c) && same_bits(fg::dense(sn.cov, c), P) , "propagation changed the snapshot it starts from");
    require_moved(out.x, sn.x, xd * dt, c, 1e-11, "propagated state");
    const int64_t got = (int64_t)out.x.t.sec * 1000000000ll + out.x.t.nsec;
    VT_REQ(std::llabs(got - t_ns) <= 2, "propagated time is off by %lld ns", (long long)(got - t_ns));
    VT_REQ(same_bits(full(out.u), full(u)), "the input is not kept");
    const int N = c.total;
    const MX I = MX::Identity(N, N);
    const MX Ab = I + A * dt + 0.5 * A * A * dt * dt, Bb = B * dt + 0.5 * A * B * dt * dt;
    MX R = Ab * P * Ab.transpose() + Bb * qu.asDiagonal() * Bb.transpose();
    R.diagonal() += qx;
    const MX aA = I + fg::abs(A) * dt + 0.5 * fg::abs(A) * fg::abs(A) * dt * dt, aB = fg::abs(B) * dt + 0.5 * fg::abs(A) * fg::abs(B) * dt * dt;
    const MX bound = aA * fg::abs(P) * aA.transpose() + aB * qu.asDiagonal() * aB.transpose() + MX(qx.asDiagonal());
    const MX G = fg::dense(out.cov, c);
    for (int i = 0; i < N; ++i)
        for (int j = 0; j < N; ++j)
            if (c.owner(i) <= c.owner(j)) VT_REQ(std::abs(G(i, j) - R(i, j)) <= 1e-12 * bound(i, j) , "propagated covariance %d,%d is %.15g, not %.15g", i, j, G(i, j), R(i, j));
    P = G;
    sn = out;
}
static double worst = 1;  // condition of the innovations so far
// one measurement
template <int K>
static bool step_meas(vt::Src& s, const Counts& c, Snapshot& sn, MX& P, bool well)
{
    using M = Me<K>;
    using T = typename M::T;
    const bool var = ME[K].max > 1 || T::MAX_SIZE != ME[K].dx || ME[K].vi >= 0;
    (void)var;
    VT_REQ(T::MAX_SIZE == ME[K].dx * ME[K].max, "maximum size %d of %s", T::MAX_SIZE, ME[K].name);
    const bool is_var = ME[K].vi != -1;
    const int nm = !is_var ? 1 : (s.chance(0.06) ? 0 : s.irange(1, ME[K].max));
    const int D = nm * ME[K].dx;
    auto& ans = meas_answer<K>();
    MX H = MX::Zero(D, c.total);
    typename T::Jac J;
    const double mh = s.pick({1.0, 1.0, 0.1, 5.0});
    M::each(J, nm, c.n, [&](int k, auto&& b) {
        VT_REQ(b.rows() == D && b.cols() == c.dim(k), "derivative of measurement %s by %s is %dx%d, not %dx%d", ME[K].name, ST[k].name, (int)b.rows(), (int)b.cols(), D, c.dim(k));
        const MX v = gen_mat(s, D, c.dim(k), mh);
        b = v;
        H.middleCols(c.at[k], c.dim(k)) = v;
    });
    ans.H = J;
    typename T::Covariance R;
    VX rr(D);
    VT_REQ(R.size() == ME[K].dx, "covariance of measurement %s has %d elements", ME[K].name, (int)R.size());
    for (int i = 0; i < R.size(); ++i) R(i) = well ? s.logu(0.1, 10) : s.logu(1e-2, 100);
    for (int i = 0; i < D; ++i) rr(i) = R(i % ME[K].dx);
    const MX PHt = P * H.transpose();
    MX Sm = H * PHt;
    Sm.diagonal() += rr;
    VX r = fg::gen_vec(s, D, 1);
    double mahal = 0, cond = 1;
    MX Si = MX::Zero(D, D);
    const double gate = M::prob < 1 && D > 0 ? boost::math::quantile(boost::math::chi_squared(D), M::prob) : HUGE_VAL;
    if (D > 0)
    {
        Eigen::SelfAdjointEigenSolver<MX> es(Sm);
        cond = es.eigenvalues()(D - 1) / es.eigenvalues()(0);
        if (!(cond > 0 && cond < 1e9)) { s.label("ill-conditioned"); return false; }
        worst = std::max(worst, cond);
        Si = Sm.inverse();
        mahal = r.dot(Si * r);
        if (mahal > 0 && s.chance(0.8))
        {
            // near the gate
            const double want = gate == HUGE_VAL ? s.logu(1e-3, 1e4) : gate * s.pick({0.01, 0.5, 0.9, 0.999, 1.001, 1.1, 3.0, 100.0});
            r *= std::sqrt(want / mahal);
            mahal = r.dot(Si * r);
        }
    }
    typename T::Residual res = T::Residual::Zero();
    res.head(D) = r;
    ans.r = res;
    ans.calls = 0;
    const Snapshot before = sn;
    const typename T::ZType z = M::make(nm);
    const auto got = UPDATE<T>(make_out(sn), z, R);
    VT_REQ(ans.calls == 1, "the measurement model was evaluated %d times", ans.calls);
    const MX G = fg::dense(sn.cov, c);
    const bool unchanged = same_raw(before.x, sn.x, c) && same_bits(G, P) && same_bits(full(before.u), full(sn.u));
    if (D == 0)
    {
        VT_REQ(!got.ok() && unchanged, "an empty measurement is accepted or changes the state");
        s.label("empty");
        return false;
    }
    if (gate < HUGE_VAL && std::abs(mahal - gate) <= 1e-13 * cond * gate + 1e-9 * gate) { P = G; s.label("at the gate"); return false; }
    if (mahal > gate)
    {
        VT_REQ(!got.ok(), "a measurement with squared distance %.9g is accepted, the %g quantile for %d residuals is %.9g", mahal, M::prob, D, gate);
        VT_REQ(unchanged, "a gated measurement changes the filter");
        s.label("gated");
        return false;
    }
    VT_REQ(got.ok(), "a measurement with squared distance %.9g is refused, the %g quantile for %d residuals is %.9g", mahal, M::prob, D, gate);
    VT_REQ(same_bits(MX(got.res()), MX(res)), "the residual returned is not the model's");
    if (M::disabled)
    {
        VT_REQ(unchanged, "a monitoring-only measurement changes the filter");
        s.label("monitored");
        return false;
    }
    const MX Kg = PHt * Si;
    const VX dx = -(Kg * r);
    const double tol = 1e-13 * cond * (1 + c.total);
    // the state moves by dx, whose error the gain's conditioning magnifies
    const double sc = Kg.cwiseAbs().rowwise().sum().size() ? (Kg.cwiseAbs() * r.cwiseAbs()).maxCoeff() : 0;
    each(sn.x, [&](int k, int i, auto& e) {
        if (i >= c.count(k)) return;
        using E = std::decay_t<decltype(e)>;
        each(const_cast<State&>(before.x), [&](int k2, int i2, auto& f) {
            using F = std::decay_t<decltype(f)>;
            if constexpr (std::is_same_v<E, F>)
                if (k2 == k && i2 == i)
                {
                    const VX di = dx.segment(c.at[k] + i * ST[k].dx, ST[k].dx);
                    double w;
                    if constexpr (IsVec<E>::value) { w = 0; for (int q = 0; q < (int)di.size(); ++q) w = std::max(w, std::abs(e(q) - (f(q) + di(q)))); w /= 1 + (f.size() ? f.norm() : 0); }
                    else w = off<E>(e, f, di);
                    VT_REQ(w <= 1e-11 + tol * (1 + sc) * 10, "updated %s[%d] is off by %.3g, correction %.3g (condition %.2g)", ST[k].name, i, w, di.norm(), cond);
                }
        });
    });
    int n[8] = {0};
    get_counts(sn.x, n);
    for (int i = 0; i < NV; ++i) VT_REQ(n[i] == c.n[i], "the update changed the number of elements of a state");
    VT_REQ(sn.x.t.sec == before.x.t.sec && sn.x.t.nsec == before.x.t.nsec && same_bits(full(before.u), full(sn.u)), "the update changed time or input");
    const MX Pn = P - PHt * Si * PHt.transpose();
    for (int i = 0; i < c.total; ++i)
        for (int j = 0; j < c.total; ++j)
            if (c.owner(i) <= c.owner(j)) VT_REQ(std::abs(G(i, j) - Pn(i, j)) <= tol * 10 * std::sqrt(P(i, i) * P(j, j)) + 1e-300, "updated covariance %d,%d is %.15g, not %.15g (was %.15g)", i, j, G(i, j), Pn(i, j), P(i, j));
    P = G;
    return true;
}
static bool any_meas(vt::Src& s, const Counts& c, Snapshot& sn, MX& P, bool well)
{
    bool used = false;
    const int k = s.irange(0, NME - 1);
    with_meas(k, [&](auto K) { used = step_meas<decltype(K)::value>(s, c, sn, P, well); });
    return used;
}
static Snapshot gen_snapshot(vt::Src& s, const Counts& c, MX& P)
{
    Snapshot sn;
    sn.x = fg::gen_state(s, c);
    sn.u = fg::gen_input(s);
    P = gen_psd(s, c.total);
    fill(sn.cov, c, P);
    return sn;
}
// was: the largest variance so far
static void check_dense(const Snapshot& sn, const Counts& c, const MX& P, double& was)
{
    for (int i = 0; i < c.total; ++i) was = std::max(was, std::abs(P(i, i)));
    // symmetric and positive semi-definite
    for (int i = 0; i < c.total; ++i)
        for (int j = 0; j < i; ++j)
            VT_REQ(std::abs(P(i, j) - P(j, i)) <= 1e-11 * worst * was, "covariance not symmetric at %d,%d: %.15g %.15g", i, j, P(i, j), P(j, i));
    if (c.total == 0) return;
    Eigen::SelfAdjointEigenSolver<MX> es(MX((P + P.transpose()) / 2));
    VT_REQ(es.eigenvalues()(0) >= -1e-11 * worst * was * c.total, "covariance has eigenvalues %.3g to %.3g", es.eigenvalues()(0), es.eigenvalues()(c.total - 1));
    (void)sn;
}
VT_PROP(propagation, 1500, 6000)
{
    const Counts c = gen_counts(s);
    MX P;
    worst = 1;
    Snapshot sn = gen_snapshot(s, c, P);
    double was = P.cwiseAbs().size() ? P.cwiseAbs().maxCoeff() : 0;
    step_time(s, c, sn, P, s.pick({0.0, 1.0, 1.0, 10.0}));
    check_dense(sn, c, P, was);
    s.note("%d states of total size %d", NST, c.total);
    if (c.total > 1) s.nontrivial();
}
VT_PROP(correction, 3000, 15000)
{
    const Counts c = gen_counts(s);
    MX P;
    worst = 1;
    Snapshot sn = gen_snapshot(s, c, P);
    double was = P.cwiseAbs().size() ? P.cwiseAbs().maxCoeff() : 0;
    const bool used = any_meas(s, c, sn, P, false);
    check_dense(sn, c, P, was);
    s.note("%d states of total size %d%s", NST, c.total, used ? ", corrected" : "");
    if (used) s.nontrivial();
}
VT_PROP(history, 400, 2500)
{
    // the state's variable parts may grow and shrink between steps
    Counts c = gen_counts(s);
    MX P;
    worst = 1;
    Snapshot sn = gen_snapshot(s, c, P);
    const int n = s.irange(2, 15);
    int used = 0;
    double was = P.cwiseAbs().size() ? P.cwiseAbs().maxCoeff() : 0;
    for (int i = 0; i < n; ++i)
    {
        if (NV > 0 && s.chance(0.2))
        {
            // an element more or less, with its covariance
            Counts d = c;
            const int k = s.irange(0, NST - 1);
            if (ST[k].vi >= 0)
            {
                d.n[ST[k].vi] = s.irange(0, ST[k].max);
                d.lay();
                P = gen_psd(s, d.total);
                State x = fg::gen_state(s, d);
                x.t = sn.x.t;
                sn.x = x;
                fill(sn.cov, d, P);
                c = d;
            }
        }
        if (s.flip()) step_time(s, c, sn, P, 1.0);
        else used += any_meas(s, c, sn, P, true);
        check_dense(sn, c, P, was);
    }
    s.note("%d steps, %d corrections, total size %d", n, used, c.total);
    if (used > 0) s.nontrivial();
}
VT_PROP(views, 40, 500)
{
    // the dense views of every sparse container
    const Counts c = gen_counts(s);
    MX P;
    worst = 1;
    Snapshot sn = gen_snapshot(s, c, P);
    const MX A = put_A(s, c, 1), B = put_B(s, c, 1);
    ProcessCovariance Qx;
    InputCovariance Qu;
    const VX qx = noise(s, c, Qx), qu = noise(s, Qu);
    VT_REQ(same_bits(MX(all_of(sn.cov, c.n)), P), "dense covariance");
    VT_REQ(same_bits(MX(all_of(answer().A, c.n)), A), "dense state derivative");
    VT_REQ(same_bits(MX(all_of(answer().B, c.n)), B), "dense input derivative");
    VT_REQ(same_bits(MX(all_of(Qx, c.n)), MX(qx.asDiagonal())), "dense process covariance");
    VT_REQ(same_bits(MX(Qu.dense()), MX(qu.asDiagonal())), "dense input covariance");
    const Covariance cq(Qx);
    VT_REQ(same_bits(fg::dense(cq, c), MX(qx.asDiagonal())), "covariance of process noise");
    for (int k = 0; k < NME; ++k)
        with_meas(k, [&](auto K) {
            using M = Me<decltype(K)::value>;
            constexpr int kk = decltype(K)::value;
            const int nm = ME[kk].vi == -1 ? 1 : s.irange(1, ME[kk].max), D = nm * ME[kk].dx;
            typename M::T::Jac J;
            MX H = MX::Zero(D, c.total);
            M::each(J, nm, c.n, [&](int q, auto&& b) { const MX v = gen_mat(s, D, c.dim(q), 1); b = v; H.middleCols(c.at[q], c.dim(q)) = v; });
            VT_REQ(same_bits(M::dense(J, nm, c.n), H), "dense derivative of measurement %s", ME[kk].name);
        });
    s.note("%d states of total size %d, %d measurements", NST, c.total, NME);
    s.nontrivial();
}
