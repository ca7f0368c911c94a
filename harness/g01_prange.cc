// G01: pseudorange and range-rate model
#include "models/prange_model.h"
#include "modelgen.h"
using namespace mg;
using models::PseudorangeModel;
using L3 = Eigen::Matrix<ld, 3, 1>;
struct Case
{
    Sats o;
    meas::GnssObservation obs;
    Vec3 rec;
    DQ T_e2r, T_n2b, T_r2n;
    Vec3 vel, lever;
    Vec2 clk;
    double sw;
    Mat3 cov;
};
static Mat3 gen_cov(vt::Src& s, bool corr)
{
    const Vec3 sd(s.logu(1e-1, 10), s.logu(1e-2, 1), s.logu(1e-2, 1));
    Mat3 C = Mat3::Identity();
    if (corr)
    {
        Mat3 A;
        for (int i = 0; i < 9; ++i) A(i) = s.sym(1);
        C = A * A.transpose() + 0.1 * Mat3::Identity();
        const Vec3 d = C.diagonal().cwiseSqrt().cwiseInverse();
        C = d.asDiagonal() * C * d.asDiagonal();
    }
    return sd.asDiagonal() * C * sd.asDiagonal();
}
static Case gen(vt::Src& s)
{
    Case c;
    c.o = gen_sat(s);
    c.obs.setZero();
    c.obs.t = gen_time(s, c.o);
    c.obs.gnss_id = c.o.sat->gnssId();
    c.obs.sat_num = c.o.sat->sat_num();
    c.obs.freq = 1575.42e6;
    c.rec = gen_rec(s);
    c.T_e2r = utils::WGS84::dq_ecef2ned(c.rec);
    c.T_n2b = gen_pose(s);
    c.T_r2n = small_frame(s);
    c.vel = vec(s, s.pick({1.0, 30.0, 300.0}));
    c.lever = vec(s, s.pick({1.0, 10.0}));
    c.clk = Vec2(s.sym(s.pick({1.0, 1e6})), s.sym(s.pick({1.0, 1e3})));
    const int on = s.weighted({4, 4, 1});
    c.sw = on == 0 ? 1.0 : on == 1 ? s.real(0, 1.2) : 0.0;
    c.cov = s.chance(0.25) ? Mat3(Mat3::Identity()) : gen_cov(s, s.flip());
    const double r0 = (transmit(*c.o.sat, c.obs.t, c.rec).pos - c.rec).norm();
    c.obs.pseudorange = r0 + c.clk(0) * 0.3 + s.sym(s.pick({1.0, 1e4}));
    c.obs.doppler = s.sym(4000);
    return c;
}
struct Pred
{
    ld range, rate;             // as documented: distance and its rate plus Sagnac, atmosphere and clocks
    ld sag_rate, los_rate, clk_rate, los, sagnac;
};
struct Ref
{
    SatelliteState st;
    ld sagnac, atm;
    Ref(const Case& c)
    {
        st = transmit(*c.o.sat, c.obs.t, c.rec);
        sagnac = WE * (st.pos.x() * (ld)c.rec.y() - st.pos.y() * (ld)c.rec.x()) / CL;
        AtmosphericCorrection a;
        computeAtmCorrection(c.obs.t, c.rec, st, make_out(a));
        atm = (ld)a.ionospheric_delay_m + a.tropospheric_delay_m;
    }
    Pred operator()(const Pose& e2r, const Pose& n2b, const Pose& r2n, const V3& vel, const V3& lever, ld c0, ld c1) const
    {
        const V3 p = e2r(r2n(n2b(lever)));
        const V3 v = e2r.R() * (r2n.R() * (n2b.R() * vel));
        const V3 los = up(st.pos) - p, sv = up(st.vel), sp = up(st.pos);
        Pred o;
        o.sagnac = sagnac;
        o.los = los.norm();
        o.range = o.los + sagnac + atm + CL * (c0 * 1e-9L - st.clk(0));
        o.los_rate = (sv - v).dot(los) / o.los;
        o.sag_rate = WE / CL * (sv.x() * p.y() + sp.x() * v.y() - sv.y() * p.x() - sp.y() * v.x());
        o.clk_rate = CL * (c1 * 1e-9L - st.clk(1));
        o.rate = o.los_rate + o.sag_rate + o.clk_rate;
        return o;
    }
    Pred operator()(const Case& c) const { return (*this)(Pose(c.T_e2r), Pose(c.T_n2b), Pose(c.T_r2n), up(c.vel), up(c.lever), c.clk(0), c.clk(1)); }
};
// the form the model has: the sign of the Sagnac rate is reversed and the projection is scaled by
// the corrected range (both pinned by a regression test); known finding "doppler_sagnac"
static ld known_rate(const Pred& p) { return p.los_rate * p.los / (p.los + p.sagnac) - p.sag_rate + p.clk_rate; }
static Eigen::Matrix<ld, 3, 3> whitener(const Mat3& cov)
{
    // upper triangular U with U'U = inverse of the covariance
    const Eigen::Matrix<ld, 3, 3> A = cov.cast<ld>().inverse();
    return Eigen::Matrix<ld, 3, 3>(A.llt().matrixL()).transpose();
}
static Vec3 evaluate(const PseudorangeModel& f, const Case& c, double** jac = nullptr)
{
    Vec3 r;
    const double* par[] = {c.T_n2b.data(), c.vel.data(), c.clk.data(), c.T_r2n.data(), &c.sw, c.lever.data()};
    VT_REQ(f.Evaluate(par, r.data(), jac), "Evaluate fails");
    return r;
}
VT_PROP(prediction, 3000, 80000)
{
    const Case c = gen(s);
    const PseudorangeModel f(c.obs, *c.o.sat, c.rec, c.cov, c.T_e2r);
    const Vec3 r = evaluate(f, c);
    const Ref ref(c);
    const Pred p = ref(c);
    const L3 un = whitener(c.cov).inverse() * r.cast<ld>();
    s.note("gnss %d sw %.3g res %.6g %.6g %.3g", c.o.gnss, c.sw, (double)un(0), (double)un(1), (double)un(2));
    if (c.vel.norm() > 0 && c.lever.norm() > 0 && c.clk(0) != 0) s.nontrivial();
    VT_REQ(std::abs((double)(un(2) - (1 - (ld)c.sw))) < 1e-6, "switch residual %g, switch %g", (double)un(2), c.sw);
    const double er = (double)(un(0) - c.sw * (p.range - c.obs.pseudorange));
    VT_REQ(std::abs(er) < 5e-3 + 1e-6, "range residual off by %.6f m", er);
    const double e1 = (double)(un(1) - c.sw * (p.rate - c.obs.doppler)), e2 = (double)(un(1) - c.sw * (known_rate(p) - c.obs.doppler));
    VT_REQ(std::min(std::abs(e1), std::abs(e2)) < 2e-6, "range rate residual off by %.8f m/s (with the known reversed Sagnac rate by %.8f)", e1, e2);
}
VT_KNOWN(doppler_sagnac)
{
    vt::Src s(12345);
    double worst = 0;
    for (int i = 0; i < 20; ++i)
    {
        Case c = gen(s);
        c.sw = 1;
        c.cov = Mat3::Identity();
        const PseudorangeModel f(c.obs, *c.o.sat, c.rec, c.cov, c.T_e2r);
        const Vec3 r = evaluate(f, c);
        const Pred p = Ref(c)(c);
        worst = std::max(worst, std::abs((double)(r(1) - (p.rate - c.obs.doppler))));
    }
    what = "predicted range rate is off by up to " + std::to_string(worst) + " m/s: the Earth-rotation rate term has the opposite sign of the derivative of the Earth-rotation range term";
    return worst > 1e-4;
}
// physics without the model's own approximations: the distance between the receiver and the
// satellite's position at transmission, both in the frame of reception
VT_PROP(light_time, 2000, 50000)
{
    Case c = gen(s);
    c.T_r2n = DQ::identity();
    c.T_n2b = DQ(gen_quat(s), Vec3(0, 0, 0));
    c.lever.setZero();
    c.sw = 1;
    c.cov = Mat3::Identity();
    const PseudorangeModel f(c.obs, *c.o.sat, c.rec, c.cov, c.T_e2r);
    const Vec3 r = evaluate(f, c);
    s.nontrivial();
    const double est = r(0) + c.obs.pseudorange;
    ld tau = 0.07;
    SatelliteState st;
    ld dist = 0;
    for (int i = 0; i < 8; ++i)
    {
        c.o.sat->getState(satgen::at(c.obs.t, -(int64_t)llroundl(tau * 1e9L)), make_out(st));
        const ld th = WE * tau;
        const V3 p = up(st.pos);
        const V3 q(cosl(th) * p(0) + sinl(th) * p(1), -sinl(th) * p(0) + cosl(th) * p(1), p(2));
        dist = (q - up(c.rec)).norm();
        tau = dist / CL;
    }
    AtmosphericCorrection a;
    computeAtmCorrection(c.obs.t, c.rec, st, make_out(a));
    const ld want = dist + a.ionospheric_delay_m + a.tropospheric_delay_m + CL * ((ld)c.clk(0) * 1e-9L - st.clk(0));
    VT_REQ(std::abs((double)(est - want)) < 0.02, "predicted pseudorange %.4f, light time gives %.4f", est, (double)want);
}
VT_PROP(derivatives, 2000, 50000)
{
    const Case c = gen(s);
    const PseudorangeModel f(c.obs, *c.o.sat, c.rec, c.cov, c.T_e2r);
    double j0[24], j1[9], j2[6], j3[24], j4[3], j5[9];
    double* jac[6] = {j0, j1, j2, j3, j4, j5};
    for (double* q : {j0, j3}) std::fill(q, q + 24, NAN);
    for (double* q : {j1, j5}) std::fill(q, q + 9, NAN);
    std::fill(j2, j2 + 6, NAN);
    std::fill(j4, j4 + 3, NAN);
    const int mask = s.chance(0.6) ? 63 : (int)s.draw(63);
    double* want[6];
    for (int i = 0; i < 6; ++i) want[i] = (mask >> i) & 1 ? jac[i] : nullptr;
    const Vec3 r1 = evaluate(f, c, mask ? want : nullptr), r0 = evaluate(f, c);
    VT_REQ(r0 == r1, "the residual depends on which derivatives are asked for");
    const Ref ref(c);
    const auto U = whitener(c.cov);
    const Eigen::Matrix<ld, 3, 3> Ui = U.inverse();
    const bool corr = std::abs(c.cov(0, 1)) > 1e-12;
    s.note("gnss %d sw %.3g %s", c.o.gnss, c.sw, corr ? "correlated" : "");
    if (corr && c.vel.norm() > 0 && c.lever.norm() > 0) s.nontrivial();
    const Pose e2r(c.T_e2r), n2b(c.T_n2b), r2n(c.T_r2n);
    const V3 vel = up(c.vel), lever = up(c.lever);
    struct P { Pose n2b, r2n; V3 vel, lever; ld c0, c1, sw; } p0{n2b, r2n, vel, lever, c.clk(0), c.clk(1), c.sw};
    auto res = [&](const P& p) {
        const Pred q = ref(e2r, p.n2b, p.r2n, p.vel, p.lever, p.c0, p.c1);
        return L3(p.sw * (q.range - c.obs.pseudorange), p.sw * (q.rate - c.obs.doppler), 1 - p.sw);
    };
    const ld vrel = up(ref.st.vel).norm() + vel.norm(), rng = ref(c).los;
    auto pos = [&](const P& p) { return V3(e2r(p.r2n(p.n2b(p.lever)))); };
    auto vl = [&](const P& p) { return V3(e2r.R() * (p.r2n.R() * (p.n2b.R() * p.vel))); };
    auto test = [&](const std::function<void(P&, ld)>& mv, ld h, const L3& got, const char* what, int i) {
        P a = p0, b = p0;
        mv(a, h);
        mv(b, -h);
        // fourth order: ranges of 2e7 m leave few digits for a small step
        P a2 = p0, b2 = p0;
        mv(a2, 2 * h);
        mv(b2, -2 * h);
        const L3 d = (8 * (res(a) - res(b)) - (res(a2) - res(b2))) / (12 * h), g = Ui * got;
        const ld dp = (pos(a) - pos(b)).norm() / (2 * h), dv = (vl(a) - vl(b)).norm() / (2 * h);
        // the range row is exact but for the constant Sagnac and transmission time terms; the rate
        // row leaves out the turning of the line of sight and the Earth-rotation term (documented)
        const ld k = 1e-7L * (1 + U.norm() * Ui.norm() * 1e-8L);
        const ld t0 = k * (1 + d.norm()), t1 = k * (1 + d.norm()) + c.sw * (1.05L * dp * vrel / rng + 2e-5L * dv);
        VT_REQ((double)fabsl(d(0) - g(0)) < (double)t0, "range by %s %d: %.9g, derivative is %.9g", what, i, (double)g(0), (double)d(0));
        VT_REQ((double)fabsl(d(1) - g(1)) < (double)t1, "rate by %s %d: %.9g, derivative is %.9g (allowed %.3g)", what, i, (double)g(1), (double)d(1), (double)t1);
        VT_REQ((double)fabsl(d(2) - g(2)) < (double)t0, "switch row by %s %d: %.9g, derivative is %.9g", what, i, (double)g(2), (double)d(2));
    };
    using M38l = Eigen::Matrix<ld, 3, 8>;
    for (int i = 0; i < 6; ++i)
    {
        if (want[0])
        {
            const M38l J = Eigen::Map<Eigen::Matrix<double, 3, 8, Eigen::RowMajor>>(j0).cast<ld>();
            test([&](P& p, ld k) { p.n2b = p.n2b.moved(i, k); }, i < 3 ? 1e-3L : 1e-1L, L3(J * n2b.param_dir(i)), "body pose", i);
        }
        if (want[3])
        {
            const M38l J = Eigen::Map<Eigen::Matrix<double, 3, 8, Eigen::RowMajor>>(j3).cast<ld>();
            test([&](P& p, ld k) { p.r2n = p.r2n.moved(i, k); }, i < 3 ? 1e-3L : 1e-1L, L3(J * r2n.param_dir(i)), "reference frame", i);
        }
    }
    for (int i = 0; i < 3; ++i)
    {
        if (want[1]) test([&](P& p, ld k) { p.vel(i) += k; }, 1e-1L, L3(Eigen::Map<Eigen::Matrix<double, 3, 3, Eigen::RowMajor>>(j1).col(i).cast<ld>()), "velocity", i);
        if (want[5]) test([&](P& p, ld k) { p.lever(i) += k; }, 1e-1L, L3(Eigen::Map<Eigen::Matrix<double, 3, 3, Eigen::RowMajor>>(j5).col(i).cast<ld>()), "lever arm", i);
    }
    if (want[2])
        for (int i = 0; i < 2; ++i)
            test([&](P& p, ld k) { (i ? p.c1 : p.c0) += k; }, 1.0L, L3(Eigen::Map<Eigen::Matrix<double, 3, 2, Eigen::RowMajor>>(j2).col(i).cast<ld>()), "clock", i);
    if (want[4])
    {
        const Pred q = ref(c);
        const L3 g = Ui * Eigen::Map<Vec3>(j4).cast<ld>();
        const L3 d(q.range - c.obs.pseudorange, q.rate - c.obs.doppler, -1);
        VT_REQ((double)fabsl(d(0) - g(0)) < 5e-3 + 1e-9 * (double)fabsl(d(0)), "range by switch: %.9g, derivative is %.9g", (double)g(0), (double)d(0));
        VT_REQ((double)fabsl(d(1) - g(1)) < 0.05, "rate by switch: %.9g, derivative is %.9g", (double)g(1), (double)d(1));
        VT_REQ((double)fabsl(d(2) - g(2)) < 1e-6, "switch by switch: %.9g, derivative is %.9g", (double)g(2), (double)d(2));
        // exactly consistent with the residual itself, which is linear in the switch
        Case a = c, b = c;
        a.sw = 0;
        b.sw = 1;
        const Vec3 dd = evaluate(f, b) - evaluate(f, a);
        VT_REQ((dd - Eigen::Map<Vec3>(j4)).norm() < 1e-9 * (1 + dd.norm()), "by switch: differs from the difference between on and off");
    }
}
// the model keeps what it was given
static std::unique_ptr<PseudorangeModel> __attribute__((noinline)) from_temporaries(const Case& c)
{
    DQ* T = new DQ(c.T_e2r);
    auto* obs = new meas::GnssObservation(c.obs);
    std::unique_ptr<PseudorangeModel> f(new PseudorangeModel(*obs, *c.o.sat, Vec3(c.rec), Mat3(c.cov), *T));
    T->arr_.setConstant(1);
    delete T;
    delete obs;
    return f;
}
VT_PROP(own_copy, 300, 4000)
{
    const Case c = gen(s);
    s.nontrivial();
    const auto f = from_temporaries(c);
    const PseudorangeModel g(c.obs, *c.o.sat, c.rec, c.cov, c.T_e2r);
    VT_REQ(evaluate(*f, c) == evaluate(g, c), "a model built from temporaries gives another residual");
}
