// K06: results of the RTK filter's models and updates do not depend on leftover memory
#include "ekfgen.h"
#include "poison.h"
using namespace eg;
using ekf::fixAndHoldMeas;
using ekf::obsMeas;
using ekf::pointPosMeas;
using MX = Eigen::MatrixXd;
struct Op
{
    int kind;  // 0 propagate, 1 position, 2 observations, 3 held ambiguities
    Input u;
    double dt;
    Vec6 z;
    std::vector<satellite::SatelliteCache> sats;
    std::vector<int> ids;
    std::vector<Vec2> obs;
    std::vector<double> held;
    Vec6 r;
};
struct Script
{
    int n;
    State x;
    Input u;
    MX P;
    std::vector<Op> ops;
};
static Script gen_script(vt::Src& s)
{
    Script g;
    g.n = s.pick({0, 1, 5, 29, 30, (int)s.range(0, 30)});
    g.x = gen_state(s, g.n, true);
    g.u = gen_input(s);
    const int N = 30 + g.n;
    vt::u64 q = s.draw(1ull << 40);
    MX a(N, N);
    for (int j = 0; j < N; ++j)
        for (int i = 0; i < N; ++i) q = vt::mix(q), a(i, j) = ((double)(q >> 11) / 9007199254740992.0 * 2 - 1) * 0.1 + (i == j);
    g.P = a * a.transpose() * s.pick({1e-2, 1e-4});
    for (int i = 0; i < N; ++i)
        for (int j = 0; j < i; ++j) g.P(i, j) = g.P(j, i);
    const int k = s.irange(1, 4);
    const S xr(g.x);
    const Vec3 p = xr.antenna_e().cast<double>();
    for (int i = 0; i < k; ++i)
    {
        Op o;
        o.kind = s.irange(0, 3);
        o.u = gen_input(s);
        o.dt = s.real(1e-3, 0.1);
        for (int j = 0; j < 3; ++j) o.z(j) = p(j) + s.sym(1), o.z(3 + j) = s.sym(1);
        for (int j = 0; j < 6; ++j) o.r(j) = s.logu(1e-2, 10);
        const int m = s.pick({0, 1, 2, 29, 30, (int)s.range(0, 30)});
        if (o.kind == 2)
            for (int j = 0; j < m; ++j)
            {
                satellite::SatelliteCache c;
                c.cache_rec_pos = p;
                c.state.t = g.x.t;
                c.state.pos = p + gen_axis(s) * s.real(1.9e7, 2.7e7);
                c.state.vel = vec(s, 3500);
                c.state.clk = Vec2(s.sym(1e-4), s.sym(1e-11));
                c.sagnac = s.sym(40);
                c.atm.ionospheric_delay_m = s.real(0, 30), c.atm.tropospheric_delay_m = s.real(0, 30);
                o.sats.push_back(c);
                o.ids.push_back(s.pick({(int)GnssID::GPS, (int)GnssID::Galileo, (int)GnssID::Glonass}));
                o.obs.push_back(Vec2(2e7 + s.sym(100), s.sym(4000)));
            }
        for (int j = 0; j < g.n; ++j) o.held.push_back(g.x.sd[j](0) + s.sym(1));
        g.ops.push_back(o);
    }
    return g;
}
template <typename F>
static void blocks(ekf::Covariance& c, int n, F f)
{
#define V(A, B, i, j) f(c.A##_##B, i, j)
    struct At { int at; };
    // fixed parts in the order of the description: pose vel acc gyro gps gal glo lever T_I2e
    V(pose, pose, 0, 0); V(pose, vel, 0, 6); V(pose, accBias, 0, 9); V(pose, gyroBias, 0, 12); V(pose, gpsClk, 0, 15); V(pose, galClk, 0, 17); V(pose, gloClk, 0, 19); V(pose, pB2g, 0, 21); V(pose, TI2e, 0, 24);
    V(vel, vel, 6, 6); V(vel, accBias, 6, 9); V(vel, gyroBias, 6, 12); V(vel, gpsClk, 6, 15); V(vel, galClk, 6, 17); V(vel, gloClk, 6, 19); V(vel, pB2g, 6, 21); V(vel, TI2e, 6, 24);
    V(accBias, accBias, 9, 9); V(accBias, gyroBias, 9, 12); V(accBias, gpsClk, 9, 15); V(accBias, galClk, 9, 17); V(accBias, gloClk, 9, 19); V(accBias, pB2g, 9, 21); V(accBias, TI2e, 9, 24);
    V(gyroBias, gyroBias, 12, 12); V(gyroBias, gpsClk, 12, 15); V(gyroBias, galClk, 12, 17); V(gyroBias, gloClk, 12, 19); V(gyroBias, pB2g, 12, 21); V(gyroBias, TI2e, 12, 24);
    V(gpsClk, gpsClk, 15, 15); V(gpsClk, galClk, 15, 17); V(gpsClk, gloClk, 15, 19); V(gpsClk, pB2g, 15, 21); V(gpsClk, TI2e, 15, 24);
    V(galClk, galClk, 17, 17); V(galClk, gloClk, 17, 19); V(galClk, pB2g, 17, 21); V(galClk, TI2e, 17, 24);
    V(gloClk, gloClk, 19, 19); V(gloClk, pB2g, 19, 21); V(gloClk, TI2e, 19, 24);
    V(pB2g, pB2g, 21, 21); V(pB2g, TI2e, 21, 24);
    V(TI2e, TI2e, 24, 24);
#undef V
#define W(A, i) { auto b = c.A##_sd(n); f(b, i, 30); }
    W(pose, 0) W(vel, 6) W(accBias, 9) W(gyroBias, 12) W(gpsClk, 15) W(galClk, 17) W(gloClk, 19) W(pB2g, 21) W(TI2e, 24) W(sd, 30)
#undef W
}
static void keep(std::vector<double>& o, const MX& m) { for (int j = 0; j < m.cols(); ++j) for (int i = 0; i < m.rows(); ++i) o.push_back(m(i, j)); }
static void keep(std::vector<double>& o, const State& x)
{
    for (const DQ* q : {&x.pose, &x.T_I2e}) for (int i = 0; i < 8; ++i) o.push_back(q->data()[i]);
    keep(o, x.vel), keep(o, x.acc_bias), keep(o, x.gyro_bias), keep(o, x.gps_clk), keep(o, x.gal_clk), keep(o, x.glo_clk), keep(o, x.p_b2g);
    o.push_back(x.num_sd);
    for (size_t i = 0; i < x.num_sd; ++i) o.push_back(x.sd[i](0));
    o.push_back(x.t.sec), o.push_back(x.t.nsec);
}
static std::vector<double> run(const Script& g, const World& w)
{
    std::vector<double> o;
    vt::u64 q = w.seed + 9;
    Room<ekf::Snapshot> a(w), b(w);
    Room<ekf::Snapshot>*cur = &a, *next = &b;
    for (auto* r : {cur, next})
    {
        ekf::Snapshot& sn = **r;
        blocks(sn.cov, 30, [&](auto& m, int, int) { for (int j = 0; j < m.cols(); ++j) for (int i = 0; i < m.rows(); ++i) m(i, j) = w.num(q); });
        sn.x = g.x;
        for (int i = r == cur ? g.n : 0; i < 30; ++i) sn.x.sd[i](0) = w.any(q);
        if (r == next) sn.x.num_sd = 30;
    }
    {
        ekf::Snapshot& sn = **cur;
        sn.u = g.u;
        blocks(sn.cov, g.n, [&](auto& m, int i, int j) { m = g.P.block(i, j, m.rows(), m.cols()); });
    }
    for (const Op& p : g.ops)
    {
        ekf::Snapshot& sn = **cur;
        if (p.kind == 0)
        {
            ekf::StateJac A;
            ekf::InputJac B;
            dirty(w);
            const auto xd = ekf::dynamics(sn.x, p.u, &A, &B);
            keep(o, xd.dense(g.n));
            keep(o, A.dense(g.n)), keep(o, B.dense(g.n));
            ekf::ProcessCovariance Qx = ekf::ProcessCovariance::Identity();
            ekf::InputCovariance Qu = ekf::InputCovariance::Zero();
            Qu.accel.setConstant(0.1);
            dirty(w);
            o.push_back(ekf::predict(sn, sn.x.t + p.dt, p.u, Qx, Qu, make_out(**next)).ok());
            std::swap(cur, next);
        }
        else if (p.kind == 1)
        {
            dirty(w);
            const auto r = ekf::update<pointPosMeas>(make_out(sn), p.z, p.r, sn.u);
            o.push_back(r.ok());
            if (r.ok()) keep(o, r.res());
            pointPosMeas::Jac J;
            dirty(w);
            keep(o, ekf::h<pointPosMeas>(p.z, sn.x, &J, sn.u));
            keep(o, J.dense(g.n));
        }
        else if (p.kind == 2)
        {
            obsMeas::ZType z;
            for (size_t i = 0; i < p.sats.size(); ++i) z.push_back({p.obs[i], p.sats[i], p.ids[i]});
            dirty(w);
            const auto r = ekf::update<obsMeas>(make_out(sn), z, Vec2(p.r.head<2>()), sn.u);
            o.push_back(r.ok());
            if (r.ok()) keep(o, r.res());
            obsMeas::Jac J;
            dirty(w);
            keep(o, ekf::h<obsMeas>(z, sn.x, &J, sn.u));
            keep(o, J.dense(z.size(), g.n));
        }
        else
        {
            fixAndHoldMeas::ZType z;
            for (double v : p.held) z.push_back(Vec1(v));
            dirty(w);
            const auto r = ekf::update<fixAndHoldMeas>(make_out(sn), z, Vec1(p.r(0)));
            o.push_back(r.ok());
            if (r.ok()) keep(o, r.res());
        }
        ekf::Snapshot& at = **cur;
        keep(o, at.x);
        keep(o, at.cov.dense(g.n));
        keep(o, at.u.accel), keep(o, at.u.gyro);
    }
    mallopt(M_PERTURB, 0);
    return o;
}
VT_PROP(rtk_same_results, 200, 6000)
{
    const Script g = gen_script(s);
    const World clean{1, 0, false};
    const auto want = run(g, clean);
    const World w{s.draw(1ull << 40) + 1, s.pick({1, 2}), s.flip()};
    const auto got = run(g, w);
    VT_REQ(got.size() == want.size(), "with other leftovers %zu results instead of %zu", got.size(), want.size());
    for (size_t i = 0; i < got.size(); ++i)
        VT_REQ(memcmp(&got[i], &want[i], 8) == 0, "result %zu of %zu is %.17g with clean memory, %.17g with leftovers (kind %d%s)", i, got.size(), want[i], got[i], w.kind, w.nan ? ", not finite" : "");
    s.note("%zu operations, %d ambiguities, %zu results", g.ops.size(), g.n, got.size());
    if (g.n < 30 && g.ops.size() > 1) s.nontrivial();
}
