// I01: preintegration equals integration; splitting an interval changes nothing
#include <memory>
#include "imugen.h"
using namespace mc::models;
struct State
{
    M3 R;
    V3 p, v;  // v in the body frame
};
static State of(const DQ& x, const Vec3& v)
{
    State o;
    o.R = active(x.real());
    const auto &r = x.real(), &d = x.dual();
    const V3 rv(r.x(), r.y(), r.z()), dv(d.x(), d.y(), d.z());
    o.p = 2 * (dv * (ld)r.w() - rv * (ld)d.w() - dv.cross(rv));
    o.v = up(v);
    return o;
}
static State apply(const State& s, const Pre& q)
{
    State o;
    o.R = s.R * q.G;
    o.p = s.p + s.R * (s.v * q.T + q.a) + GRAV * q.T * q.T / 2;
    o.v = q.G.transpose() * (s.v + s.R.transpose() * GRAV * q.T + q.b);
    return o;
}
static DQ gen_start(vt::Src& s)
{
    const Qd q = gen_quat(s);
    const double m = s.weighted({2, 1}) == 0 ? 10.0 : s.logu(1, 1e4);
    return DQ(q, Vec3(s.sym(m), s.sym(m), s.sym(m)));
}
static Vec3 gen_vel(vt::Src& s) { const double m = s.pick({0.0, 1.0, 30.0}); return Vec3(s.sym(m), s.sym(m), s.sym(m)); }
static double scale(const ImuCase& c, const DQ& x0, const Vec3& v0)
{
    const double T = (double)c.T();
    return 1 + x0.translation().norm() + (v0.norm() + (c.amax + 10) * T) * (1 + T);
}
static void same(const State& a, const State& b, double tol, const char* what)
{
    VT_REQ((double)(a.R - b.R).norm() < 1e-9 + tol * 1e-3, "%s: rotation differs by %g", what, (double)(a.R - b.R).norm());
    VT_REQ((double)(a.p - b.p).norm() < tol, "%s: position differs by %g", what, (double)(a.p - b.p).norm());
    VT_REQ((double)(a.v - b.v).norm() < tol, "%s: velocity differs by %g", what, (double)(a.v - b.v).norm());
}
static State predicted(const ImuModel& m, const DQ& x0, const Vec3& v0)
{
    DQ x1;
    Vec3 v1;
    const Error e = m.computeEndState(x0, v0, Out(x1), Out(v1));
    VT_REQ(e.ok(), "computeEndState reports an error");
    return of(x1, v1);
}
static void residual_zero(const ImuModel& m, const Vec6& bias, const DQ& x0, const Vec3& v0, double tol, const char* what)
{
    DQ x1;
    Vec3 v1;
    m.computeEndState(x0, v0, Out(x1), Out(v1));
    double res[9];
    const double* par[] = {x0.data(), x1.data(), v0.data(), v1.data(), bias.data()};
    VT_REQ(m.Evaluate(par, res, nullptr), "Evaluate fails");
    for (int i = 0; i < 9; ++i) VT_REQ(std::abs(res[i]) < tol, "%s: residual %d is %g at the predicted end state and the bias integrated with", what, i, res[i]);
}
VT_PROP(steps, 1500, 40000)
{
    const ImuCase c = gen_imu(s);
    const DQ x0 = gen_start(s);
    const Vec3 v0 = gen_vel(s);
    s.note("%zu samples over %.4g s bias %s %s", c.z.size(), (double)c.T(), lie::show(Vec3(c.bias.head<3>())), lie::show(Vec3(c.bias.tail<3>())));
    if (c.z.size() > 3 && c.wmax > 0 && c.bias.norm() > 0) s.nontrivial();
    ImuModel m(c.z[0], c.bias, c.R);
    VT_REQ(m.numUpdates() == 0 && m.t0() == c.z[0].t && m.tf() == c.z[0].t, "a new interval is not empty");
    {
        DQ x1;
        Vec3 v1;
        m.computeEndState(x0, v0, Out(x1), Out(v1));
        VT_REQ(x1 == x0 && v1 == v0, "an empty interval moves the state");
    }
    const State s0 = of(x0, v0);
    const int look = s.irange(1, (int)c.z.size() - 1);
    for (size_t i = 1; i < c.z.size(); ++i)
    {
        m.integrate(c.z[i]);
        if ((int)i != look && i + 1 != c.z.size()) continue;
        VT_REQ(m.numUpdates() == (int)i && m.t0() == c.z[0].t && m.tf() == c.z[i].t, "interval bounds are wrong after %zu samples", i);
        const std::vector<meas::ImuSample> part(c.z.begin(), c.z.begin() + i + 1);
        const Pre p = preintegrate(part, c.bias, c.R, false);
        const double sc = scale(c, x0, v0);
        VT_REQ(std::abs(m.delta_t() - (double)p.T) < 1e-9, "delta_t %.12g, samples span %.12g", m.delta_t(), (double)p.T);
        VT_REQ((double)(up(m.state().alpha) - p.a).norm() < 1e-10 * sc, "alpha differs by %g", (double)(up(m.state().alpha) - p.a).norm());
        VT_REQ((double)(up(m.state().beta) - p.b).norm() < 1e-10 * sc, "beta differs by %g", (double)(up(m.state().beta) - p.b).norm());
        VT_REQ((double)(active(m.state().gamma) - p.G).norm() < 1e-10, "gamma differs by %g", (double)(active(m.state().gamma) - p.G).norm());
        same(predicted(m, x0, v0), apply(s0, p), 1e-10 * sc, "prediction");
    }
    residual_zero(m, c.bias, x0, v0, 1e-9 * scale(c, x0, v0), "whole interval");
}
// against a much finer integration of the continuous motion: first-order agreement
VT_PROP(physics, 150, 4000)
{
    const ImuCase c = gen_imu(s, 3, 30);
    const DQ x0 = gen_start(s);
    const Vec3 v0 = gen_vel(s);
    if (c.wmax > 0 && c.bias.norm() > 0) s.nontrivial();
    const State s0 = of(x0, v0);
    // inertial-frame integration with the linearly interpolated samples
    V3 p = s0.p, vi = s0.R * s0.v;
    M3 R = s0.R;
    const V3 ba = up(Vec3(c.bias.head<3>())), bw = up(Vec3(c.bias.tail<3>()));
    double hmax = 0;
    for (size_t i = 1; i < c.z.size(); ++i)
    {
        const ld dt = secs(c.z[i].t, c.z[i - 1].t);
        hmax = std::max(hmax, (double)dt);
        const int K = 64;
        const ld h = dt / K;
        for (int k = 0; k < K; ++k)
        {
            const ld u = (k + 0.5L) / K;
            const V3 a = (1 - u) * up(c.z[i - 1].accel) + u * up(c.z[i].accel) - ba;
            const V3 w = (1 - u) * up(c.z[i - 1].gyro) + u * up(c.z[i].gyro) - bw;
            const V3 f = R * rodrigues(V3(w * h / 2)) * a + GRAV;
            p += vi * h + f * h * h / 2;
            vi += f * h;
            R = R * rodrigues(V3(w * h));
        }
    }
    State e;
    e.R = R;
    e.p = p;
    e.v = R.transpose() * vi;
    const ImuModel m = build_model(c.z, c.bias, c.R);
    const State g = predicted(m, x0, v0);
    const double T = (double)c.T(), A = c.amax, W = c.wmax;
    s.note("T %.3g h %.3g A %.3g W %.3g: p %g v %g R %g", T, hmax, A, W, (double)(g.p - e.p).norm(), (double)(g.v - e.v).norm(), (double)(g.R - e.R).norm());
    // one step is off by at most h^2 A W in velocity, h^2 A in position, and h^2 W^2 in angle
    const double er = 1e-9 + 2 * T * hmax * W * W, ev = 1e-9 + 2 * T * hmax * A * W + er * (A + 10) * T, ep = 1e-9 + 2 * T * hmax * A + ev * T;
    VT_REQ((double)(g.R - e.R).norm() < er, "rotation off by %g (bound %g)", (double)(g.R - e.R).norm(), er);
    VT_REQ((double)(g.v - e.v).norm() < ev + er * (double)e.v.norm(), "velocity off by %g (bound %g)", (double)(g.v - e.v).norm(), ev);
    VT_REQ((double)(g.p - e.p).norm() < ep, "position off by %g (bound %g)", (double)(g.p - e.p).norm(), ep);
}
static void equal_models(const ImuModel& a, const ImuModel& b, double sc, const char* what)
{
    VT_REQ(a.t0() == b.t0() && a.tf() == b.tf(), "%s: interval differs from that of its samples", what);
    VT_REQ(a.numUpdates() == b.numUpdates(), "%s: %d updates, afresh %d", what, a.numUpdates(), b.numUpdates());
    VT_REQ((a.state().alpha - b.state().alpha).norm() < 1e-11 * sc && (a.state().beta - b.state().beta).norm() < 1e-11 * sc, "%s: motion differs from integrating its samples afresh", what);
    VT_REQ((double)(active(a.state().gamma) - active(b.state().gamma)).norm() < 1e-11, "%s: rotation differs from integrating its samples afresh", what);
    VT_REQ((a.covariance() - b.covariance()).norm() <= 1e-10 * (b.covariance().norm() + 1e-30), "%s: covariance differs from integrating its samples afresh", what);
    VT_REQ((a.dStatedBias() - b.dStatedBias()).norm() <= 1e-10 * (b.dStatedBias().norm() + 1e-30), "%s: bias sensitivity differs", what);
    VT_REQ(a.accelBias() == b.accelBias() && a.gyroBias() == b.gyroBias(), "%s: bias differs", what);
}
VT_PROP(split, 1500, 40000)
{
    const ImuCase c = gen_imu(s, 2, 40);
    const DQ x0 = gen_start(s);
    const Vec3 v0 = gen_vel(s);
    std::vector<meas::ImuSample> rest = c.z;
    ImuModel m = build_model(c.z, c.bias, c.R);
    const int nsplit = s.irange(1, 4);
    const double sc = scale(c, x0, v0);
    const State whole = predicted(m, x0, v0);
    // the interval [t0, tf] is cut repeatedly, always the later part
    std::vector<ImuModel> parts;
    std::unique_ptr<ImuModel> cur(new ImuModel(m));
    double hmax = 0;
    bool interior = false;
    std::string cuts;
    for (size_t i = 1; i < c.z.size(); ++i) hmax = std::max(hmax, (double)secs(c.z[i].t, c.z[i - 1].t));
    for (int k = 0; k < nsplit; ++k)
    {
        const i128 lo = total(rest.front().t), hi = total(rest.back().t);
        i128 t;
        const int how = s.weighted({4, 2, 3});
        if (how == 0 || rest.size() < 3) t = lo + (i128)s.draw((vt::u64)(int64_t)(hi - lo));
        else
        {
            const auto& z = rest[s.irange(1, (int)rest.size() - 2)];
            t = total(z.t) + (how == 1 ? 0 : s.range(-150000, 150000));
        }
        // within the comparison resolution of the ends is the end itself
        if (t <= lo + 60000 || t >= hi - 60000) break;
        cuts += vt::sfmt(" %lld", (long long)(int64_t)(t - lo));
        ImuModel second = cur->split(at_ns(t));
        // samples of the two parts: those on either side and one at the cut, in which a sample
        // within half of the time resolution counts as being at the cut
        size_t j = 1;
        while (j + 1 < rest.size() && total(rest[j].t) <= t + 50000) ++j;
        std::vector<meas::ImuSample> first(rest.begin(), rest.begin() + j);
        std::vector<meas::ImuSample> later;
        const i128 off = t - total(rest[j - 1].t);
        if (off <= 50000)
        {
            later.assign(rest.begin() + (j - 1), rest.end());
            VT_REQ(j >= 2, "internal");
        }
        else
        {
            interior = true;
            meas::ImuSample z;
            z.t = at_ns(t);
            const double u = (double)(int64_t)off / (double)(int64_t)(total(rest[j].t) - total(rest[j - 1].t));
            z.accel = u * rest[j].accel + (1 - u) * rest[j - 1].accel;
            z.gyro = u * rest[j].gyro + (1 - u) * rest[j - 1].gyro;
            first.push_back(z);
            later.push_back(z);
            later.insert(later.end(), rest.begin() + j, rest.end());
        }
        VT_REQ(cur->tf() == second.t0(), "gap or overlap of %lld ns between the parts", (long long)(int64_t)(total(second.t0()) - total(cur->tf())));
        VT_REQ(std::abs((int64_t)(total(cur->tf()) - t)) <= 50000, "cut %lld ns from the requested time", (long long)(int64_t)(total(cur->tf()) - t));
        VT_REQ(cur->t0() == rest.front().t && second.tf() == rest.back().t, "the parts do not cover the interval");
        // afresh: a model may refuse samples as close as a cut can be, so compare with the reference
        const Pre pf = preintegrate(first, c.bias, c.R), pl = preintegrate(later, c.bias, c.R);
        for (int w = 0; w < 2; ++w)
        {
            const ImuModel& g = w ? second : *cur;
            const Pre& r = w ? pl : pf;
            const auto& zz = w ? later : first;
            const char* what = w ? "later part" : "first part";
            VT_REQ(g.numUpdates() == (int)zz.size() - 1, "%s has %d updates instead of %zu", what, g.numUpdates(), zz.size() - 1);
            VT_REQ((double)(up(g.state().alpha) - r.a).norm() < 1e-9 * sc && (double)(up(g.state().beta) - r.b).norm() < 1e-9 * sc, "%s: motion differs from its own samples by %g %g", what, (double)(up(g.state().alpha) - r.a).norm(), (double)(up(g.state().beta) - r.b).norm());
            VT_REQ((double)(active(g.state().gamma) - r.G).norm() < 1e-9, "%s: rotation differs from its own samples", what);
            VT_REQ((double)(g.covariance().cast<ld>() - r.P).norm() <= 1e-8 * (double)r.P.norm() + 1e-25, "%s: covariance differs from its own samples by %g of %g", what, (double)(g.covariance().cast<ld>() - r.P).norm(), (double)r.P.norm());
            VT_REQ((double)(g.dStatedBias().cast<ld>() - r.J).norm() <= 1e-9 * (double)r.J.norm(), "%s: bias sensitivity differs from its own samples", what);
            residual_zero(g, c.bias, x0, v0, 1e-9 * sc, what);
        }
        parts.push_back(*cur);
        cur.reset(new ImuModel(second));
        rest = later;
    }
    parts.push_back(*cur);
    s.note("%zu samples, cuts at%s ns", c.z.size(), cuts.c_str());
    if (parts.size() > 1 && interior && c.z.size() > 3) s.nontrivial();
    // one after the other, the parts give the motion of the whole
    DQ x = x0;
    Vec3 v = v0;
    for (auto& q : parts)
    {
        DQ x1;
        Vec3 v1;
        q.computeEndState(x, v, Out(x1), Out(v1));
        x = x1;
        v = v1;
    }
    const double T = (double)c.T();
    const double W = c.wmax, A = c.amax, n = (double)parts.size();
    const double er = n * hmax * hmax * W * W * 1, ev = n * hmax * hmax * A * W + er * ((A + 10) * T), ep = n * hmax * hmax * A + ev * (T + hmax);
    const State got = of(x, v);
    const double tol = interior ? 2 : 0;
    VT_REQ((double)(got.R - whole.R).norm() < 1e-9 + tol * er, "rotation over the parts differs by %g from the whole", (double)(got.R - whole.R).norm());
    VT_REQ((double)(got.v - whole.v).norm() < 1e-9 * sc + tol * (ev + er * (double)whole.v.norm()), "velocity over the parts differs by %g from the whole", (double)(got.v - whole.v).norm());
    VT_REQ((double)(got.p - whole.p).norm() < 1e-9 * sc + tol * ep, "position over the parts differs by %g from the whole (bound %g)", (double)(got.p - whole.p).norm(), tol * ep);
}
// a divided interval keeps integrating, and finishing gives the square root of its information
VT_PROP(continued, 600, 15000)
{
    const ImuCase c = gen_imu(s, 6, 40);
    const int k = s.irange(3, (int)c.z.size() - 2);
    ImuModel m = build_model(std::vector<meas::ImuSample>(c.z.begin(), c.z.begin() + k), c.bias, c.R);
    const int j = s.irange(1, k - 2);
    s.nontrivial();
    ImuModel second = m.split(c.z[j].t);
    for (size_t i = k; i < c.z.size(); ++i) second.integrate(c.z[i]);
    const ImuModel fresh = build_model(std::vector<meas::ImuSample>(c.z.begin() + j, c.z.end()), c.bias, c.R);
    const ImuModel first = build_model(std::vector<meas::ImuSample>(c.z.begin(), c.z.begin() + j + 1), c.bias, c.R);
    const double sc = 1 + c.amax;
    equal_models(second, fresh, sc, "later part, continued");
    equal_models(m, first, sc, "first part");
}
// a caller's own storage may go away: the model keeps what it was given
static ImuModel __attribute__((noinline)) from_temporaries(const ImuCase& c)
{
    Vec6* R = new Vec6(c.R);
    Vec6* b = new Vec6(c.bias);
    ImuModel m(c.z[0], *b, *R);
    R->setConstant(7);
    b->setConstant(7);
    delete R;
    delete b;
    return m;
}
VT_PROP(own_copy, 200, 3000)
{
    const ImuCase c = gen_imu(s, 4, 12);
    s.nontrivial();
    ImuModel a = from_temporaries(c);
    for (size_t i = 1; i < c.z.size(); ++i) a.integrate(c.z[i]);
    const ImuModel b = build_model(c.z, c.bias, c.R);
    equal_models(a, b, 1 + c.amax, "model built from temporaries");
}
// samples that do not advance in time are refused
VT_PROP(out_of_order, 200, 3000)
{
    ImuCase c = gen_imu(s, 3, 12);
    const int k = s.irange(1, (int)c.z.size() - 1);
    s.nontrivial();
    meas::ImuSample bad = c.z[k];
    const i128 prev = total(c.z[k - 1].t);
    bad.t = at_ns(prev - (s.flip() ? (i128)s.range(0, 50000) : (i128)s.range(0, 5000000000)));
    auto r = vt::in_child([&]() -> std::string {
        ImuModel m = build_model(std::vector<meas::ImuSample>(c.z.begin(), c.z.begin() + k), c.bias, c.R);
        m.integrate(bad);
        return "accepted";
    });
    VT_REQ(r.refused(), "a sample %lld ns before the previous one is accepted", (long long)(int64_t)(prev - total(bad.t)));
}
