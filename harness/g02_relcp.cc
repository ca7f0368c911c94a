// G02: relative carrier-phase model
#include "models/relative_carrier_phase_model.h"
#include "modelgen.h"
using namespace mg;
using models::RelativeCarrierPhase;
static const ld LIGHT = 299792458.0L;
struct Case
{
    Sats o;
    meas::GnssObservation obs1, obs2;
    Vec3 rec;
    DQ T_e2r, T1, T2, T_r2n;
    Vec3 lever;
    Vec2 clk1, clk2;
    double sw1, sw2, Xi;
    int freq;
    ld lambda;
};
// carrier wavelengths of the interface control documents
static ld wavelength(int gnss, int f, const SatelliteBase& sat, int slot)
{
    (void)sat;
    static const ld gps[] = {1575.42e6L, 1227.60e6L, 1176.45e6L};
    static const ld gal[] = {1575.42e6L, 1176.45e6L, 1207.14e6L, 1191.795e6L, 1278.75e6L};
    if (gnss == 0) return LIGHT / gps[f];
    if (gnss == 1) return LIGHT / gal[f];
    const ld glo[] = {1602e6L + 562.5e3L * slot, 1246e6L + 437.5e3L * slot, 1202.025e6L};
    return LIGHT / glo[f];
}
static Case gen(vt::Src& s)
{
    Case c;
    c.o.gnss = s.weighted({2, 1, 1});
    const int num = s.irange(1, 24);
    int slot = 0;
    if (c.o.gnss == 0)
    {
        GPSEphemeris g(num);
        satgen::gen_kepler(s, g, GnssID::GPS, num);
        g.ecc = std::min(g.ecc, 0.05);
        auto* p = new Satellite<GPSEphemeris>(GnssID::GPS, num);
        p->addEph(g);
        c.o.sat.reset(p);
        c.o.toe = g.toe;
        c.freq = s.irange(0, 2);
    }
    else if (c.o.gnss == 1)
    {
        GalileoEphemeris g(num);
        satgen::gen_kepler(s, g, GnssID::Galileo, num);
        g.ecc = std::min(g.ecc, 0.05);
        auto* p = new Satellite<GalileoEphemeris>(GnssID::Galileo, num);
        p->addEph(g);
        c.o.sat.reset(p);
        c.o.toe = g.toe;
        c.freq = s.irange(0, 4);
    }
    else
    {
        GlonassEphemeris g(num);
        satgen::gen_glonass(s, g, num);
        slot = g.slot;
        auto* p = new Satellite<GlonassEphemeris>(GnssID::Glonass, num);
        p->addEph(g);
        c.o.sat.reset(p);
        c.o.toe = g.toe;
        c.freq = s.irange(0, 2);
    }
    c.lambda = wavelength(c.o.gnss, c.freq, *c.o.sat, slot);
    c.obs1.setZero();
    c.obs1.t = gen_time(s, c.o);
    c.obs1.gnss_id = c.o.sat->gnssId();
    c.obs1.sat_num = c.o.sat->sat_num();
    c.obs1.freq = c.freq;
    c.obs2 = c.obs1;
    c.obs2.t = satgen::at(c.obs1.t, s.weighted({3, 1, 1}) == 0 ? s.range(10000000ll, 5000000000ll) : (s.flip() ? 0 : s.range(5000000000ll, 120000000000ll)));
    c.rec = gen_rec(s);
    c.T_e2r = utils::WGS84::dq_ecef2ned(c.rec);
    c.T1 = gen_pose(s);
    c.T2 = s.chance(0.15) ? c.T1 : gen_pose(s);
    c.T_r2n = small_frame(s);
    c.lever = vec(s, s.pick({1.0, 10.0}));
    c.clk1 = Vec2(s.sym(s.pick({1.0, 1e6})), s.sym(100));
    c.clk2 = Vec2(c.clk1(0) + s.sym(s.pick({1.0, 1e4})), s.sym(100));
    c.sw1 = s.flip() ? 1.0 : s.real(0, 1.2);
    c.sw2 = s.flip() ? 1.0 : s.real(0, 1.2);
    c.Xi = s.flip() ? 1.0 : s.logu(1e-2, 1e3);
    c.obs1.carrier_phase = s.flip() ? 0.0 : s.irange(-25000, 25000);
    c.obs2.carrier_phase = c.obs1.carrier_phase + s.sym(s.pick({1.0, 1e4, 1e6}));
    return c;
}
struct Params
{
    Pose a, b, r2n;
    V3 lever;
    ld c1, c2, sw1, sw2;
};
struct Ref
{
    SatelliteState s1, s2;
    Pose e2r;
    Ref(const Case& c)
        : s1(transmit(*c.o.sat, c.obs1.t, c.rec)), s2(transmit(*c.o.sat, c.obs2.t, c.rec)), e2r(c.T_e2r) {}
    static ld est(const SatelliteState& st, const V3& p, ld clk, const V3& at)
    {
        const V3 sp = up(st.pos);
        return (sp - p).norm() + WE * (sp(0) * at(1) - sp(1) * at(0)) / CL + CL * (clk * 1e-9L - st.clk(0));
    }
    V3 pos(const Pose& b, const Params& p) const { return e2r(p.r2n(b(p.lever))); }
    // predicted change in metres; the Earth-rotation term taken at the actual positions
    ld change(const Params& p) const
    {
        const V3 p1 = pos(p.a, p), p2 = pos(p.b, p);
        return est(s2, p2, p.c2, p2) - est(s1, p1, p.c1, p1);
    }
};
static Params params(const Case& c)
{
    return {Pose(c.T1), Pose(c.T2), Pose(c.T_r2n), up(c.lever), c.clk1(0), c.clk2(0), c.sw1, c.sw2};
}
static double evaluate(const RelativeCarrierPhase& f, const Case& c, double** jac = nullptr)
{
    double r = NAN;
    const double* par[] = {c.T1.data(), c.T2.data(), c.clk1.data(), c.clk2.data(), &c.sw1, &c.sw2, c.T_r2n.data(), c.lever.data()};
    VT_REQ(f.Evaluate(par, &r, jac), "Evaluate fails");
    return r;
}
static ld residual(const Case& c, const Ref& ref, const Params& p, ld k)
{
    return (ld)c.Xi * p.sw1 * p.sw2 * ((ld)c.obs2.carrier_phase - c.obs1.carrier_phase - k * ref.change(p));
}
// cycles per metre: physically 1/wavelength.  The model multiplies by the wavelength (pinned by two
// regression tests): known finding "carrier_wavelength".  Either is accepted, consistently.
static ld scale(const Case& c, double r, const Ref& ref, double& err)
{
    const ld a = 1 / c.lambda, b = c.lambda;
    const Params p = params(c);
    const double ea = std::abs((double)(r - residual(c, ref, p, a))), eb = std::abs((double)(r - residual(c, ref, p, b)));
    err = std::min(ea / (double)a, eb / (double)b);
    return ea / (double)a <= eb / (double)b ? a : b;
}
VT_PROP(prediction, 3000, 80000)
{
    const Case c = gen(s);
    const RelativeCarrierPhase f(c.obs1, c.obs2, *c.o.sat, c.rec, c.T_e2r, c.Xi);
    const double r = evaluate(f, c);
    const Ref ref(c);
    double err;
    const ld k = scale(c, r, ref, err);
    s.note("gnss %d freq %d wavelength %.4f dt %.3f switches %.3g %.3g residual %.9g", c.o.gnss, c.freq, (double)c.lambda, (c.obs2.t - c.obs1.t).toSec(), c.sw1, c.sw2, r);
    if (c.lever.norm() > 0 && c.sw1 * c.sw2 > 0) s.nontrivial();
    // both satellite positions are millimetre-accurate
    const double tol = c.Xi * c.sw1 * c.sw2 * 3e-3 + 1e-9;
    VT_REQ(err < tol, "residual %.9g is off by %.3g m (allowed %.3g), scale %.6g", r, err, tol, (double)k);
    // a phase change that agrees with the prediction gives no residual
    Case d = c;
    d.obs2.carrier_phase = d.obs1.carrier_phase + (double)(k * ref.change(params(c)));
    const RelativeCarrierPhase g(d.obs1, d.obs2, *d.o.sat, d.rec, d.T_e2r, d.Xi);
    const double z = evaluate(g, d);
    VT_REQ(std::abs(z) < tol * (double)k + c.Xi * 1e-8, "residual %.9g though the phase change is as predicted", z);
    // only the change of phase and of the clock count
    Case e = c;
    const double n = s.irange(-100000, 100000);
    e.obs1.carrier_phase += n;
    e.obs2.carrier_phase += n;
    e.clk1(1) += 5;
    e.clk2(1) -= 7;
    const RelativeCarrierPhase h(e.obs1, e.obs2, *e.o.sat, e.rec, e.T_e2r, e.Xi);
    VT_REQ(std::abs(evaluate(h, e) - r) <= 1e-9 * (1 + std::abs(r)) + c.Xi * 1e-8, "a common number of cycles changes the residual");
}
VT_KNOWN(carrier_wavelength)
{
    vt::Src s(12345);
    for (int i = 0; i < 20; ++i)
    {
        Case c = gen(s);
        c.sw1 = c.sw2 = c.Xi = 1;
        const Ref ref(c);
        const ld k = 1 / c.lambda;
        const Params p = params(c);
        if (fabsl(ref.change(p)) < 1) continue;
        c.obs2.carrier_phase = c.obs1.carrier_phase + (double)(k * ref.change(p));
        const RelativeCarrierPhase f(c.obs1, c.obs2, *c.o.sat, c.rec, c.T_e2r, c.Xi);
        const double r = evaluate(f, c);
        what = "with a phase change of exactly the predicted number of cycles the residual is " + std::to_string(r) + ": the predicted change in metres is multiplied by the wavelength instead of divided by it";
        if (std::abs(r) > 0.1) return true;
    }
    return false;
}
VT_PROP(derivatives, 2000, 50000)
{
    const Case c = gen(s);
    const RelativeCarrierPhase f(c.obs1, c.obs2, *c.o.sat, c.rec, c.T_e2r, c.Xi);
    double j0[8], j1[8], j2[2], j3[2], j4[1], j5[1], j6[8], j7[3];
    double* jac[8] = {j0, j1, j2, j3, j4, j5, j6, j7};
    const int size[8] = {8, 8, 2, 2, 1, 1, 8, 3};
    for (int i = 0; i < 8; ++i) std::fill(jac[i], jac[i] + size[i], NAN);
    const int mask = s.chance(0.6) ? 255 : (int)s.draw(255);
    double* want[8];
    for (int i = 0; i < 8; ++i) want[i] = (mask >> i) & 1 ? jac[i] : nullptr;
    const double r1 = evaluate(f, c, mask ? want : nullptr), r0 = evaluate(f, c);
    VT_REQ(r0 == r1, "the residual depends on which derivatives are asked for");
    for (int i = 0; i < 8; ++i)
        if (!want[i])
            for (int k = 0; k < size[i]; ++k) VT_REQ(std::isnan(jac[i][k]), "derivative %d written though not asked for", i);
    const Ref ref(c);
    double err;
    // the scale cannot be told from the value when a switch is off or the satellite did not move
    const ld k0 = scale(c, r0, ref, err);
    const Params p0 = params(c);
    if (c.lever.norm() > 0 && c.sw1 * c.sw2 > 0 && c.Xi != 1) s.nontrivial();
    s.note("gnss %d freq %d switches %.3g %.3g weight %.3g", c.o.gnss, c.freq, c.sw1, c.sw2, c.Xi);
    const ld gain = c.Xi * (ld)c.sw1 * c.sw2;
    ld k = k0;
    if (want[2] && gain > 0)
    {
        k = (ld)j2[0] * 1e9L / (gain * CL);
        VT_REQ(std::abs((double)(k / c.lambda - 1)) < 1e-9 || std::abs((double)(k * c.lambda - 1)) < 1e-9, "by first clock: %.12g, weight %.9g, wavelength %.9g", j2[0], (double)gain, (double)c.lambda);
        k = std::abs((double)(k / c.lambda - 1)) < 1e-9 ? c.lambda : 1 / c.lambda;
        // the derivative's scale is the residual's
        VT_REQ(std::abs((double)(r0 - residual(c, ref, p0, k))) < (double)(gain * k) * 3e-3 + 1e-9 + 1e-9 * std::abs(r0), "the residual has another scale than its derivative");
    }
    auto test = [&](const std::function<void(Params&, ld)>& mv, ld h, ld got, const char* what, int i) {
        Params a = p0, b = p0, a2 = p0, b2 = p0;
        mv(a, h);
        mv(b, -h);
        mv(a2, 2 * h);
        mv(b2, -2 * h);
        const ld d = (8 * (residual(c, ref, a, k) - residual(c, ref, b, k)) - (residual(c, ref, a2, k) - residual(c, ref, b2, k))) / (12 * h);
        const ld d1 = (ref.pos(a.a, a) - ref.pos(b.a, b)).norm() / (2 * h), d2 = (ref.pos(a.b, a) - ref.pos(b.b, b)).norm() / (2 * h);
        // exact but for the documented omission: the Earth-rotation term's own change with position
        const ld tol = gain * k * (8e-6L * (d1 + d2) + 1e-6L) + 1e-8L * fabsl(d) + 1e-12L;
        VT_REQ((double)fabsl(d - got) <= (double)tol, "by %s %d: %.9g, derivative is %.9g (allowed %.3g)", what, i, (double)got, (double)d, (double)tol);
    };
    auto row = [](const double* j, const V8& d) { ld x = 0; for (int i = 0; i < 8; ++i) x += j[i] * d(i); return x; };
    for (int i = 0; i < 6; ++i)
    {
        const ld h = i < 3 ? 1e-3L : 1e-1L;
        if (want[0]) test([&](Params& p, ld e) { p.a = p.a.moved(i, e); }, h, row(j0, p0.a.param_dir(i)), "first pose", i);
        if (want[1]) test([&](Params& p, ld e) { p.b = p.b.moved(i, e); }, h, row(j1, p0.b.param_dir(i)), "second pose", i);
        if (want[6]) test([&](Params& p, ld e) { p.r2n = p.r2n.moved(i, e); }, h, row(j6, p0.r2n.param_dir(i)), "reference frame", i);
    }
    for (int i = 0; i < 3; ++i)
        if (want[7]) test([&](Params& p, ld e) { p.lever(i) += e; }, 1e-1L, j7[i], "lever arm", i);
    if (want[2])
    {
        test([&](Params& p, ld e) { p.c1 += e; }, 1.0L, j2[0], "first clock", 0);
        VT_REQ(j2[1] == 0, "by first drift: %g", j2[1]);
    }
    if (want[3])
    {
        test([&](Params& p, ld e) { p.c2 += e; }, 1.0L, j3[0], "second clock", 0);
        VT_REQ(j3[1] == 0, "by second drift: %g", j3[1]);
    }
    for (int q = 0; q < 2; ++q)
        if (want[4 + q])
        {
            // linear in each switch
            Case a = c, b = c;
            (q ? a.sw2 : a.sw1) = 0;
            (q ? b.sw2 : b.sw1) = 1;
            const double d = evaluate(f, b) - evaluate(f, a);
            VT_REQ(std::abs(d - *jac[4 + q]) <= 1e-9 * (1 + std::abs(d)), "by switch %d: %.9g, on minus off is %.9g", q + 1, *jac[4 + q], d);
        }
}
static std::unique_ptr<RelativeCarrierPhase> __attribute__((noinline)) from_temporaries(const Case& c)
{
    DQ* T = new DQ(c.T_e2r);
    auto* o1 = new meas::GnssObservation(c.obs1);
    auto* o2 = new meas::GnssObservation(c.obs2);
    double* Xi = new double(c.Xi);
    std::unique_ptr<RelativeCarrierPhase> f(new RelativeCarrierPhase(*o1, *o2, *c.o.sat, Vec3(c.rec), *T, *Xi));
    T->arr_.setConstant(1);
    *Xi = -7;
    delete T;
    delete o1;
    delete o2;
    delete Xi;
    return f;
}
VT_PROP(own_copy, 300, 4000)
{
    const Case c = gen(s);
    s.nontrivial();
    const auto f = from_temporaries(c);
    const RelativeCarrierPhase g(c.obs1, c.obs2, *c.o.sat, c.rec, c.T_e2r, c.Xi);
    VT_REQ(evaluate(*f, c) == evaluate(g, c), "a model built from temporaries gives another residual");
}
// observations of another satellite, constellation or frequency are refused
VT_PROP(mismatch, 60, 400)
{
    Case c = gen(s);
    const int what = s.irange(0, 6);
    s.label(std::to_string(what).c_str());
    switch (what)
    {
    case 0: c.obs1.sat_num += s.irange(1, 5); break;
    case 1: c.obs2.sat_num += s.irange(1, 5); break;
    case 2: c.obs1.gnss_id = (c.obs1.gnss_id + 1) % 8; break;
    case 3: c.obs2.gnss_id = (c.obs2.gnss_id + 1) % 8; break;
    case 4: c.obs2.freq = c.freq == 0 ? 1 : 0; break;
    case 5: c.obs1.sat_num = c.obs2.sat_num = c.obs1.sat_num + 1; break;
    default: break;
    }
    if (what < 6) s.nontrivial();
    const auto r = vt::in_child([&] {
        const RelativeCarrierPhase f(c.obs1, c.obs2, *c.o.sat, c.rec, c.T_e2r, c.Xi);
        return std::string("built");
    });
    if (what == 6) VT_REQ(r.data == "built", "matching observations are refused");
    else VT_REQ(r.refused(), "observations that do not match (%d) are accepted", what);
}
