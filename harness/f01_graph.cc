// F01: the building blocks of the factor graph stand for exactly the variables they were given
#include <list>
#include "core/factor_graph.h"
#include "core/factors/factors.h"
#include "core/states/states.h"
#include "vt.h"
using namespace mc;
using DQ = math::DQuat<double>;

static double value(vt::Src& s) { return s.flip() ? s.sym(10) : s.logu(1e-9, 1e9) * (s.flip() ? -1 : 1); }
template <typename V>
static V values(vt::Src& s)
{
    V v;
    for (int i = 0; i < v.size(); ++i) v(i) = value(s);
    return v;
}
static DQ pose(vt::Src& s)
{
    Vec6 v;
    for (int i = 0; i < 6; ++i) v(i) = s.sym(i < 3 ? 1.7 : 1000.0);
    return DQ::exp(v);
}
static UTCTime instant(vt::Src& s)
{
    UTCTime t(0);
    t.sec = s.range(0, 4000000000LL);
    t.nsec = s.range(0, 999999999);
    return t;
}

// ---- every variable of a graph, with the numbers it should hold
struct Var
{
    int kind;   // in the order of the pool below
    std::unique_ptr<states::State> st;
    std::vector<double> want;
};
using states::AntennaPosition;
using states::ClockBias;
using states::Pose;
using states::Velocity;
static const int DIMS[] = {8, 3, 2, 3, 6, 1};
static Var make(int kind)
{
    Var v;
    v.kind = kind;
    switch (kind)
    {
    case 0: v.st.reset(new Pose); break;
    case 1: v.st.reset(new Velocity); break;
    case 2: v.st.reset(new ClockBias); break;
    case 3: v.st.reset(new AntennaPosition); break;
    case 4: v.st.reset(new states::ImuBias); break;
    default: v.st.reset(new states::GnssSwitch); break;
    }
    return v;
}
// through the member a user of the variable works with
static void set_member(Var& v, vt::Src& s)
{
    v.want.clear();
    auto keep = [&](auto&& m) { for (int i = 0; i < m.size(); ++i) v.want.push_back(m(i)); };
    switch (v.kind)
    {
    case 0:
    {
        const DQ p = pose(s);
        static_cast<Pose&>(*v.st).pose = p;
        keep(p.arr_);
        break;
    }
    case 1: keep(static_cast<Velocity&>(*v.st).vel = values<Vec3>(s)); break;
    case 2: keep(static_cast<ClockBias&>(*v.st).clk = values<Vec2>(s)); break;
    case 3: keep(static_cast<AntennaPosition&>(*v.st).p_b2g = values<Vec3>(s)); break;
    case 4: keep(static_cast<states::ImuBias&>(*v.st).bias = values<Vec6>(s)); break;
    default: v.want = {static_cast<states::GnssSwitch&>(*v.st).sw = value(s)}; break;
    }
}
static std::vector<double> get_member(const Var& v)
{
    std::vector<double> o;
    auto keep = [&](auto&& m) { for (int i = 0; i < m.size(); ++i) o.push_back(m(i)); };
    switch (v.kind)
    {
    case 0: keep(static_cast<const Pose&>(*v.st).pose.arr_); break;
    case 1: keep(static_cast<const Velocity&>(*v.st).vel); break;
    case 2: keep(static_cast<const ClockBias&>(*v.st).clk); break;
    case 3: keep(static_cast<const AntennaPosition&>(*v.st).p_b2g); break;
    case 4: keep(static_cast<const states::ImuBias&>(*v.st).bias); break;
    default: o = {static_cast<const states::GnssSwitch&>(*v.st).sw}; break;
    }
    return o;
}
struct Fac
{
    std::vector<int> vars;   // what it was built from, in order
    std::vector<std::reference_wrapper<const states::State>> (*items)(const void*);
    std::vector<const states::State*> (*bases)(const void*), (*typed)(const void*), (*named)(const void*);
    std::shared_ptr<void> f;
    std::string name;
};
template <typename F, size_t... I>
static Fac wrap(F* f, std::vector<int> vars, const char* name, std::index_sequence<I...>, std::vector<const states::State*> (*named)(const void*))
{
    Fac r;
    r.vars = vars;
    r.name = name;
    r.f.reset(f, [](void* p) { delete (F*)p; });
    r.items = [](const void* p) {
        const factors::Factor* b = (const F*)p;
        return std::vector<std::reference_wrapper<const states::State>>(b->base_items());
    };
    r.bases = [](const void* p) { return std::vector<const states::State*>{((const F*)p)->template get_base<I>()...}; };
    r.typed = [](const void* p) { return std::vector<const states::State*>{&((const F*)p)->template get<I>()...}; };
    r.named = named;
    return r;
}
VT_PROP(variables_and_factors, 4000, 100000)
{
    std::vector<Var> vars;
    // at least one of each kind, so that every factor can be built
    for (int k = 0; k < 6; ++k)
        for (int n = s.irange(1, 3); n > 0; --n) vars.push_back(make(k));
    for (auto& v : vars) set_member(v, s);
    std::vector<Fac> facs;
    auto some = [&](int kind) {
        std::vector<int> ix;
        for (size_t i = 0; i < vars.size(); ++i)
            if (vars[i].kind == kind) ix.push_back((int)i);
        return s.pickv(ix);
    };
    bool twice = false;
    int built = 0, changed = 0;
    for (int step = s.irange(1, 30); step > 0; --step)
    {
        switch (s.weighted({3, 3, 3, 2}))
        {
        case 0:   // through the member
        {
            set_member(vars[s.draw(vars.size() - 1)], s);
            ++changed;
            break;
        }
        case 1:   // through the generic interface, as a solver does
        {
            Var& v = vars[s.draw(vars.size() - 1)];
            const int i = (int)s.draw(DIMS[v.kind] - 1);
            v.want[i] = value(s);
            v.st->data()[i] = v.want[i];
            ++changed;
            break;
        }
        case 2:
        {
            ++built;
            auto P = [&](int i) -> Pose& { return static_cast<Pose&>(*vars[i].st); };
            auto V = [&](int i) -> Velocity& { return static_cast<Velocity&>(*vars[i].st); };
            auto C = [&](int i) -> ClockBias& { return static_cast<ClockBias&>(*vars[i].st); };
            auto A = [&](int i) -> AntennaPosition& { return static_cast<AntennaPosition&>(*vars[i].st); };
            auto B = [&](int i) -> states::ImuBias& { return static_cast<states::ImuBias&>(*vars[i].st); };
            auto S = [&](int i) -> states::GnssSwitch& { return static_cast<states::GnssSwitch&>(*vars[i].st); };
            std::vector<int> ix;
            switch (s.draw(3))
            {
            case 0:
                ix = {some(0), some(1), some(2), some(3)};
                facs.push_back(wrap(new factors::Gnss(P(ix[0]), V(ix[1]), C(ix[2]), A(ix[3])), ix, "Gnss", std::make_index_sequence<4>(), [](const void* p) {
                    auto& f = *(const factors::Gnss*)p;
                    return std::vector<const states::State*>{&f.pose, &f.vel, &f.clock_bias, &f.antenna_position};
                }));
                break;
            case 1:
                ix = {some(0), some(0), some(1), some(1), some(4)};
                facs.push_back(wrap(new factors::Imu(P(ix[0]), P(ix[1]), V(ix[2]), V(ix[3]), B(ix[4])), ix, "Imu", std::make_index_sequence<5>(), [](const void* p) {
                    auto& f = *(const factors::Imu*)p;
                    return std::vector<const states::State*>{&f.pose1, &f.pose2, &f.vel1, &f.vel2, &f.imu_bias};
                }));
                break;
            case 2:
                ix = {some(0), some(0), some(3), some(2), some(2), some(5), some(5)};
                facs.push_back(wrap(new factors::RelativeCarrierPhase(P(ix[0]), P(ix[1]), A(ix[2]), C(ix[3]), C(ix[4]), S(ix[5]), S(ix[6])), ix, "RelativeCarrierPhase", std::make_index_sequence<7>(), [](const void* p) {
                    auto& f = *(const factors::RelativeCarrierPhase*)p;
                    return std::vector<const states::State*>{&f.pose1, &f.pose2, &f.antenna_position, &f.clock_bias1, &f.clock_bias2, &f.switch1, &f.switch2};
                }));
                break;
            default:
                ix = {some(5), some(5)};
                facs.push_back(wrap(new factors::GnssSwitch(S(ix[0]), S(ix[1])), ix, "GnssSwitch", std::make_index_sequence<2>(), [](const void* p) {
                    auto& f = *(const factors::GnssSwitch*)p;
                    return std::vector<const states::State*>{&f.switch1, &f.switch2};
                }));
                break;
            }
            std::set<int> u(ix.begin(), ix.end());
            twice |= u.size() < ix.size();
            s.note("%s of %zu variables", facs.back().name.c_str(), ix.size());
            break;
        }
        default:
            if (!facs.empty()) facs.erase(facs.begin() + s.draw(facs.size() - 1));
            break;
        }
        std::set<const double*> seen;
        for (auto& v : vars)
        {
            VT_REQ(v.st->DIM == DIMS[v.kind], "variable of kind %d has %d numbers, not %d", v.kind, (int)v.st->DIM, DIMS[v.kind]);
            const states::State& c = *v.st;
            VT_REQ(c.data() == v.st->data(), "kind %d reads from another place than it is written to", v.kind);
            for (int i = 0; i < DIMS[v.kind]; ++i)
            {
                VT_REQ(c.data()[i] == v.want[i], "kind %d number %d is %.17g, not %.17g", v.kind, i, c.data()[i], v.want[i]);
                VT_REQ(seen.insert(&c.data()[i]).second, "two variables share memory");
            }
            VT_REQ(get_member(v) == v.want, "kind %d: the member differs from the generic view", v.kind);
            for (auto& w : vars) VT_REQ((w.st->ID == v.st->ID) == (w.kind == v.kind), "kinds %d and %d: identifiers %d and %d", v.kind, w.kind, (int)v.st->ID, (int)w.st->ID);
        }
        for (auto& f : facs)
        {
            const auto it = f.items(f.f.get());
            const auto ba = f.bases(f.f.get()), ty = f.typed(f.f.get()), na = f.named(f.f.get());
            VT_REQ(it.size() == f.vars.size(), "%s lists %zu variables, was built from %zu", f.name.c_str(), it.size(), f.vars.size());
            for (size_t i = 0; i < f.vars.size(); ++i)
            {
                const states::State* want = vars[f.vars[i]].st.get();
                VT_REQ(&it[i].get() == want, "%s: item %zu is another variable", f.name.c_str(), i);
                VT_REQ(ba[i] == want, "%s: base %zu is another variable", f.name.c_str(), i);
                VT_REQ(ty[i] == want, "%s: get %zu is another variable", f.name.c_str(), i);
                VT_REQ(na[i] == want, "%s: member %zu is another variable", f.name.c_str(), i);
                const double* d = it[i].get().data();
                for (int k = 0; k < DIMS[vars[f.vars[i]].kind]; ++k) VT_REQ(d[k] == vars[f.vars[i]].want[k], "%s sees an old value", f.name.c_str());
            }
        }
    }
    if (built > 0 && changed > 0) s.nontrivial();
    if (twice) s.label("one variable in two roles");
}

// ---- a graph starts at the node its options describe, and stays so whatever happens to the options
struct Graphs
{
    EIGEN_MAKE_ALIGNED_OPERATOR_NEW
    core::FactorGraph::Options o;
};
VT_PROP(first_node, 3000, 60000)
{
    struct Want { UTCTime t; Vec8 x; Vec3 v; Vec2 c; };
    std::vector<Want> want;
    std::vector<std::unique_ptr<core::FactorGraph>> gs;
    std::unique_ptr<Graphs> g(new Graphs);
    const core::FactorGraph::Options fresh;
    VT_REQ(fresh.x0_.arr_ == DQ::identity().arr_ && fresh.vel0_.isZero(0) && fresh.clk0_.isZero(0), "the default start is not at rest at the origin");
    VT_REQ(fresh.T_e2r_.arr_ == DQ::identity().arr_ && fresh.T_r2n0_.arr_ == DQ::identity().arr_ && fresh.p_b2g0_.isZero(0) && fresh.imu_bias0_.isZero(0), "the default frames and calibration are not neutral");
    const int n = s.irange(1, 5);
    for (int i = 0; i < n; ++i)
    {
        if (s.flip()) g.reset(new Graphs);
        core::FactorGraph::Options& o = g->o;
        o.t0_ = instant(s);
        if (s.chance(0.8)) o.x0_ = pose(s);
        if (s.chance(0.8)) o.vel0_ = values<Vec3>(s);
        if (s.chance(0.8)) o.clk0_ = values<Vec2>(s);
        o.imu_bias0_ = values<Vec6>(s);
        o.p_b2g0_ = values<Vec3>(s);
        o.T_r2n0_ = pose(s);
        o.T_e2r_ = pose(s);
        o.Xi_r2n_ = values<Vec6>(s);
        core::ImuBias b = o.imu_bias0_;
        VT_REQ(b.accel() == Vec3(o.imu_bias0_(0), o.imu_bias0_(1), o.imu_bias0_(2)) && b.gyro() == Vec3(o.imu_bias0_(3), o.imu_bias0_(4), o.imu_bias0_(5)), "the bias is divided wrongly");
        b.gyro() = Vec3(1, 2, 3);
        VT_REQ(b(3) == 1 && b(4) == 2 && b(5) == 3 && b(0) == o.imu_bias0_(0), "writing the gyro bias changed something else");
        want.push_back({o.t0_, o.x0_.arr_, o.vel0_, o.clk0_});
        gs.emplace_back(new core::FactorGraph(o));
    }
    if (s.flip())
    {
        g->o.x0_ = pose(s);
        g->o.vel0_.setConstant(77);
        g->o.clk0_.setConstant(77);
        g->o.t0_ = UTCTime(1);
    }
    if (s.flip()) g.reset();
    for (int i = 0; i < n; ++i)
    {
        const core::Node& d = gs[i]->lastNode();
        VT_REQ(d.t.sec == want[i].t.sec && d.t.nsec == want[i].t.nsec, "graph %d starts at another time", i);
        VT_REQ(d.T_n2b.arr_ == want[i].x, "graph %d starts at another pose", i);
        VT_REQ(d.vel == want[i].v, "graph %d starts with another velocity", i);
        VT_REQ(d.clk == want[i].c, "graph %d starts with another clock", i);
        for (double w : d.sw) VT_REQ(w == 1.0, "graph %d starts with a switch at %g", i, w);
    }
    if (n > 1) s.nontrivial();
}
