// K05: states of generated filters are manifold elements, and copies are faithful
#include "fg.h"
using namespace fg;
static VX step(vt::Src& s, const Counts& c, double m) { return fg::gen_vec(s, c.total, m); }
// an error step whose rotations stay below half a turn
static VX small_step(vt::Src& s, const Counts& c, double mrot, double mother)
{
    VX d(c.total);
    for (int k = 0; k < NST; ++k)
        for (int i = 0; i < c.count(k); ++i)
            for (int q = 0; q < ST[k].dx; ++q)
            {
                const double m = ST[k].type != 0 && q < 3 ? mrot / 1.8 : mother;
                d(c.at[k] + i * ST[k].dx + q) = s.chance(0.15) ? 0.0 : s.sym(m);
            }
    return d;
}
// distance between two steps, relative to `size` per element
static void require_step(const VX& got, const VX& want, const Counts& c, double tol, const std::vector<double>& size, const char* what)
{
    int at = 0;
    for (int k = 0; k < NST; ++k)
        for (int i = 0; i < c.count(k); ++i, ++at)
            for (int q = 0; q < ST[k].dx; ++q)
            {
                const int j = c.at[k] + i * ST[k].dx + q;
                VT_REQ(std::abs(got(j) - want(j)) <= tol * (1 + size[at]), "%s: %s[%d] component %d is %.17g, not %.17g", what, ST[k].name, i, q, got(j), want(j));
            }
}
// size of each element, which limits how exactly steps can be recovered
static std::vector<double> sizes(const State& x, const Counts& c)
{
    std::vector<double> v;
    each(const_cast<State&>(x), [&](int k, int i, auto& e) {
        if (i >= c.count(k)) return;
        using T = std::decay_t<decltype(e)>;
        if constexpr (IsVec<T>::value) v.push_back(e.norm());
        else v.push_back((double)mat_of(e).template topRightCorner<3, 1>().norm());
    });
    return v;
}
// fill every element beyond the active ones as well
static State busy_state(vt::Src& s, Counts& c)
{
    c = gen_counts(s);
    Counts all = c;
    for (int k = 0; k < NST; ++k)
        if (ST[k].vi >= 0) all.n[ST[k].vi] = ST[k].max;
    all.lay();
    State x = fg::gen_state(s, all);
    set_counts(x, c.n);
    return x;
}
static bool same_step(const Err& a, const Err& b)
{
    // every stored number
    Counts all;
    for (int k = 0; k < NST; ++k)
        if (ST[k].vi >= 0) all.n[ST[k].vi] = ST[k].max;
    all.lay();
    return same_bits(fg::dense(a, all), fg::dense(b, all));
}
VT_PROP(inverse, 3000, 30000)
{
    Counts c = gen_counts(s);
    const State x = fg::gen_state(s, c);
    const VX d = small_step(s, c, s.pick({1.0, 3.0, 1e-3, 1e-8}), s.pick({1.0, 10.0, 1e-6}));
    const State y = x + fg::sparse(c, d, 0.25);
    require_moved(y, x, d, c, 1e-12, "x + dx");
    VT_REQ(y.t.sec == x.t.sec && y.t.nsec == x.t.nsec, "adding an error changes the time");
    State z = x;
    State& ret = (z += fg::sparse(c, d, 0.25));
    VT_REQ(&ret == &z && same_raw(z, y, c), "x += dx differs from x + dx");
    std::vector<double> sz = sizes(x, c);
    for (auto& v : sz) v += d.norm();
    require_step(fg::dense(y - x, c), d, c, 1e-10, sz, "(x + dx) - x");
    require_step(fg::dense(x - x, c), VX::Zero(c.total), c, 1e-7, sz, "x - x");
    const State u = x + Err::Zero();
    require_moved(u, x, VX::Zero(c.total), c, 1e-15, "x + 0");
    s.note("%d states of total size %d", NST, c.total);
    if (d.norm() > 0) s.nontrivial();
}
template <typename E>
static M4 from_of(const State& x, int k, int i)
{
    M4 m = M4::Identity();
    each(const_cast<State&>(x), [&](int k2, int i2, auto& e) {
        if constexpr (!IsVec<std::decay_t<decltype(e)>>::value)
            if (k2 == k && i2 == i) m = mat_of(e);
    });
    return m;
}
VT_PROP(difference, 3000, 30000)
{
    Counts c = gen_counts(s);
    State x = fg::gen_state(s, c), y = fg::gen_state(s, c);
    const Err d = y - x;
    const State z = x + d;
    // z against y: the same elements
    std::vector<double> a, b;
    double w = 0;
    each(const_cast<State&>(z), [&](int k, int i, auto& e) {
        if (i >= c.count(k)) return;
        using E = std::decay_t<decltype(e)>;
        each(y, [&](int k2, int i2, auto& f) {
            using F = std::decay_t<decltype(f)>;
            if constexpr (std::is_same_v<E, F>)
                if (k2 == k && i2 == i)
                {
                    double n;
                    if constexpr (IsVec<E>::value) n = (e - f).norm() / (1 + e.norm() + f.norm());
                    else
                    {
                        const M4 me = mat_of(e), mf = mat_of(f);
                        const M4 m = me - mf;
                        n = (double)(m.topLeftCorner<3, 3>().norm() + m.topRightCorner<3, 1>().norm() / (1 + me.topRightCorner<3, 1>().norm() + mf.topRightCorner<3, 1>().norm()));
                        // nearly opposite orientations have two logarithms
                        const M4 rel = from_of<E>(x, k, i).inverse() * mf;
                        if (rel.topLeftCorner<3, 3>().trace() < -0.995L) return;
                    }
                    w = std::max(w, n);
                    VT_REQ(n <= 1e-6, "x + (y - x) differs from y in %s[%d] by %.3g", ST[k].name, i, n);
                }
        });
    });
    s.note("%d states of total size %d, off by %.2g", NST, c.total, w);
    s.nontrivial();
}
VT_PROP(error_algebra, 1500, 15000)
{
    Counts c = gen_counts(s);
    const double m = s.pick({1.0, 1e3, 1e-3});
    const VX a = step(s, c, m), b = step(s, c, m);
    const Err ea = fg::sparse(c, a, s.sym(1)), eb = fg::sparse(c, b, s.sym(1));
    const double k = s.pick({0.0, 1.0, -1.0, 0.5, s.sym(100)});
    VT_REQ(same_bits(fg::dense(ea + eb, c), a + b), "sum of error states");
    VT_REQ(same_bits(fg::dense(ea - eb, c), a - b), "difference of error states");
    VT_REQ(same_bits(fg::dense(ea * k, c), a * k), "multiple of an error state");
    Err z = ea;
    Err& r = (z += eb);
    VT_REQ(&r == &z && same_bits(fg::dense(z, c), a + b), "error state increment");
    if (k != 0)
    {
        const VX q = fg::dense(ea / k, c);
        for (int i = 0; i < c.total; ++i) VT_REQ(std::abs(q(i) - a(i) / k) <= 4e-16 * std::abs(a(i) / k), "quotient of an error state %.17g, not %.17g", q(i), a(i) / k);
    }
    VT_REQ(same_bits(MX(all_of(ea, c.n)), a), "dense error state");
    VT_REQ(same_bits(fg::dense(Err::Zero(), c), VX::Zero(c.total)), "zero error state");
    VT_REQ(same_bits(fg::dense(Err::Constant(k), c), VX::Constant(c.total, k)), "constant error state");
    z.setZero();
    VT_REQ(same_step(z, Err::Zero()), "setZero");
    // the vector of all elements, the unused ones included
    Counts all;
    for (int i = 0; i < NST; ++i)
        if (ST[i].vi >= 0) all.n[ST[i].vi] = ST[i].max;
    all.lay();
    const VX v = step(s, all, m);
    VT_REQ(all.total == Err::DOF && all.total == State::DOF, "degrees of freedom %d, not %d", Err::DOF, all.total);
    const Eigen::Matrix<double, Err::DOF, 1> fixed = v;
    VT_REQ(same_bits(fg::dense(Err::fromDense(fixed), all), v), "error state from a vector");
    VT_REQ(same_bits(MX(all_of(Err::fromDense(fixed), all.n)), v), "vector from an error state");
    const Err copy = ea;
    VT_REQ(same_step(copy, ea), "copied error state");
    s.note("total size %d of %d", c.total, all.total);
    if (c.total > 1) s.nontrivial();
}
VT_PROP(inputs, 500, 5000)
{
    Input a = fg::gen_input(s), b = fg::gen_input(s);
    const VX va = full(a), vb = full(b);
    const double k = s.sym(10);
    VT_REQ(Input::DOF == va.size(), "input size %d", Input::DOF);
    VT_REQ(same_bits(full(a + b), va + vb), "sum of inputs");
    VT_REQ(same_bits(full(a * k), va * k), "multiple of an input");
    VT_REQ(same_bits(MX(a.dense()), va), "dense input");
    const Eigen::Matrix<double, Input::DOF, 1> f = vb;
    VT_REQ(same_bits(full(Input::fromDense(f)), vb), "input from a vector");
    a += b;
    VT_REQ(same_bits(full(a), va + vb), "input increment");
    VT_REQ(full(Input::Zero()).isZero(0), "zero input");
    s.note("%d inputs", NIN);
    s.nontrivial();
}
VT_PROP(copies, 1500, 15000)
{
    Counts c, o;
    State x = busy_state(s, c);
    State y = busy_state(s, o);
    const State orig = x;  // copy construction
    VT_REQ(same_raw(orig, x, c), "a copy differs from its original");
    const int how = s.irange(0, 3);
    if (how == 0) y = x;
    else if (how == 1)
    {
        State t(x);
        y = t;
    }
    else if (how == 2)
    {
        Snapshot a, b;
        a.x = x;
        a.u = fg::gen_input(s);
        a.cov = Covariance::Random();
        b.x = y;
        b = a;
        VT_REQ(same_bits(full(a.u), full(b.u)), "the input of a copied snapshot differs");
        Counts all = c;
        VT_REQ(same_bits(fg::dense(a.cov, all), fg::dense(b.cov, all)), "the covariance of a copied snapshot differs");
        const Snapshot d(b);
        VT_REQ(same_bits(full(a.u), full(d.u)) && same_bits(fg::dense(a.cov, all), fg::dense(d.cov, all)), "a copied snapshot differs");
        y = d.x;
    }
    else
    {
        std::vector<State> v(3, y);
        v[1] = x;
        v.push_back(x);
        v.insert(v.begin(), y);
        y = v.back();
    }
    VT_REQ(same_raw(y, x, c), "an assigned state differs");
    // independent: changing one leaves the other
    const VX d = VX::Constant(c.total, 1.0);
    y += fg::sparse(c, d);
    y.t = UTCTime(5, 5);
    VT_REQ(same_raw(orig, x, c), "changing a copy changes its original");
    x = static_cast<const State&>(x);
    VT_REQ(same_raw(orig, x, c), "assigning a state to itself changes it");
    s.note("%d states of total size %d over %d", NST, c.total, o.total);
    if (c.total > 0) s.nontrivial();
}
VT_PROP(identity, 300, 3000)
{
    Counts c = gen_counts(s);
    State x = fg::gen_state(s, c);
    int sum = 0;
    for (int k = 0; k < NST; ++k) sum += c.dim(k);
    VT_REQ(x.size() == sum, "size of the state is %d, its elements have %d", (int)x.size(), sum);
    State e = State::Identity();
    set_counts(e, c.n);
    require_moved(e, e, VX::Zero(c.total), c, 0, "identity");
    each(e, [&](int k, int i, auto& el) {
        using T = std::decay_t<decltype(el)>;
        if constexpr (IsVec<T>::value) VT_REQ(el.isZero(0), "%s[%d] of the identity is not zero", ST[k].name, i);
        else VT_REQ((mat_of(el) - M4::Identity()).norm() == 0, "%s[%d] of the identity is not the identity", ST[k].name, i);
    });
    // x = identity + (x - identity)
    x.t = UTCTime(7, 9);
    x.setIdentity();
    each(x, [&](int k, int i, auto& el) {
        using T = std::decay_t<decltype(el)>;
        if constexpr (IsVec<T>::value) VT_REQ(el.isZero(0), "%s[%d] after setIdentity is not zero", ST[k].name, i);
        else VT_REQ((mat_of(el) - M4::Identity()).norm() == 0, "%s[%d] after setIdentity is not the identity", ST[k].name, i);
    });
    // a random state is on its manifolds
    const State r = State::Random();
    each(const_cast<State&>(r), [&](int k, int i, auto& el) {
        using T = std::decay_t<decltype(el)>;
        if constexpr (!IsVec<T>::value)
        {
            const M4 m = mat_of(el);
            const double w = (double)(m.topLeftCorner<3, 3>() * m.topLeftCorner<3, 3>().transpose() - M3::Identity()).norm();
            VT_REQ(w <= 1e-9, "%s[%d] of a random state is not a rotation, by %.3g", ST[k].name, i, w);
        }
    });
    const MX I = fg::dense(Covariance::Identity(), c);
    VT_REQ(same_bits(I, MX::Identity(c.total, c.total)), "identity covariance");
    s.note("total size %d", c.total);
    if (c.total > 1) s.nontrivial();
}
