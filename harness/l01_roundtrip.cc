#include "loggen.h"

// sequences of values of any types: read back equal, byte for byte consumed
VT_PROP(sequences, 3000, 60000)
{
    const int n = s.irange(1, 12);
    std::vector<ItemP> v;
    std::ostringstream o;
    std::vector<size_t> ends;
    bool compound = false;
    for (int i = 0; i < n; ++i)
    {
        const size_t k = s.draw(makers().size() - 1);
        v.push_back(makers()[k](s));
        compound |= k >= 27;
        if (i < 4) s.note("%s", v.back()->type());
        v.back()->write(o);
        ends.push_back(o.str().size());
    }
    std::istringstream is(o.str());
    for (int i = 0; i < n; ++i)
    {
        const std::string d = v[i]->read_back(is);
        VT_REQ(d.empty(), "value %d of type %s: %s", i, v[i]->type(), d.c_str());
        VT_REQ(is.good() && (size_t)is.tellg() == ends[i], "value %d of type %s: read to %lld, written to %zu", i, v[i]->type(), (long long)is.tellg(), ends[i]);
    }
    if (n > 1 && compound) s.nontrivial();
}

// values that are not what they are kept in: quantised times, matrices of run-time size, maps, blocks and other expressions
VT_PROP(other_values, 2000, 40000)
{
    std::ostringstream o;
    switch (s.draw(5))
    {
    case 0:
    {
        UTCTime t;
        Ty<UTCTime>::gen(s, t);
        QuantizedTime q, r;
        q = t;
        logging::log(o, q, q);
        std::istringstream is(o.str());
        UTCTime u;
        logging::read(is, r, u);
        s.note("quantised %s", show(t).c_str());
        VT_REQ(is.good() && (size_t)is.tellg() == o.str().size(), "reads %lld of %zu", (long long)is.tellg(), o.str().size());
        VT_REQ(r.sec == q.sec && r.nsec == q.nsec && u.sec == q.sec && u.nsec == q.nsec, "quantised time %s", show(r).c_str());
        s.nontrivial();
        break;
    }
    case 1:
    {
        const bool large = s.chance(0.1);
        const int r = large ? s.irange(20, 60) : s.irange(1, 9), c = large ? s.irange(10, 60) : s.irange(1, 9);
        MatX m(r, c), y(r, c);
        for (int i = 0; i < r * c; ++i) m(i % r, i / r) = gen_scalar<double>(s);
        VecX v(large ? s.irange(400, 3000) : s.irange(1, 20));
        for (int i = 0; i < v.size(); ++i) v(i) = gen_scalar<double>(s);
        logging::log(o, m, v);
        std::istringstream is(o.str());
        VecX w(v.size());
        logging::read(is, y, w);
        s.note("dynamic %dx%d", r, c);
        for (int i = 0; i < r; ++i)
            for (int j = 0; j < c; ++j) VT_REQ(same_num(m(i, j), y(i, j), 0), "(%d,%d)", i, j);
        for (int i = 0; i < v.size(); ++i) VT_REQ(same_num(v(i), w(i), 0), "(%d)", i);
        VT_REQ((size_t)is.tellg() == o.str().size(), "reads %lld of %zu", (long long)is.tellg(), o.str().size());
        s.nontrivial();
        break;
    }
    case 2:
    {
        double buf[12], out[12];
        for (double& x : buf) x = gen_scalar<double>(s);
        Eigen::Map<Eigen::Matrix<double, 3, 4>> a(buf), b(out);
        logging::log(o, a);
        std::istringstream is(o.str());
        logging::read(is, b);
        s.note("map");
        for (int i = 0; i < 12; ++i) VT_REQ(same_num(buf[i], out[i], 0), "[%d]", i);
        VT_REQ((size_t)is.tellg() == o.str().size(), "size");
        break;
    }
    default:
    {
        Eigen::Matrix<double, 4, 5> m;
        for (int i = 0; i < 20; ++i) m(i % 4, i / 4) = s.sym(100);
        const int k = s.irange(0, 5), r = s.irange(0, 1), c = s.irange(0, 2);
        MatX want;
        s.note("expression %d at %d,%d", k, r, c);
        switch (k)
        {
        case 0: logging::log(o, m.row(r)); want = m.row(r); break;
        case 1: logging::log(o, m.col(c)); want = m.col(c); break;
        case 2: logging::log(o, m.block<2, 3>(r, c)); want = m.block<2, 3>(r, c); break;
        case 3: logging::log(o, m.transpose()); want = m.transpose(); break;
        case 4: logging::log(o, m.row(r).transpose()); want = m.row(r).transpose(); break;
        default: logging::log(o, m.transpose() * 2.0); want = m.transpose() * 2.0; break;
        }
        std::istringstream is(o.str());
        MatX y(want.rows(), want.cols());
        logging::read(is, y);
        VT_REQ(is.good() && (size_t)is.tellg() == o.str().size(), "size");
        for (int i = 0; i < want.rows(); ++i)
            for (int j = 0; j < want.cols(); ++j) VT_REQ(y(i, j) == want(i, j), "(%d,%d) %g want %g", i, j, y(i, j), want(i, j));
        s.nontrivial();
    }
    }
}

// reading into values that already hold something, in any state, gives the same
VT_PROP(reused_destination, 800, 16000)
{
    std::ostringstream o;
    const int n = s.irange(2, 5);
    std::vector<math::TwoJet<double>> a(n);
    std::vector<ephemeris::GlonassEphemeris> g(n);
    for (int i = 0; i < n; ++i)
    {
        Ty<math::TwoJet<double>>::gen(s, a[i]);
        Ty<ephemeris::GlonassEphemeris>::gen(s, g[i]);
        logging::log(o, a[i], g[i], a[i].x, a[i].dx);
    }
    std::istringstream is(o.str());
    math::TwoJet<double> x;
    ephemeris::GlonassEphemeris e;
    math::DQuat<double> q;
    math::DQuat<double>::TangentVector t;
    s.note("%d records", n);
    for (int i = 0; i < n; ++i)
    {
        logging::read(is, x, e, q, t);
        Leaves w, r;
        Ty<math::TwoJet<double>>::leaves(w, "x", a[i]), Ty<ephemeris::GlonassEphemeris>::leaves(w, "e", g[i]), Ty<math::DQuat<double>>::leaves(w, "q", a[i].x);
        Ty<math::DQuat<double>::TangentVector>::leaves(w, "t", a[i].dx);
        Ty<math::TwoJet<double>>::leaves(r, "x", x), Ty<ephemeris::GlonassEphemeris>::leaves(r, "e", e), Ty<math::DQuat<double>>::leaves(r, "q", q);
        Ty<math::DQuat<double>::TangentVector>::leaves(r, "t", t);
        const std::string d = diff(w, r);
        VT_REQ(d.empty(), "record %d: %s", i, d.c_str());
    }
    s.nontrivial();
}

