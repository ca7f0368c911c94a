// M02: rigid transforms, as dual quaternions and as rotation-translation pairs
#include "liegen.h"
using namespace lie;
static M4 hom(const M3& R, const V3& t)
{
    M4 m = M4::Identity();
    m.topLeftCorner<3, 3>() = R;
    m.topRightCorner<3, 1>() = t;
    return m;
}
static V3 transl(const DQ& q)  // 2 d r*
{
    const auto& r = q.real();
    const auto& d = q.dual();
    const V3 rv(r.x(), r.y(), r.z()), dv(d.x(), d.y(), d.z());
    return 2 * (dv * (ld)r.w() - rv * (ld)d.w() - dv.cross(rv)) / ((ld)r.arr_.cast<ld>().squaredNorm());
}
static M4 active(const DQ& q) { return hom(active(q.real()), transl(q)); }
static M4 mat(const T3& x) { return hom(x.r_.matrix().cast<ld>(), up(x.t_)); }
static V3 act(const M4& m, const Vec3& p) { return m.topLeftCorner<3, 3>() * up(p) + m.topRightCorner<3, 1>(); }
static M4 inv(const M4& m)
{
    const M3 R = m.topLeftCorner<3, 3>().transpose();
    return hom(R, V3(-(R * m.topRightCorner<3, 1>())));
}
static double dist(const M4& a, const M4& b) { return (double)(a - b).norm(); }
static Vec3 gen_t(vt::Src& s)
{
    const double m = s.weighted({4, 1, 1}) == 0 ? 1.0 : s.logu(1e-9, 1e7);
    return s.chance(0.05) ? Vec3(Vec3::Zero()) : Vec3(s.sym(m), s.sym(m), s.sym(m));
}
static double unit_defect(const DQ& q)
{
    return std::abs(q.real().norm() - 1) + std::abs(q.real().arr_.dot(q.dual().arr_)) / (1 + q.dual().norm());
}
static DQ gen_dq(vt::Src& s)
{
    const Qd r = gen_quat(s);
    return DQ(r, gen_t(s));
}
VT_PROP(dual_points, 20000, 400000)
{
    const Qd r = gen_quat(s);
    const Vec3 t = gen_t(s), p = gen_vec(s);
    const DQ x(r, t);
    const M4 X = hom(active(r), up(t));
    const double sc = 1 + t.norm() + p.norm(), tol = 1e-14 * sc * 4;
    s.note("r %.17g %.17g %.17g %.17g t %s p %s", r.w(), r.x(), r.y(), r.z(), show(t), show(p));
    VT_REQ(unit_defect(x) < 1e-15 * 8, "not a unit dual quaternion");
    VT_REQ((x.translation() - t).norm() <= 1e-14 * t.norm(), "translation %s", show(x.translation()));
    VT_REQ(x.rotation() == r && diff(x.R().matrix(), M3(active(r).transpose())) < 1e-14, "rotation");
    VT_REQ(diff(x.transforma(p), act(X, p)) <= tol, "transforma %s", show(x.transforma(p)));
    VT_REQ(diff(x.transformp(p), act(inv(X), p)) <= tol, "transformp %s", show(x.transformp(p)));
    VT_REQ(diff(Vec3(x.rota(p)), V3(active(r) * up(p))) <= tol && diff(Vec3(x.rotp(p)), V3(active(r).transpose() * up(p))) <= tol, "rota/rotp");
    Eigen::Matrix<double, 3, 2> two;
    two << p, Vec3(p.z(), -p.x(), p.y());
    VT_REQ((x.transforma(two).col(1) - x.transforma(Vec3(two.col(1)))).norm() <= tol && (x.transformp(two).col(0) - x.transformp(p)).norm() <= tol, "column-wise");
    VT_REQ(dist(active(x.inverse()), inv(X)) <= tol && unit_defect(x.inverse()) < 1e-14, "inverse");
    // same transform, other representation
    const T3 y(R3(Mat3(active(r).cast<double>())), t);
    VT_REQ(diff(y.transformp(p), act(X, p)) <= tol && diff(Vec3(y * p), act(X, p)) <= tol, "SE3 transformp");
    VT_REQ(diff(y.transforma(p), act(inv(X), p)) <= tol, "SE3 transforma");
    VT_REQ(diff(y.matrix(), X) <= tol && dist(mat(T3(y.matrix())), mat(y)) == 0, "SE3 matrix");
    VT_REQ(dist(mat(y.inverse()), inv(X)) <= tol, "SE3 inverse");
    VT_REQ(diff(y.R().matrix(), M3(active(r))) < 1e-14 && y.t() == t && y.translation() == t, "SE3 parts");
    // eight numbers in, the same eight numbers out
    const DQ e(x[0], x[1], x[2], x[3], x[4], x[5], x[6], x[7]);
    VT_REQ(e == x, "from eight numbers");
    VT_REQ(e.real() == x.real() && e.dual() == x.dual(), "the parts of a dual quaternion built from eight numbers");
    const DQ f(x.real(), x.dual());
    VT_REQ(f == x, "from its parts");
    // from a homogeneous matrix: its rotation block, and a translation of that length along the rotated column
    Mat4 h = Mat4::Identity();
    h.topLeftCorner<3, 3>() = r.R().matrix();
    h.topRightCorner<3, 1>() = t;
    const DQ g = DQ::from_4x4(h);
    VT_REQ(diff(g.R().matrix(), r.R().matrix()) < 1e-13 && std::abs(g.translation().norm() - t.norm()) <= 1e-13 * t.norm() && g.translation().cross(r.rota(t)).norm() <= 1e-12 * t.squaredNorm(), "from_4x4");
    s.nontrivial();
}
VT_PROP(composition, 20000, 400000)
{
    const DQ a = gen_dq(s), b = gen_dq(s), c = gen_dq(s);
    const M4 A = active(a), B = active(b), C = active(c);
    const double sc = 1 + a.translation().norm() + b.translation().norm() + c.translation().norm(), tol = 2e-14 * sc;
    VT_REQ(dist(active(a * b), A * B) <= tol && a * b == a.otimes(b), "a * b");
    VT_REQ(unit_defect(a * b) < 1e-14, "product is not a unit dual quaternion");
    VT_REQ(dist(active((a * b) * c), active(a * (b * c))) <= tol, "associativity");
    VT_REQ(dist(active(a * a.inverse()), M4::Identity()) <= tol && dist(active(a.inverse() * a), M4::Identity()) <= tol, "a a^-1");
    VT_REQ(a * DQ::Identity() == a && DQ::identity() * a == a && DQ() == DQ::Identity(), "identity");
    const T3 y(R3(Mat3(active(a.real()).cast<double>())), a.translation()), z(R3(Mat3(active(b.real()).cast<double>())), b.translation());
    VT_REQ(dist(mat(y * z), mat(y) * mat(z)) <= tol && dist(mat(y * z), A * B) <= tol, "SE3 product");
    VT_REQ(dist(mat(y * y.inverse()), M4::Identity()) <= tol && dist(mat(T3::Identity()), M4::Identity()) == 0 && dist(mat(T3()), mat(T3::identity())) == 0, "SE3 identity");
    // aliasing, views and copies
    DQ d(a);
    d = d * d;
    VT_REQ(dist(active(d), A * A) <= tol, "a = a * a");
    alignas(32) double raw[8];
    for (int i = 0; i < 8; ++i) raw[i] = b[i];
    DQ view(raw);
    VT_REQ(view == b && view.real() == b.real() && view.dual() == b.dual(), "view");
    view = a;
    bool same = true;
    for (int i = 0; i < 8; ++i) same = same && raw[i] == a[i];
    VT_REQ(same && view.data() == raw, "assignment through a view writes the array");
    DQ copy(view);
    copy = c;
    VT_REQ(raw[0] == a[0] && raw[7] == a[7] && copy.real() == c.real() && copy.dual() == c.dual(), "a copy is independent of the view");
    DQ part;
    part.setReal(a.real());
    part.setDual(a.dual());
    VT_REQ(part == a, "setReal/setDual");
    part = part.inverse();
    VT_REQ(dist(active(part), inv(A)) <= tol, "a = a^-1");
    s.nontrivial();
}
VT_PROP(exp_log, 30000, 600000)
{
    const Vec3 w = gen_rotvec(s), v = gen_t(s);
    const double th = w.norm();
    Vec6 x;
    x << w, v;
    const M4 E = se3exp(up6(x));
    s.note("w %s v %s th %.17g", show(w), show(v), th);
    Mat6 J;
    const double sc = 1e-14 + 1e-13 * v.norm();  // series truncation and cancellation just above its threshold
    const DQ q = DQ::exp(x), ql = DQ::exp<JacobianSide::LEFT>(x, &J), qr = DQ::exp<JacobianSide::RIGHT>(x, &J);
    for (const DQ* p : {&q, &ql, &qr})
    {
        VT_REQ(dist(active(*p), E) <= sc + 2e-14, "dual exp %g", dist(active(*p), E));
        VT_REQ(unit_defect(*p) < 2e-14, "dual exp is not a unit dual quaternion: %g", unit_defect(*p));
    }
    const T3 y = T3::exp(x), yj = T3::exp(x, &J);
    VT_REQ(dist(mat(y), E) <= sc + 2e-14 && dist(mat(yj), E) <= sc + 2e-14, "SE3 exp %g", dist(mat(y), E));
    // least-angle logarithm, inverse of exp; near a half-turn either sense, checked by exponentiating again
    auto chk = [&](const Vec6& l, double tol, const char* what) {
        VT_REQ(std::isfinite(l.norm()), "%s: not finite", what);
        VT_REQ(l.head<3>().norm() <= M_PI + 1e-6, "%s: angle %.9g is not the least", what, l.head<3>().norm());
        if (th < 3.1)
        {
            VT_REQ((l.head<3>() - w).norm() <= tol, "%s: rotation %s", what, show(l.head<3>()));
            VT_REQ((l.tail<3>() - v).norm() <= tol * (1 + 4 * v.norm()), "%s: translation %s", what, show(l.tail<3>()));
        }
        VT_REQ(dist(se3exp(up6(l)), E) <= tol * 4 * (1 + v.norm()), "%s: exp of it is off by %g", what, dist(se3exp(up6(l)), E));
    };
    const Qd r0 = quat_of(w);
    const Vec3 t = Vec3(E(0, 3), E(1, 3), E(2, 3));
    DQ pos(r0, t), neg(quat_of(w, true), t);
    chk(pos.log(), 1e-13, "log");
    chk(neg.log(), 1e-13, "log of -q");
    chk(pos.log<JacobianSide::LEFT>(&J), 1e-13, "log with left Jacobian");
    chk(neg.log<JacobianSide::RIGHT>(&J), 1e-13, "log of -q with right Jacobian");
    if (th > 0 && th < 1e-3)
        for (const DQ* p : {&pos, &neg})
        {
            VT_REQ((p->log().head<3>() - w).norm() <= 1e-13 * th, "rotation part of a small transform");
            VT_REQ((p->log<JacobianSide::LEFT>(&J).head<3>() - w).norm() <= 1e-13 * th, "rotation part of a small transform, with Jacobian");
        }
    const T3 m(R3(Mat3(E.topLeftCorner<3, 3>().cast<double>())), t);
    const double gap = std::max(M_PI - th, 1e-5), tm = 4e-13 + std::min(2e-14 / (gap * gap), 2e-7);
    chk(m.log(), tm, "SE3 log");
    chk(m.log(&J), tm, "SE3 log with Jacobian");
    if (th > 0) s.nontrivial();
    s.label(th < 4e-6 ? "tiny" : th < 2e-3 ? "small" : th > M_PI - 1e-3 ? "near half-turn" : "generic");
}
VT_PROP(adjoint, 15000, 300000)
{
    const DQ a = gen_dq(s);
    const Vec3 w = gen_rotvec(s, false), v = gen_vec(s);
    Vec6 x;
    x << w, v;
    const M4 A = active(a), K = A * se3exp(up6(x)) * inv(A);
    const double sc = (1 + a.translation().norm()) * 1e-13 + v.norm() * 1e-13;
    const Vec6 ax = a.Ad() * x;
    VT_REQ(dist(se3exp(up6(ax)), K) <= sc * 4, "dual adjoint %g", dist(se3exp(up6(ax)), K));
    VT_REQ(dist(active(a * DQ::exp(x) * a.inverse()), K) <= sc * 4, "dual conjugation");
    const T3 y(R3(Mat3(active(a.real()).cast<double>())), a.translation());
    VT_REQ(dist(mat(y * T3::exp(x) * y.inverse()), K) <= sc * 4, "SE3 conjugation");
    VT_REQ((y.Ad() - a.Ad()).norm() <= 1e-13 * (1 + a.translation().norm()), "the adjoints differ");
    s.nontrivial();
}
VT_PROP(long_products, 200, 4000)
{
    DQ q;
    T3 y;
    M4 ref = M4::Identity();
    const int n = s.irange(10, 300);
    double reach = 0;
    for (int i = 0; i < n; ++i)
    {
        Vec6 x;
        x << gen_rotvec(s), Vec3(s.sym(2), s.sym(2), s.sym(2));
        const M4 E = se3exp(up6(x));
        switch (s.irange(0, 2))
        {
        case 0: q = q * DQ::exp(x); y = y * T3::exp(x); ref = ref * E; break;
        case 1: q = DQ::exp(x) * q; y = T3::exp(x) * y; ref = E * ref; break;
        default: q = q.inverse() * DQ::exp(x); y = y.inverse() * T3::exp(x); ref = inv(ref) * E; break;
        }
        reach += x.tail<3>().norm();
    }
    VT_REQ(std::abs(q.real().norm() - 1) < 2e-15 * n, "norm drifted");
    VT_REQ(std::abs(q.real().arr_.dot(q.dual().arr_)) < 1e-14 * n * (1 + reach), "no longer a unit dual quaternion");
    VT_REQ(dist(active(q), ref) < 1e-14 * n * (1 + reach), "accumulated transform is off by %g", dist(active(q), ref));
    VT_REQ(dist(mat(y), ref) < 1e-14 * n * (1 + reach), "accumulated SE3 is off by %g", dist(mat(y), ref));
    const T3 z = y.rectified();
    VT_REQ((z.r_.matrix() * z.r_.matrix().transpose() - Mat3::Identity()).norm() < 1e-14 && z.t_ == y.t_ && (z.r_.matrix() - y.r_.matrix()).norm() < 1e-14 * n, "rectified");
    y.rectify();
    VT_REQ(dist(mat(y), mat(z)) == 0, "rectify");
    s.nontrivial();
}
