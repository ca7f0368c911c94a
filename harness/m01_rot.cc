// M01: rotations, as quaternions and as matrices
#include "liegen.h"
using namespace lie;
static double ang(const M3& a, const M3& b) { return (double)(a - b).norm(); }
VT_PROP(representations, 20000, 400000)
{
    const Qd q = gen_quat(s);
    const M3 A = active(q);
    const Vec3 v = gen_vec(s);
    s.note("q %.17g %.17g %.17g %.17g", q.w(), q.x(), q.y(), q.z());
    const double tol = 1e-13 * v.norm();
    VT_REQ(diff(q.rota(v), V3(A * up(v))) <= tol, "rota");
    VT_REQ(diff(q.rotp(v), V3(A.transpose() * up(v))) <= tol, "rotp");
    Eigen::Matrix<double, 3, 2> two;
    two << v, Vec3(v.y(), -v.x(), 2 * v.z());
    VT_REQ((q.rota(two).col(1) - q.rota(Vec3(two.col(1)))).norm() <= tol && (q.doublerota(two) - q.rota(two)).norm() <= tol * 4, "column-wise rota");
    VT_REQ((q.rotp(two).col(1) - q.rotp(Vec3(two.col(1)))).norm() <= tol && (q.doublerotp(two) - q.rotp(two)).norm() <= tol * 4, "column-wise rotp");
    const R3 R = q.R();
    VT_REQ(diff(R.matrix(), M3(A.transpose())) < 1e-14, "R()");
    VT_REQ(diff(R.rotp(v), V3(A.transpose() * up(v))) <= tol && diff(R.rota(v), V3(A * up(v))) <= tol, "SO3 rotp/rota");
    VT_REQ(diff(Vec3(R * v), V3(A.transpose() * up(v))) <= tol, "SO3 * v");
    VT_REQ(diff(R3(q).matrix(), R.matrix()) == 0, "SO3(q)");
    const Qd b = Qd::from_R(R.matrix()), c = R.q();
    VT_REQ(std::abs(b.norm() - 1) < 1e-13, "from_R norm %.17g", b.norm());
    VT_REQ(ang(active(b), A) < 1e-13 && ang(active(c), A) < 1e-13, "from_R is another rotation (%g)", ang(active(b), A));
    VT_REQ(diff(q.Ad(), A) < 1e-14 && diff(R.Ad(), M3(A.transpose())) < 1e-14, "Ad");
    // inverse
    const Qd qi = q.inverse();
    VT_REQ(ang(active(qi), A.transpose()) < 1e-14, "inverse");
    Qd qj(q);
    Qd& ret = qj.invert();
    VT_REQ(&ret == &qj && qj == qi, "invert");
    VT_REQ(diff(R.inverse().matrix(), A) < 1e-14 && diff(R.transpose().matrix(), A) < 1e-14, "SO3 inverse");
    // Euler angles
    VT_REQ(std::abs(q.norm() - 1) < 1e-15 * 4, "norm");
    s.nontrivial();
}
VT_PROP(composition, 20000, 400000)
{
    const Qd a = gen_quat(s), b = gen_quat(s), c = gen_quat(s);
    const M3 A = active(a), B = active(b), C = active(c);
    VT_REQ(ang(active(a * b), A * B) < 1e-14 && ang(active(a.otimes(b)), A * B) < 1e-14, "a * b");
    Qd d(a);
    d *= b;
    VT_REQ(ang(active(d), A * B) < 1e-14, "a *= b");
    Qd e(a);
    e *= e;
    VT_REQ(ang(active(e), A * A) < 1e-14, "a *= a");
    VT_REQ(ang(active((a * b) * c), active(a * (b * c))) < 1e-14, "associativity");
    VT_REQ(ang(active(a * a.inverse()), M3::Identity()) < 1e-14, "a a^-1");
    VT_REQ(a * Qd::Identity() == a && Qd::Identity() * a == a && Qd() == Qd::Identity(), "identity");
    const R3 Ra = a.R(), Rb = b.R();
    VT_REQ(diff((Ra * Rb).matrix(), M3(A.transpose() * B.transpose())) < 1e-14 && diff(Ra.times(Rb).matrix(), (Ra * Rb).matrix()) == 0, "SO3 product");
    VT_REQ(diff((Rb * Ra).matrix(), (a * b).R().matrix()) < 1e-13, "products of the two representations");
    // views and copies
    double raw[4] = {b.w(), b.x(), b.y(), b.z()};
    Qd view(raw);
    VT_REQ(view == b, "view");
    view = a;
    VT_REQ(raw[0] == a.w() && raw[3] == a.z(), "assignment through a view writes the array");
    Qd copy(view);
    copy = c;
    VT_REQ(raw[0] == a.w() && raw[1] == a.x(), "a copy is independent of the view");
    // conjugation is the adjoint
    const Vec3 w = gen_rotvec(s);
    VT_REQ(ang(active(a * quat_of(w) * a.inverse()), rodrigues(A * up(w))) < 1e-13, "conjugation");
    VT_REQ(diff(Vec3(a.Ad() * w), V3(A * up(w))) < 1e-13, "Ad w");
    s.nontrivial();
}
VT_PROP(exp_log, 30000, 600000)
{
    const Vec3 w = gen_rotvec(s);
    const double th = w.norm();
    const M3 E = rodrigues(up(w));
    s.note("w %s th %.17g", show(w), th);
    Mat3 J, J2;
    const Qd q = Qd::exp(w), ql = Qd::exp<JacobianSide::LEFT>(w, &J), qr = Qd::exp<JacobianSide::RIGHT>(w, &J2);
    VT_REQ(std::abs(q.norm() - 1) < 1e-15 * 4 && std::abs(ql.norm() - 1) < 4e-15 && std::abs(qr.norm() - 1) < 4e-15, "exp is not normalised");
    VT_REQ(ang(active(q), E) < 1e-14 && ang(active(ql), E) < 1e-14 && ang(active(qr), E) < 1e-14, "exp (%g)", ang(active(q), E));
    // small angles to full relative precision
    if (th > 0 && th < 1e-3)
        for (const Qd* p : {&q, &ql, &qr}) VT_REQ((p->bar() * 2 - w).norm() <= th * (th * th / 20 + 1e-15), "exp of a tiny rotation: %s", show(p->bar() * 2));
    const R3 R = R3::exp(w), Rj = R3::exp(w, &J);
    VT_REQ(diff(R.matrix(), E) < 1e-14 && diff(Rj.matrix(), E) < 1e-14, "SO3 exp (%g)", diff(R.matrix(), E));
    VT_REQ(diff(Mat3(R.matrix() * R.matrix().transpose()), M3(M3::Identity())) < 1e-14, "SO3 exp is not orthonormal");
    // logarithm: least angle, and inverse of exp; at a half-turn either direction will do
    auto chk = [&](const Vec3& l, double tol, const char* what) {
        VT_REQ(std::isfinite(l.norm()), "%s: not finite", what);
        VT_REQ(l.norm() <= M_PI + 1e-6, "%s: angle %.9g is not the least", what, l.norm());
        const double d = (l - w).norm(), d2 = (l + w * ((2 * M_PI - th) / (th > 0 ? th : 1))).norm();
        VT_REQ(d <= tol || (th > 3 && d2 <= tol), "%s: log(exp(%s)) = %s", what, show(w), show(l));
    };
    const Qd pos = quat_of(w, false), neg = quat_of(w, true);
    const double tq = 4e-15 + 4e-16 * th;
    chk(pos.log(), tq, "log");
    chk(neg.log(), tq, "log of -q");
    chk(pos.log<JacobianSide::LEFT>(&J), tq, "log with left Jacobian");
    chk(neg.log<JacobianSide::RIGHT>(&J), tq, "log of -q with right Jacobian");
    if (th > 0 && th < 1e-3)
        for (const Qd* p : {&pos, &neg})
        {
            VT_REQ((p->log() - w).norm() <= 1e-14 * th, "log of a tiny rotation %s", show(p->log()));
            VT_REQ((p->log(&J) - w).norm() <= 1e-14 * th, "log of a tiny rotation, with Jacobian %s", show(p->log(&J)));
        }
    // the cosine of an angle near a half-turn holds it badly, and the sine, which divides, worse
    const R3 M(Mat3(E.cast<double>()));
    const double gap = std::max(M_PI - th, 1e-5), tr = 1e-13 + std::min(1e-14 / (gap * gap), 1e-7);
    chk(M.log(), tr, "SO3 log");
    chk(M.log(&J), tr, "SO3 log with Jacobian");
    if (th > 0 && th < 1e-3) VT_REQ((M.log() - w).norm() <= 1e-15 + 1e-9 * th, "SO3 log of a tiny rotation %s", show(M.log()));
    if (th > 0) s.nontrivial();
    s.label(th < 4e-6 ? "tiny" : th < 2e-3 ? "small" : th > M_PI - 1e-3 ? "near half-turn" : "generic");
}
// rotation vectors longer than a half-turn
VT_PROP(exp_long, 4000, 80000)
{
    const Vec3 w = gen_axis(s) * s.real(M_PI, 50);
    const M3 E = rodrigues(up(w));
    VT_REQ(ang(active(Qd::exp(w)), E) < 1e-13 && diff(R3::exp(w).matrix(), E) < 1e-13, "exp");
    VT_REQ(ang(active(Qd::exp(Qd::exp(w).log())), E) < 1e-13, "exp(log)");
    VT_REQ(Qd::exp(w).log().norm() <= M_PI + 1e-9, "not the least angle");
    s.nontrivial();
}
VT_PROP(axis_angle_euler, 10000, 200000)
{
    const Vec3 ax = gen_axis(s);
    const double th = s.flip() ? s.sym(2 * M_PI) : gen_angle(s);
    const M3 E = rodrigues(up(ax) * (ld)th);
    VT_REQ(ang(active(Qd::from_axis_angle(ax, th)), E) < 1e-14, "Quat::from_axis_angle");
    VT_REQ(diff(R3::from_axis_angle(ax, th).matrix(), M3(E.transpose())) < 1e-13, "SO3::from_axis_angle");
    VT_REQ(diff(R3::from_axis_angle(ax * 3.7, th).matrix(), M3(E.transpose())) < 1e-13, "SO3::from_axis_angle of a long axis");
    double r = s.sym(M_PI), p = s.sym(M_PI / 2), y = s.sym(M_PI);
    if (s.chance(0.2)) p = s.pick({M_PI / 2, -M_PI / 2, 1.5707, -1.5707});
    const M3 ref = rodrigues(V3(0, 0, y)) * rodrigues(V3(0, p, 0)) * rodrigues(V3(r, 0, 0));
    const Qd q = Qd::from_euler(r, p, y), q2(r, p, y);
    s.note("rpy %.9g %.9g %.9g", r, p, y);
    VT_REQ(ang(active(q), ref) < 1e-14 && q == q2, "from_euler");
    VT_REQ(std::abs(q.pitch() - p) < 1e-7, "pitch %.9g", q.pitch());
    const Vec3 e = q.euler();
    VT_REQ(e(0) == q.roll() && e(1) == q.pitch() && e(2) == q.yaw(), "euler()");
    if (std::abs(p) < 1.57)
    {
        const double t = 1e-14 / cos(p) / cos(p) + 1e-14;
        VT_REQ(std::abs(remainder(q.roll() - r, 2 * M_PI)) < t * 10 && std::abs(remainder(q.yaw() - y, 2 * M_PI)) < t * 10, "euler() returns %.12g %.12g %.12g", e(0), e(1), e(2));
    }
    s.nontrivial();
}
// the shortest rotation between two directions
VT_PROP(two_vectors, 15000, 300000)
{
    const Vec3 u = gen_axis(s);
    Vec3 v;
    switch (s.weighted({4, 1, 1, 3}))
    {
    case 0: v = gen_axis(s); break;
    case 1: v = u; break;
    case 2: v = -u; break;
    default: { const double d = s.logu(1e-15, 1e-2); v = ((s.flip() ? 1.0 : -1.0) * u + d * gen_axis(s)).normalized(); } break;
    }
    s.note("u %s v %s", show(u), show(v));
    const V3 ul = up(u).normalized(), vl = up(v).normalized();
    const ld angle = 2 * atan2l((ul - vl).norm(), (ul + vl).norm());
    const Qd q = Qd::from_two_unit_vectors(u, v);
    VT_REQ(std::abs(q.norm() - 1) < 1e-14, "norm %g", q.norm());
    VT_REQ((q.rotp(u) - v).norm() < 1e-7, "quaternion takes u to %s", show(q.rotp(u)));
    VT_REQ(std::abs(2 * std::atan2(q.bar().norm(), std::abs(q.w())) - (double)angle) < 1e-7, "not the shortest");
    const double k = s.flip() ? 1.0 : s.logu(1e-3, 1e3);
    const R3 R = R3::from_two_unit_vectors(u * k, v * k);
    VT_REQ((R.matrix().transpose() * R.matrix() - Mat3::Identity()).norm() < 1e-13, "SO3 not orthonormal");
    VT_REQ((R.rotp(u) - v).norm() < 1e-7, "matrix takes u to %s", show(R.rotp(u)));
    VT_REQ(std::abs(std::acos(std::min(1.0, std::max(-1.0, (R.matrix().trace() - 1) / 2))) - (double)angle) < 3e-6, "SO3 not the shortest");
    if ((u - v).norm() > 0) s.nontrivial();
    s.label((u - v).norm() < 1e-3 ? "parallel" : (u + v).norm() < 1e-3 ? "opposite" : "generic");
}
VT_PROP(long_products, 300, 6000)
{
    Qd q;
    R3 R = R3::identity();
    M3 ref = M3::Identity();
    const int n = s.irange(10, 400);
    for (int i = 0; i < n; ++i)
    {
        const Vec3 w = gen_rotvec(s);
        switch (s.irange(0, 2))
        {
        case 0: q = q * Qd::exp(w); R = R3::exp(-w) * R; ref = ref * rodrigues(up(w)); break;
        case 1: q *= quat_of(w, s.flip()); R = R3::from_axis_angle(w.norm() > 0 ? w : Vec3(Vec3::UnitX()), w.norm()) * R; ref = ref * rodrigues(up(w)); break;
        default: q = q.inverse() * Qd::exp(w).inverse(); R = R3::exp(w) * R.inverse(); ref = ref.transpose() * rodrigues(up(Vec3(-w))); break;
        }
    }
    VT_REQ(std::abs(q.norm() - 1) < 1e-15 * n * 2, "norm drifted to %.17g in %d steps", q.norm(), n);
    VT_REQ((R.matrix() * R.matrix().transpose() - Mat3::Identity()).norm() < 4e-15 * n, "orthonormality drifted");
    VT_REQ(ang(active(q), ref) < 1e-14 * n && diff(R.matrix(), M3(ref.transpose())) < 1e-14 * n, "accumulated rotation is off");
    s.nontrivial();
}
VT_PROP(rectify, 5000, 100000)
{
    const Mat3 M0 = gen_quat(s).R().matrix();
    const double e = s.logu(1e-12, 0.1);
    Mat3 M = M0;
    for (int i = 0; i < 9; ++i) M(i / 3, i % 3) += s.sym(e);
    R3 A(M);
    const R3 B = A.rectified();
    VT_REQ(diff(A.matrix(), M) == 0, "rectified() changed its object");
    R3& C = A.rectify();
    VT_REQ(&C == &A && diff(A.matrix(), B.matrix()) == 0, "rectify");
    VT_REQ((A.matrix() * A.matrix().transpose() - Mat3::Identity()).norm() < 1e-14 && std::abs(A.matrix().determinant() - 1) < 1e-14, "not a rotation");
    VT_REQ((A.matrix() - M0).norm() < 8 * e, "moved by %g", (A.matrix() - M0).norm());
    // nearest: the defect is symmetric
    const Mat3 D = A.matrix().transpose() * M;
    VT_REQ((D - D.transpose()).norm() < 1e-13, "not the nearest rotation");
    s.nontrivial();
}
