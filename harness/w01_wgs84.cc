// W01: coordinates
#include "satgen.h"
#include "utils/wgs84.h"
using namespace satgen;
using mc::utils::WGS84;
static Vec3 vec(const V3& p) { return Vec3((double)p.x, (double)p.y, (double)p.z); }
static double gen_h(vt::Src& s)
{
    switch (s.weighted({3, 1, 1}))
    {
    case 0: return s.real(-5000, 10000);
    case 1: return s.pick({0.0, -5000.0, 2e7});
    default: return s.logu(1, 5e7);
    }
}
VT_PROP(geodetic_to_earth_fixed, 30000, 600000)
{
    const Vec3 lla(gen_lat(s), gen_lon(s), gen_h(s));
    const V3 ref = wgs84(lla.x(), lla.y(), lla.z());
    Vec3 a = WGS84::lla2ecef(lla), b(1, 2, 3);
    WGS84::lla2ecef(lla, &b);
    s.note("lat %.15f lon %.15f h %.4f", lla.x(), lla.y(), lla.z());
    VT_REQ(a == b, "forms differ");
    VT_REQ((double)norm({ref.x - a.x(), ref.y - a.y(), ref.z - a.z()}) < 1e-6, "off by %Lg m", norm({ref.x - a.x(), ref.y - a.y(), ref.z - a.z()}));
    const Vec3 back = WGS84::ecef2lla(a);
    Vec3 back2(9, 9, 9);
    WGS84::ecef2lla(a, &back2);
    VT_REQ(back == back2, "forms differ");
    VT_REQ(std::abs(back.x()) <= M_PI / 2 && std::abs(back.y()) <= M_PI, "range: %.17g %.17g", back.x(), back.y());
    const double tol = 1e-4 + 2e-15 * lla.z();
    VT_REQ(std::abs(back.x() - lla.x()) * (6.4e6 + lla.z()) < tol, "latitude %.15f", back.x());
    VT_REQ(std::abs(back.z() - lla.z()) < tol, "height %.6f", back.z());
    const double east = std::hypot(a.x(), a.y()) * std::abs(remainder(back.y() - lla.y(), 2 * M_PI));
    // on the axis (within a micrometre of it) longitude is a convention
    if (std::hypot(a.x(), a.y()) > 1e-3) VT_REQ(east < tol, "longitude %.15f (%.6f m)", back.y(), east);
    const V3 again = wgs84(back.x(), back.y(), back.z());
    VT_REQ((double)norm({again.x - a.x(), again.y - a.y(), again.z - a.z()}) < 5e-4, "point moved by %Lg m", norm({again.x - a.x(), again.y - a.y(), again.z - a.z()}));
    if (std::abs(lla.x()) > 1e-3 && std::abs(lla.z()) > 1) s.nontrivial();
    if (std::abs(lla.x()) > 1.5) s.label("near a pole");
    if (std::abs(lla.y()) > 3.1) s.label("near the date line");
}
VT_PROP(local_frames, 20000, 400000)
{
    const Vec3 lla(gen_lat(s), gen_lon(s), gen_h(s));
    const Vec3 p = vec(wgs84(lla.x(), lla.y(), lla.z()));
    const Mat3 R = ned_axes(lla.x(), lla.y());  // NED axes in ECEF
    auto check_frame = [&](const mc::math::Quat<double>& q, bool axis_free) {
        Mat3 C;
        for (int k = 0; k < 3; ++k) C.col(k) = q.rota(Vec3::Unit(k));
        VT_REQ((C.transpose() * C - Mat3::Identity()).norm() < 1e-9 && C.determinant() > 0, "not a right-handed orthonormal frame");
        VT_REQ((C.col(2) - R.col(2)).norm() < 1e-8, "down is off by %g", (C.col(2) - R.col(2)).norm());
        if (!axis_free)
        {
            const double tol = 1e-8 + 1e-8 / std::hypot(p.x(), p.y());
            VT_REQ((C.col(0) - R.col(0)).norm() < tol, "north is off by %g", (C.col(0) - R.col(0)).norm());
            VT_REQ((C.col(1) - R.col(1)).norm() < tol, "east is off by %g", (C.col(1) - R.col(1)).norm());
        }
        for (int k = 0; k < 3; ++k)
            VT_REQ((q.rotp(C.col(k)) - Vec3::Unit(k)).norm() < 1e-9, "rotp is not the inverse of rota");
    };
    s.note("lat %.9f lon %.9f h %.3f", lla.x(), lla.y(), lla.z());
    check_frame(WGS84::q_e2n(lla), false);
    mc::math::DQuat<double> dq = WGS84::dq_ecef2ned(p), dq2;
    WGS84::dq_ecef2ned(p, &dq2);
    const bool on_axis = std::hypot(p.x(), p.y()) < 1.0;
    check_frame(dq.real(), on_axis);
    VT_REQ((WGS84::ecef2ned(dq, p)).norm() < 1e-7, "the origin is not at the origin");
    // points
    const double r = s.logu(1e-3, 1e7);
    const Vec3 ned(s.sym(r), s.sym(r), s.sym(r));
    const Vec3 e1 = WGS84::ned2ecef(dq, ned), n1 = WGS84::ecef2ned(dq, e1);
    const double tol = 1e-7 + 1e-14 * lla.z();
    VT_REQ((n1 - ned).norm() < tol + 1e-13 * r, "NED -> ECEF -> NED moved by %g m", (n1 - ned).norm());
    Vec3 e2, n2;
    WGS84::ned2ecef(dq2, ned, &e2);
    WGS84::ecef2ned(dq2, e2, &n2);
    VT_REQ(e1 == e2 && n1 == n2, "forms differ");
    if (!on_axis)
    {
        const Vec3 ref = p + R * ned;
        VT_REQ((e1 - ref).norm() < 1e-6 + 1e-8 * r + 1e-8 * r / std::hypot(p.x(), p.y()), "NED point off by %g m", (e1 - ref).norm());
        const double r2 = std::min(r, 3e6);
        const Vec3 nd(ned.x() * r2 / r, ned.y() * r2 / r, ned.z() * r2 / r);
        const Vec3 lla1 = WGS84::ned2lla(lla, nd);
        Vec3 lla1b, nb;
        WGS84::ned2lla(lla, nd, &lla1b);
        VT_REQ(lla1 == lla1b, "forms differ");
        const Vec3 q = p + R * nd, q1 = vec(wgs84(lla1.x(), lla1.y(), lla1.z()));
        VT_REQ((q - q1).norm() < 5e-4, "ned2lla off by %g m", (q - q1).norm());
        const Vec3 nd1 = WGS84::lla2ned(lla, lla1);
        WGS84::lla2ned(lla, lla1, &nb);
        VT_REQ(nd1 == nb, "forms differ");
        VT_REQ((nd1 - nd).norm() < 1e-3, "NED -> geodetic -> NED moved by %g m", (nd1 - nd).norm());
        s.nontrivial();
    }
    else s.label("on the axis");
}
