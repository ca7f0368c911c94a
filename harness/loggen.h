#pragma once
// Values of every loggable type: generated, written through the repository's serialisers, described
// by its format(), and listed field by field (in the order the documentation of each type gives).
#include <unistd.h>
#include <sys/stat.h>
#include <cmath>
#include <cstring>
#include <experimental/filesystem>
#include <fstream>
#include <functional>
#include <memory>
#include <sstream>
#include "common/ephemeris/galileo.h"
#include "common/ephemeris/glonass.h"
#include "common/ephemeris/gps.h"
#include "common/logging/log_reader.h"
#include "common/logging/log_writer.h"
#include "common/math/dquat.h"
#include "common/math/jet.h"
#include "common/math/quat.h"
#include "common/math/two_jet.h"
#include "common/matrix_defs.h"
#include "common/measurements/gnss_observation.h"
#include "common/measurements/imu.h"
#include "common/quantized_time.h"
#include "timegen.h"
#include "vt.h"
namespace fs = std::experimental::filesystem;
using namespace mc;

struct ScratchDir
{
    std::string path;
    ScratchDir()
    {
        char t[] = "/tmp/vt_log_XXXXXX";
        path = mkdtemp(t);
    }
    ~ScratchDir()
    {
        if (path.rfind("/tmp/vt_log_", 0) == 0)
        {
            std::error_code ec;
            fs::remove_all(path, ec);
        }
    }
};
// the repository prints while it reads and writes logs
struct Quiet
{
    int o, e;
    Quiet()
    {
        fflush(stdout);
        fflush(stderr);
        std::cout.flush();
        o = dup(1);
        e = dup(2);
        FILE* n = fopen("/dev/null", "w");
        dup2(fileno(n), 1);
        dup2(fileno(n), 2);
        fclose(n);
    }
    ~Quiet()
    {
        fflush(stdout);
        fflush(stderr);
        std::cout.flush();
        dup2(o, 1);
        dup2(e, 2);
        close(o);
        close(e);
    }
};

// one number of a record
struct Leaf
{
    std::string path;
    bool flt = false;
    double d = 0;
    __int128 i = 0;
    double tol = 0;
};
inline std::string istr(__int128 v)
{
    if (v < 0) return "-" + istr(-v);
    if (v < 10) return std::string(1, char('0' + (int)v));
    return istr(v / 10) + char('0' + (int)(v % 10));
}
inline std::string lstr(const Leaf& l) { return l.flt ? vt::sfmt("%.17g", l.d) : istr(l.i); }
inline bool same_num(double a, double b, double tol)
{
    if (tol > 0) return std::fabs(a - b) <= tol;
    return std::memcmp(&a, &b, 8) == 0 || (std::isnan(a) && std::isnan(b));
}
using Leaves = std::vector<Leaf>;
template <typename T>
void leaf(Leaves& o, const std::string& p, T v, double tol = 0)
{
    Leaf l;
    l.path = p;
    l.flt = std::is_floating_point<T>::value;
    if (l.flt) l.d = (double)v;
    else l.i = (__int128)v;
    l.tol = tol;
    o.push_back(l);
}

// ---- generators and leaves, per type
template <typename T>
T gen_scalar(vt::Src& s)
{
    if constexpr (std::is_floating_point<T>::value)
    {
        switch (s.weighted({4, 3, 1, 1, 2}))
        {
        case 0: return (T)s.sym(1000);
        case 1: return (T)(s.logu(1e-30, 1e30) * (s.flip() ? -1 : 1));
        case 2: return s.pick<T>({(T)0, (T)-0.0, std::numeric_limits<T>::infinity(), -std::numeric_limits<T>::infinity(), std::numeric_limits<T>::max(), std::numeric_limits<T>::denorm_min(), std::numeric_limits<T>::quiet_NaN()});
        case 3: return (T)s.irange(-300, 300);
        default:
        {
            // text-sensitive bytes: newline, carriage return, end-of-file characters
            T x = 1;
            uint8_t b[sizeof(T)];
            for (auto& c : b) c = s.pick<uint8_t>({0x0a, 0x0d, 0x1a, 0x00, 0xff, 0x20, 0x3f});
            std::memcpy(&x, b, sizeof(T));
            return std::isnan(x) ? (T)1 : x;
        }
        }
    }
    else
    {
        switch (s.weighted({3, 3, 1, 1, 1}))
        {
        case 0: return (T)s.draw(~0ull);
        case 1: return (T)s.irange(0, 127);
        case 2: return std::numeric_limits<T>::max();
        case 3: return std::numeric_limits<T>::min();
        default: return s.pick<T>({(T)10, (T)13, (T)26, (T)0, (T)255});
        }
    }
}
template <typename T, typename = void>
struct Ty;
template <typename T>
struct Ty<T, std::enable_if_t<std::is_arithmetic<T>::value>>
{
    static void gen(vt::Src& s, T& x) { x = gen_scalar<T>(s); }
    static void leaves(Leaves& o, const std::string& p, const T& x) { leaf(o, p, x); }
};
template <typename S, int R, int C, int O>
struct Ty<Eigen::Matrix<S, R, C, O>>
{
    using M = Eigen::Matrix<S, R, C, O>;
    static void gen(vt::Src& s, M& x)
    {
        const bool count = s.chance(0.3);
        for (int i = 0; i < x.rows(); ++i)
            for (int j = 0; j < x.cols(); ++j)
                x(i, j) = count ? (S)(10 * i + j) : gen_scalar<S>(s);
    }
    static void leaves(Leaves& o, const std::string& p, const M& x, double tol = 0)
    {
        for (int i = 0; i < x.rows(); ++i)
            for (int j = 0; j < x.cols(); ++j) leaf(o, p + vt::sfmt("[%d,%d]", i, j), (S)x(i, j), tol);
    }
};
template <>
struct Ty<UTCTime>
{
    static void gen(vt::Src& s, UTCTime& t)
    {
        t.sec = s.chance(0.1) ? gen_scalar<int64_t>(s) : gen_sec(s);
        t.nsec = gen_nsec(s);
    }
    static void leaves(Leaves& o, const std::string& p, const UTCTime& t)
    {
        leaf(o, p + ".sec", t.sec);
        leaf(o, p + ".nsec", t.nsec);
    }
};
template <>
struct Ty<math::Quat<double>>
{
    static void gen(vt::Src& s, math::Quat<double>& q)
    {
        double v[4], n = 0;
        for (double& x : v) x = s.sym(1);
        for (double x : v) n += x * x;
        if (n < 1e-12) { v[0] = 1; n = 1 + v[1] * v[1] + v[2] * v[2] + v[3] * v[3]; }
        n = std::sqrt(n);
        q = math::Quat<double>(v[0] / n, v[1] / n, v[2] / n, v[3] / n);
    }
    static void leaves(Leaves& o, const std::string& p, const math::Quat<double>& q)
    {
        leaf(o, p + ".w", (double)q.w());
        leaf(o, p + ".x", (double)q.x());
        leaf(o, p + ".y", (double)q.y());
        leaf(o, p + ".z", (double)q.z());
    }
};
template <>
struct Ty<math::DQuat<double>>
{
    static void gen(vt::Src& s, math::DQuat<double>& x)
    {
        math::Quat<double> q;
        Ty<math::Quat<double>>::gen(s, q);
        const double a = s.pick<double>({0.0, 1.0, 1000.0, 1e7});
        const Vec3 t(s.sym(a), s.sym(a), s.sym(a));
        x = math::DQuat<double>(q, t);
    }
    static void leaves(Leaves& o, const std::string& p, const math::DQuat<double>& x)
    {
        const math::Quat<double> q = x.real();
        Ty<math::Quat<double>>::leaves(o, p + ".rot", q);
        // only the transform itself is kept, not the eight numbers: equal to rounding
        const Vec3 t = x.translation();
        Ty<Vec3>::leaves(o, p + ".trans", t, 1e-13 + 1e-14 * t.norm());
    }
};
template <>
struct Ty<math::DQuat<double>::TangentVector>
{
    static void gen(vt::Src& s, math::DQuat<double>::TangentVector& x)
    {
        for (int i = 0; i < 6; ++i) x(i) = gen_scalar<double>(s);
    }
    static void leaves(Leaves& o, const std::string& p, const math::DQuat<double>::TangentVector& x)
    {
        for (int i = 0; i < 6; ++i)
            leaf(o, p + vt::sfmt("%s[%d,0]", i < 3 ? ".angular" : ".linear", i % 3), (double)x(i));
    }
};
// the derivative of a jet is described as one column of six
static void tangent6(Leaves& o, const std::string& p, const Vec6& x) { Ty<Vec6>::leaves(o, p, x); }
template <>
struct Ty<math::Jet<double>>
{
    using X = math::Jet<double>;
    static void gen(vt::Src& s, X& x)
    {
        Ty<math::DQuat<double>>::gen(s, x.x);
        Ty<math::DQuat<double>::TangentVector>::gen(s, x.dx);
    }
    static void leaves(Leaves& o, const std::string& p, const X& x)
    {
        Ty<math::DQuat<double>>::leaves(o, p + ".x", x.x);
        Ty<math::DQuat<double>::TangentVector>::leaves(o, p + ".dx", x.dx);
    }
};
template <>
struct Ty<math::TwoJet<double>>
{
    using X = math::TwoJet<double>;
    static void gen(vt::Src& s, X& x)
    {
        Ty<math::DQuat<double>>::gen(s, x.x);
        Ty<math::DQuat<double>::TangentVector>::gen(s, x.dx);
        Ty<math::DQuat<double>::TangentVector>::gen(s, x.d2x);
    }
    static void leaves(Leaves& o, const std::string& p, const X& x)
    {
        Ty<math::DQuat<double>>::leaves(o, p + ".x", x.x);
        Ty<math::DQuat<double>::TangentVector>::leaves(o, p + ".dx", x.dx);
        Ty<math::DQuat<double>::TangentVector>::leaves(o, p + ".d2x", x.d2x);
    }
};
// structures: one list of fields, in the order they are documented and logged
#define LG_G(f) Ty<std::decay_t<decltype(x.f)>>::gen(s, x.f);
#define LG_L(f) Ty<std::decay_t<decltype(x.f)>>::leaves(o, p + "." #f, x.f);
#define LG_STRUCT(T, LIST)                                                                                         \
    template <>                                                                                                    \
    struct Ty<T>                                                                                                   \
    {                                                                                                              \
        static void gen(vt::Src& s, T& x) { LIST(LG_G) }                                                           \
        static void leaves(Leaves& o, const std::string& p, const T& x) { LIST(LG_L) }                             \
    };
#define LG_IMU(F) F(t) F(accel) F(gyro)
#define LG_OBS(F) F(t) F(gnss_id) F(sat_num) F(freq) F(pseudorange) F(doppler) F(carrier_phase)
#define LG_KEP(F)                                                                                                  \
    F(sat) F(toe) F(toc) F(tow) F(iodc) F(iode) F(week) F(toes) F(tocs) F(af2) F(af1) F(af0) F(m0) F(delta_n)      \
    F(ecc) F(sqrta) F(omega0) F(i0) F(w) F(omegadot) F(idot) F(cuc) F(cus) F(crc) F(crs) F(cic) F(cis)
#define LG_GPS(F)                                                                                                  \
    F(gnssID) LG_KEP(F) F(health) F(alert_flag) F(anti_spoof) F(code_on_L2) F(ura) F(L2_P_data_flag)               \
    F(fit_interval_flag) F(age_of_data_offset) F(tgd)
#define LG_GAL(F)                                                                                                  \
    F(gnssID) LG_KEP(F) F(ai0) F(ai1) F(ai2) F(bgd_e1_e5a) F(bgd_e1_e5b) F(e5b_hs) F(e1b_hs) F(e5b_dvs) F(e1b_dvs)
#define LG_GLO(F)                                                                                                  \
    F(gnssID) F(sat) F(toe) F(iode) F(slot) F(svh) F(sva) F(age) F(tof) F(pos) F(vel) F(acc) F(taun) F(gamn) F(dtaun)
LG_STRUCT(meas::ImuSample, LG_IMU)
LG_STRUCT(meas::GnssObservation, LG_OBS)
LG_STRUCT(ephemeris::GPSEphemeris, LG_GPS)
LG_STRUCT(ephemeris::GalileoEphemeris, LG_GAL)
LG_STRUCT(ephemeris::GlonassEphemeris, LG_GLO)

template <typename T>
const char* tname()
{
    static const std::string f = __PRETTY_FUNCTION__;
    static const std::string n = f.substr(f.find("T = ") + 4, f.size() - f.find("T = ") - 5);
    return n.c_str();
}
inline std::string diff(const Leaves& a, const Leaves& b)
{
    if (a.size() != b.size()) return vt::sfmt("%zu numbers, want %zu", b.size(), a.size());
    for (size_t i = 0; i < a.size(); ++i)
    {
        if (a[i].path != b[i].path) return "field " + b[i].path + ", want " + a[i].path;
        const bool ok = a[i].flt ? same_num(a[i].d, b[i].d, a[i].tol) : a[i].i == b[i].i;
        if (!ok) return a[i].path + " is " + lstr(b[i]) + ", want " + lstr(a[i]);
    }
    return "";
}
// a value of some type
struct Item
{
    virtual ~Item() {}
    virtual const char* type() const = 0;
    virtual void write(std::ostream& o) const = 0;
    virtual std::string read_back(std::istream& i) const = 0;   // "" or what differs
    virtual Leaves leaves(const std::string& p) const = 0;
    virtual YAML::Node description() const = 0;
};
template <typename T, bool DESC>
struct ItemT : Item
{
    EIGEN_MAKE_ALIGNED_OPERATOR_NEW
    T x;
    explicit ItemT(vt::Src& s) { Ty<T>::gen(s, x); }
    const char* type() const override { return tname<T>(); }
    void write(std::ostream& o) const override { logging::serialize(o, x); }
    std::string read_back(std::istream& i) const override
    {
        T y{};
        logging::deserialize(i, y);
        Leaves b;
        Ty<T>::leaves(b, "", y);
        return diff(leaves(""), b);
    }
    Leaves leaves(const std::string& p) const override
    {
        Leaves o;
        Ty<T>::leaves(o, p, x);
        return o;
    }
    YAML::Node description() const override
    {
        if constexpr (DESC) return logging::format(x);
        else return YAML::Node();
    }
};
using ItemP = std::shared_ptr<Item>;
template <typename T, bool DESC = true>
ItemP mk(vt::Src& s)
{
    return std::make_shared<ItemT<T, DESC>>(s);
}
using Maker = ItemP (*)(vt::Src&);
inline const std::vector<Maker>& makers()
{
    static const std::vector<Maker> m = {
        mk<double>, mk<float>, mk<int64_t>, mk<int32_t>, mk<int16_t>, mk<int8_t>, mk<uint64_t>, mk<uint32_t>, mk<uint16_t>, mk<uint8_t>,
        mk<Vec1>, mk<Vec2>, mk<Vec3>, mk<Vec6>, mk<Vec3f>, mk<Mat2>, mk<Mat3>, mk<Mat36>, mk<Mat96>, mk<Mat10f>, mk<MatRM3>, mk<MatRM32>, mk<MatRM36>,
        mk<Eigen::Matrix<int, 7, 2>>, mk<Eigen::Matrix<double, 1, 4>>, mk<Eigen::Matrix<uint8_t, 5, 1>>, mk<Eigen::Matrix<int16_t, 2, 3>>,
        mk<UTCTime>, mk<math::Quat<double>>, mk<math::DQuat<double>>, mk<math::Jet<double>>, mk<math::TwoJet<double>>,
        mk<meas::ImuSample>, mk<meas::GnssObservation>, mk<ephemeris::GPSEphemeris>, mk<ephemeris::GalileoEphemeris>, mk<ephemeris::GlonassEphemeris>};
    return m;
}
