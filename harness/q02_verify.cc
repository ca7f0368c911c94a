// Q02: the verification program reports every ephemeris of a log once, and flags exactly the unusual ones
#include "progs.h"
#include <regex>
extern "C" int verify_main(int, char**);
using namespace mg;
struct Line
{
    std::string type;
    int sat;
    double dt;
    bool flagged;
};
static std::string slurp(const std::string& p)
{
    std::ifstream f(p, std::ios::binary);
    return std::string(std::istreambuf_iterator<char>(f), {});
}
static std::vector<Line> parse(const std::string& text)
{
    std::vector<Line> o;
    std::istringstream in(std::regex_replace(text, std::regex("\x1b\\[[0-9;]*m"), ""));
    std::string l;
    static const std::regex rec("Type: *([A-Za-z]+), *sat: *([0-9]+), .*dt: *([-+0-9.e]+)");
    bool flag = false;
    while (std::getline(in, l))
    {
        std::smatch m;
        if (std::regex_search(l, m, rec))
        {
            o.push_back({m[1], std::stoi(m[2]), std::stod(m[3]), flag});
            flag = false;
        }
        else if (l.find("Unusual") != std::string::npos)
        {
            VT_REQ(!flag, "two warnings for one ephemeris");
            flag = true;
        }
    }
    VT_REQ(!flag, "a warning about no ephemeris");
    return o;
}
VT_PROP(report, 150, 4000)
{
    ScratchDir dir;
    const UTCTime t0(satgen::gps_sec(s.irange(1500, 2300), s.irange(0, 604799)), s.range(0, 999999999));
    std::vector<Line> want;
    std::string path;
    int flagged = 0;
    const int kinds = s.irange(0, 7), n = kinds ? s.irange(0, 20) : 0;
    {
        Quiet q;
        logging::Logger log(t0, dir.path + "/in");
        path = dir.path + "/in/" + log.logId();
        if (kinds & 1) log.initStream<GPSEphemeris>(logging::GPS_EPH, {"eph"});
        if (kinds & 2) log.initStream<GalileoEphemeris>(logging::GAL_EPH, {"eph"});
        if (kinds & 4) log.initStream<GlonassEphemeris>(logging::GLO_EPH, {"eph"});
        log.initStream<meas::ImuSample>(logging::IMU_SAMPLE, {"imu"});
        int64_t ns = 0;
        for (int i = 0; i < n; ++i)
        {
            ns += s.range(200000, s.pick({300000, 1000000000}));  // apart by more than the resolution of the order
            const UTCTime t = satgen::at(t0, ns);
            if (s.chance(0.2))
            {
                meas::ImuSample z;
                z.setZero();
                log.log(logging::IMU_SAMPLE, t, z);
            }
            int64_t off;
            switch (s.irange(0, 3))
            {
            case 0: off = s.range(-7200000000000ll, 7200000000000ll); break;
            case 1: off = (s.flip() ? 1 : -1) * (7200000000000ll + s.pick({-1000000ll, -1000ll, 1000ll, 1000000ll, 1000000000ll})); break;
            case 2: off = s.range(-700000000000000ll, 700000000000000ll); break;
            default: off = 0;
            }
            const UTCTime toe = satgen::at(t, -off);
            const int num = s.irange(1, 36);
            int kind;
            do kind = s.irange(0, 2); while (!(kinds & (1 << kind)));
            auto put = [&](auto e, int gnss, int key, const char* type) {
                e.gnssID = gnss, e.sat = num, e.toe = toe;
                log.log(key, t, e);
                want.push_back({type, num, off * 1e-9, std::llabs(off) > 7200000000000ll});
            };
            if (kind == 0) put(GPSEphemeris(num), GnssID::GPS, logging::GPS_EPH, "GPS");
            if (kind == 1) put(GalileoEphemeris(num), GnssID::Galileo, logging::GAL_EPH, "Galileo");
            if (kind == 2) put(GlonassEphemeris(num), GnssID::Glonass, logging::GLO_EPH, "Glonass");
            flagged += want.back().flagged;
        }
        log.close(satgen::at(t0, ns + 1000000000));
    }
    const std::string out = dir.path + "/out.txt", err = dir.path + "/err.txt", where = s.flip() ? path : dir.path + "/in";
    fs::create_directories(dir.path + "/run");
    const auto r = vt::in_child([&] {
        fflush(nullptr);
        dup2(open(out.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600), 1);
        dup2(open(err.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600), 2);
        if (chdir((dir.path + "/run").c_str())) _exit(77);
        std::vector<std::string> a = {"verify_ephemeris", "--log", where};
        auto v = argv_of(a);
        dirty_stack();
        const int rc = verify_main((int)a.size(), v.data());
        std::cout.flush();
        fflush(nullptr);
        return std::to_string(rc);
    });
    VT_REQ(r.exited && r.data == "0", "the program stopped (code %d, signal %d) %s", r.code, r.sig, r.data.c_str());
    std::vector<Line> got = parse(slurp(out));
    for (auto& l : parse(slurp(err))) got.push_back(l);
    VT_REQ(got.size() == want.size(), "%zu ephemerides reported, the log holds %zu", got.size(), want.size());
    // the two kinds go to different places: each in the order of the log
    auto part = [](std::vector<Line> v) {
        std::stable_sort(v.begin(), v.end(), [](const Line& a, const Line& b) { return a.flagged < b.flagged; });
        return v;
    };
    const auto w = part(want);
    got = part(got);
    for (size_t i = 0; i < w.size(); ++i)
    {
        const Line &a = w[i], &b = got[i];
        VT_REQ(a.flagged == b.flagged, "%d flagged, one %s flagged", flagged, b.flagged ? "too many" : "too few");
        VT_REQ(strcasecmp(a.type.c_str(), b.type.c_str()) == 0 && a.sat == b.sat, "%s record %zu: %s %d reported, should be %s %d", a.flagged ? "unusual" : "usual", i, b.type.c_str(), b.sat, a.type.c_str(), a.sat);
        VT_REQ(std::abs(a.dt - b.dt) < 1e-3 + 1e-5 * std::abs(a.dt), "record %zu (%s %d): age %g s, should be %g s", i, a.type.c_str(), a.sat, b.dt, a.dt);
    }
    s.note("%zu ephemerides, %d flagged", want.size(), flagged);
    if (want.size() > 2 && flagged && flagged < (int)want.size()) s.nontrivial();
}
