// The gathering program, run in full against a receiver the test plays: what ends up in the log.
#include <csignal>
#include <unistd.h>
#define main gather_main
#include "tools/gather_ephemeris.cxx"
#undef main
#include "loggen.h"
#include "navcheck.h"
#include "ubxgen.h"
using ub::Bytes;
using ub::le;
// ---- the clock of the machine
static int64_t clock_s = 0;
static long clock_ns = 0;
extern "C" int vt_clock_gettime(clockid_t, struct timespec* t) noexcept { t->tv_sec = clock_s; t->tv_nsec = clock_ns; return 0; }
static void set_clock(int64_t s, long ns = 0) { clock_s = s; clock_ns = ns; }
static Bytes dbl(double v) { Bytes b(8); memcpy(b.data(), &v, 8); return b; }
static Bytes flt(float v) { Bytes b(4); memcpy(b.data(), &v, 4); return b; }
static Bytes sfrbx(int gnss, int sv, const std::vector<uint8_t>& words, vt::Src& s)
{
    Bytes p = {(uint8_t)gnss, (uint8_t)sv, 0, (uint8_t)s.irange(0, 13), (uint8_t)(words.size() / 4), (uint8_t)s.irange(0, 31), 2, 0};
    p.insert(p.end(), words.begin(), words.end());
    return p;
}
template <typename E>
static std::string bytes(const E& e)
{
    std::stringstream o;
    logging::serialize(o, e);
    return o.str();
}
struct Obs { int gnss, sv; double freq, pr, cp, dop; UTCTime at; };
struct Eph { std::string bytes; UTCTime at; };
struct Model
{
    std::vector<Obs> obs;
    std::vector<Eph> eph[3];
    int dropped = 0, late = 0;
};
// what the receiver sends during the run: bytes, and the clock before them
struct Step { int64_t s; long ns; Bytes b; };
template <typename E>
struct Sat
{
    int sv;
    std::unique_ptr<E> ref;
    explicit Sat(int n) : sv(n), ref(new E(n)) {}
};
VT_PROP(session, 600, 12000)
{
    Model m;
    std::vector<Step> steps;
    int64_t now = 1500000000 + s.irange(0, 200000000);
    long ns = 0;
    auto wait = [&](int64_t t) { now = t; ns = s.flip() ? 0 : (long)s.draw(999999999); };
    auto send = [&](int cls, int id, const Bytes& p) { steps.push_back({now, ns, ub::frame(cls, id, p)}); };
    // a satellite's messages wait in a queue of its own; queues are merged at random
    struct Item { int gnss, sv, kind; std::vector<uint8_t> words; int64_t toe; };
    std::vector<std::vector<Item>> queues;
    const int nsat = s.irange(0, 5);
    std::set<std::pair<int, int>> used;
    for (int i = 0; i < nsat; ++i)
    {
        const int kind = s.irange(0, 2), sv = s.irange(1, kind == 0 ? 32 : kind == 1 ? 36 : 24);
        if (!used.insert({kind, sv}).second) continue;
        std::vector<Item> q;
        const int issues = s.irange(1, 2);
        int iod = s.irange(0, 100), mark = s.irange(0, 60000);
        for (int k = 0; k < issues; ++k, iod += 1 + s.irange(0, 20), mark += 1 + s.irange(0, 100))
        {
            if (kind == 0)
            {
                const nav::Gps g = nav::gen_gps(s, iod);
                const int64_t toe = nav::gps_instant(nav::adjust(g.week + 2048, g.toe * 16, g.tow6 * 6), g.toe * 16);
                for (int f : s.perm(3)) q.push_back({0, sv, 0, nav::gps_msg(g, f + 1, s), toe});
            }
            else if (kind == 1)
            {
                const nav::Gal g = nav::gen_gal(s, sv, iod);
                const int64_t toe = nav::gps_instant(nav::adjust(g.week, g.toe * 60, g.tow) + 1024, g.toe * 60);
                for (int f : {2, 4, 1, 3, 5, 0}) q.push_back({2, sv, 1, nav::gal_msg(g, f, s), toe});
            }
            else
            {
                const nav::Glo g = nav::gen_glo(s);
                const int64_t day = 9496 + (int64_t)(g.n4 - 1) * 1461 + g.nt - 1;
                for (int f = 1; f <= 5; ++f) q.push_back({6, sv, 2, nav::glo_msg(g, f, mark, s), day * 86400 - 10800 + g.tb * 900});
            }
        }
        queues.push_back(q);
    }
    std::map<int, std::unique_ptr<GPSEphemeris>> gps;
    std::map<int, std::unique_ptr<GalileoEphemeris>> gal;
    std::map<int, std::unique_ptr<GlonassEphemeris>> glo;
    std::vector<size_t> at(queues.size(), 0);
    int complete = 0;
    auto feed = [&](auto& map, auto* type, const Item& it) {
        using E = typename std::remove_pointer<decltype(type)>::type;
        auto& e = map[it.sv];
        if (!e) e.reset(new E(it.sv));
        if (!e->parse(it.words.data(), it.words.size())) return;
        complete++;
        int64_t d;
        bool keep;
        if (s.chance(0.8)) { d = s.weighted({3, 1}) ? (s.flip() ? 7130 : -7130) : s.irange(-7130, 7130); keep = true; }
        else { d = (s.flip() ? 1 : -1) * (s.flip() ? 7270 : s.irange(7270, 900000)); keep = false; }
        wait(it.toe + d);
        s.note("satellite %d-%d complete %lld s from its reference time", it.gnss, it.sv, (long long)d);
        if (keep) m.eph[it.kind].push_back({bytes(*e), UTCTime(now, (int)ns)});
        else m.late++;
    };
    auto observations = [&]() {
        const int n = s.irange(0, 60);
        Bytes p;
        Bytes tow = dbl(604800 * s.unit());
        p.insert(p.end(), tow.begin(), tow.end());
        le(p, 8, 2, s.irange(0, 4000)); le(p, 10, 1, 18); le(p, 11, 1, n); le(p, 12, 1, s.irange(0, 3)); le(p, 13, 1, 1); le(p, 14, 2, 0);
        wait(now + s.irange(0, 3));
        for (int i = 0; i < n; ++i)
        {
            const int gnss = s.pick({0, 2, 6, 0, 2, 6, 1, 3, 5}), sig = s.irange(0, 7), ch = s.irange(0, 13), sv = s.irange(1, 255);
            const double pr = 1.9e7 + 2.6e7 * s.unit(), cp = s.sym(2e8);
            const float dop = (float)s.sym(6000);
            Bytes b = dbl(pr);
            for (const Bytes& x : {dbl(cp), flt(dop)}) b.insert(b.end(), x.begin(), x.end());
            le(b, 20, 1, gnss); le(b, 21, 1, sv); le(b, 22, 1, sig); le(b, 23, 1, ch); le(b, 24, 2, s.irange(0, 64500)); le(b, 26, 1, s.irange(0, 60));
            le(b, 27, 1, s.irange(0, 15)); le(b, 28, 1, s.irange(0, 15)); le(b, 29, 1, s.irange(0, 15)); le(b, 30, 1, 7); le(b, 31, 1, 0);
            p.insert(p.end(), b.begin(), b.end());
            double f = 0;
            if (gnss == 0) f = sig == 0 ? 1575.42e6 : sig == 3 || sig == 4 ? 1227.6e6 : 0;
            if (gnss == 2) f = sig <= 1 ? 1575.42e6 : sig == 5 || sig == 6 ? 1207.14e6 : 0;
            if (gnss == 6) f = sig == 0 ? 1602e6 + (ch - 7) * 562.5e3 : sig == 2 ? 1246e6 + (ch - 7) * 437.5e3 : 0;
            if (f == 0) { m.dropped++; continue; }
            m.obs.push_back({gnss, sv, f, pr, cp, -(double)dop * 299792458.0 / f, UTCTime(now, (int)ns)});
        }
        s.note("%d observations", n);
        send(2, 0x15, p);
    };
    const int rawx = s.irange(0, 3);
    int done = 0;
    for (;;)
    {
        std::vector<size_t> open;
        for (size_t q = 0; q < queues.size(); ++q)
            if (at[q] < queues[q].size()) open.push_back(q);
        if (open.empty()) break;
        if (done < rawx && s.chance(0.1)) { observations(); ++done; }
        if (s.chance(0.05)) send(2, 0x13, sfrbx(s.pick({1, 3, 5}), s.irange(1, 60), std::vector<uint8_t>(4 * s.irange(1, 10), 0x5A), s));
        if (s.chance(0.05)) send(1, 7, Bytes(92, 0x33));
        const size_t q = open[s.draw(open.size() - 1)];
        const Item& it = queues[q][at[q]++];
        wait(now + s.irange(0, 2));
        if (it.kind == 0) feed(gps, (GPSEphemeris*)nullptr, it);
        else if (it.kind == 1) feed(gal, (GalileoEphemeris*)nullptr, it);
        else feed(glo, (GlonassEphemeris*)nullptr, it);
        send(2, 0x13, sfrbx(it.gnss, it.sv, it.words, s));
    }
    while (done < rawx) { observations(); ++done; }
    size_t issues = 0;
    for (auto& q : queues) issues += q.size() / (q[0].kind == 0 ? 3 : q[0].kind == 1 ? 6 : 5);
    VT_REQ((size_t)complete == issues, "%d ephemerides completed of %zu sent", complete, issues);
    // ---- the run
    ScratchDir dir;
    const bool newer = s.flip(), answers = s.chance(0.97);
    const std::string out = dir.path + "/log";
    Bytes commands;
    auto play = [&](async_comm::Comm& c) {
        c.on_write = [&c, newer, answers, n = (size_t)0]() mutable {
            // answers the version poll once its last byte has been written
            static const Bytes poll = ub::frame(0x0A, 0x04, {});
            if (!answers || c.sent.size() < poll.size() || c.sent.size() == n || !std::equal(poll.begin(), poll.end(), c.sent.end() - poll.size())) return;
            n = c.sent.size();
            Bytes p(70, 0);
            const std::string v = newer ? "PROTVER=27.11" : "PROTVER=18.00";
            std::copy(v.begin(), v.end(), p.begin() + 40);
            const Bytes f = ub::frame(0x0A, 0x04, p);
            c.listener->receive_callback(f.data(), f.size());
        };
    };
    async_comm::device.opened = play;
    async_comm::device.closing = [&](async_comm::Comm& c) {
        commands = c.sent;
        for (const Step& st : steps)
        {
            set_clock(st.s, st.ns);
            size_t i = 0;
            while (i < st.b.size())
            {
                const size_t k = std::min<size_t>(st.b.size() - i, s.flip() ? st.b.size() : 1 + s.draw(200));
                c.listener->receive_callback(st.b.data() + i, k);
                i += k;
            }
        }
    };
    Bytes want;
    int rc;
    {
        ub::Hush q;
        // what the commands are on the wire is another property (P02); here: which are sent, and in which order
        async_comm::Comm c;
        ublox::Ubx u(c);
        play(c);
        u.disableNmea();
        u.getVersion();
        u.setNavRate(200);
        u.enableMessage(0x02, 0x13, 1);
        u.enableMessage(0x02, 0x15, 1);
        want = c.sent;
        std::string a[] = {"gather", "--port", "/dev/none", "--baudrate", "115200", "--output_directory", out};
        std::vector<char*> v;
        for (auto& x : a) v.push_back(&x[0]);
        set_clock(steps.empty() ? now : steps[0].s, steps.empty() ? 0 : steps[0].ns);
        stop = true;
        rc = gather_main((int)v.size(), v.data());
    }
    async_comm::device = {};
    VT_REQ(rc == 0, "exit code %d", rc);
    VT_REQ(commands == want, "sent %s, not %s", ub::hex(commands, 80).c_str(), ub::hex(want, 80).c_str());
    // ---- the log
    std::string bad;
    size_t no = 0, ne[3] = {0, 0, 0};
    std::unique_ptr<Quiet> quiet(new Quiet);
    {
        logging::LogReader r(out);
        r.setCallback(logging::GNSS_OBS, [&](const UTCTime& t, int, logging::StreamReader& st) {
            meas::GnssObservation o;
            st.get(o);
            if (no >= m.obs.size()) { no++; return; }
            const Obs& w = m.obs[no++];
            if (o.gnss_id != w.gnss || o.sat_num != w.sv) bad = vt::sfmt("observation %zu is of satellite %d-%d, not %d-%d", no, o.gnss_id, o.sat_num, w.gnss, w.sv);
            else if (std::abs(o.freq - w.freq) > 1e-3) bad = vt::sfmt("observation %zu of %d-%d has carrier %.1f, not %.1f", no, w.gnss, w.sv, o.freq, w.freq);
            else if (o.pseudorange != w.pr || o.carrier_phase != w.cp) bad = vt::sfmt("observation %zu: range %.9g phase %.9g, sent %.9g %.9g", no, o.pseudorange, o.carrier_phase, w.pr, w.cp);
            else if (std::abs(o.doppler - w.dop) > 1e-9 * std::abs(w.dop) + 1e-12) bad = vt::sfmt("observation %zu: range rate %.9g, not %.9g m/s", no, o.doppler, w.dop);
            else if (!(t == w.at) || !(o.t == w.at)) bad = vt::sfmt("observation %zu stamped %lld and %lld, received %lld", no, (long long)t.sec, (long long)o.t.sec, (long long)w.at.sec);
        });
        auto eph = [&](int k, auto* type, const UTCTime& t, logging::StreamReader& st) {
            using E = typename std::remove_pointer<decltype(type)>::type;
            E e(255);
            st.get(e);
            if (ne[k] >= m.eph[k].size()) { ne[k]++; return; }
            const Eph& w = m.eph[k][ne[k]++];
            if (bytes(e) != w.bytes) bad = vt::sfmt("ephemeris %zu of constellation %d is not the one transmitted", ne[k], k);
            else if (!(t == w.at)) bad = vt::sfmt("ephemeris %zu stamped %lld, complete %lld", ne[k], (long long)t.sec, (long long)w.at.sec);
        };
        r.setCallback(logging::GPS_EPH, [&](const UTCTime& t, int, logging::StreamReader& st) { eph(0, (GPSEphemeris*)nullptr, t, st); });
        r.setCallback(logging::GAL_EPH, [&](const UTCTime& t, int, logging::StreamReader& st) { eph(1, (GalileoEphemeris*)nullptr, t, st); });
        r.setCallback(logging::GLO_EPH, [&](const UTCTime& t, int, logging::StreamReader& st) { eph(2, (GlonassEphemeris*)nullptr, t, st); });
        r.read();
    }
    quiet.reset();
    VT_REQ(bad.empty(), "%s", bad.c_str());
    VT_REQ(no == m.obs.size(), "%zu observations logged of %zu (%d of other signals)", no, m.obs.size(), m.dropped);
    for (int k = 0; k < 3; ++k) VT_REQ(ne[k] == m.eph[k].size(), "%zu ephemerides of constellation %d logged of %zu", ne[k], k, m.eph[k].size());
    if (m.obs.size() > 1 && complete > 1) s.nontrivial();
    if (m.late) s.label("refused");
}
