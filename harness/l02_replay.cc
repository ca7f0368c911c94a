#include "loggen.h"
using logging::Logger;
using logging::LogReader;

// ---- kinds of stream: how a message with number n is made, written and read back
struct Kind
{
    const char* name;
    void (*init)(Logger&, int);
    void (*put)(Logger&, int, const UTCTime&, int64_t);
    int64_t (*get)(logging::StreamReader&, std::string&);
    int64_t (*next)(LogReader&, int, UTCTime&, std::string&);
};
static double val(int64_t n, int k) { return n * 7.25 + k * 0.125; }
static const std::vector<Kind> kinds = {
    {"number", [](Logger& l, int k) { l.initStream<int64_t>(k, {"n"}); }, [](Logger& l, int k, const UTCTime& t, int64_t n) { l.log(k, t, n); },
     [](logging::StreamReader& r, std::string&) { int64_t n = -1; r.get(n); return n; },
     [](LogReader& r, int k, UTCTime& t, std::string&) { auto e = r.getNext<int64_t>(k); t = e.t; return std::get<0>(e.data); }},
    {"vector", [](Logger& l, int k) { l.initStream<Vec3, int64_t, float>(k, {"v", "n", "f"}); },
     [](Logger& l, int k, const UTCTime& t, int64_t n) { l.log(k, t, Vec3(val(n, 0), val(n, 1), val(n, 2)), n, (float)val(n, 3)); },
     [](logging::StreamReader& r, std::string& bad) {
         Vec3 v; int64_t n = -1; float f;
         r.get(v, n, f);
         if (v != Vec3(val(n, 0), val(n, 1), val(n, 2)) || f != (float)val(n, 3)) bad = "the vector of another message";
         return n;
     },
     [](LogReader& r, int k, UTCTime& t, std::string& bad) {
         auto e = r.getNext<Vec3, int64_t, float>(k);
         t = e.t;
         const int64_t n = std::get<1>(e.data);
         if (std::get<0>(e.data) != Vec3(val(n, 0), val(n, 1), val(n, 2)) || std::get<2>(e.data) != (float)val(n, 3)) bad = "the vector of another message";
         return n;
     }},
    {"imu", [](Logger& l, int k) { l.initStream<meas::ImuSample>(k, {"imu"}); },
     [](Logger& l, int k, const UTCTime& t, int64_t n) {
         meas::ImuSample i;
         i.t = UTCTime(n, 17);
         i.accel.setConstant(val(n, 0));
         i.gyro.setConstant(val(n, 1));
         l.log(k, t, i);
     },
     [](logging::StreamReader& r, std::string& bad) {
         meas::ImuSample i;
         r.get(i);
         if (i.t.nsec != 17 || i.accel != Vec3::Constant(val(i.t.sec, 0)) || i.gyro != Vec3::Constant(val(i.t.sec, 1))) bad = "an inertial sample of another message";
         return (int64_t)i.t.sec;
     },
     [](LogReader& r, int k, UTCTime& t, std::string& bad) {
         auto e = r.getNext<meas::ImuSample>(k);
         t = e.t;
         auto& i = std::get<0>(e.data);
         if (i.t.nsec != 17 || i.accel != Vec3::Constant(val(i.t.sec, 0)) || i.gyro != Vec3::Constant(val(i.t.sec, 1))) bad = "an inertial sample of another message";
         return (int64_t)i.t.sec;
     }},
    {"byte", [](Logger& l, int k) { l.initStream<uint8_t, int32_t>(k, {"b", "n"}); },
     [](Logger& l, int k, const UTCTime& t, int64_t n) { l.log(k, t, (uint8_t)(n * 10), (int32_t)n); },
     [](logging::StreamReader& r, std::string& bad) {
         uint8_t b; int32_t n = -1;
         r.get(b, n);
         if (b != (uint8_t)(n * 10)) bad = "a byte of another message";
         return (int64_t)n;
     },
     [](LogReader& r, int k, UTCTime& t, std::string& bad) {
         auto e = r.getNext<uint8_t, int32_t>(k);
         t = e.t;
         if (std::get<0>(e.data) != (uint8_t)(std::get<1>(e.data) * 10)) bad = "a byte of another message";
         return (int64_t)std::get<1>(e.data);
     }},
    {"ephemeris", [](Logger& l, int k) { l.initStream<ephemeris::GlonassEphemeris, int64_t>(k, {"eph", "n"}); },
     [](Logger& l, int k, const UTCTime& t, int64_t n) {
         ephemeris::GlonassEphemeris e(3);
         e.iode = (int)n;
         e.toe = UTCTime(n, 1);
         e.pos.setConstant(val(n, 0));
         l.log(k, t, e, n);
     },
     [](logging::StreamReader& r, std::string& bad) {
         ephemeris::GlonassEphemeris e(0);
         int64_t n = -1;
         r.get(e, n);
         if (e.iode != n || e.toe.sec != n || e.pos != Vec3::Constant(val(n, 0))) bad = "an ephemeris of another message";
         return n;
     },
     [](LogReader& r, int k, UTCTime& t, std::string& bad) {
         ephemeris::GlonassEphemeris e(0);
         int64_t n = -1;
         (void)r;
         auto x = r.getNext<ephemeris::GlonassEphemeris, int64_t>(k);
         t = x.t;
         e = std::get<0>(x.data);
         n = std::get<1>(x.data);
         if (e.iode != n || e.toe.sec != n || e.pos != Vec3::Constant(val(n, 0))) bad = "an ephemeris of another message";
         return n;
     }}};

static const std::vector<int> key_pool = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 20, 120, 1200, 99, 990, 9900, 123, 1230, 200, 2000, 10000, 12345, 1235312, 351234, -1, -10, -12};

struct Msg { UTCTime t; int64_t n; };
struct Strm { int key, kind; std::vector<Msg> msgs; };
struct LogSpec
{
    UTCTime start, end;
    int amends = -1;
    std::vector<Strm> strm;
    std::vector<std::pair<int, int>> order;   // (stream, message) as written
    bool explicit_close = true;
    std::string id, root, path;
};
static UTCTime step(vt::Src& s, const UTCTime& t)
{
    i128 d = 0;
    switch (s.weighted({2, 2, 2, 2, 1}))
    {
    case 0: break;
    case 1: d = s.range(0, 3); break;                    // nanoseconds
    case 2: d = s.range(0, 20) * 1000000; break;         // milliseconds
    case 3: d = s.range(0, 2000000000); break;
    default: d = NS * s.range(0, 3600); break;
    }
    const i128 x = total(t) + d;
    UTCTime o;
    o.sec = (int64_t)(x / NS);
    o.nsec = (int64_t)(x % NS);
    return o;
}
static LogSpec spec(vt::Src& s, int idx, int nlogs, int64_t after)
{
    LogSpec L;
    L.start = UTCTime(0);
    L.start.sec = after + s.irange(1, 100000);
    L.start.nsec = gen_nsec(s);
    const int ns = s.irange(idx + 1 < nlogs ? 1 : 0, 5);
    std::set<int> used;
    for (int i = 0; i < ns; ++i)
    {
        const int key = s.pickv(key_pool);
        if (!used.insert(key).second) continue;
        L.strm.push_back({key, (int)s.draw(kinds.size() - 1), {}});
    }
    UTCTime t = L.start;
    const int nm = L.strm.empty() ? 0 : s.irange(0, 60);
    int64_t n = 1000 * idx;
    for (int i = 0; i < nm; ++i)
    {
        t = step(s, t);
        const int k = (int)s.draw(L.strm.size() - 1);
        L.order.push_back({k, (int)L.strm[k].msgs.size()});
        L.strm[k].msgs.push_back({t, ++n});
    }
    // written in the order of their times per stream, but streams may lag behind each other
    if (s.chance(0.3))
        std::stable_sort(L.order.begin(), L.order.end(), [](auto& a, auto& b) { return a.first < b.first; });
    L.end = step(s, t);
    L.explicit_close = s.chance(0.7);
    return L;
}
// `reuse`: the logger of an earlier log of the chain, closed since
static void write(LogSpec& L, const std::vector<LogSpec>& all, std::unique_ptr<Logger>& reuse, bool keep)
{
    std::unique_ptr<Logger> own = std::move(reuse);
    if (own) own->open(L.start, L.root);
    else own.reset(new Logger(L.start, L.root));
    Logger& lg = *own;
    L.id = lg.logId();
    L.path = L.root + "/" + L.id;
    if (L.amends >= 0) lg.amends(all[L.amends].path);
    for (auto& x : L.strm) kinds[x.kind].init(lg, x.key);
    for (auto& o : L.order)
    {
        auto& x = L.strm[o.first];
        kinds[x.kind].put(lg, x.key, x.msgs[o.second].t, x.msgs[o.second].n);
    }
    if (L.explicit_close)
    {
        lg.close(L.end);
        if (keep) reuse = std::move(own);
    }
}

VT_PROP(replay, 900, 15000)
{
    ScratchDir dir;
    const int nlogs = s.weighted({0, 4, 4, 2});
    const bool one_root = s.flip();
    std::vector<LogSpec> logs;
    for (int i = 0; i < nlogs; ++i)
    {
        logs.push_back(spec(s, i, nlogs, i ? logs.back().start.sec : 1561988124));
        logs[i].root = dir.path + (one_root ? "/logs" : vt::sfmt("/logs%d", i));
        logs[i].amends = i - 1;
        for (auto& x : logs[i].strm) s.note("log %d key %d %s %zu", i, x.key, kinds[x.kind].name, x.msgs.size());
    }
    std::string trouble;
    const bool keep = s.flip();   // one logger writes the logs one after another
    {
        Quiet q;
        std::unique_ptr<Logger> reuse;
        for (auto& L : logs) write(L, logs, reuse, keep);
    }
    // what should come out: the last log's streams, then those of the ones it amends
    std::map<int, const Strm*> want;
    for (int i = nlogs - 1; i >= 0; --i)
        for (auto& x : logs[i].strm)
            if (!want.count(x.key)) want[x.key] = &x;
    bool exact_end = true;
    UTCTime t0 = logs[0].start, t1 = logs[0].end;
    for (auto& L : logs)
    {
        if (total(L.start) < total(t0)) t0 = L.start;
        if (total(L.end) > total(t1)) t1 = L.end;
        exact_end &= L.explicit_close;
    }
    const LogSpec& last = logs.back();
    const std::string how = s.pickv(std::vector<std::string>{last.path, last.path + "/", last.root, last.root + "/"});
    std::set<int> subscribed;
    for (auto& w : want)
        if (s.chance(0.8)) subscribed.insert(w.first);
    const int mode = s.weighted({3, 1, 1});   // read(), read() with maintenance callback, getNext
    const double period = s.pick<double>({0.01, 1.0, 60.0});
    const int stop_at = s.irange(1, 10);
    struct Got { int key; UTCTime t; int64_t n; std::string bad; };
    std::vector<Got> got;
    int maint = 0, after_stop = 0;
    bool stopped = false;
    std::vector<UTCTime> mt;
    UTCTime rs, re;
    std::string rpath;
    {
        Quiet q;
        LogReader r(how);
        rs = r.startTime();
        re = r.endTime();
        rpath = r.logPath();
        if (mode == 2)
        {
            for (int k : subscribed)
            {
                for (size_t i = 0; i < want[k]->msgs.size(); ++i)
                {
                    Got g{k, UTCTime(0), 0, ""};
                    g.n = kinds[want[k]->kind].next(r, k, g.t, g.bad);
                    got.push_back(g);
                }
            }
        }
        else
        {
            for (int k : subscribed)
            {
                const Strm* w = want[k];
                r.setCallback(k, [&got, &stopped, &after_stop, w](const UTCTime& t, int key, logging::StreamReader& sr) {
                    Got g{key, t, 0, ""};
                    g.n = kinds[w->kind].get(sr, g.bad);
                    got.push_back(g);
                    after_stop += stopped;
                });
            }
            if (mode == 1)
                r.setMaintenanceCallback(period, [&](const UTCTime& t) {
                    mt.push_back(t);
                    after_stop += stopped;
                    if (++maint == stop_at)
                    {
                        stopped = true;
                        return Error::create("enough");
                    }
                    return Error::none();
                });
            r.read();
        }
    }
    VT_REQ(total(rs) == total(t0), "the log starts at %s, want %s", show(rs).c_str(), show(t0).c_str());
    if (exact_end) VT_REQ(total(re) == total(t1), "the log ends at %s, want %s", show(re).c_str(), show(t1).c_str());
    VT_REQ(fs::equivalent(rpath, last.path), "opened %s, want %s", rpath.c_str(), last.path.c_str());
    VT_REQ(after_stop == 0, "%d calls after reading was told to stop", after_stop);
    std::map<int, size_t> at;
    for (size_t i = 0; i < got.size(); ++i)
    {
        const Got& g = got[i];
        VT_REQ(subscribed.count(g.key), "message of key %d, not asked for", g.key);
        const auto& m = want[g.key]->msgs;
        const size_t k = at[g.key]++;
        VT_REQ(k < m.size(), "key %d: more than the %zu messages written", g.key, m.size());
        VT_REQ(g.n == m[k].n, "key %d message %zu: number %lld, want %lld", g.key, k, (long long)g.n, (long long)m[k].n);
        VT_REQ(g.bad.empty(), "key %d message %zu: %s", g.key, k, g.bad.c_str());
        VT_REQ(total(g.t) == total(m[k].t), "key %d message %zu: time %s, want %s", g.key, k, show(g.t).c_str(), show(m[k].t).c_str());
        if (mode != 2 && i)
            VT_REQ(total(got[i - 1].t) <= total(g.t), "message %zu at %s after one at %s", i, show(g.t).c_str(), show(got[i - 1].t).c_str());
    }
    size_t all = 0, exp = 0;
    i128 stop_t = 0;
    if (stopped) stop_t = total(mt.back());
    for (int k : subscribed)
    {
        const auto& m = want[k]->msgs;
        if (!stopped) VT_REQ(at[k] == m.size(), "key %d: %zu of %zu messages", k, at[k], m.size());
        for (size_t i = 0; i < m.size(); ++i)
        {
            exp += !stopped || total(m[i].t) < stop_t;
            // everything before the time at which reading stopped has been delivered
            if (stopped && total(m[i].t) < stop_t) VT_REQ(i < at[k], "key %d message %zu, before the stop at %s, is missing", k, i, show(mt.back()).c_str());
        }
        all += at[k];
    }
    for (size_t i = 1; i < mt.size(); ++i) VT_REQ(total(mt[i - 1]) <= total(mt[i]), "maintenance at %s after %s", show(mt[i]).c_str(), show(mt[i - 1]).c_str());
    s.label(mode == 2 ? "getNext" : mode == 1 ? (stopped ? "stopped" : "maintenance") : "read");
    if (want.size() >= 2 && all >= 5) s.nontrivial();
}

// records stamped on writing bear the time of writing
VT_PROP(stamped, 60, 1000)
{
    ScratchDir dir;
    const int n = s.irange(1, 12), keys = s.irange(1, 3);
    struct R { UTCTime before, after; int key; double a; Vec3 b; int c; };
    std::vector<R> want;
    std::vector<std::pair<UTCTime, R>> got;
    {
        Quiet q;
        const UTCTime t0 = UTCTime::now();
        logging::Logger log(t0, dir.path);
        for (int k = 0; k < keys; ++k) log.initStream<double, Vec3, int>(100 + k, {"a", "b", "c"});
        for (int i = 0; i < n; ++i)
        {
            R r{UTCTime::now(), UTCTime(), 100 + s.irange(0, keys - 1), s.sym(1e6), Vec3(s.sym(1), s.sym(1), s.sym(1)), s.irange(-1000, 1000)};
            log.logStamped(r.key, r.a, r.b, r.c);
            r.after = UTCTime::now();
            want.push_back(r);
        }
        log.close(UTCTime::now());
        logging::LogReader in(dir.path);
        for (int k = 0; k < keys; ++k)
            in.setCallback(100 + k, [&](const UTCTime& t, int key, logging::StreamReader& f) {
                R r;
                r.key = key;
                f.get(r.a, r.b, r.c);
                got.push_back({t, r});
            });
        in.read();
    }
    VT_REQ(got.size() == want.size(), "%zu records of %zu", got.size(), want.size());
    // (equal stamps of different streams may swap)
    std::vector<size_t> next(keys, 0);
    for (auto& g : got)
    {
        size_t& i = next[g.second.key - 100];
        while (i < want.size() && want[i].key != g.second.key) ++i;
        VT_REQ(i < want.size(), "a record of key %d too many", g.second.key);
        const R& w = want[i++];
        VT_REQ(g.second.a == w.a && g.second.b == w.b && g.second.c == w.c, "another record");
        VT_REQ(!(g.first < w.before) && !(w.after < g.first), "stamped %s, written between %s and %s", show(g.first).c_str(), show(w.before).c_str(), show(w.after).c_str());
    }
    if (n > 2) s.nontrivial();
}

// what each key's file is called
VT_PROP(names, 500, 10000)
{
    const int a = s.chance(0.5) ? s.pickv(key_pool) : s.irange(-20000, 2000000);
    const int b = s.chance(0.5) ? s.pickv(key_pool) : s.chance(0.5) ? a * 10 : s.irange(-20000, 2000000);
    s.note("%d %d", a, b);
    VT_REQ((a == b) == (logging::logKeyName(a) == logging::logKeyName(b)), "%s and %s", logging::logKeyName(a).c_str(), logging::logKeyName(b).c_str());
    if (a != b) s.nontrivial();
}

// misuse is refused: reading a log that is not there, writing to a stream that was not set up, setting one up twice
VT_PROP(misuse, 15, 60)
{
    ScratchDir dir;
    const int what = s.irange(0, 4);
    s.note("misuse %d", what);
    auto r = vt::in_child([&]() -> std::string {
        Quiet q;
        fs::create_directories(dir.path + "/empty");
        switch (what)
        {
        case 0: { LogReader r(dir.path + "/20190101_000000"); break; }
        case 1: { LogReader r(dir.path + "/empty"); break; }
        case 2: { Logger l(dir.path); l.log(5, UTCTime(1), 2.0); break; }
        case 3: { Logger l(dir.path); l.initStream<double>(5, {"a"}); l.initStream<double>(5, {"a"}); break; }
        default: { Logger l(dir.path); l.initStream<double, double>(5, {"a", s.flip() ? "a" : "t"}); break; }
        }
        return "accepted";
    });
    VT_REQ(r.data != "accepted", "accepted");
    VT_REQ(r.refused() || r.stopped(), "neither");
    VT_REQ(r.sig == 0 || r.sig == SIGABRT, "signal %d", r.sig);
    s.nontrivial();
}
