// vt.h - a small property-based testing engine.
//
// A property is a function of a Src, the source of all random choices.  Every choice is recorded as
// an integer in [0, bound], so any failing case is a list of integers, which can be shrunk without
// knowing what it generates (delete blocks, zero, bisect) and replayed exactly.  Cases run in
// worker processes; a case that crashes, calls exit(), or hangs is a failing case like any other.
//
// case k of property p under seed s is a pure function of (s, p, k).
#pragma once

#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <limits>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_set>
#include <vector>

namespace vt {

using u64 = uint64_t;
using i64 = int64_t;

inline u64 mix(u64 x)
{
    x += 0x9E3779B97F4A7C15ull;
    x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
    x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
    return x ^ (x >> 31);
}
inline u64 hash_str(const std::string& s, u64 h = 1469598103934665603ull)
{
    for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
    return h;
}

struct Failure
{
    std::string msg;
};
struct Discard
{
};

inline std::string vfmt(const char* f, va_list ap)
{
    char buf[4096];
    vsnprintf(buf, sizeof buf, f, ap);
    return buf;
}
inline std::string sfmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
inline std::string sfmt(const char* f, ...)
{
    va_list ap;
    va_start(ap, f);
    std::string s = vfmt(f, ap);
    va_end(ap);
    return s;
}

class Src
{
 public:
    explicit Src(u64 seed) : rng_(seed) {}
    explicit Src(const std::vector<u64>& rep) : replay_(true), rep_(rep) {}

    // the only primitive: an integer in [0, bound], 0 is the simplest
    u64 draw(u64 bound)
    {
        u64 v;
        if (replay_)
        {
            v = pos_ < rep_.size() ? rep_[pos_] : 0;
            if (v > bound) v = bound;
            pos_++;
        }
        else
        {
            const u64 r = next();
            v = bound == ~0ull ? r : (u64)(((unsigned __int128)r * (bound + 1)) >> 64);
        }
        rec_.push_back(v);
        if (shm_ && shm_[0] < SHM_MAX) shm_[++shm_[0]] = v;
        return v;
    }
    i64 range(i64 lo, i64 hi) { return lo + (i64)draw((u64)hi - (u64)lo); }
    int irange(int lo, int hi) { return (int)range(lo, hi); }
    bool flip() { return draw(1) == 1; }
    // true with probability p (simplest: false)
    bool chance(double p) { return draw(999999) >= (u64)((1.0 - p) * 1e6); }
    double unit() { return (double)draw((1ull << 53) - 1) * 0x1p-53; }
    double real(double lo, double hi)
    {
        return lo + (hi - lo) * unit();
    }
    // real symmetric around 0 that shrinks to 0
    double sym(double a)
    {
        const double u = unit();
        return flip() ? -u * a : u * a;
    }
    // log-uniform magnitude
    double logu(double lo, double hi) { return std::exp(real(std::log(lo), std::log(hi))); }
    double gauss()
    {
        const double u1 = 1.0 - unit(), u2 = unit();
        return std::sqrt(-2.0 * std::log(u1)) * std::cos(2 * M_PI * u2);
    }
    template <typename T>
    T pick(std::initializer_list<T> l)
    {
        return *(l.begin() + draw(l.size() - 1));
    }
    template <typename T>
    const T& pickv(const std::vector<T>& l)
    {
        return l[draw(l.size() - 1)];
    }
    // weighted choice, returns index
    int weighted(std::initializer_list<int> w)
    {
        i64 tot = 0;
        for (int x : w) tot += x;
        i64 r = (i64)draw(tot - 1);
        int i = 0;
        for (int x : w)
        {
            if (r < x) return i;
            r -= x;
            i++;
        }
        return 0;
    }
    std::vector<uint8_t> bytes(size_t n)
    {
        std::vector<uint8_t> v(n);
        size_t i = 0;
        while (i < n)
        {
            u64 r = draw(~0ull);
            for (int k = 0; k < 8 && i < n; ++k, ++i) v[i] = (uint8_t)(r >> (8 * k));
        }
        return v;
    }
    std::vector<int> perm(int n)
    {
        std::vector<int> p(n);
        for (int i = 0; i < n; ++i) p[i] = i;
        for (int i = 0; i + 1 < n; ++i) std::swap(p[i], p[i + (int)draw(n - 1 - i)]);
        return p;
    }

    void label(const std::string& s) { labels_.insert(s); }
    void nontrivial() { nontrivial_ = true; }
    void discard() { throw Discard{}; }
    void note(const char* f, ...) __attribute__((format(printf, 2, 3)))
    {
        va_list ap;
        va_start(ap, f);
        if (notes_.size() < 6000)
        {
            if (!notes_.empty()) notes_ += "; ";
            notes_ += vfmt(f, ap);
            if (shm_)
            {
                char* d = (char*)(shm_ + SHM_MAX + 1);
                strncpy(d, notes_.c_str(), SHM_NOTES - 1);
            }
        }
        va_end(ap);
    }
    [[noreturn]] void fail(const std::string& m) { throw Failure{m}; }

    const std::vector<u64>& record() const { return rec_; }
    std::set<std::string> labels_;
    bool nontrivial_ = false;
    std::string notes_;
    static constexpr u64 SHM_MAX = 1 << 18;
    static constexpr u64 SHM_NOTES = 8192;
    u64* shm_ = nullptr;  // shared with the parent: choices survive a crash

 private:
    u64 next()
    {
        rng_ += 0x9E3779B97F4A7C15ull;
        u64 z = rng_;
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    u64 rng_ = 0;
    bool replay_ = false;
    std::vector<u64> rep_;
    size_t pos_ = 0;
    std::vector<u64> rec_;
};

#define VT_REQ(cond, ...)                                                                       \
    do                                                                                          \
    {                                                                                           \
        if (!(cond))                                                                            \
            throw vt::Failure{std::string(#cond " -- ") + vt::sfmt(__VA_ARGS__)};               \
    } while (0)

struct Prop
{
    const char* name;
    i64 quick, thorough;  // number of cases
    void (*fn)(Src&);
};
inline std::vector<Prop>& props()
{
    static std::vector<Prop> v;
    return v;
}
struct Reg
{
    Reg(const char* n, i64 q, i64 t, void (*f)(Src&)) { props().push_back({n, q, t, f}); }
};
// VT_PROP(name, quick cases, thorough cases) { body using Src& s }
#define VT_PROP(name, q, t)                            \
    static void vt_prop_##name(vt::Src&);              \
    static vt::Reg vt_reg_##name(#name, q, t, vt_prop_##name); \
    static void vt_prop_##name([[maybe_unused]] vt::Src& s)

// known findings: a fixed history that demonstrates a recorded defect. Returns true if it still
// shows the defect. Names are matched with known_findings.jsonl by the runner.
struct Known
{
    const char* name;
    bool (*fn)(std::string&);
};
inline std::vector<Known>& knowns()
{
    static std::vector<Known> v;
    return v;
}
struct RegK
{
    RegK(const char* n, bool (*f)(std::string&)) { knowns().push_back({n, f}); }
};
#define VT_KNOWN(name)                                   \
    static bool vt_known_##name(std::string&);           \
    static vt::RegK vt_regk_##name(#name, vt_known_##name); \
    static bool vt_known_##name([[maybe_unused]] std::string& what)

// ---- run something that may legitimately stop the process, in a child -----------------------
struct ChildResult
{
    bool exited = false;   // returned normally from fn
    int code = -1;         // exit code if it called exit()
    int sig = 0;           // signal if killed
    std::string data;      // bytes fn returned
    bool stopped() const { return !exited; }
    // the documented way of stopping: check() prints and exits
    bool refused() const { return !exited && sig == 0 && code != 0; }
};
inline ChildResult in_child(const std::function<std::string()>& fn)
{
    ChildResult r;
    int fd[2];
    if (pipe(fd) != 0) abort();
    fflush(nullptr);
    pid_t pid = fork();
    if (pid < 0) throw Failure{"fork failed"};
    if (pid == 0)
    {
        close(fd[0]);
        std::string out;
        try
        {
            out = "R" + fn();
        }
        catch (const Failure& f)
        {
            out = "F" + f.msg;
        }
        catch (const Discard&)
        {
            out = "D";
        }
        catch (const std::exception& e)
        {
            out = std::string("E") + e.what();
        }
        size_t o = 0;
        while (o < out.size())
        {
            ssize_t w = write(fd[1], out.data() + o, out.size() - o);
            if (w <= 0) break;
            o += w;
        }
        _exit(0);
    }
    close(fd[1]);
    std::string got;
    char buf[65536];
    ssize_t n;
    while ((n = read(fd[0], buf, sizeof buf)) > 0) got.append(buf, n);
    close(fd[0]);
    int st;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR)
    {
    }
    if (WIFSIGNALED(st)) r.sig = WTERMSIG(st);
    if (WIFEXITED(st)) r.code = WEXITSTATUS(st);
    if (r.sig == 0 && !got.empty())
    {
        if (got[0] == 'F') throw Failure{got.substr(1)};
        if (got[0] == 'D') throw Discard{};
        if (got[0] == 'E')
        {
            r.code = 77;  // exception: a loud refusal
            r.data = got.substr(1);
            return r;
        }
        r.exited = true;
        r.data = got.substr(1);
    }
    return r;
}

// ---- engine ---------------------------------------------------------------------------------
enum Status
{
    OK,
    DISCARDED,
    FAILED
};
struct Result
{
    Status st = OK;
    std::string msg;
    std::vector<u64> rec;
    std::set<std::string> labels;
    bool nontrivial = false;
    std::string notes;
};

inline Result run_one(const Prop& p, Src& s)
{
    Result r;
    try
    {
        p.fn(s);
    }
    catch (const Failure& f)
    {
        r.st = FAILED;
        r.msg = f.msg;
    }
    catch (const Discard&)
    {
        r.st = DISCARDED;
    }
    catch (const std::exception& e)
    {
        r.st = FAILED;
        r.msg = std::string("unexpected exception: ") + e.what();
    }
    r.rec = s.record();
    r.labels = s.labels_;
    r.nontrivial = s.nontrivial_;
    r.notes = s.notes_;
    return r;
}

inline std::string jesc(const std::string& s)
{
    std::string o;
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\')
        {
            o += '\\';
            o += (char)c;
        }
        else if (c == '\n')
            o += "\\n";
        else if (c < 32 || c > 126)
            o += sfmt("\\u%04x", c);
        else
            o += (char)c;
    }
    return o;
}

inline u64 case_seed(u64 seed, const Prop& p, i64 k)
{
    return mix(mix(seed ^ hash_str(p.name)) + 0x1234567 * (u64)k);
}

static const int CASE_CPU_SECONDS = 60;

inline void arm_cpu_limit(int sec)
{
    // CPU time, so that a loaded machine does not make a case look like a hang
    struct itimerval it;
    memset(&it, 0, sizeof it);
    it.it_value.tv_sec = sec;
    setitimer(ITIMER_VIRTUAL, &it, nullptr);
}

struct Outcome
{
    bool failed = false;
    bool crashed = false;
    std::string msg;
    std::string notes;
    std::vector<u64> rec;
    std::string output;
};

// run recorded choices in a child process
inline Outcome run_isolated(const Prop& p, const std::vector<u64>& rep, const std::string& tmp,
                            bool use_seed = false, u64 seed = 0)
{
    Outcome o;
    const std::string resf = tmp + "/iso.res", outf = tmp + "/iso.out";
    unlink(resf.c_str());
    static u64* shm = (u64*)mmap(nullptr, 8 * (Src::SHM_MAX + 1) + Src::SHM_NOTES,
                                 PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    shm[0] = 0;
    memset(shm + Src::SHM_MAX + 1, 0, Src::SHM_NOTES);
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0)
    {
        int fd = open(outf.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
        dup2(fd, 1);
        dup2(fd, 2);
        arm_cpu_limit(CASE_CPU_SECONDS);
        // record choices as they are made, so that a crash still leaves them
        Src s = use_seed ? Src(seed) : Src(rep);
        s.shm_ = shm;
        Result r = run_one(p, s);
        FILE* f = fopen(resf.c_str(), "wb");
        int st = r.st;
        fwrite(&st, sizeof st, 1, f);
        auto ws = [&](const std::string& x) {
            u64 n = x.size();
            fwrite(&n, 8, 1, f);
            fwrite(x.data(), 1, n, f);
        };
        ws(r.msg);
        ws(r.notes);
        u64 n = r.rec.size();
        fwrite(&n, 8, 1, f);
        fwrite(r.rec.data(), 8, n, f);
        fclose(f);
        _exit(0);
    }
    int st;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR)
    {
    }
    FILE* f = fopen(resf.c_str(), "rb");
    if (f)
    {
        int rs = 0;
        auto rd = [&](void* d, size_t n) { return fread(d, 1, n, f) == n; };
        auto rsn = [&](std::string& x) {
            u64 n = 0;
            rd(&n, 8);
            x.resize(n);
            rd(&x[0], n);
        };
        rd(&rs, sizeof rs);
        rsn(o.msg);
        rsn(o.notes);
        u64 n = 0;
        rd(&n, 8);
        o.rec.resize(n);
        rd(o.rec.data(), 8 * n);
        fclose(f);
        o.failed = rs == FAILED;
    }
    else
    {
        o.failed = true;
        o.crashed = true;
        o.rec.assign(shm + 1, shm + 1 + shm[0]);
        o.notes = (const char*)(shm + Src::SHM_MAX + 1);
        if (WIFSIGNALED(st))
            o.msg = WTERMSIG(st) == SIGVTALRM
                        ? sfmt("case did not finish within %d s of CPU time", CASE_CPU_SECONDS)
                        : sfmt("process killed by signal %d", WTERMSIG(st));
        else
            o.msg = sfmt("process stopped with exit code %d", WEXITSTATUS(st));
        FILE* g = fopen(outf.c_str(), "rb");
        if (g)
        {
            fseek(g, 0, SEEK_END);
            long len = ftell(g);
            fseek(g, std::max(0l, len - 3000), SEEK_SET);  // the end: what it said before it stopped
            char b[3001];
            size_t k = fread(b, 1, 3000, g);
            o.output.assign(b, k);
            fclose(g);
        }
    }
    unlink(resf.c_str());
    unlink(outf.c_str());
    return o;
}

// all of one worker's cases up to `last` in one process: for failures that need what earlier calls
// left behind in the process
inline Outcome run_history(const Prop& p, u64 seed, i64 start, i64 stride, i64 last,
                           const std::string& tmp)
{
    Prop q = p;
    static const Prop* real;
    static u64 rseed;
    static i64 rs, rst, rl;
    real = &p;
    rseed = seed;
    rs = start;
    rst = stride;
    rl = last;
    q.fn = [](Src& s) {
        for (i64 k = rs; k <= rl; k += rst)
        {
            Src c(case_seed(rseed, *real, k));
            Result r = run_one(*real, c);
            if (r.st == FAILED)
            {
                s.note("after %lld earlier cases in the same process: %s",
                       (long long)((k - rs) / rst), r.notes.c_str());
                throw Failure{r.msg};
            }
            arm_cpu_limit(CASE_CPU_SECONDS);
        }
    };
    return run_isolated(q, {}, tmp);
}

inline std::string getopt_s(int argc, char** argv, const char* k, const char* d)
{
    for (int i = 1; i + 1 < argc; ++i)
        if (!strcmp(argv[i], k)) return argv[i + 1];
    return d;
}

struct Shared
{
    volatile i64 cur[64];       // case being run by worker w, -1 if none
    volatile i64 cur_prop[64];
};

inline void write_replay(const std::string& path, const Prop& p, const std::vector<u64>& rec)
{
    FILE* f = fopen(path.c_str(), "w");
    fprintf(f, "%s\n", p.name);
    for (u64 v : rec) fprintf(f, "%llu\n", (unsigned long long)v);
    fclose(f);
}

// Output: a JSON file with per-property counts and failures.
inline int vt_main(int argc, char** argv)
{
    const std::string out = getopt_s(argc, argv, "--out", "");
    const std::string tier = getopt_s(argc, argv, "--tier", "quick");
    const u64 seed = strtoull(getopt_s(argc, argv, "--seed", "1").c_str(), nullptr, 10);
    const std::string only = getopt_s(argc, argv, "--only", "");
    const std::string replay = getopt_s(argc, argv, "--replay", "");
    const int workers = atoi(getopt_s(argc, argv, "--workers", "8").c_str());
    const double scale = atof(getopt_s(argc, argv, "--scale", "1").c_str());
    const std::string tmp = getopt_s(argc, argv, "--tmp", "/tmp");

    if (!replay.empty())
    {
        FILE* f = fopen(replay.c_str(), "r");
        if (!f) return 2;
        char name[512];
        if (fscanf(f, "%511s", name) != 1) return 2;
        std::vector<u64> rep;
        unsigned long long v;
        while (fscanf(f, "%llu", &v) == 1) rep.push_back(v);
        fclose(f);
        for (auto& p : props())
            if (!strcmp(p.name, name))
            {
                // "-1 seed start stride last": a run of generated cases in one process
                const bool hist = rep.size() == 5 && rep[0] == ~0ull;
                Outcome o = hist ? run_history(p, rep[1], rep[2], rep[3], rep[4], tmp)
                                 : run_isolated(p, rep, tmp);
                printf("%s %s\n  case: %s\n  %s\n%s\n", p.name, o.failed ? "FAILED" : "passed",
                       o.notes.c_str(), o.msg.c_str(), o.output.c_str());
                return o.failed ? 1 : 0;
            }
        printf("no property %s\n", name);
        return 2;
    }

    Shared* sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE,
                               MAP_SHARED | MAP_ANONYMOUS, -1, 0);

    std::string json = "{\"props\":[";
    bool any_fail = false;
    bool first = true;
    for (size_t pi = 0; pi < props().size(); ++pi)
    {
        const Prop& p = props()[pi];
        if (!only.empty() && only != p.name) continue;
        const i64 n = std::max<i64>(1, (i64)(scale * (tier == "thorough" ? p.thorough : p.quick)));
        const int W = (int)std::min<i64>(workers, n);
        struct Agg
        {
            i64 evals = 0, discards = 0;
            std::unordered_set<u64> nt;
            std::map<std::string, i64> labels;
            std::vector<std::string> samples;
        } agg;
        struct F
        {
            i64 k;
            std::string msg;
        };
        std::vector<F> fails;

        // worker w runs k = w, w+W, ...; restarted after a crash at the next case
        std::vector<i64> startk(W);
        for (int w = 0; w < W; ++w) startk[w] = w;
        std::vector<pid_t> pids(W, -1);
        auto spawn = [&](int w) {
            sh->cur[w] = -1;
            fflush(nullptr);
            pid_t pid = fork();
            if (pid == 0)
            {
                int fd = open("/dev/null", O_WRONLY);
                dup2(fd, 1);
                dup2(fd, 2);
                Agg a;
                const std::string rf = sfmt("%s/w%d.txt", tmp.c_str(), w);
                FILE* f = fopen(rf.c_str(), "a");
                int nfail = 0;
                for (i64 k = startk[w]; k < n; k += W)
                {
                    sh->cur[w] = k;
                    arm_cpu_limit(CASE_CPU_SECONDS);
                    Src s(case_seed(seed, p, k));
                    Result r = run_one(p, s);
                    // E <k> <status> <nontrivial> <hash>
                    u64 h = 7;
                    for (u64 v : r.rec) h = mix(h ^ v);
                    fprintf(f, "E %d %d %llu\n", (int)r.st, r.nontrivial ? 1 : 0,
                            (unsigned long long)h);
                    for (auto& l : r.labels) fprintf(f, "L %s\n", l.c_str());
                    if (r.nontrivial && k < 3 * W && !r.notes.empty())
                        fprintf(f, "S %s\n", jesc(r.notes.substr(0, 600)).c_str());
                    if (r.st == FAILED)
                    {
                        fprintf(f, "F %lld %s\n", (long long)k, jesc(r.msg).c_str());
                        if (++nfail >= 3) break;
                    }
                    if ((k / W) % 64 == 0) fflush(f);
                }
                fclose(f);
                sh->cur[w] = -2;
                _exit(0);
            }
            pids[w] = pid;
        };
        for (int w = 0; w < W; ++w)
        {
            unlink(sfmt("%s/w%d.txt", tmp.c_str(), w).c_str());
            spawn(w);
        }
        int alive = W;
        int crashes = 0;
        while (alive > 0)
        {
            int st;
            pid_t pid = waitpid(-1, &st, 0);
            if (pid < 0)
            {
                if (errno == EINTR) continue;
                break;
            }
            int w = -1;
            for (int i = 0; i < W; ++i)
                if (pids[i] == pid) w = i;
            if (w < 0) continue;
            if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && sh->cur[w] == -2)
            {
                alive--;
                continue;
            }
            const i64 k = sh->cur[w];
            fails.push_back({k, WIFSIGNALED(st) ? sfmt("killed by signal %d", WTERMSIG(st))
                                                : sfmt("exit code %d", WEXITSTATUS(st))});
            if (++crashes >= 6)
            {
                alive--;
                continue;
            }
            startk[w] = k + W;
            if (startk[w] < n)
                spawn(w);
            else
                alive--;
        }
        for (int w = 0; w < W; ++w)
        {
            const std::string rf = sfmt("%s/w%d.txt", tmp.c_str(), w);
            FILE* f = fopen(rf.c_str(), "r");
            if (!f) continue;
            char* line = nullptr;
            size_t cap = 0;
            ssize_t len;
            while ((len = getline(&line, &cap, f)) > 0)
            {
                if (line[len - 1] != '\n') break;
                line[len - 1] = 0;
                if (line[0] == 'E')
                {
                    int a, b;
                    unsigned long long h;
                    if (sscanf(line, "E %d %d %llu", &a, &b, &h) == 3)
                    {
                        agg.evals++;
                        if (a == DISCARDED)
                            agg.discards++;
                        else if (b)
                            agg.nt.insert(h);
                    }
                }
                else if (line[0] == 'L')
                    agg.labels[line + 2]++;
                else if (line[0] == 'S' && agg.samples.size() < 3)
                    agg.samples.push_back(line + 2);
                else if (line[0] == 'F')
                {
                    long long k;
                    int o;
                    if (sscanf(line, "F %lld %n", &k, &o) >= 1) fails.push_back({k, line + o});
                }
            }
            free(line);
            fclose(f);
            unlink(rf.c_str());
        }

        std::string failjson;
        if (!fails.empty())
        {
            std::sort(fails.begin(), fails.end(), [](const F& a, const F& b) { return a.k < b.k; });
            const i64 k = fails[0].k;
            // reproduce and record
            Outcome o = run_isolated(p, {}, tmp, true, case_seed(seed, p, k));
            std::vector<u64> rec = o.rec;
            int repro = 0;
            std::string last_msg = o.failed ? o.msg : fails[0].msg;
            for (int t = 0; t < 3; ++t)
            {
                Outcome q = run_isolated(p, {}, tmp, true, case_seed(seed, p, k));
                if (q.failed) repro++;
            }
            const bool crashed = o.failed && o.crashed;
            if (repro == 0)
            {
                const std::vector<u64> h = {~0ull, seed, (u64)(k % W), (u64)W, (u64)k};
                for (int t = 0; t < 3; ++t)
                {
                    Outcome q = run_history(p, seed, k % W, W, k, tmp);
                    if (q.failed)
                    {
                        repro++;
                        last_msg = q.msg;
                        o.notes = q.notes;
                        o.output = q.output;
                    }
                }
                rec = h;
            }
            const bool history = repro > 0 && rec.size() == 5 && rec[0] == ~0ull;
            std::string notes = o.notes;
            std::string output = o.output;
            i64 steps = 0;
            if (repro == 3 && !history)
            {
                // shrink
                auto t0 = time(nullptr);
                auto attempt = [&](const std::vector<u64>& c) {
                    steps++;
                    Outcome q = run_isolated(p, c, tmp);
                    if (q.failed && q.crashed == crashed)
                    {
                        last_msg = q.msg;
                        notes = q.notes;
                        output = q.output;
                        return true;
                    }
                    return false;
                };
                bool progress = true;
                const int BUDGET_S = 40;
                while (progress && time(nullptr) - t0 < BUDGET_S)
                {
                    progress = false;
                    for (size_t blk = std::max<size_t>(1, rec.size() / 2);
                         blk >= 1 && time(nullptr) - t0 < BUDGET_S; blk /= 2)
                    {
                        for (size_t i = 0; i + blk <= rec.size() && time(nullptr) - t0 < BUDGET_S;)
                        {
                            std::vector<u64> c = rec;
                            c.erase(c.begin() + i, c.begin() + i + blk);
                            if (attempt(c))
                            {
                                rec = c;
                                progress = true;
                            }
                            else
                                i += blk;
                        }
                        if (blk == 1) break;
                    }
                    for (size_t i = 0; i < rec.size() && time(nullptr) - t0 < BUDGET_S; ++i)
                    {
                        if (rec[i] == 0) continue;
                        std::vector<u64> c = rec;
                        c[i] = 0;
                        if (attempt(c))
                        {
                            rec = c;
                            progress = true;
                            continue;
                        }
                        u64 lo = 0, hi = rec[i];
                        for (int it = 0; it < 20 && hi - lo > 1; ++it)
                        {
                            u64 m = lo + (hi - lo) / 2;
                            c = rec;
                            c[i] = m;
                            if (attempt(c))
                            {
                                rec = c;
                                hi = m;
                                progress = true;
                            }
                            else
                                lo = m;
                        }
                    }
                }
                // final replay of the minimal case
                Outcome q = run_isolated(p, rec, tmp);
                if (q.failed)
                {
                    last_msg = q.msg;
                    notes = q.notes;
                }
            }
            any_fail = true;
            std::string recs;
            for (u64 v : rec) recs += sfmt("%s%llu", recs.empty() ? "" : ",", (unsigned long long)v);
            failjson = sfmt(
                ",\"failure\":{\"case\":%lld,\"case_seed\":%llu,\"reproduced\":%d,\"crash\":%s,"
                "\"shrink_steps\":%lld,\"failing_cases\":%zu,",
                (long long)k, (unsigned long long)case_seed(seed, p, k), repro,
                crashed ? "true" : "false", (long long)steps, fails.size());
            failjson += "\"msg\":\"" + jesc(last_msg) + "\",\"notes\":\"" + jesc(notes) +
                        "\",\"output\":\"" + jesc(output) + "\",\"choices\":[" + recs + "]}";
        }
        if (!first) json += ",";
        first = false;
        json += sfmt("{\"name\":\"%s\",\"cases\":%lld,\"evals\":%lld,\"discards\":%lld,\"nontrivial\":%zu,",
                     p.name, (long long)n, (long long)agg.evals, (long long)agg.discards,
                     agg.nt.size());
        json += "\"labels\":{";
        bool lf = true;
        for (auto& l : agg.labels)
        {
            json += sfmt("%s\"%s\":%lld", lf ? "" : ",", jesc(l.first).c_str(), (long long)l.second);
            lf = false;
        }
        json += "},\"samples\":[";
        for (size_t i = 0; i < agg.samples.size(); ++i)
            json += std::string(i ? "," : "") + "\"" + agg.samples[i] + "\"";
        json += "]" + failjson + "}";
    }
    json += "],\"known\":[";
    bool kf = true;
    for (auto& kn : knowns())
    {
        if (!only.empty()) break;
        std::string what;
        bool still = true;
        ChildResult c;
        try
        {
            c = in_child([&]() {
                int fd = open("/dev/null", O_WRONLY);
                dup2(fd, 1);
                dup2(fd, 2);
                std::string w;
                bool b = kn.fn(w);
                return std::string(b ? "1" : "0") + w;
            });
            if (c.exited)
            {
                still = c.data[0] == '1';
                what = c.data.substr(1);
            }
            else
                what = sfmt("stops (exit %d, signal %d)", c.code, c.sig);
        }
        catch (const Failure& f)
        {
            what = f.msg;
        }
        json += sfmt("%s{\"name\":\"%s\",\"present\":%s,\"what\":\"%s\"}", kf ? "" : ",", kn.name,
                     still ? "true" : "false", jesc(what).c_str());
        kf = false;
    }
    json += "]}\n";
    if (!out.empty())
    {
        FILE* f = fopen(out.c_str(), "w");
        fwrite(json.data(), 1, json.size(), f);
        fclose(f);
    }
    else
        fwrite(json.data(), 1, json.size(), stdout);
    return any_fail ? 1 : 0;
}

}  // namespace vt

#ifndef VT_NO_MAIN
#if defined(__SANITIZE_ADDRESS__)
extern "C" const char* __asan_default_options();
extern "C" __attribute__((used)) const char* __asan_default_options()
{
    return "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:handle_abort=1";
}
extern "C" const char* __ubsan_default_options();
extern "C" __attribute__((used)) const char* __ubsan_default_options()
{
    return "halt_on_error=1:print_stacktrace=0";
}
#endif
int main(int argc, char** argv) { return vt::vt_main(argc, argv); }
#endif
