#include <deque>
#include <set>
#include "common/circular_buffer.h"
#include "vt.h"
using namespace mc;
// element that tracks its own lifetime
struct Tracked
{
    static std::set<const Tracked*>& live() { static std::set<const Tracked*> s; return s; }
    static std::string& err() { static std::string e; return e; }
    static int& ops() { static int n; return n; }
    void born()
    {
        if (!live().insert(this).second) err() = "object constructed over a live object";
    }
    bool alive() const { return live().count(this) != 0; }
    int v = -1;
    std::string* heap = nullptr;
    Tracked(int x) : v(x), heap(new std::string(40, (char)('a' + (unsigned)x % 26))) { born(); }
    Tracked(int a, int b) : Tracked(a * 1000 + b) {}
    Tracked(const Tracked& o)
    {
        if (!o.alive()) { err() = "copied from a dead object"; born(); heap = nullptr; return; }
        v = o.v;
        heap = new std::string(*o.heap);
        born();
    }
    Tracked& operator=(const Tracked& o)
    {
        if (!alive()) { err() = "assigned to an object that was never constructed"; return *this; }
        if (!o.alive()) { err() = "assigned from a dead object"; return *this; }
        if (this != &o) { *heap = *o.heap; v = o.v; }
        return *this;
    }
    ~Tracked()
    {
        ops()++;
        if (!live().erase(this)) { err() = "destroyed an object that is not alive"; return; }
        delete heap;
    }
    int val() const
    {
        if (!alive()) { err() = "read a dead object"; return -999; }
        if ((*heap)[0] != (char)('a' + (unsigned)v % 26)) err() = "object corrupted";
        return v;
    }
};
struct alignas(32) Wide
{
    int v;
    double pad[5];
    Wide(int x) : v(x)
    {
        if ((uintptr_t)this % 32) Tracked::err() = "element not aligned for its type";
    }
    Wide(int a, int b) : Wide(a * 1000 + b) {}
    int val() const { return v; }
};
struct Plain
{
    int v;
    Plain(int x) : v(x) {}
    Plain(int a, int b) : v(a * 1000 + b) {}
    int val() const { return v; }
};
template <typename T> struct Live { static size_t n() { return 0; } static const bool tracked = false; };
template <> struct Live<Tracked> { static size_t n() { return Tracked::live().size(); } static const bool tracked = true; };

#define NOERR(what) VT_REQ(Tracked::err().empty(), "%s: %s", what, Tracked::err().c_str())

template <typename B>
static void compare(const B& cb, const std::deque<int>& d, int N)
{
    VT_REQ(cb.size() == d.size(), "size %zu want %zu", cb.size(), d.size());
    VT_REQ(cb.empty() == d.empty(), "empty");
    VT_REQ(cb.full() == ((int)d.size() == N - 1), "full");
    VT_REQ((int)cb.capacity() == N - 1 && (int)cb.max_size() == N - 1, "capacity");
    const int n = (int)d.size();
    if (n)
    {
        VT_REQ(cb.front().val() == d.front(), "front %d want %d", cb.front().val(), d.front());
        VT_REQ(cb.back().val() == d.back(), "back %d want %d", cb.back().val(), d.back());
    }
    for (int i = 0; i < n; ++i)
    {
        VT_REQ(cb[i].val() == d[i], "[%d] %d want %d", i, cb[i].val(), d[i]);
        VT_REQ(cb.at(i).val() == d[i], "at(%d)", i);
        VT_REQ((cb.begin() + i)->val() == d[i], "begin+%d", i);
        VT_REQ((cb.end() - (n - i))->val() == d[i], "end-%d", n - i);
        VT_REQ((*(cb.begin() + i)).val() == d[i], "*(begin+%d)", i);
    }
    int i = 0;
    for (auto it = cb.begin(); it != cb.end(); ++it, ++i)
    {
        VT_REQ(i < n, "iteration longer than the queue");
        VT_REQ(it->val() == d[i], "iteration at %d", i);
        VT_REQ(it - cb.begin() == i, "it-begin %d want %d", it - cb.begin(), i);
        VT_REQ(cb.end() - it == n - i, "end-it %d want %d", cb.end() - it, n - i);
        VT_REQ((it < cb.end()) && (it <= cb.end()) && (cb.end() > it) && (cb.end() >= it) && !(it >= cb.end()), "order vs end");
        VT_REQ((it > cb.begin()) == (i > 0) && (it >= cb.begin()) && (cb.begin() <= it), "order vs begin");
    }
    VT_REQ(i == n, "iteration stopped after %d of %d", i, n);
    auto it = cb.end();
    for (i = n; i > 0;)
    {
        if (i & 1)
            --it;
        else
            it--;
        --i;
        VT_REQ(it->val() == d[i], "backward iteration at %d", i);
    }
    VT_REQ(it == cb.begin(), "backward iteration did not end at begin");
    for (int a = 0; a <= n; a += 1 + n / 4)
        for (int b = 0; b <= n; b += 1 + n / 5)
        {
            auto x = cb.begin() + a, y = cb.begin() + b;
            VT_REQ(x - y == a - b, "difference %d want %d", x - y, a - b);
            VT_REQ((x < y) == (a < b) && (x > y) == (a > b) && (x <= y) == (a <= b) && (x >= y) == (a >= b) &&
                       (x == y) == (a == b) && (x != y) == (a != b),
                   "iterator comparison %d %d", a, b);
            auto z = cb.begin();
            z += a;
            VT_REQ(z == x, "+=");
            if (b <= a)
            {
                z -= b;
                VT_REQ(z == cb.begin() + (a - b) && x - (size_t)b == z, "-=");
            }
        }
    NOERR("reading");
}

template <typename T, int N>
static void history(vt::Src& s)
{
    Tracked::live().clear();
    Tracked::err().clear();
    using B = CircularBuffer<T, N>;
    {
        B cb;
        std::deque<int> d;
        const int steps = s.irange(1, 6 * N + 20);
        std::string ops;
        int wraps = 0, evict = 0, copies = 0;
        const int CAP = N - 1;
        const int bias = s.irange(0, 2);
        for (int k = 0; k < steps; ++k)
        {
            const int v = s.irange(0, 999);
            int op = bias == 0 ? s.weighted({5, 5, 2, 2, 3, 2, 1, 1, 2, 1, 1, 1})
                   : bias == 1 ? s.weighted({5, 5, 0, 0, 6, 1, 1, 0, 2, 1, 1, 1})
                               : s.weighted({1, 1, 4, 4, 1, 4, 1, 1, 2, 1, 1, 1});
            s.note("%d", op);
            switch (op)
            {
            case 0:
            {
                const T x(v);
                if ((int)d.size() == CAP) { d.pop_front(); evict++; }
                cb.push_back(x);
                d.push_back(v);
                break;
            }
            case 1:
                if ((int)d.size() == CAP) { d.pop_front(); evict++; }
                if (v & 1) { cb.emplace_back(v, 7); d.push_back(v * 1000 + 7); }
                else { cb.emplace_back(v); d.push_back(v); }
                break;
            case 2:
            {
                const T x(v);
                if ((int)d.size() == CAP) { d.pop_back(); evict++; }
                cb.push_front(x);
                d.push_front(v);
                break;
            }
            case 3:
                if ((int)d.size() == CAP) { d.pop_back(); evict++; }
                if (v & 1) { cb.emplace_front(v, 7); d.push_front(v * 1000 + 7); }
                else { cb.emplace_front(v); d.push_front(v); }
                break;
            case 4:
                if (d.empty()) break;
                cb.pop_front();
                d.pop_front();
                break;
            case 5:
                if (d.empty()) break;
                cb.pop_back();
                d.pop_back();
                break;
            case 6:
                cb.clear();
                d.clear();
                break;
            case 7:  // modify through references
                if (d.empty()) break;
                if (v % 3 == 0) { cb.front() = T(v); d.front() = v; }
                else if (v % 3 == 1) { cb.back() = T(v); d.back() = v; }
                else
                {
                    const int i = v % (int)d.size();
                    if (v & 1) { *(cb.begin() + i) = T(v); }
                    else { cb[i] = T(v); }
                    d[i] = v;
                }
                break;
            case 8:  // insert a copy of an element of the buffer itself
            {
                if (d.empty()) break;
                const int i = v % (int)d.size();
                const int w = d[i];
                if (v & 1)
                {
                    if ((int)d.size() == CAP) { d.pop_front(); evict++; }
                    cb.push_back(cb[i]);
                    d.push_back(w);
                }
                else
                {
                    if ((int)d.size() == CAP) { d.pop_back(); evict++; }
                    cb.push_front(cb[i]);
                    d.push_front(w);
                }
                break;
            }
            case 9:  // copy: independent of the original
            {
                copies++;
                B c2(cb);
                compare(c2, d, N);
                if (Live<T>::tracked) VT_REQ(Live<T>::n() == 2 * d.size(), "after copying %zu live objects, want %zu", Live<T>::n(), 2 * d.size());
                std::deque<int> d2 = d;
                for (int j = 0; j < v % 5; ++j)
                {
                    if ((int)d2.size() == CAP) d2.pop_front();
                    c2.push_back(T(v));
                    d2.push_back(v);
                }
                if (!d2.empty()) { c2.pop_front(); d2.pop_front(); }
                compare(c2, d2, N);
                compare(cb, d, N);
                break;
            }
            case 10:  // assignment
            {
                copies++;
                B c2;
                std::deque<int> d2;
                for (int j = 0; j < v % (2 * N); ++j)
                {
                    if ((int)d2.size() == CAP) d2.pop_front();
                    c2.push_back(T(j));
                    d2.push_back(j);
                }
                c2 = cb;
                compare(c2, d, N);
                if (v & 1) { cb.clear(); d.clear(); }
                else if (!d.empty()) { cb.pop_back(); c2.pop_back(); d.pop_back(); }
                if (!(v & 1)) compare(c2, d, N);
                break;
            }
            case 11:  // assignment to itself changes nothing
            {
                B& same = cb;
                cb = same;
                break;
            }
            }
            NOERR("operation");
            if (Live<T>::tracked) VT_REQ(Live<T>::n() == d.size(), "%zu live objects, want %zu", Live<T>::n(), d.size());
            compare(cb, d, N);
            if ((int)d.size() == CAP) wraps++;
        }
        if (evict) s.label("evicted");
        if (copies) s.label("copied");
        if (wraps > 1 || steps > 2 * N) s.nontrivial();
    }
    NOERR("destruction of the buffer");
    VT_REQ(Live<T>::n() == 0, "%zu objects leaked", Live<T>::n());
}
VT_PROP(lifetimes, 1200, 30000)
{
    switch (s.draw(4))
    {
    case 0: s.note("capacity 1:"); history<Tracked, 2>(s); break;
    case 1: s.note("capacity 2:"); history<Tracked, 3>(s); break;
    case 2: s.note("capacity 4:"); history<Tracked, 5>(s); break;
    case 3: s.note("capacity 7:"); history<Tracked, 8>(s); break;
    default: s.note("capacity 16:"); history<Tracked, 17>(s);
    }
}
VT_PROP(plain_elements, 800, 15000)
{
    switch (s.draw(3))
    {
    case 0: s.note("plain capacity 3:"); history<Plain, 4>(s); break;
    case 1: s.note("plain capacity 9:"); history<Plain, 10>(s); break;
    case 2: s.note("aligned capacity 6:"); history<Wide, 7>(s); break;
    default: s.note("plain capacity 63:"); history<Plain, 64>(s);
    }
}
VT_PROP(default_capacity, 60, 1500)
{
    history<Plain, 100>(s);
}
