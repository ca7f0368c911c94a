// fills unused memory before the code under test runs
#pragma once
#include <malloc.h>
#include <cmath>
#include <cstring>
#include <new>
#include "vt.h"
// what is found in unused memory
struct World
{
    vt::u64 seed;
    int kind;  // 0 zeros, 1 moderate numbers, 2 huge numbers
    bool nan;  // where any number may be
    double num(vt::u64& q) const
    {
        q = vt::mix(q);
        const double v = (double)(q >> 11) / 9007199254740992.0 * 2 - 1;
        return kind == 0 ? 0 : kind == 1 ? v : v * 1e12;
    }
    double any(vt::u64& q) const
    {
        const double v = num(q);
        return nan ? (q % 3 ? NAN : q % 2 ? HUGE_VAL : 1e300) : v;
    }
};
static void __attribute__((noinline)) dirty_stack(const World& w)
{
    volatile double a[200000];
    vt::u64 q = w.seed;
    for (int i = 0; i < 200000; ++i) a[i] = i < 100 ? w.any(q) : a[i - 100];
}
static void dirty(const World& w)
{
    mallopt(M_PERTURB, (int)(w.seed % 255) + (w.nan ? 0 : 1));
    dirty_stack(w);
}
template <typename T>
struct Room
{
    void* p;
    T* t;
    Room(const World& w)
    {
        p = aligned_alloc(64, (sizeof(T) + 63) / 64 * 64);
        vt::u64 q = w.seed + 17;
        for (size_t i = 0; i + 8 <= sizeof(T); i += 8)
        {
            const double v = w.any(q);
            memcpy((char*)p + i, &v, 8);
        }
        t = new (p) T;
    }
    ~Room() { t->~T(); free(p); }
    T* operator->() { return t; }
    T& operator*() { return *t; }
};
