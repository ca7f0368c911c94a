// N01: the satellite registry against a model
#include <list>
#include <map>
#include "common/defs.h"
#include "common/out.h"
#include "core/sat_manager.h"
#include "satgen.h"
using namespace satgen;
using namespace mc;
using satellite::Satellite;
using satellite::SatelliteBase;
static const int CAP = 29;
struct Entry
{
    int sat;
    std::map<int64_t, int> almanac;
};
// one constellation's entries, oldest first seen first
struct Model
{
    std::list<Entry> e;
    Entry* find(int n)
    {
        for (auto& x : e)
            if (x.sat == n) return &x;
        return nullptr;
    }
    bool add(int n, int64_t toe, int tag)
    {
        Entry* x = find(n);
        bool evict = false;
        if (!x)
        {
            if ((int)e.size() == CAP) e.pop_front(), evict = true;
            e.push_back(Entry{n, {}});
            x = &e.back();
        }
        x->almanac[toe] = tag;
        return evict;
    }
};
template <typename E>
static void deliver(SatelliteManager& m, int gnss, int sat, int64_t toe, int tag)
{
    E e;
    e.gnssID = gnss;
    e.sat = sat;
    e.toe = UTCTime(toe, 0);
    e.iode = tag;
    m.ephCb(e);
}
template <typename E>
static void holds(const SatelliteBase* b, const Entry& x, int gnss)
{
    const Satellite<E>* sat = dynamic_cast<const Satellite<E>*>(b);
    VT_REQ(sat != nullptr, "satellite %d of constellation %d is an object of another constellation", x.sat, gnss);
    VT_REQ(sat->almanacSize() == (int)x.almanac.size(), "satellite %d/%d has %d ephemerides of %zu", gnss, x.sat, sat->almanacSize(), x.almanac.size());
    for (auto& a : x.almanac)
    {
        const E& got = sat->findClosestEphemeris(UTCTime(a.first, 0));
        VT_REQ(got.toe == UTCTime(a.first, 0) && (int)got.iode == (int)(decltype(got.iode))a.second, "satellite %d/%d: the ephemeris of %ld is missing or stale", gnss, x.sat, (long)a.first);
        VT_REQ((int)got.sat == x.sat && (int)got.gnssID == gnss, "satellite %d/%d holds the ephemeris of %d/%d", gnss, x.sat, (int)got.gnssID, (int)got.sat);
    }
}
static const int G[3] = {GnssID::GPS, GnssID::Galileo, GnssID::Glonass};
static void look(const SatelliteManager& m, Model* mod, int k, int n)
{
    const SatelliteBase* b = nullptr;
    const mc::Error r = m.getSat(G[k], n, make_out(b));
    Entry* x = n >= 0 && n < 256 ? mod[k].find(n) : nullptr;
    VT_REQ(r.ok() == (x != nullptr), "satellite %d of constellation %d: %s", n, G[k], x ? "was registered, is unknown" : "is reported though never seen or evicted");
    if (!x) return;
    VT_REQ(b != nullptr && (int)b->gnssId() == G[k] && (int)b->sat_num() == n, "asked for %d/%d, got %d/%d", G[k], n, (int)b->gnssId(), (int)b->sat_num());
    if (k == 0) holds<ephemeris::GPSEphemeris>(b, *x, G[k]);
    else if (k == 1) holds<ephemeris::GalileoEphemeris>(b, *x, G[k]);
    else holds<ephemeris::GlonassEphemeris>(b, *x, G[k]);
}
VT_PROP(registry, 5000, 100000)
{
    SatelliteManager m;
    Model mod[3];
    const int n = s.irange(1, s.chance(0.5) ? 40 : 250);
    const int sats = s.pick({4, 29, 32, 36, 60, 256});
    const int toes = s.pick({1, 3, 12});
    const int focus = s.irange(0, 3);
    int evictions = 0, used = 0;
    const int64_t T0 = gps_sec(2000, 0);
    int wave = 0;
    for (int i = 0; i < n; ++i)
    {
        const int k = focus < 3 && s.chance(0.8) ? focus : s.irange(0, 2);
        // satellites rise in turn, or are heard at random
        int sat = s.weighted({1, 1}) ? wave++ % sats : s.irange(0, sats - 1);
        const int64_t toe = T0 + (int64_t)s.irange(0, toes - 1) * 900;
        s.note("%d/%d@%ld", G[k], sat, (long)(toe - T0));
        used |= 1 << k;
        if (k == 0) deliver<ephemeris::GPSEphemeris>(m, G[k], sat, toe, i);
        else if (k == 1) deliver<ephemeris::GalileoEphemeris>(m, G[k], sat, toe, i);
        else deliver<ephemeris::GlonassEphemeris>(m, G[k], sat, toe, i);
        evictions += mod[k].add(sat, toe, i);
        look(m, mod, k, sat);
        look(m, mod, s.irange(0, 2), s.irange(0, sats - 1));
        if (s.chance(0.05)) look(m, mod, s.irange(0, 2), s.pick({-1, 256, 257, 511, 1 << 20}));
    }
    for (int k = 0; k < 3; ++k)
        for (int sat = 0; sat < 256; ++sat) look(m, mod, k, sat);
    const SatelliteBase* b = nullptr;
    const int bad = s.pick({GnssID::SBAS + 0, GnssID::Beidou + 0, GnssID::Qzss + 0, 77, -1});
    if (bad != G[0] && bad != G[1] && bad != G[2]) VT_REQ(!m.getSat(bad, 1, make_out(b)).ok(), "constellation %d is known", bad);
    if (evictions) s.label("evicted");
    if (evictions || (used != 1 && used != 2 && used != 4)) s.nontrivial();
}
// a satellite found in the registry computes the states its own ephemerides give
template <typename E>
static void same_state(vt::Src& s, int gnss)
{
    SatelliteManager m;
    const int n = s.irange(1, 12);
    std::map<int, Satellite<E>> ref;
    std::map<int, std::vector<UTCTime>> when;
    for (int i = 0; i < n; ++i)
    {
        E e;
        const int sat = s.irange(1, 5);
        if constexpr (std::is_same_v<E, ephemeris::GlonassEphemeris>) gen_glonass(s, e, sat);
        else gen_kepler(s, e, gnss, sat);
        m.ephCb(e);
        ref.emplace(sat, Satellite<E>(gnss, sat)).first->second.addEph(e);
        when[sat].push_back(e.toe + s.sym(850));
    }
    for (auto& r : ref)
        for (auto& t : when[r.first])
        {
            const SatelliteBase* b = nullptr;
            VT_REQ(m.getSat(gnss, r.first, make_out(b)).ok(), "unknown satellite %d", r.first);
            satellite::SatelliteState a, c;
            const bool ok = b->getState(t, make_out(a)).ok(), ok2 = r.second.getState(t, make_out(c)).ok();
            VT_REQ(ok == ok2, "state reported %d, expected %d", ok, ok2);
            if (ok) VT_REQ((a.pos - c.pos).norm() == 0 && (a.vel - c.vel).norm() == 0 && (a.clk - c.clk).norm() == 0 && a.t == c.t, "satellite %d has another's state", r.first);
            VT_REQ(b->carrierWavelength(0) == r.second.carrierWavelength(0), "wavelength");
        }
    if (ref.size() > 1) s.nontrivial();
    s.note("gnss %d: %d ephemerides of %zu satellites", gnss, n, ref.size());
}
VT_PROP(states_gps, 2000, 30000) { same_state<ephemeris::GPSEphemeris>(s, GnssID::GPS); }
VT_PROP(states_galileo, 2000, 30000) { same_state<ephemeris::GalileoEphemeris>(s, GnssID::Galileo); }
VT_PROP(states_glonass, 300, 6000) { same_state<ephemeris::GlonassEphemeris>(s, GnssID::Glonass); }
