// ephemeris logs of any of the constellations, written with the repository's logger
#pragma once
#include "loggen.h"
#include "modelgen.h"
namespace mg {
struct Sky
{
    UTCTime t0;
    std::vector<std::pair<UTCTime, GPSEphemeris>> gps;
    std::vector<std::pair<UTCTime, GalileoEphemeris>> gal;
    std::vector<std::pair<UTCTime, GlonassEphemeris>> glo;
    std::map<std::pair<int, int>, std::shared_ptr<SatelliteBase>> sats;
    std::vector<std::pair<int, int>> stale;  // satellites whose only ephemerides are too old, or from too far ahead
    std::string path;
};
template <typename E>
std::string bytes(const E& e)
{
    std::ostringstream o;
    logging::log(o, e);
    return o.str();
}
template <typename E, typename G>
void fill(vt::Src& s, Sky& k, std::vector<std::pair<UTCTime, E>>& list, int gnss, int n, int64_t span, G gen)
{
    std::set<int> used;
    UTCTime lt = k.t0;
    for (int i = 0; i < n; ++i)
    {
        int num = s.irange(1, 24);
        // now and then a second ephemeris of the same satellite
        const bool again = used.count(num);
        used.insert(num);
        E e(num);
        gen(e, num, again);
        lt = satgen::at(lt, s.chance(0.4) ? 0 : s.range(0, span));
        list.push_back({lt, e});
        auto& p = k.sats[{gnss, num}];
        if (!p) p.reset(new Satellite<E>(gnss, num));
        static_cast<Satellite<E>*>(p.get())->addEph(e);
    }
}
inline Sky gen_sky(vt::Src& s, const std::string& root, int64_t span, bool with_stale = false)
{
    Sky k;
    const int64_t week = s.irange(1500, 2300), tow = s.irange(0, 671) * 900 + 7200 * 0;
    const int64_t base = satgen::gps_sec(week, tow);
    k.t0 = UTCTime(base + s.range(-300, 300), s.range(0, 999999999));
    auto kep = [&](auto& e, int num, int gnss, bool again) {
        satgen::gen_kepler(s, e, gnss, num);
        e.ecc = std::min(e.ecc, 0.05);
        const int64_t toe = base + (again ? 1 : -1) * s.irange(0, 30) * 60;
        e.toe = UTCTime(toe, (int64_t)0);
        e.toc = e.toe;
        const int64_t g = toe - satgen::gps_sec(0, 0);
        e.week = (int)(g / 604800);
        e.toes = (uint32_t)(g % 604800);
        e.tocs = e.toes;
    };
    const int kinds = s.irange(1, 7);
    if (kinds & 1) fill(s, k, k.gps, GnssID::GPS, s.irange(1, 5), span, [&](GPSEphemeris& e, int num, bool again) { kep(e, num, GnssID::GPS, again); });
    if (kinds & 2) fill(s, k, k.gal, GnssID::Galileo, s.irange(1, 5), span, [&](GalileoEphemeris& e, int num, bool again) { kep(e, num, GnssID::Galileo, again); });
    if (kinds & 4) fill(s, k, k.glo, GnssID::Glonass, s.irange(1, 3), span, [&](GlonassEphemeris& e, int num, bool again) {
            satgen::gen_glonass(s, e, num);
            e.slot = (num * 5) % 14 - 7;
            e.toe = UTCTime(base + (again ? 1 : -1) * 60 * s.irange(0, 5), (int64_t)0);
            e.tof = e.toe;
        });
    auto old = [&](auto& list, int gnss, auto gen) {
        // reference times more than two hours away from the time of the record, on either side
        const int n = list.empty() ? 0 : s.irange(0, 2);
        for (int i = 0; i < n; ++i)
        {
            const int num = s.flip() ? 25 + i : list[s.irange(0, (int)list.size() - 1)].second.sat;
            const UTCTime lt = satgen::at(list.back().first, s.range(0, span / 20));
            auto e = list[0].second;
            gen(e, num);
            e.toe = UTCTime(lt.sec + (s.flip() ? 1 : -1) * s.pick({7202, 7260, 10800, 86400}), (int64_t)0);
            list.push_back({lt, e});
            if (!k.sats.count({gnss, num})) k.stale.push_back({gnss, num});
        }
    };
    if (with_stale)
    {
        old(k.gps, GnssID::GPS, [&](GPSEphemeris& e, int num) { kep(e, num, GnssID::GPS, false); });
        old(k.gal, GnssID::Galileo, [&](GalileoEphemeris& e, int num) { kep(e, num, GnssID::Galileo, false); });
        old(k.glo, GnssID::Glonass, [&](GlonassEphemeris& e, int num) { e.sat = num; });
    }
    logging::Logger lg(k.t0, root);
    if (!k.gps.empty()) lg.initStream<GPSEphemeris>(logging::GPS_EPH, {"eph"});
    if (!k.gal.empty()) lg.initStream<GalileoEphemeris>(logging::GAL_EPH, {"eph"});
    if (!k.glo.empty()) lg.initStream<GlonassEphemeris>(logging::GLO_EPH, {"eph"});
    for (auto& p : k.gps) lg.log(logging::GPS_EPH, p.first, p.second);
    for (auto& p : k.gal) lg.log(logging::GAL_EPH, p.first, p.second);
    for (auto& p : k.glo) lg.log(logging::GLO_EPH, p.first, p.second);
    k.path = root + "/" + lg.logId();
    lg.close(satgen::at(k.t0, span * 40));
    return k;
}
}  // namespace mg
