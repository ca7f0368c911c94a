// What is sent to the receiver for each command, and what its version reply changes.
#include "parsers/ubx/ubx.h"
#include "ubxgen.h"
using namespace mc::parsers::ublox;
using ub::Bytes;
using ub::le;
// ---- payloads, from the interface description
static Bytes valset(int version, int layer, uint32_t key, uint32_t v)
{
    Bytes p;
    le(p, 0, 1, version); le(p, 1, 1, layer); le(p, 2, 2, 0); le(p, 4, 4, key); le(p, 8, 4, v);
    return p;
}
struct Want { int cls, id; Bytes p; std::set<size_t> any; };
struct Frame { int cls, id; Bytes p; };
static std::vector<Frame> split(const Bytes& b)
{
    std::vector<Frame> o;
    size_t i = 0;
    while (i < b.size())
    {
        VT_REQ(i + 8 <= b.size() && b[i] == 0xB5 && b[i + 1] == 0x62, "no frame at byte %zu of %s", i, ub::hex(b, 60).c_str());
        const size_t n = b[i + 4] | b[i + 5] << 8;
        VT_REQ(i + 8 + n <= b.size(), "frame at byte %zu cut off", i);
        uint8_t x, y;
        ub::sum(b, i + 2, i + 6 + n, x, y);
        VT_REQ(b[i + 6 + n] == x && b[i + 7 + n] == y, "frame at byte %zu has a wrong checksum", i);
        o.push_back({b[i + 2], b[i + 3], Bytes(b.begin() + i + 6, b.begin() + i + 6 + n)});
        i += 8 + n;
    }
    return o;
}
static std::string text(vt::Src& s, int lo, int hi, const char* chars)
{
    std::string o;
    const int n = s.irange(lo, hi);
    for (int i = 0; i < n; ++i) o += chars[s.draw(strlen(chars) - 1)];
    return o;
}
struct Version { int major, minor; std::string module; };
// a MON-VER reply; what it says is put in v
static Bytes version_reply(vt::Src& s, Version& v)
{
    Bytes p(40, 0);
    auto put = [&](size_t at, size_t n, const std::string& t) {
        for (size_t i = 0; i < t.size() && i < n; ++i) p[at + i] = t[i];
        // behind the terminating zero anything may follow
        if (t.size() + 1 < n && s.chance(0.3))
            for (size_t i = t.size() + 1; i < n; ++i) p[at + i] = s.pick({'.', '7', 'P', 'x'});
    };
    put(0, 30, "EXT CORE 1.00 (" + text(s, 0, 6, "0123456789abcdef") + ")");
    put(30, 10, text(s, 0, 8, "0190000"));
    const int n = s.chance(0.1) ? s.irange(11, 20) : s.irange(0, 10);   // more than the driver keeps room for
    bool pv = false, md = false;
    for (int i = 0; i < n; ++i)
    {
        std::string t;
        switch (i >= 10 ? 2 : s.weighted({2, 2, 3, 1, 1}))
        {
        case 0:
            if (pv) { t = "ROM BASE 0x118B2060"; break; }
            pv = true;
            v.major = s.flip() ? s.irange(14, 40) : s.irange(0, 999);
            v.minor = s.flip() ? s.irange(0, 99) : s.irange(0, 9999);
            t = vt::sfmt(s.flip() ? "PROTVER=%d.%02d" : "PROTVER=%d.%d", v.major, v.minor);
            break;
        case 1:
            if (md) { t = "GPS;GLO;GAL;BDS"; break; }
            md = true;
            v.module = text(s, 1, s.flip() ? 9 : 26, "ZEDNOM-F89PT02AB");
            t = "MOD=" + v.module;
            break;
        case 2: t = s.pick({"FWVER=HPG 1.32", "SBAS;QZSS", "ANTSUPERV=AC SD PDoS SR", ""}); break;
        case 3: t = std::string(s.pick({10, 20}), ' ') + s.pick({"PROTVER=7", "MOD=WRONG"}); break;
        default: t = s.pick({"PROTVER", "MOD", "XPROTVER=12.00", "XMOD=ABC", "MODE=1"}); break;
        }
        const size_t at = p.size();
        p.resize(at + 30, 0);
        put(at, 30, t);
        s.note("'%s'", t.c_str());
    }
    return p;
}
// the names a caller uses for the receiver's configuration items, and what the interface description numbers them
struct Named { long set, get; uint32_t key; };
static const Named KEYS[] = {
    {CFG_VALSET_t::MSGOUT_RELPOSNED, CFG_VALGET_t::MSGOUT_RELPOSNED, 0x20910090},
    {CFG_VALSET_t::MSGOUT_PVT, CFG_VALGET_t::MSGOUT_PVT, 0x20910009},
    {CFG_VALSET_t::MSGOUT_POSECEF, CFG_VALGET_t::MSGOUT_POSECEF, 0x20910027},
    {CFG_VALSET_t::MSGOUT_VELECEF, CFG_VALGET_t::MSGOUT_VELECEF, 0x20910040},
    {CFG_VALSET_t::MSGOUT_RAWX, CFG_VALGET_t::MSGOUT_RAWX, 0x209102a7},
    {CFG_VALSET_t::MSGOUT_SFRBX, CFG_VALGET_t::MSGOUT_SFRBX, 0x20910234},
    {CFG_VALSET_t::RTCM_1005USB, CFG_VALGET_t::RTCM_1005USB, 0x209102c0},
    {CFG_VALSET_t::RTCM_1074USB, CFG_VALGET_t::RTCM_1074USB, 0x20910361},
    {CFG_VALSET_t::RTCM_1084USB, CFG_VALGET_t::RTCM_1084USB, 0x20910366},
    {CFG_VALSET_t::RTCM_1094USB, CFG_VALGET_t::RTCM_1094USB, 0x2091036b},
    {CFG_VALSET_t::RTCM_1124USB, CFG_VALGET_t::RTCM_1124USB, 0x20910370},
    {CFG_VALSET_t::RTCM_1230USB, CFG_VALGET_t::RTCM_1230USB, 0x20910306},
    {CFG_VALSET_t::RTCM_4072_0USB, CFG_VALGET_t::RTCM_4072_0USB, 0x20910301},
    {CFG_VALSET_t::RTCM_4072_1USB, CFG_VALGET_t::RTCM_4072_1USB, 0x20910384},
    {CFG_VALSET_t::RTCM_1077USB, CFG_VALGET_t::RTCM_1077USB, 0x209102cf},
    {CFG_VALSET_t::RTCM_1087USB, CFG_VALGET_t::RTCM_1087USB, 0x209102d4},
    {CFG_VALSET_t::RTCM_1097USB, CFG_VALGET_t::RTCM_1097USB, 0x2091031b},
    {CFG_VALSET_t::RTCM_1127USB, CFG_VALGET_t::RTCM_1127USB, 0x209102d9},
    {CFG_VALSET_t::USB_INPROT_UBX, CFG_VALGET_t::USB_INPROT_UBX, 0x10770001},
    {CFG_VALSET_t::USB_INPROT_NMEA, CFG_VALGET_t::USB_INPROT_NMEA, 0x10770002},
    {CFG_VALSET_t::USB_INPROT_RTCM3X, CFG_VALGET_t::USB_INPROT_RTCM3X, 0x10770004},
    {CFG_VALSET_t::USB_OUTPROT_UBX, CFG_VALGET_t::USB_OUTPROT_UBX, 0x10780001},
    {CFG_VALSET_t::USB_OUTPROT_NMEA, CFG_VALGET_t::USB_OUTPROT_NMEA, 0x10780002},
    {CFG_VALSET_t::USB_OUTPROT_RTCM3X, CFG_VALGET_t::USB_OUTPROT_RTCM3X, 0x10780004},
    {CFG_VALSET_t::DYNMODEL, CFG_VALGET_t::DYNMODEL, 0x20110021},
    {CFG_VALSET_t::MSGOUT_SVIN, CFG_VALGET_t::MSGOUT_SVIN, 0x2091008b},
    {CFG_VALSET_t::TMODE_MODE, CFG_VALGET_t::TMODE_MODE, 0x20030001},
    {CFG_VALSET_t::TMODE_SVIN_MIN_DUR, CFG_VALGET_t::TMODE_SVIN_MIN_DUR, 0x40030010},
    {CFG_VALSET_t::TMODE_SVIN_ACC_LIMIT, CFG_VALGET_t::TMODE_SVIN_ACC_LIMIT, 0x40030011},
    {CFG_VALSET_t::SIGNAL_GPS, CFG_VALGET_t::SIGNAL_GPS, 0x1031001f},
    {CFG_VALSET_t::SIGNAL_GPS_L1, CFG_VALGET_t::SIGNAL_GPS_L1, 0x10310001},
    {CFG_VALSET_t::SIGNAL_GPS_L2, CFG_VALGET_t::SIGNAL_GPS_L2, 0x10310003},
    {CFG_VALSET_t::SIGNAL_GAL, CFG_VALGET_t::SIGNAL_GAL, 0x10310021},
    {CFG_VALSET_t::SIGNAL_GAL_E1, CFG_VALGET_t::SIGNAL_GAL_E1, 0x10310007},
    {CFG_VALSET_t::SIGNAL_GAL_E5B, CFG_VALGET_t::SIGNAL_GAL_E5B, 0x1031000a},
    {CFG_VALSET_t::SIGNAL_BDS, CFG_VALGET_t::SIGNAL_BDS, 0x10310022},
    {CFG_VALSET_t::SIGNAL_BDS_B1, CFG_VALGET_t::SIGNAL_BDS_B1, 0x1031000d},
    {CFG_VALSET_t::SIGNAL_BDS_B2, CFG_VALGET_t::SIGNAL_BDS_B2, 0x1031000e},
    {CFG_VALSET_t::RATE_MEAS, CFG_VALGET_t::RATE_MEAS, 0x30210001},
    {CFG_VALSET_t::RATE_NAV, CFG_VALGET_t::RATE_NAV, 0x30210002},
    {CFG_VALSET_t::RATE_TIMEREF, CFG_VALGET_t::RATE_TIMEREF, 0x20210003},
};
static const Named MODES[] = {
    {CFG_VALSET_t::DYNMODE_PORTABLE, CFG_VALGET_t::DYNMODE_PORTABLE, 0},
    {CFG_VALSET_t::DYNMODE_STATIONARY, CFG_VALGET_t::DYNMODE_STATIONARY, 2},
    {CFG_VALSET_t::DYNMODE_PEDESTRIAN, CFG_VALGET_t::DYNMODE_PEDESTRIAN, 3},
    {CFG_VALSET_t::DYNMODE_AUTOMOTIVE, CFG_VALGET_t::DYNMODE_AUTOMOTIVE, 4},
    {CFG_VALSET_t::DYNMODE_SEA, CFG_VALGET_t::DYNMODE_SEA, 5},
    {CFG_VALSET_t::DYNMODE_AIRBORNE_1G, CFG_VALGET_t::DYNMODE_AIRBORNE_1G, 6},
    {CFG_VALSET_t::DYNMODE_AIRBORNE_2G, CFG_VALGET_t::DYNMODE_AIRBORNE_2G, 7},
    {CFG_VALSET_t::DYNMODE_AIRBORNE_4G, CFG_VALGET_t::DYNMODE_AIRBORNE_4G, 8},
    {CFG_VALSET_t::DYNMODE_WRIST_WORN, CFG_VALGET_t::DYNMODE_WRIST_WORN, 9},
    {CFG_VALSET_t::DYNMODE_BIKE, CFG_VALGET_t::DYNMODE_BIKE, 10},
};
VT_PROP(commands, 4000, 100000)
{
    // memory with any previous content
    std::vector<uint8_t> mem(sizeof(Ubx) + 64, (uint8_t)s.pick({0, 0x7F, 0xFF, 0x01}));
    void* where = (void*)(((uintptr_t)mem.data() + 63) & ~(uintptr_t)63);
    async_comm::Comm comm;
    Ubx* u = new (where) Ubx(comm);
    Version now{0, 0, ""};
    const int n = s.irange(1, 10);
    int sent = 0, replies = 0;
    for (int i = 0; i < n; ++i)
    {
        std::vector<Want> want;
        comm.sent.clear();
        comm.on_write = nullptr;
        const bool old = now.major <= 23;
        switch (s.weighted({2, 2, 2, 2, 2, 2, 2, 2, 3}))
        {
        case 0:
        {
            s.note("dynamic mode");
            u->setDynamicMode();
            if (old) { Bytes p(36, 0); le(p, 0, 2, 1); le(p, 2, 1, 8); want.push_back({6, 0x24, p, {}}); }
            else want.push_back({6, 0x8A, valset(0, 1, 0x20110021, 6), {}});
            break;
        }
        case 1:
        {
            const int ms = s.irange(0, 255);
            s.note("rate %d", ms);
            {
                ub::Hush q;
                u->setNavRate((uint8_t)ms);
            }
            if (old) { Bytes p(6, 0); le(p, 0, 2, ms); le(p, 2, 2, 1); want.push_back({6, 0x08, p, {}}); }
            else
            {
                want.push_back({6, 0x8A, valset(0, 1, 0x30210001, ms), {}});
                want.push_back({6, 0x8A, valset(0, 1, 0x30210002, 1), {}});
                want.push_back({6, 0x8A, valset(0, 1, 0x20210003, 0), {}});
            }
            break;
        }
        case 2:
        {
            const int c = (int)s.draw(255), m = (int)s.draw(255), r = (int)s.draw(255);
            s.note("message %02x-%02x rate %d", c, m, r);
            u->enableMessage(c, m, r);
            want.push_back({6, 0x01, {(uint8_t)c, (uint8_t)m, (uint8_t)r}, {}});
            break;
        }
        case 3:
        {
            s.note("no NMEA");
            u->disableNmea();
            if (old)
            {
                // which port parameters a USB port is given does not matter
                Bytes p(20, 0);
                le(p, 0, 1, 3); le(p, 8, 4, 921600); le(p, 12, 2, 0x21); le(p, 14, 2, 0x21);
                want.push_back({6, 0x00, p, {4, 5, 6, 7, 16, 17}});
            }
            else
            {
                want.push_back({6, 0x8A, valset(0, 1, 0x10770002, 0), {}});
                want.push_back({6, 0x8A, valset(0, 1, 0x10780002, 0), {}});
            }
            break;
        }
        case 4:
        {
            s.note("survey in");
            u->startSurveyIn();
            Bytes p(40, 0);
            le(p, 2, 2, 1); le(p, 24, 4, 60); le(p, 28, 4, 300);
            want.push_back({6, 0x71, p, {}});
            break;
        }
        case 5:
        {
            const int v = s.irange(0, 1), l = s.pick({1, 2, 4, 7}), size = s.irange(1, 2);
            uint32_t key = (uint32_t)s.draw(0xFFFFFFFF), d = (uint32_t)s.draw(size == 1 ? 255 : 65535);
            // a one-byte item takes one byte of what it is given
            const uint32_t extra = size == 1 && s.chance(0.2) ? (uint32_t)s.draw(255) << 8 : 0;
            if (s.flip())
            {
                const Named& k = KEYS[s.draw(sizeof KEYS / sizeof *KEYS - 1)];
                const Named& m = MODES[s.draw(sizeof MODES / sizeof *MODES - 1)];
                const bool mode = s.flip();
                u->configure(v, l, mode ? (uint32_t)m.set : d, (uint32_t)k.set, size);
                want.push_back({6, 0x8A, valset(v, l, k.key, mode ? m.key : d), {}});
                VT_REQ(m.get == m.key, "dynamic model %u is called %ld when asked for", m.key, m.get);
                break;
            }
            s.note("set %08x to %u (%d)", key, d, size);
            u->configure(v, l, d | extra, key, size);
            want.push_back({6, 0x8A, valset(v, l, key, d), {}});
            break;
        }
        case 6:
        {
            const int v = s.irange(0, 1), l = s.pick({0, 1, 2, 7});
            uint32_t key = (uint32_t)s.draw(0xFFFFFFFF), call = key;
            if (s.flip())
            {
                const Named& k = KEYS[s.draw(sizeof KEYS / sizeof *KEYS - 1)];
                key = k.key, call = (uint32_t)k.get;
            }
            s.note("get %08x", key);
            u->getConfiguration(v, l, call);
            Bytes p(16, 0);
            le(p, 0, 1, v); le(p, 1, 1, l); le(p, 4, 4, key);
            want.push_back({6, 0x8B, p, {}});
            break;
        }
        case 7:
        {
            const int c = (int)s.draw(255), m = (int)s.draw(255);
            const Bytes p = ub::payload(s, s.flip() ? s.irange(0, 30) : s.irange(0, 2048));
            s.note("send %02x-%02x %zu", c, m, p.size());
            auto msg = std::make_unique<UbxMessage>();
            memset(msg.get(), 0xA5, sizeof *msg);
            std::copy(p.begin(), p.end(), msg->buffer);
            u->sendMessage(c, m, *msg, (uint16_t)p.size());
            want.push_back({c, m, p, {}});
            break;
        }
        default:
        {
            const bool answer = !s.chance(0.004);
            // other traffic in front of the reply, the last of it possibly a longer version message
            Bytes in;
            if (s.flip())
            {
                const Bytes o = ub::frame(s.pick({1, 2, 0x0A}), s.pick({0x07, 0x13, 0x09}), ub::payload(s, s.irange(0, 400)));
                in.insert(in.end(), o.begin(), o.end());
            }
            if (s.chance(0.3))
            {
                Bytes junk(s.irange(100, 700), 0);
                for (size_t k = 40; k + 10 < junk.size(); k += 10) memcpy(&junk[k], k % 30 == 10 ? "PROTVER=9." : "MOD=STALE", 9);
                const Bytes o = ub::frame(1, 0x35, junk);
                in.insert(in.end(), o.begin(), o.end());
            }
            Version v = now;
            if (answer)
            {
                const Bytes r = ub::frame(0x0A, 0x04, version_reply(s, v));
                in.insert(in.end(), r.begin(), r.end());
                replies++;
            }
            const bool pieces = s.flip();
            bool done = false;
            comm.on_write = [&]() {
                if (done || comm.sent.size() < 8) return;
                done = true;
                for (size_t k = 0; k < in.size();)
                {
                    const size_t m = std::min<size_t>(in.size() - k, pieces ? 7 : in.size());
                    const Bytes x(in.begin() + k, in.begin() + k + m);
                    comm.listener->receive_callback(x.data(), x.size());
                    k += m;
                }
            };
            bool ok;
            {
                ub::Hush q;
                ok = u->getVersion();
            }
            s.note("version%s", answer ? "" : " (no answer)");
            VT_REQ(ok == answer, "answer %d, reported %d", answer, ok);
            now = v;
            want.push_back({0x0A, 0x04, {}, {}});
            break;
        }
        }
        VT_REQ(u->majorVersion() == now.major && u->minorVersion() == now.minor, "version %d.%d, the receiver's is %d.%d", u->majorVersion(), u->minorVersion(), now.major, now.minor);
        VT_REQ(now.module == u->moduleVame(), "module '%.40s', the receiver's is '%s'", u->moduleVame(), now.module.c_str());
        const auto fr = split(comm.sent);
        VT_REQ(fr.size() == want.size(), "%zu frames sent, %zu expected", fr.size(), want.size());
        for (size_t k = 0; k < fr.size(); ++k)
        {
            VT_REQ(fr[k].cls == want[k].cls && fr[k].id == want[k].id, "frame %zu is %02x-%02x, not %02x-%02x", k, fr[k].cls, fr[k].id, want[k].cls, want[k].id);
            VT_REQ(fr[k].p.size() == want[k].p.size(), "frame %zu has %zu bytes, not %zu", k, fr[k].p.size(), want[k].p.size());
            for (size_t b = 0; b < fr[k].p.size(); ++b)
                VT_REQ(want[k].any.count(b) || fr[k].p[b] == want[k].p[b], "byte %zu of %02x-%02x is %02x, not %02x", b, fr[k].cls, fr[k].id, fr[k].p[b], want[k].p[b]);
        }
        sent++;
    }
    if (sent > 2 && replies) s.nontrivial();
    if (now.major > 23) s.label("generation 9");
    u->~Ubx();
}
