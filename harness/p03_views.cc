// Every field of a received message is the field the interface description puts there.
#include "parsers/ubx/ubx.h"
#include "ubxgen.h"
using namespace mc::parsers::ublox;
using ub::Bytes;
enum T { tU1, tU2, tU4, tI1, tI2, tI4, tF4, tF8 };
static int width(T t) { return t == tU1 || t == tI1 ? 1 : t == tU2 || t == tI2 ? 2 : t == tF8 ? 8 : 4; }
static double number(const Bytes& p, size_t at, T t)
{
    uint64_t v = 0;
    for (int i = 0; i < width(t); ++i) v |= (uint64_t)p[at + i] << (8 * i);
    switch (t)
    {
    case tI1: return (int8_t)v;
    case tI2: return (int16_t)v;
    case tI4: return (int32_t)v;
    case tF4: { const uint32_t x = (uint32_t)v; float f; memcpy(&f, &x, 4); return f; }
    case tF8: { double d; memcpy(&d, &v, 8); return d; }
    default: return (double)v;
    }
}
struct Field { const char* name; size_t at; T t; std::function<double(const UbxMessage&)> get; };
struct Kind { const char* name; int cls, id; size_t len, block; int max; std::vector<Field> f, rep; std::function<double(const UbxMessage&, int, int)> get; };
#define F(M, f, at, t) Field{#f, at, t, [](const UbxMessage& m) { return (double)m.M.f; }}
static const std::vector<Kind>& kinds()
{
    static std::vector<Kind> k;
    if (!k.empty()) return k;
    k.push_back({"RXM-RAWX", 2, 0x15, 16, 32, 60,
        {F(RXM_RAWX, rcv_tow, 0, tF8), F(RXM_RAWX, week, 8, tU2), F(RXM_RAWX, leap_s, 10, tI1), F(RXM_RAWX, num_meas, 11, tU1), F(RXM_RAWX, rec_stat, 12, tU1), F(RXM_RAWX, version, 13, tU1)},
        {{"pr_meas", 0, tF8, {}}, {"cp_meas", 8, tF8, {}}, {"do_meas", 16, tF4, {}}, {"gnss_id", 20, tU1, {}}, {"sv_id", 21, tU1, {}}, {"sig_id", 22, tU1, {}}, {"freq_id", 23, tU1, {}}, {"locktime", 24, tU2, {}}, {"cno", 26, tU1, {}}, {"pr_stdev", 27, tU1, {}}, {"cp_stdev", 28, tU1, {}}, {"do_stdev", 29, tU1, {}}, {"trk_stat", 30, tU1, {}}},
        [](const UbxMessage& m, int i, int f) {
            const auto& r = m.RXM_RAWX.meas[i];
            const double v[] = {r.pr_meas, r.cp_meas, r.do_meas, (double)r.gnss_id, (double)r.sv_id, (double)r.sig_id, (double)r.freq_id, (double)r.locktime, (double)r.cno, (double)r.pr_stdev, (double)r.cp_stdev, (double)r.do_stdev, (double)r.trk_stat};
            return v[f];
        }});
    k.push_back({"RXM-SFRBX", 2, 0x13, 8, 4, 10,
        {F(RXM_SFRBX, gnss_id, 0, tU1), F(RXM_SFRBX, sv_id, 1, tU1), F(RXM_SFRBX, freq_id, 3, tU1), F(RXM_SFRBX, num_words, 4, tU1), F(RXM_SFRBX, chn, 5, tU1), F(RXM_SFRBX, version, 6, tU1)},
        {{"dwrd", 0, tU4, {}}}, [](const UbxMessage& m, int i, int) { return (double)m.RXM_SFRBX.dwrd[i]; }});
    k.push_back({"NAV-PVT", 1, 7, 92, 0, 0,
        {F(NAV_PVT, i_tow, 0, tU4), F(NAV_PVT, year, 4, tU2), F(NAV_PVT, month, 6, tU1), F(NAV_PVT, day, 7, tU1), F(NAV_PVT, hour, 8, tU1), F(NAV_PVT, min, 9, tU1), F(NAV_PVT, sec, 10, tU1), F(NAV_PVT, valid, 11, tU1), F(NAV_PVT, t_acc, 12, tU4), F(NAV_PVT, nano, 16, tI4),
         F(NAV_PVT, fix_type, 20, tU1), F(NAV_PVT, flags, 21, tU1), F(NAV_PVT, flags2, 22, tU1), F(NAV_PVT, num_sv, 23, tU1), F(NAV_PVT, lon, 24, tI4), F(NAV_PVT, lat, 28, tI4), F(NAV_PVT, height, 32, tI4), F(NAV_PVT, h_msl, 36, tI4), F(NAV_PVT, h_acc, 40, tU4), F(NAV_PVT, v_acc, 44, tU4),
         F(NAV_PVT, vel_n, 48, tI4), F(NAV_PVT, vel_e, 52, tI4), F(NAV_PVT, vel_d, 56, tI4), F(NAV_PVT, g_speed, 60, tI4), F(NAV_PVT, head_mot, 64, tI4), F(NAV_PVT, s_acc, 68, tU4), F(NAV_PVT, head_acc, 72, tU4), F(NAV_PVT, p_dop, 76, tU2), F(NAV_PVT, head_veh, 84, tI4), F(NAV_PVT, mag_dec, 88, tI2), F(NAV_PVT, mag_acc, 90, tU2)}, {}, {}});
    k.push_back({"NAV-POSECEF", 1, 1, 20, 0, 0, {F(NAV_POSECEF, i_tOW, 0, tU4), F(NAV_POSECEF, ecef_x, 4, tI4), F(NAV_POSECEF, ecef_y, 8, tI4), F(NAV_POSECEF, ecef_z, 12, tI4), F(NAV_POSECEF, p_acc, 16, tU4)}, {}, {}});
    k.push_back({"NAV-VELECEF", 1, 0x11, 20, 0, 0, {F(NAV_VELECEF, i_tOW, 0, tU4), F(NAV_VELECEF, ecef_vx, 4, tI4), F(NAV_VELECEF, ecef_vy, 8, tI4), F(NAV_VELECEF, ecef_vz, 12, tI4), F(NAV_VELECEF, s_acc, 16, tU4)}, {}, {}});
    k.push_back({"NAV-RELPOSNED", 1, 0x3C, 64, 0, 0,
        {F(NAV_RELPOSNED, version, 0, tU1), F(NAV_RELPOSNED, ref_station_id, 2, tU2), F(NAV_RELPOSNED, i_tow, 4, tU4), F(NAV_RELPOSNED, rel_pos_n, 8, tI4), F(NAV_RELPOSNED, rel_pos_e, 12, tI4), F(NAV_RELPOSNED, rel_pos_d, 16, tI4), F(NAV_RELPOSNED, rel_pos_length, 20, tI4), F(NAV_RELPOSNED, rel_pos_heading, 24, tI4),
         F(NAV_RELPOSNED, rel_pos_hpn, 32, tI1), F(NAV_RELPOSNED, rel_pos_hpe, 33, tI1), F(NAV_RELPOSNED, rel_pos_hpd, 34, tI1), F(NAV_RELPOSNED, rel_pos_hp_length, 35, tI1), F(NAV_RELPOSNED, acc_n, 36, tU4), F(NAV_RELPOSNED, acc_e, 40, tU4), F(NAV_RELPOSNED, acc_d, 44, tU4), F(NAV_RELPOSNED, acc_length, 48, tU4), F(NAV_RELPOSNED, acc_heading, 52, tU4), F(NAV_RELPOSNED, flags, 60, tU4)}, {}, {}});
    k.push_back({"NAV-SVIN", 1, 0x3B, 40, 0, 0,
        {F(NAV_SVIN, version, 0, tU1), F(NAV_SVIN, i_tow, 4, tU4), F(NAV_SVIN, dur, 8, tU4), F(NAV_SVIN, mean_acc, 28, tU4), F(NAV_SVIN, obs, 32, tU4), F(NAV_SVIN, valid, 36, tU1), F(NAV_SVIN, active, 37, tU1)}, {}, {}});
    k.push_back({"MON-TXBUF", 0x0A, 8, 28, 0, 0,
        {F(MON_TXBUF, pending[0], 0, tU2), F(MON_TXBUF, pending[5], 10, tU2), F(MON_TXBUF, usage[0], 12, tU1), F(MON_TXBUF, usage[5], 17, tU1), F(MON_TXBUF, peak_usage[0], 18, tU1), F(MON_TXBUF, peak_usage[5], 23, tU1), F(MON_TXBUF, t_usage, 24, tU1), F(MON_TXBUF, t_peak_usage, 25, tU1), F(MON_TXBUF, errors, 26, tU1)}, {}, {}});
    k.push_back({"MON-COMMS", 0x0A, 0x36, 8, 40, 5,
        {F(MON_COMM, version, 0, tU1), F(MON_COMM, n_ports, 1, tU1), F(MON_COMM, tx_errors, 2, tU1), F(MON_COMM, port_ids[0], 4, tU1), F(MON_COMM, port_ids[3], 7, tU1)},
        {{"port_id", 0, tU2, {}}, {"tx_pending", 2, tU2, {}}, {"tx_bytes", 4, tU4, {}}, {"tx_usage", 8, tU1, {}}, {"tx_peak_usage", 9, tU1, {}}, {"rx_pending", 10, tU2, {}}, {"rx_bytes", 12, tU4, {}}, {"rx_usage", 16, tU1, {}}, {"rx_peak_usage", 17, tU1, {}}, {"overrun_errs", 18, tU2, {}}, {"msgs0", 20, tU2, {}}, {"msgs3", 26, tU2, {}}, {"skipped", 36, tU4, {}}},
        [](const UbxMessage& m, int i, int f) {
            const auto& b = m.MON_COMM.blocks[i];
            const double v[] = {(double)b.port_id, (double)b.tx_pending, (double)b.tx_bytes, (double)b.tx_usage, (double)b.tx_peak_usage, (double)b.rx_pending, (double)b.rx_bytes, (double)b.rx_usage, (double)b.rx_peak_usage, (double)b.overrun_errs, (double)b.msgs[0], (double)b.msgs[3], (double)b.skipped};
            return v[f];
        }});
    k.push_back({"ACK-ACK", 5, 1, 2, 0, 0, {F(ACK_ACK, class_id, 0, tU1), F(ACK_ACK, msg_id, 1, tU1)}, {}, {}});
    k.push_back({"ACK-NAK", 5, 0, 2, 0, 0, {F(ACK_NACK, class_id, 0, tU1), F(ACK_NACK, msg_id, 1, tU1)}, {}, {}});
    return k;
}
struct L : UbxListener
{
    std::function<void(int, int, const UbxMessage&)> fn;
    void gotUbx(const uint8_t c, const uint8_t i, const UbxMessage& m) override { fn(c, i, m); }
};
static bool same(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }
VT_PROP(fields, 4000, 100000)
{
    async_comm::Comm comm;
    Ubx u(comm);
    L l;
    u.registerListener(&l);
    for (const auto& k : kinds()) l.subscribe(k.cls, k.id);
    const int n = s.irange(1, 6);
    for (int i = 0; i < n; ++i)
    {
        const Kind& k = s.pickv(kinds());
        const int blocks = k.max ? s.irange(0, k.max) : 0;
        Bytes p(k.len + blocks * k.block);
        if (s.flip()) { const Bytes b = s.bytes(p.size()); p = b; }
        else
            for (auto& b : p) b = s.pick({0, 0xFF, 0x80, 0x7F, 1});
        s.note("%s of %zu", k.name, p.size());
        int calls = 0;
        std::string bad;
        l.fn = [&](int c, int id, const UbxMessage& m) {
            calls++;
            if (c != k.cls || id != k.id) bad = "another class";
            for (const auto& f : k.f)
            {
                const double want = number(p, f.at, f.t);
                double got = f.get(m);
                // a count above 127 is beyond what the buffer holds
                if (f.t == tU1 && got < 0) got += 256;
                if (!same(got, want)) bad = vt::sfmt("%s.%s is %.17g, sent %.17g", k.name, f.name, got, want);
            }
            for (int b = 0; b < blocks; ++b)
                for (size_t f = 0; f < k.rep.size(); ++f)
                {
                    const double want = number(p, k.len + b * k.block + k.rep[f].at, k.rep[f].t), got = k.get(m, b, (int)f);
                    if (!same(got, want)) bad = vt::sfmt("%s[%d].%s is %.17g, sent %.17g", k.name, b, k.rep[f].name, got, want);
                }
        };
        const Bytes f = ub::frame(k.cls, k.id, p);
        comm.listener->receive_callback(f.data(), f.size());
        VT_REQ(bad.empty(), "%s", bad.c_str());
        VT_REQ(calls == 1, "%d calls", calls);
        if (blocks > 1) s.nontrivial();
    }
    if (n > 2) s.nontrivial();
}
// the numbering of satellites and signals
VT_PROP(numbering, 2000, 20000)
{
    const int n = s.irange(0, 255);
    const int want = n >= 1 && n <= 32 ? 0 : (n >= 33 && n <= 64) || (n >= 159 && n <= 163) ? 3 : (n >= 65 && n <= 96) || n == 255 ? 6 : n >= 120 && n <= 158 ? 1 : n >= 193 && n <= 197 ? 5 : n >= 211 && n <= 246 ? 2 : -1;
    VT_REQ(sysId(n) == want, "satellite %d belongs to %d, not %d", n, want, sysId(n));
    static const std::map<std::pair<int, int>, int> sig = {{{0, 0}, GPS_L1_CA}, {{0, 3}, GPS_L2_CL}, {{0, 4}, GPS_L2_CM}, {{2, 0}, Galileo_E1_C}, {{2, 1}, Galileo_E1_B}, {{2, 5}, Galileo_E5_BI}, {{2, 6}, Galileo_E5_BQ}, {{3, 0}, Beidou_B1I_D1}, {{3, 1}, Beidou_B1I_D2}, {{3, 2}, Beidou_B2I_D1}, {{3, 3}, Beidou_B2I_D2}, {{5, 0}, QZSS_L1_CA}, {{6, 0}, Glonass_L1}, {{6, 2}, Glonass_L2}};
    const int g = s.irange(0, 7), i = s.irange(0, 7);
    const auto it = sig.find({g, i});
    const int ws = it == sig.end() ? -1 : it->second;
    VT_REQ(sigId(g, i) == ws, "signal %d of system %d is %d, not %d", i, g, ws, sigId(g, i));
    s.note("satellite %d, signal %d-%d", n, g, i);
    if (want >= 0 || ws >= 0) s.nontrivial();
}
