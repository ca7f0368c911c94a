// The receiver's byte stream is split into exactly the messages it carries.
#include "parsers/ubx/ubx.h"
#include "ubxgen.h"
using namespace mc::parsers::ublox;
static const std::vector<std::pair<int, int>> kinds = {{0x02, 0x13}, {0x02, 0x15}, {0x01, 0x07}, {0x05, 0x01}, {0x05, 0x00}, {0x0A, 0x04}, {0x01, 0x02}, {0x02, 0x01}, {0, 0}, {0xFF, 0xFF}, {0xB5, 0x62}, {0x13, 0x02}};
struct Rig
{
    struct L : UbxListener
    {
        Rig* rig;
        int no;
        void gotUbx(const uint8_t cls, const uint8_t id, const UbxMessage& m) override { rig->got(no, cls, id, m); }
    };
    const ub::Scan* want = nullptr;
    std::vector<L> ls;
    std::vector<std::array<int, 3>> expect;  // listener, class, id
    std::vector<const ub::Bytes*> expectp;
    size_t next = 0;
    std::string bad;
    void got(int no, int cls, int id, const UbxMessage& m)
    {
        if (!bad.empty()) return;
        if (next >= expect.size()) { bad = vt::sfmt("delivery %zu (listener %d, %02x-%02x) which the stream does not carry", next, no, cls, id); return; }
        const auto& e = expect[next];
        const auto& p = *expectp[next];
        if (e[0] != no || e[1] != cls || e[2] != id)
            bad = vt::sfmt("delivery %zu is %02x-%02x to listener %d, not %02x-%02x to listener %d", next, cls, id, no, e[1], e[2], e[0]);
        else if (!p.empty() && memcmp(m.buffer, p.data(), p.size()))
            bad = vt::sfmt("delivery %zu (%02x-%02x) has another payload: %s, not %s", next, cls, id, ub::hex(ub::Bytes(m.buffer, m.buffer + p.size())).c_str(), ub::hex(p).c_str());
        next++;
    }
};
static size_t length(vt::Src& s)
{
    switch (s.weighted({4, 2, 1, 1, 1}))
    {
    case 0: return s.irange(1, 40);
    case 1: return 0;
    case 2: return s.irange(41, 2048);
    case 3: return 2048 - s.irange(0, 2);
    default: return s.pick({1, 2, 255, 256, 257, 512});
    }
}
VT_PROP(stream, 6000, 200000)
{
    // ---- the stream
    ub::Bytes st;
    const int n = s.irange(1, 14);
    int good = 0;
    for (int i = 0; i < n; ++i)
    {
        const auto k = s.chance(0.85) ? s.pickv(kinds) : std::make_pair((int)s.draw(255), (int)s.draw(255));
        const int what = s.weighted({8, 2, 2, 2, 3});
        if (what == 4)
        {
            const auto g = ub::payload(s, s.irange(1, 12));
            st.insert(st.end(), g.begin(), g.end());
            s.note("garbage %s", ub::hex(g).c_str());
            continue;
        }
        ub::Bytes p = ub::payload(s, length(s));
        ub::Bytes f = ub::frame(k.first, k.second, p);
        if (what == 0) { good++; s.note("%02x-%02x of %zu", k.first, k.second, p.size()); }
        if (what == 1)
        {
            const size_t at = s.draw(f.size() - 1);
            f[at] ^= 1 << s.draw(7);
            s.note("%02x-%02x of %zu wrong at %zu", k.first, k.second, p.size(), at);
        }
        if (what == 2)
        {
            f.resize(s.irange(1, (int)f.size() - 1));
            s.note("%02x-%02x of %zu cut to %zu", k.first, k.second, p.size(), f.size());
        }
        if (what == 3)
        {
            const int len = s.flip() ? 2049 + s.irange(0, 3) : s.irange(2049, 65535);
            f[4] = len & 255; f[5] = len >> 8;
            if (s.flip()) f.resize(6);
            s.note("%02x-%02x claims %d", k.first, k.second, len);
        }
        st.insert(st.end(), f.begin(), f.end());
    }
    const auto all = ub::scan(st, st.size());
    // ---- who listens to what
    Rig r;
    const int nl = s.irange(1, 4);
    r.ls.resize(nl);
    std::vector<std::set<std::pair<int, int>>> subs(nl);
    for (int i = 0; i < nl; ++i)
    {
        r.ls[i].rig = &r;
        r.ls[i].no = i;
        const int m = s.irange(0, 8);
        for (int j = 0; j < m; ++j)
        {
            const auto k = s.pickv(kinds);
            subs[i].insert(k);
            r.ls[i].subscribe(k.first, k.second);
        }
    }
    for (const auto& m : all.msgs)
        for (int i = 0; i < nl; ++i)
            if (subs[i].count({m.cls, m.id})) { r.expect.push_back({i, m.cls, m.id}); r.expectp.push_back(&m.p); }
    async_comm::Comm comm;
    Ubx ubx(comm);
    VT_REQ(comm.listener == &ubx, "the parser did not register with the port");
    for (auto& l : r.ls) ubx.registerListener(&l);
    // ---- in pieces
    size_t at = 0;
    while (at < st.size())
    {
        size_t k = std::min<size_t>(st.size() - at, s.weighted({2, 1, 2}) == 0 ? s.irange(1, 3) : s.flip() ? s.irange(0, 40) : s.irange(1, 4000));
        // exactly sized, so that reading outside it shows
        std::vector<uint8_t> piece(st.begin() + at, st.begin() + at + k);
        {
            ub::Hush q;
            comm.listener->receive_callback(piece.data(), piece.size());
        }
        at += k;
        VT_REQ(r.bad.empty(), "%s", r.bad.c_str());
        const auto part = ub::scan(st, at);
        VT_REQ(ubx.numMessagesReceived() == part.msgs.size(), "%zu messages counted, %zu complete", ubx.numMessagesReceived(), part.msgs.size());
        VT_REQ(ubx.parsingMessage() == part.inside, "after %zu bytes: within a message %d, reported %d", at, part.inside, ubx.parsingMessage());
        size_t due = 0;
        for (const auto& m : part.msgs)
            for (int i = 0; i < nl; ++i) due += subs[i].count({m.cls, m.id});
        VT_REQ(r.next == due, "%zu deliveries, %zu due", r.next, due);
    }
    if (all.bad) s.label("damaged frame");
    if (all.toolong) s.label("too long");
    if (all.empty) s.label("empty payload");
    if (all.inside) s.label("ends within a frame");
    if (all.msgs.size() >= 2 && (all.bad || all.toolong || all.empty || nl > 1)) s.nontrivial();
}
// a message sent by one end is received by the other
VT_PROP(loop_back, 2000, 60000)
{
    async_comm::Comm a, b;
    Ubx tx(a), rx(b);
    Rig r;
    r.ls.resize(1);
    r.ls[0].rig = &r;
    r.ls[0].no = 0;
    rx.registerListener(&r.ls[0]);
    const int n = s.irange(1, 8);
    ub::Bytes want;
    std::vector<ub::Bytes> ps;
    for (int i = 0; i < n; ++i)
    {
        const auto k = s.pickv(kinds);
        r.ls[0].subscribe(k.first, k.second);
        ps.push_back(ub::payload(s, length(s)));
        auto m = std::make_unique<UbxMessage>();
        memset(m.get(), s.pick({0, 0xB5, 0xFF}), sizeof *m);
        std::copy(ps[i].begin(), ps[i].end(), m->buffer);
        VT_REQ(tx.sendMessage(k.first, k.second, *m, (uint16_t)ps[i].size()), "not sent");
        const auto f = ub::frame(k.first, k.second, ps[i]);
        want.insert(want.end(), f.begin(), f.end());
        r.expect.push_back({0, k.first, k.second});
    }
    for (auto& p : ps) r.expectp.push_back(&p);
    VT_REQ(a.sent == want, "sent %s, not %s", ub::hex(a.sent).c_str(), ub::hex(want).c_str());
    {
        ub::Hush q;
        b.listener->receive_callback(a.sent.data(), a.sent.size());
    }
    VT_REQ(r.bad.empty(), "%s", r.bad.c_str());
    VT_REQ(r.next == (size_t)n, "%zu of %d received", r.next, n);
    if (n > 1) s.nontrivial();
}
