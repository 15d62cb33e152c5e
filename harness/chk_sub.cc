// A library subscriber and scripted publishers that speak the wire format themselves, against an exact model of the
// subscriber: whom it connects to, what it takes in, what is ready, what it acknowledges, and when.
#include "rig.h"
#include <stdlib.h>
#include <algorithm>
using namespace pbt;
using namespace rig;

namespace {

#define MFAIL(ids_, cond_, ...) do { if (cond_) { rig::fail_any(ids_, __VA_ARGS__); rig::fail_any(IDS("C17", "C19", "C20", "C22", "C29", "C32"), __VA_ARGS__); } } while (0)

enum { ANNOUNCE, DATA, JUNKD, SERVE, MCREAD, PACCEPT, RESEND, JUNKT, FLUSH, P_CLOSE, RESTART, P_READ, STALL, TIME, TIMEOUT, MESSAGE, DRAIN, S_CLOSE, SREAD, SWRITE, FAULT, BADARG, NOPS };

struct Opt {
    int w[NOPS] = {8, 20, 2, 14, 10, 8, 10, 1, 8, 2, 1, 6, 2, 12, 12, 4, 8, 1, 6, 6, 1, 1};
    int max_lo = 1, max_hi = 4;
    int np_lo = 1, np_hi = 4;
    int cut = 50, small_buf = 20, big = 20, refuse = 8, decline = 10, faults = 8;
};

struct RPub {
    uint32_t ip; uint16_t port, sport; uint32_t node;
    bool any;                        // announces address 0
    int lfd;
    int k;
    uint64_t next = 1;               // next id
    uint64_t gen = 1;                // incarnation: ids of different incarnations have different contents
    bool any_data = false;
};

struct Rdy { int index; packet_id_t pid; std::string data; };

struct RConn {
    sim::Conn* c;
    RPub* pub;
    Link* l;
    uint32_t node = 0;               // what the announcement said that led to it
    size_t since_empty = 0;          // bytes put into it since nothing waited to be written
    uint64_t gen = 0;
    bool open = true, complete = false, bad = false;
    bool accepted = false, peer_closed = false, instant = false;
    std::string out;                 // the publisher's bytes not yet written
    packet_id_t next = 0;
    std::map<packet_id_t, Rdy> held;
    std::map<packet_id_t, int64_t> unacked;
    std::deque<std::string> expect;  // commands put into the connection
    size_t front_done = 0;           // bytes of the first one that are written
    size_t pending = 0;
    wire::Parser in;                 // what the subscriber read
    wire::Parser rx;                 // what the publisher read
    std::string rx_expect;
};

struct SCase : World {
    Opt o;
    SubRig* s = 0;
    std::vector<std::unique_ptr<RPub>> pubs;
    std::vector<std::unique_ptr<RConn>> conns;
    std::map<sim::Conn*, RConn*> bc;
    std::deque<Rdy> ready;
    bool big = false, cut = false, faulty = false;
    int decline_pct = 0;
    uint64_t seedc = 1, spoof = 0;
    // What the datagram that was read last has to lead to.
    struct Exp { bool announce = false, connect = false; uint32_t ip; uint16_t port; uint32_t node; std::string data; };
    Exp exp;
    bool malformed = false;          // the last datagram read was malformed
    uint64_t grew = 0;               // packets that became ready in this call
    uint64_t n_announced = 0, n_declined = 0, n_connected = 0, n_mc = 0, n_dup = 0, n_tcp = 0, n_ack = 0, n_msg = 0, n_left = 0, n_bad = 0, n_junk = 0, n_deliv = 0, n_reuse = 0, n_full = 0;
    std::set<int> used_index;

    std::vector<RConn*> opens() { std::vector<RConn*> v; for (auto& c : conns) if (c->open) v.push_back(c.get()); return v; }
    std::vector<RConn*> ups() { std::vector<RConn*> v; for (auto& c : conns) if (c->open && c->complete) v.push_back(c.get()); return v; }
    std::vector<RConn*> talking() { std::vector<RConn*> v; for (auto& c : conns) if (c->accepted && !c->peer_closed) v.push_back(c.get()); return v; }
    template <class V> typename V::value_type pick(V& v) { return v[src.draw(v.size())]; }
    RConn* find(uint32_t ip, uint16_t port) { for (auto& c : conns) if (c->open && c->c->server.ip == ip && c->c->server.port == port) return c.get(); return 0; }
    RConn* of_index(int i) { for (auto& c : conns) if (c->open && c->l->s_index == i) return c.get(); return 0; }

    // ---- content of packets
    static uint64_t seed_of(RPub* p, uint64_t gen, packet_id_t pid) { return mix((p->k + 5000) * 1000003ull + gen * 7919 + pid * 31 + 5); }
    payload_len_t len_of(RPub* p, uint64_t gen, packet_id_t pid)
    {
        uint64_t h = mix(seed_of(p, gen, pid) + 99);
        switch (h % 8) {
        case 0: return 0;
        case 1: return 1;
        case 2: return big ? (payload_len_t) (65312 - (h >> 8) % 3) : 700;
        case 3: return big ? (payload_len_t) ((h >> 8) % 65313) : (payload_len_t) ((h >> 8) % 2000);
        default: return (payload_len_t) ((h >> 8) % 60);
        }
    }
    wire::Hdr hdr(RPub* p, packet_id_t pid, payload_len_t len) { return wire::Hdr{pid, p->node, len, p->any ? 0 : p->ip, p->port}; }

    // ---- the model
    void take(RConn* r, packet_id_t pid, const Rdy& d, bool mc)
    {
        if ((r->next && pid < r->next) || r->held.count(pid)) { ++n_dup; return; }
        if (mc) { r->unacked[pid] = sim::now; ++n_mc; } else ++n_tcp;
        if (!r->next) r->next = pid;
        r->held[pid] = d;
        while (r->held.count(r->next)) { ready.push_back(r->held[r->next]); r->held.erase(r->next); ++r->next; ++grew; }
    }
    void leave(RConn* r)
    {
        if (!r->open) return;
        r->open = false;
        MFAIL(IDS("C14", "C19"), r->l->s_open, "a connection that ended is still open");
        r->held.clear(); r->unacked.clear(); r->expect.clear(); r->pending = 0;
        ++n_left;
    }
    void put(RConn* r, std::string cmd)
    {
        if (!r->pending) r->since_empty = 0;
        r->pending += cmd.size();
        r->since_empty += cmd.size();
        r->expect.push_back(std::move(cmd));
    }
    int64_t next_deadline()
    {
        int64_t d = -1;
        for (RConn* r : ups()) {
            if (r->unacked.empty() || r->pending + 17 > RMC_MAX_PACKET - 1) continue;
            int64_t t = oldest(r) + 50000;
            if (d < 0 || t < d) d = t;
        }
        return d;
    }
    static int64_t oldest(RConn* r) { int64_t m = INT64_MAX; for (auto& u : r->unacked) m = std::min(m, u.second); return m; }

    // ---- observation
    void finish_dgram()
    {
        for (auto& r : conns) if (r->open && !r->complete && r->c->state == sim::REFUSED && r->instant) leave(r.get());
        if (!exp.announce && !exp.connect) return;
        Exp e = exp;
        exp = Exp();
        if (faulty && e.connect) return;
        MFAIL(IDS("C14", "C28"), e.announce, "an announcement of %s:%u was not offered to the announce callback", ip_str(e.ip).c_str(), e.port);
        MFAIL(IDS("C14"), e.connect, "an announcement was accepted and no connection to %s:%u attempted", ip_str(e.ip).c_str(), e.port);
    }
    static std::string ip_str(uint32_t a) { char b[32]; snprintf(b, sizeof(b), "%u.%u.%u.%u", a >> 24, (a >> 16) & 255, (a >> 8) & 255, a & 255); return b; }
    void accepted_announce(uint32_t ip, uint16_t port, uint32_t node)
    {
        if (opens().size() >= s->max_pubs) { ++n_full; return; }
        exp.connect = true;
        exp.ip = ip; exp.port = port; exp.node = node;
    }
    void udp_read(sim::Fd& f, const sim::Dgram& d) override
    {
        World::udp_read(f, d);
        finish_dgram();
        malformed = false;
        if (d.data.empty()) return;
        if (d.data.size() < (size_t) wire::HDR) { malformed = true; return; }
        wire::Hdr h = wire::get_hdr(d.data.data());
        if (d.data.size() < (size_t) wire::HDR + h.len) { malformed = true; return; }
        uint32_t ip = h.ip ? h.ip : d.src.ip;
        RConn* r = find(ip, h.port);
        if (!r) {
            if (h.pid) return;
            ++n_announced;
            if (s->use_announce_cb) {
                exp.announce = true;
                exp.ip = ip; exp.port = h.port; exp.node = h.node;
                exp.data.assign((const char*) d.data.data() + wire::HDR, h.len);
            } else accepted_announce(ip, h.port, h.node);
            return;
        }
        if (!r->complete || !h.pid) return;
        take(r, h.pid, Rdy{r->l->s_index, h.pid, std::string((const char*) d.data.data() + wire::HDR, h.len)}, true);
    }
    bool announced(uint32_t ip, uint16_t port, uint32_t node, const std::string& data)
    {
        MFAIL(IDS("C14", "C17"), !exp.announce, "the announce callback was called for %s:%u without an announcement to offer", ip_str(ip).c_str(), port);
        MFAIL(IDS("C14", "C28"), ip != exp.ip || port != exp.port || node != exp.node || data != exp.data, "an announcement of %s:%u node %u with %zu bytes was offered as %s:%u node %u with %zu bytes",
            ip_str(exp.ip).c_str(), exp.port, exp.node, exp.data.size(), ip_str(ip).c_str(), port, node, data.size());
        exp.announce = false;
        if (src.chance(decline_pct)) { ++n_declined; return false; }
        accepted_announce(ip, port, node);
        return true;
    }
    void connect_plan(sim::Conn& c) override
    {
        int64_t d = src.chance(50) ? 0 : src.range(0, 30000);
        c.done_at = sim::now + d;
        if (!d && src.chance(15)) c.done_at = sim::now - 1;
        c.will_refuse = src.chance(o.refuse);
    }
    void connect_started(sim::Conn& c) override
    {
        World::connect_started(c);
        MFAIL(IDS("C14"), !exp.connect || exp.ip != c.server.ip || exp.port != c.server.port, "a connection to %s:%u was attempted that no accepted announcement asks for", ip_str(c.server.ip).c_str(), c.server.port);
        MFAIL(IDS("C29"), opens().size() >= s->max_pubs, "a connection beyond the limit of %u was attempted", s->max_pubs);
        RConn* r = new RConn;
        conns.emplace_back(r);
        r->c = &c;
        r->l = link_of(c);
        r->node = exp.node;
        r->pub = 0;
        for (auto& p : pubs) if (p->ip == c.server.ip && p->port == c.server.port) r->pub = p.get();
        if (r->pub) r->gen = r->pub->gen;
        bc[&c] = r;
        r->instant = c.done_at < sim::now;
        ++n_connected;
        exp.connect = false;
    }
    void tcp_read(sim::Conn& c, int side, const uint8_t* d, size_t n) override
    {
        World::tcp_read(c, side, d, n);
        auto it = bc.find(&c);
        if (side || it == bc.end()) return;
        RConn* r = it->second;
        if (r->bad) return;
        r->in.feed(d, n);
        for (;;) {
            const uint8_t* p = (const uint8_t*) r->in.buf.data() + r->in.at;
            if (!r->in.pending()) break;
            if (*p != wire::PACKET) { r->bad = true; break; }
            if (r->in.pending() >= 21 && wire::get_hdr(p + 1).len > 65312) { r->bad = true; break; }
            wire::Cmd m;
            if (!r->in.next(m)) break;
            if (!m.h.pid) { r->bad = true; weird = true; break; }
            take(r, m.h.pid, Rdy{r->l->s_index, m.h.pid, m.data}, false);
        }
    }
    bool weird = false;              // a packet 0 came over a control connection: what happens is not specified
    std::string content(RPub* p, uint64_t gen, packet_id_t pid) { auto b = bytes(len_of(p, gen, pid), seed_of(p, gen, pid)); return std::string(b.begin(), b.end()); }

    void tcp_written(sim::Conn& c, int side, const uint8_t* d, size_t n) override
    {
        World::tcp_written(c, side, d, n);
        auto it = bc.find(&c);
        if (side || it == bc.end()) return;
        RConn* r = it->second;
        while (n) {
            MFAIL(IDS("C08", "C16", "C28"), r->expect.empty(), "%zu bytes were written on a control connection that nothing put there", n);
            if (r->expect.empty()) return;
            std::string& e = r->expect.front();
            size_t k = std::min(n, e.size() - r->front_done);
            bool ack = e[0] == (char) wire::ACK;
            if (memcmp(e.data() + r->front_done, d, k)) {
                if (ack) MFAIL(IDS("C08", "C28"), true, "an acknowledgement on the wire is not the one due for %llu-%llu", (ull) wire::get((const uint8_t*) e.data() + 1, 8), (ull) wire::get((const uint8_t*) e.data() + 9, 8));
                else MFAIL(IDS("C16", "C28"), true, "a control message of %zu bytes differs on the wire", e.size() - 3);
            }
            d += k; n -= k; r->front_done += k; r->pending -= k;
            if (r->front_done == e.size()) { if (ack) ++n_ack; else ++n_msg; r->rx_expect += e; r->expect.pop_front(); r->front_done = 0; }
        }
    }

    void verify(const char* after)
    {
        if (!s->ctx) return;
        finish_dgram();
        int64_t d = s->deadline(), e = next_deadline();
        MFAIL(IDS("C11", "C08"), d != e, "after %s the deadline is %lld, not %lld", after, (long long) d, (long long) e);
        MFAIL(IDS("C01", "C05"), s->ready_count() != ready.size(), "after %s %zu packets are ready, not %zu", after, s->ready_count(), ready.size());
        for (auto& r : conns) MFAIL(IDS("C14"), r->open != r->l->s_open, "after %s the connection to %s:%u is %s", after, ip_str(r->c->server.ip).c_str(), r->c->server.port, r->open ? "closed" : "still open");
        if (s->use_poll) for (RConn* r : ups()) {
            auto it = s->poll.find(r->c->fd[0]);
            if (it == s->poll.end()) continue;
            MFAIL(IDS("C07", "C08"), !!(it->second.interest & RMC_POLLWRITE) != (r->pending > 0), "after %s %zu bytes wait to be written, write interest is %s", after, r->pending, it->second.interest & RMC_POLLWRITE ? "set" : "not set");
        }
    }
    // ---- calls
    uint64_t ready_calls0 = 0;
    void begin() { grew = 0; ready_calls0 = s->ready_calls; malformed = false; }
    void end_read()
    {
        finish_dgram();
        if (s->use_ready_cb && !weird) {
            MFAIL(IDS("C01"), grew && s->ready_calls == ready_calls0, "%llu packets became ready and the packet ready callback was not called", (ull) grew);
            MFAIL(IDS("C01"), !grew && s->ready_calls != ready_calls0, "the packet ready callback was called and no packet had become ready");
        }
    }
    void mcread()
    {
        begin();
        int fd = s->fd_of(MC);
        uint8_t op = 0;
        int r = s->do_read(MC, &op);
        bool was_ok = sim::acts.failed.empty();
        note("%s: multicast read = %d", s->name.c_str(), r);
        end_read();
        MFAIL(IDS("C17"), was_ok && !malformed && r, "reading valid datagrams returned %d", r);
        MFAIL(IDS("C17"), malformed && !r, "a malformed datagram was read and no error reported");
        if (was_ok && !malformed && fd >= 0) {
            sim::Fd* f = sim::get(fd);
            bool empty_one = false;
            if (f) for (auto& d : f->rx) empty_one |= d.data.empty();
            (void) empty_one;
        }
        verify("reading multicast");
    }
    void sread(RConn* r)
    {
        if (!r->open) return;
        begin();
        bool readable = sim::readable(r->c->fd[0]), eof = sim::raw_eof(r->c, 0);
        uint8_t op = 0;
        int idx = r->l->s_index;
        int res = s->do_read((rmc_index_t) idx, &op);
        bool was_ok = sim::acts.failed.empty();
        note("%s: read index %d = %d", s->name.c_str(), idx, res);
        if (!r->complete) {
            MFAIL(IDS("C30"), res != ENOTCONN, "reading a connection that is not up returned %d", res);
            verify("reading a connection that is not up");
            return;
        }
        end_read();
        if (weird) { weird = false; ++n_bad; resync(r); return; }
        if (r->bad) {
            ++n_bad;
            FAIL_ANY_IF(IDS("C19", "C20"), !res, "a malformed command was read and no error reported");
            FAIL_ANY_IF(IDS("C19", "C20"), r->l->s_open, "a malformed command did not end its connection");
            leave(r);
        } else if (readable && eof && was_ok) {
            MFAIL(IDS("C14", "C19"), r->l->s_open, "the end of a connection was read and it is still open");
            MFAIL(IDS("C14", "C30"), res, "reading the end of a connection returned %d", res);
            leave(r);
        } else if (!was_ok && !r->l->s_open) leave(r);
        else MFAIL(IDS("C19"), was_ok && res && res != EAGAIN, "reading from a publisher returned %d", res);
        verify("reading from a publisher");
    }
    // A packet 0 was read from a control connection: only its connection may be affected.
    void resync(RConn* r)
    {
        label("packet 0 on a control connection");
        if (r->l->s_open) { s->close_connection((rmc_index_t) r->l->s_index); }
        leave(r);
        std::deque<Rdy> mine;
        // What it made ready is not looked at.
        std::deque<Rdy> q;
        ready.swap(q);
        skip = (size_t) s->ready_count();
        s->on_deliver = [](sub_packet_t*) {};
        s->drain();
        s->on_deliver = [this](sub_packet_t* p) { deliver(p); };
        for (auto& c : conns) (void) c;
        verify("a packet 0 on a control connection");
    }
    size_t skip = 0;
    void swrite(RConn* r)
    {
        if (!r->open) return;
        uint8_t op = 0;
        bool connecting = !r->complete;
        if (connecting && !sim::writable(r->c->fd[0])) return;
        bool refused = r->c->state == sim::REFUSED;
        bool dead = r->c->closed[1];
        size_t before = r->pending;
        uint64_t c0 = s->completes;
        int res = s->do_write((rmc_index_t) r->l->s_index, &op);
        bool was_ok = sim::acts.failed.empty();
        note("%s: write index %d = %d", s->name.c_str(), r->l->s_index, res);
        if (connecting) {
            if (refused || !r->l->s_open) {
                MFAIL(IDS("C14"), was_ok && !refused, "a connection that was established was given up");
                MFAIL(IDS("C14"), !res, "completing a refused connection returned 0");
                MFAIL(IDS("C14"), s->completes != c0, "a failed connection was reported as complete");
                leave(r);
            } else {
                MFAIL(IDS("C14", "C30"), was_ok && res, "completing a connection returned %d", res);
                if (!res) r->complete = true;
                MFAIL(IDS("C14"), s->use_complete_cb && !res && s->completes != c0 + 1, "completing a connection called the callback %llu times", (ull) (s->completes - c0));
                if (used_index.count(r->l->s_index)) ++n_reuse;
                used_index.insert(r->l->s_index);
            }
        } else {
            if (!before) MFAIL(IDS("C30", "C07"), res != ENODATA, "writing with nothing to write returned %d", res);
            if (!r->l->s_open) {
                MFAIL(IDS("C14", "C32"), was_ok && !dead, "writing closed a connection");
                leave(r);
            } else MFAIL(IDS("C32"), was_ok && before && !dead && res && res != EAGAIN, "writing to a publisher returned %d", res);
        }
        verify("writing to a publisher");
    }
    void timeouts()
    {
        bool held = false;
        for (RConn* r : ups()) {
            if (r->unacked.empty() || oldest(r) + 50000 > sim::now) continue;
            while (!r->unacked.empty()) {
                if (r->pending + 17 > RMC_MAX_PACKET - 1) { held = true; break; }
                packet_id_t a = r->unacked.begin()->first, b = a;
                r->unacked.erase(r->unacked.begin());
                while (!r->unacked.empty() && r->unacked.begin()->first == b + 1) { ++b; r->unacked.erase(r->unacked.begin()); }
                put(r, wire::ack_cmd(a, b));
            }
        }
        int res = s->do_timeouts();
        MFAIL(IDS("C11", "C08"), !!res != held, "serving timers returned %d", res);
        if (held) label("acknowledgement held back");
        verify("serving timers");
        int64_t d = s->deadline();
        MFAIL(IDS("C11"), d >= 0 && d <= sim::now, "timers were served at %lld and the deadline is still %lld", (long long) sim::now, (long long) d);
    }
    void message()
    {
        RPub* p = pick_pub();
        RConn* r = find(p->ip, p->port);
        if (src.chance(70)) { auto v = ups(); if (!v.empty()) { r = pick(v); p = r->pub; } }
        size_t len = src.chance(15) ? src.one_of<size_t>({65395, 65396, 65397, 65535, 40000, 0}) : src.chance(2) ? 0 : src.size_biased(1, 300);
        // Into the last room there is, or up to around the end of the ring.
        if (r && r->complete && r->pending && src.chance(40)) {
            int64_t room = 65395 - (int64_t) r->pending, at = (int64_t) (r->since_empty % RMC_MAX_PACKET);
            int64_t l = src.chance(40) ? room - (int64_t) src.draw(3) + 1 : src.chance(70) ? RMC_MAX_PACKET - at - 3 + src.range(-25, 25) : src.range(20000, 65395);
            if (l > room + 1) l = src.chance(80) ? room : l;
            if (l > 0) len = (size_t) std::min<int64_t>(l, 65535);
        }
        auto d = bytes(len, seedc++);
        std::string m(d.begin(), d.end());
        bool by_node = src.chance(40);
        uint32_t to = 0;
        // Which connection a node id means when several have it is not specified.
        if (by_node) {
            RConn* of = 0;
            int n = 0;
            uint32_t node = r ? r->node : p->node;
            for (RConn* x : opens()) if (x->node == node) { ++n; of = x; }
            if (n > 1) by_node = false; else { r = of; to = node; }
        }
        int want = !len ? EINVAL : !r || !r->complete ? ENOTCONN : r->pending + 3 + len + 1 > RMC_MAX_PACKET - 1 ? ENOMEM : 0;
        int res;
        if (r) r->l->msgs_wire.push_back(m);
        if (!want) { put(r, wire::msg_cmd(m)); if (r->since_empty > RMC_MAX_PACKET) label("wrapped control messages"); }
        {
            Enter e(s);
            uint8_t* copy = (uint8_t*) sim::raw_malloc(len);
            memcpy(copy, m.data(), len);
            res = by_node ? rmc_sub_write_control_message_by_node_id(s->ctx, to, copy, (payload_len_t) len)
                          : rmc_sub_write_control_message_by_address(s->ctx, p->ip, p->port, copy, (payload_len_t) len);
            memset(copy, 0xDD, len);
            sim::raw_free(copy);
        }
        note("%s: control message of %zu bytes = %d, %d expected", s->name.c_str(), len, res, want);
        if (r && want) r->l->msgs_wire.pop_back();
        MFAIL(IDS("C16", "C30"), res != want, "a control message of %zu bytes %s returned %d, not %d", len, !r ? "to nobody" : r->complete ? "" : "to a connection that is not up", res, want);
        if (want == ENOMEM) label("control message without room");
        verify("a control message");
    }
    RPub* pick_pub() { return pubs[src.draw(pubs.size())].get(); }
    void deliver(sub_packet_t* pk)
    {
        int idx = (int) sub_packet_user_data(pk).u32;
        payload_len_t len = rmc_sub_packet_payload_len(pk);
        const char* data = (const char*) rmc_sub_packet_payload(pk);
        packet_id_t pid = pk->pid;
        if (weird) return;
        ++n_deliv;
        note("%s: packet %llu of index %d, %u bytes", s->name.c_str(), (ull) pid, idx, len);
        MFAIL(IDS("C01"), ready.empty(), "packet %llu was handed out, none is ready", (ull) pid);
        if (ready.empty()) return;
        Rdy e = ready.front();
        ready.pop_front();
        MFAIL(IDS("C01", "C22"), e.pid != pid || e.index != idx, "packet %llu of index %d was handed out, packet %llu of index %d is next", (ull) pid, idx, (ull) e.pid, e.index);
        MFAIL(IDS("C02", "C28"), e.data.size() != len, "packet %llu has %u bytes, not %zu", (ull) pid, len, e.data.size());
        bool same = !len || !memcmp(e.data.data(), data, len);
        MFAIL(IDS("C02", "C28", "C22"), !same, "packet %llu of index %d has another payload than what was sent", (ull) pid, idx);
    }
    void serve()
    {
        sim::pump();
        auto ev = s->ready();
        for (size_t k = ev.size(); k > 1; --k) std::swap(ev[k - 1], ev[src.draw(k)]);
        for (auto& e : ev) {
            if (e.index == MC) { if (e.read) mcread(); continue; }
            RConn* r = of_index((int) e.index);
            if (!r) continue;
            bool wf = src.chance(40);
            if (!r->complete) { if (e.write) swrite(r); continue; }
            if (wf && e.write && r->pending) swrite(r);
            if (e.read && r->open && sim::readable(e.fd)) sread(r);
            if (!wf && e.write && r->open && r->pending) swrite(r);
        }
    }

    // ---- operations of the publishers
    // Now and then a datagram is longer than its header says: the rest is no part of it.
    std::vector<uint8_t> dgram(const wire::Hdr& h, const void* data, size_t n)
    {
        std::vector<uint8_t> d = wire::dgram(h, (const uint8_t*) data, n);
        if (src.draw(16) == 15 && d.size() < 60000) {
            auto x = bytes(1 + src.size_biased(0, 3000), seedc++);
            d.insert(d.end(), x.begin(), x.end());
            note("  (followed by %zu bytes in the same datagram)", x.size());
            label("datagram longer than its packet");
        }
        return d;
    }
    void announce(RPub* p)
    {
        auto d = bytes(src.chance(5) ? src.one_of<size_t>({65312, 65000}) : src.size_biased(0, 100), seedc++);
        note("  (%s:%u announces itself, %zu bytes)", ip_str(p->ip).c_str(), p->port, d.size());
        wire::Hdr h = hdr(p, 0, (payload_len_t) d.size());
        if (src.chance(6)) { h.node = src.chance(50) ? p->node ^ 1u << src.draw(32) : pick_pub()->node; note("  (as node %u)", h.node); label("announcement by another node id"); }
        sim::raw_mcast(sim::Addr{p->ip, p->sport}, s->group, s->mport, dgram(h, d.data(), d.size()));
    }
    packet_id_t choose(RPub* p)
    {
        switch (src.weighted({8, 3, 2, 1, 1})) {
        case 0: return p->next++;
        case 1: p->next += 1 + src.draw(3); return p->next++;
        case 2: return p->next > 1 ? p->next - 1 - src.draw(std::min<uint64_t>(p->next - 1, 6)) : p->next++;
        case 3: return p->next > 1 ? 1 + src.draw(p->next - 1) : p->next++;
        default: return p->next + src.draw(4);
        }
    }
    void data(RPub* p)
    {
        packet_id_t pid = choose(p);
        p->any_data = true;
        // A sequence is kept until the publisher restarts.
        std::string c = content(p, p->gen, pid);
        note("  (%s:%u multicasts packet %llu, %zu bytes)", ip_str(p->ip).c_str(), p->port, (ull) pid, c.size());
        sim::raw_mcast(sim::Addr{p->ip, p->sport}, s->group, s->mport, dgram(hdr(p, pid, (payload_len_t) c.size()), c.data(), c.size()));
    }
    void deep_gap(RPub* p)      // hundreds of packets wait for one
    {
        label("deep gap");
        packet_id_t gap = p->next++;
        int n = (int) src.one_of<int>({130, 201, 257, 300, 600, 1100});
        int every = (int) src.one_of<int>({1, 1, 2, 3});    // of these packets, only every second or third is not lost
        if (every > 1) label("many gaps");
        for (int k = 0; k < n; ++k) {
            packet_id_t pid = p->next;
            p->next += every;
            std::string c = content(p, p->gen, pid);
            sim::raw_mcast(sim::Addr{p->ip, p->sport}, s->group, s->mport, dgram(hdr(p, pid, (payload_len_t) c.size()), c.data(), c.size()));
            if (k % 100 == 99) mcread();
        }
        mcread();
        note("  (%s:%u multicasts %d packets after %llu, %d apart)", ip_str(p->ip).c_str(), p->port, n, (ull) gap, every);
        if (src.chance(40)) { sim::now = std::max(sim::now, s->deadline()); note("(%lld)", (long long) sim::now); timeouts(); }
        if (src.chance(50)) again(p, gap);
        packet_id_t to = src.chance(70) ? p->next - 1 : gap;
        auto t = talking();
        for (RConn* r : t) if (r->pub == p && r->next && r->next <= gap && to - r->next < 5000) {
            for (packet_id_t pid = r->next; pid <= to; ++pid) {
                if (r->held.count(pid)) continue;
                std::string c = content(p, r->gen, pid);
                r->out += wire::packet_cmd(hdr(p, pid, (payload_len_t) c.size()), (const uint8_t*) c.data(), c.size());
            }
            flush(r, !cut);
            sread(r);
            break;
        }
        if (src.chance(50)) again(p, gap);
    }
    void again(RPub* p, packet_id_t gap)    // packets of long ago, and some that may still wait, once more
    {
        int n = (int) src.range(1, 8);
        for (int k = 0; k < n; ++k) {
            packet_id_t pid = src.chance(30) ? 1 + src.draw(gap) : src.chance(30) ? std::min(gap + 1 + src.draw(8), p->next - 1) : gap + 1 + src.draw(p->next - gap - 1);
            std::string c = content(p, p->gen, pid);
            note("  (%s:%u multicasts packet %llu again)", ip_str(p->ip).c_str(), p->port, (ull) pid);
            sim::raw_mcast(sim::Addr{p->ip, p->sport}, s->group, s->mport, dgram(hdr(p, pid, (payload_len_t) c.size()), c.data(), c.size()));
        }
        mcread();
    }
    void resend(RConn* r)
    {
        packet_id_t pid = r->held.empty() || src.chance(40) ? choose(r->pub) : 0;
        if (!pid) pid = r->next + src.draw(r->held.begin()->first - r->next + 1);   // fill a gap
        std::string c = content(r->pub, r->gen, pid);
        note("  (%s:%u resends packet %llu, %zu bytes)", ip_str(r->pub->ip).c_str(), r->pub->port, (ull) pid, c.size());
        r->out += wire::packet_cmd(hdr(r->pub, pid, (payload_len_t) c.size()), (const uint8_t*) c.data(), c.size());
    }
    void junk_dgram()
    {
        ++n_junk;
        std::vector<uint8_t> d;
        RPub* p = pick_pub();
        switch (src.draw(7)) {
        case 0: d = bytes(src.size_biased(0, 19), src.draw(100000)); break;
        case 1: { wire::Hdr h = hdr(p, src.draw(10), (payload_len_t) src.range(1, 65535)); d = wire::dgram(h, 0, 0); auto x = bytes(src.draw(h.len), 7); d.insert(d.end(), x.begin(), x.end()); break; }
        case 2: { wire::Hdr h = hdr(p, 1 + src.draw(10), 5); h.port = (uint16_t) (30000 + src.draw(5)); auto x = bytes(5, 3); d = wire::dgram(h, x.data(), 5); break; }
        case 3: { wire::Hdr h = hdr(p, 1 + src.draw(10), 5); h.ip = 0x0A00FF01u; auto x = bytes(5, 3); d = wire::dgram(h, x.data(), 5); break; }
        case 4: d = bytes(65507, src.draw(1000)); d[12] = d[13] = 0xff; break;
        case 5: d.clear(); break;
        default: { d = bytes(20 + src.size_biased(0, 100), src.draw(100000)); d[12] = (uint8_t) src.draw(256); d[13] = (uint8_t) (src.chance(50) ? 0 : src.draw(256)); d[0] |= 1; break; }
        }
        if (d.size() >= 20 && d.size() > 65400) { d[12] = 0xff; d[13] = 0xff; }
        note("  (a datagram of %zu bytes of junk)", d.size());
        sim::raw_mcast(sim::Addr{0x0A000300u + (uint32_t) src.draw(4), 999}, s->group, s->mport, d);
    }
    void junk_tcp(RConn* r)
    {
        std::string x;
        switch (src.draw(6)) {
        case 0: { auto d = bytes(1 + src.size_biased(0, 100), src.draw(1000000)); x.assign(d.begin(), d.end()); break; }
        case 1: x = std::string(1, (char) src.one_of<int>({0, 2, 3, 4, 255, 128})); break;
        case 2: { wire::Hdr h = hdr(r->pub, r->pub->next, (payload_len_t) src.one_of<int>({65313, 65535, 65380})); x = wire::packet_cmd(h, 0, 0) + std::string(src.draw(100), 'x'); break; }
        case 3: { auto d = bytes(src.size_biased(0, 60), src.draw(1000)); x = wire::packet_cmd(wire::Hdr{src.one_of<uint64_t>({1, ~0ull - 1, 1ull << 63, r->pub->next}), 5, (uint16_t) d.size(), 1, 1}, d.data(), d.size()); break; }
        case 4: { wire::Hdr h = hdr(r->pub, r->pub->next, 50); x = wire::packet_cmd(h, 0, 0) + std::string(src.draw(50), 'y'); break; }       // unfinished
        default: { auto d = bytes(4, 3); x = wire::packet_cmd(hdr(r->pub, src.chance(30) ? 0 : r->pub->next, 4), d.data(), 4); break; }
        }
        note("  (%s:%u writes %zu bytes of junk, first %u)", ip_str(r->pub->ip).c_str(), r->pub->port, x.size(), (uint8_t) x[0]);
        r->out += x;
        label("junk on a control connection");
    }
    void flush(RConn* r, bool all = false)
    {
        if (r->out.empty() || r->peer_closed) return;
        size_t n = all || !cut ? r->out.size() : src.chance(30) ? 1 : src.chance(50) ? r->out.size() : 1 + src.draw(r->out.size());
        size_t w = sim::raw_write(r->c, 1, r->out.data(), n);
        r->out.erase(0, w);
        note("  (%s:%u writes %zu bytes)", ip_str(r->pub->ip).c_str(), r->pub->port, w);
        sim::pump();
    }
    void pread(RConn* r)
    {
        std::string d = sim::raw_read(r->c, 1);
        r->rx.feed(d.data(), d.size());
        wire::Cmd m;
        while (r->rx.next(m)) {}
        MFAIL(IDS("C28"), r->rx.bad, "a publisher read something that is no command");
    }
    void paccept(RPub* p)
    {
        sim::Conn* c;
        while ((c = sim::raw_accept(p->lfd))) {
            auto it = bc.find(c);
            if (it == bc.end()) continue;
            it->second->accepted = true;
            it->second->gen = p->gen;
            note("  (%s:%u accepts)", ip_str(p->ip).c_str(), p->port);
        }
    }
    void pclose(RConn* r, bool rst)
    {
        note("  (%s:%u %s)", ip_str(r->pub->ip).c_str(), r->pub->port, rst ? "resets a connection" : "closes a connection");
        sim::raw_close(r->c, 1, rst);
        r->peer_closed = true;
        sim::pump();
    }

    void op()
    {
        std::vector<int> w(o.w, o.w + NOPS);
        if (!faulty) w[FAULT] = 0;
        auto t = talking();
        switch (src.weighted(w)) {
        case ANNOUNCE: announce(pick_pub()); break;
        case DATA: {
            RPub* p = pick_pub();
            if (!big && src.draw(pbt::biased("C01") || pbt::biased("C02") || pbt::biased("C08") ? 100 : 300) == 99) { if (!t.empty()) p = pick(t)->pub; if (!p->any_data) data(p), mcread(); deep_gap(p); break; }
            int n = src.chance(30) ? (int) src.range(2, 6) : 1; for (int k = 0; k < n; ++k) data(p);
            break;
        }
        case JUNKD: junk_dgram(); break;
        case SERVE: serve(); break;
        case MCREAD: mcread(); break;
        case PACCEPT: paccept(pick_pub()); break;
        case RESEND: if (!t.empty()) { RConn* r = pick(t); int n = (int) src.range(1, 3); for (int k = 0; k < n; ++k) resend(r); if (src.chance(70)) { flush(r, !cut); if (src.chance(60)) sread(r); } } break;
        case JUNKT: if (!t.empty()) { RConn* r = pick(t); junk_tcp(r); if (src.chance(60)) { flush(r); if (src.chance(60)) sread(r); } } break;
        case FLUSH: if (!t.empty()) flush(pick(t)); break;
        case P_CLOSE: if (!t.empty()) pclose(pick(t), src.chance(30)); break;
        case RESTART: {
            RPub* p = pick_pub();
            paccept(p);
            for (auto& r : conns) if (r->pub == p && r->accepted && !r->peer_closed) pclose(r.get(), src.chance(20));
            // A successor is only heard once the subscriber noticed that the predecessor is gone.
            for (auto& r : conns) if (r->pub == p && r->open && r->complete) { for (int k = 0; k < 50 && r->open; ++k) { sim::pump(); if (sim::readable(r->c->fd[0])) sread(r.get()); else sim::now += 1000; } }
            for (auto& r : conns) if (r->pub == p && r->open) return;
            ++p->gen;
            p->next = 1 + src.draw(3);
            note("  (%s:%u restarts)", ip_str(p->ip).c_str(), p->port);
            label("publisher restart");
            break;
        }
        case P_READ: if (!t.empty()) pread(pick(t)); break;
        case STALL: if (!t.empty()) { RConn* r = pick(t); r->c->d[0].cap = src.one_of<size_t>({1 << 20, 1, 100, 5000, 20000, 60000}); label("full socket"); } break;
        case TIME: {
            int64_t d = s->deadline();
            switch (src.weighted({3, 2, 2, 2, 1})) {
            case 0: if (d > sim::now) { sim::now = d; break; }  // fallthrough
            case 1: sim::now += src.range(1, 50000); break;
            case 2: if (d > sim::now + 1) { sim::now = d - 1; break; }  // fallthrough
            case 3: sim::now += src.range(1, 3000); break;
            default: if (src.chance(8)) { sim::now += src.one_of<int64_t>({3600000000ll, 2147483648ll, 4294967296ll, 86400000000ll}) + src.range(-60000, 60000); label("hours pass"); break; } sim::now += src.range(50000, 400000);
            }
            note("(%lld)", (long long) sim::now);
            sim::pump();
            break;
        }
        case TIMEOUT: timeouts(); break;
        case MESSAGE: message(); break;
        case DRAIN: { s->drain(src.chance(50) ? (size_t) -1 : src.draw(4)); verify("dispatching"); break; }
        case S_CLOSE: { auto v = opens(); if (!v.empty()) { RConn* r = pick(v); int res = s->close_connection((rmc_index_t) r->l->s_index); MFAIL(IDS("C30"), res, "closing a connection returned %d", res); leave(r); verify("closing a connection"); } break; }
        case SREAD: { auto v = opens(); if (!v.empty()) sread(pick(v)); break; }
        case SWRITE: { auto v = opens(); if (!v.empty()) swrite(pick(v)); break; }
        case FAULT: {
            static const struct { const char* call; std::initializer_list<int> e; } f[] = {
                {"recvfrom", {EAGAIN, EINTR, ENOBUFS, ENOMEM, ECONNREFUSED}}, {"writev", {EAGAIN, EINTR, ENOBUFS}}, {"readv", {EAGAIN, EINTR, EAGAIN, EINTR, ECONNRESET, ETIMEDOUT, EHOSTUNREACH}}, {"connect", {ENETUNREACH, EADDRNOTAVAIL, EINVAL, EACCES, ECONNREFUSED, EHOSTUNREACH}}, {"socket", {EMFILE, ENOBUFS, ENOMEM}}, {"setsockopt", {ENOBUFS, EINVAL, ENOPROTOOPT}}, {"getsockopt", {ENOBUFS, EINVAL, EBADF}}};
            auto& x = f[src.draw(7)];
            auto& q = sim::faults[x.call];
            int n = (int) src.draw(3);
            for (int k = 0; k < n; ++k) q.push_back(0);
            q.push_back(*(x.e.begin() + src.draw(x.e.size())));
            note("(%s will fail with %d after %d calls)", x.call, q.back(), n);
            label("injected failures");
            break;
        }
        case BADARG: {
            uint8_t op_ = 0;
            int idx = (int) src.one_of<int>({(int) s->max_pubs, (int) s->max_pubs + 1, 0x7FFF, 0x7FFC, 0xFFFF, 0x7FFD});
            int r1 = s->do_read((rmc_index_t) idx, &op_), r2, r3;
            { Enter e(s); r2 = rmc_sub_write(s->ctx, (rmc_index_t) idx, &op_); }
            r3 = s->close_connection((rmc_index_t) idx);
            MFAIL(IDS("C30"), !r1 || !r2 || !r3, "calls for connection %d, which does not exist, returned %d, %d, %d", idx, r1, r2, r3);
            verify("calls for a connection that does not exist");
            break;
        }
        }
    }

    void run()
    {
        rig::draw_epoch();
        sim::tick = 0;
        sim::cfg.tcp_delay = 0;
        cut = src.chance(o.cut);
        if (cut && src.chance(50)) sim::cfg.read_chunk = (int) src.range(1, 2);
        if (cut && src.chance(50)) sim::cfg.write_chunk = (int) src.range(1, 2);
        if (src.chance(o.small_buf)) sim::cfg.sndcap = src.one_of<size_t>({100, 3000, 70000});
        sim::cfg.backlog = 128;
        faulty = src.chance(o.faults);
        big = src.chance(o.big) && sim::cfg.write_chunk != 2 && sim::cfg.read_chunk != 2;
        s = add_sub(0x0A000101u, 500);
        s->style = (Style) src.draw(3);
        s->faulty = faulty;
        if (src.chance(15)) { s->cb_alloc = src.chance(25); s->cb_free = !s->cb_alloc && src.chance(40); }
        s->use_announce_cb = !src.chance(10);
        s->use_complete_cb = !src.chance(10);
        s->use_ready_cb = !src.chance(10);
        s->keep_pct = src.chance(30) ? 40 : 0;
        decline_pct = src.chance(30) ? 50 : o.decline;
        bool drain_in_cb = src.chance(15);
        s->on_announce = [this](uint32_t ip, uint16_t port, uint32_t node, const std::string& d) { return announced(ip, port, node, d); };
        s->on_complete = [this](uint32_t ip, uint16_t port, uint32_t node) {
            RConn* r = find(ip, port);
            if (r) MFAIL(IDS("C14"), r->node != node, "the connection to %s:%u, announced by node %u, was reported complete for node %u", ip_str(ip).c_str(), port, r->node, node);
        };
        s->on_deliver = [this](sub_packet_t* p) { deliver(p); };
        s->on_ready = [this, drain_in_cb]() { if (drain_in_cb && src.chance(60)) s->drain(src.chance(50) ? (size_t) -1 : 1); };
        const uint64_t rare = pbt::biased("C29") || pbt::biased("C14") || pbt::biased("C22") ? 1000 : 5000;
        bool huge = !cut && src.draw(rare) == rare - 1;
        bool crowd = src.draw(25) == 24 || huge;
        if (huge) { big = faulty = s->faulty = false; decline_pct = 0; o.refuse = 0; label("more than 250 publishers"); }
        if (s->create(huge ? (uint32_t) (src.chance(30) ? src.range(255, 258) : src.range(262, 300)) : crowd ? (uint32_t) src.range(4, 30) : (uint32_t) src.range(o.max_lo, o.max_hi)) || s->activate()) harness_bug("subscriber");
        int np = (int) (huge ? src.range(260, 300) : crowd ? src.range(8, 24) : src.range(o.np_lo, o.np_hi));
        if (crowd) label("many publishers");
        bool same_host = src.chance(30);
        uint32_t ip0 = src.chance(70) ? 0x0A000001u : any_host() & 0xBFFFFFFFu;
        int ip_shift = crowd ? 0 : (int) src.one_of<int>({0, 0, 8, 16, 24}), node_shift = (int) src.one_of<int>({0, 0, 8, 16, 26}), port_style = (int) (huge ? src.draw(2) * 2 : crowd ? src.draw(3) : src.draw(5));
        int one_bit = src.chance(25) ? (int) src.range(1, 32) : 0;      // addresses that differ in this bit and the next ones
        for (int k = 0; k < np; ++k) {
            RPub* p = new RPub;
            pubs.emplace_back(p);
            p->k = k;
            // Addresses and ids that differ in one byte, or one bit.
            p->ip = same_host ? ip0 : ip0 + ((uint32_t) k << ip_shift);
            if (!same_host && one_bit && k) {
                uint32_t x = ip0 ^ 1u << (k + one_bit) % 32;
                if (x >> 24 && x >> 24 != 127 && x >> 28 < 14) p->ip = x;
            }
            p->port = (uint16_t) (port_style == 0 ? 5000 + k : port_style == 1 ? 5000 + 256 * k : port_style == 2 ? 65535 - k : port_style == 3 ? 5000 ^ (k ? 1 << (k + one_bit) % 16 : 0) : same_host ? 5000 + k : 5000);
            for (auto& q : pubs) if (q.get() != p && q->ip == p->ip && q->port == p->port) p->port = (uint16_t) (7000 + k);
            p->sport = (uint16_t) (6000 + k);
            p->node = src.chance(85) ? 100 + ((uint32_t) k << node_shift) : src.chance(60) ? 100 : s->node_id;   // or the subscriber's own
            p->any = src.chance(50);
            p->lfd = sim::raw_listen(p->ip, p->port, 90 + k);
            p->next = src.chance(80) ? 1 : src.chance(70) ? 1 + src.draw(50) : src.one_of<uint64_t>({0xFFFFFFFEull, 0x7FFFFFFFFFFFFFF0ull, 65530, 0xFFFFFFFFFFFF0000ull, 32760});
            if (src.chance(huge ? 100 : 70)) { announce(p); mcread(); serve(); paccept(p); }
        }
        if (huge && src.chance(60)) {
            // The connections at the top end.
            auto v = opens();
            for (int n = (int) src.range(1, src.chance(70) ? 4 : 40); n && v.size(); --n, v.pop_back()) {
                RConn* r = v.back();
                int res = s->close_connection((rmc_index_t) r->l->s_index);
                MFAIL(IDS("C30"), res, "closing a connection returned %d", res);
                leave(r);
                verify("closing a connection");
            }
            if (src.chance(60)) for (auto& p : pubs) announce(p.get());
            mcread();
        }
        int nops = (int) src.range(4, huge ? 30 : 100);
        for (int k = 0; k < nops; ++k) op();
        if (src.chance(70)) {
            sim::faults.clear();
            faulty = false;
            sim::cfg.sndcap = 1 << 20;
            sim::cfg.write_chunk = sim::cfg.read_chunk = 0;
            for (auto& r : conns) r->c->d[0].cap = r->c->d[1].cap = 1 << 20;
            for (int k = 0; k < 300; ++k) {
                bool busy = false;
                for (auto& p : pubs) paccept(p.get());
                for (auto& r : conns) if (r->accepted && !r->peer_closed) { if (!r->out.empty()) busy = true; flush(r.get(), true); }
                serve();
                s->drain();
                for (auto& r : conns) if (r->accepted && !r->peer_closed) pread(r.get());
                for (RConn* r : opens()) if (!r->complete || r->pending || sim::readable(r->c->fd[0]) || !r->unacked.empty()) busy = true;
                if (s->deadline() >= 0) { sim::now = std::max(sim::now, s->deadline()); timeouts(); }
                if (!busy) break;
                if (sim::next_event() > sim::now) sim::now = sim::next_event();
                sim::pump();
            }
            for (RConn* r : ups()) {
                MFAIL(IDS("C08"), !r->unacked.empty(), "packet %llu was never acknowledged", (ull) (r->unacked.empty() ? 0 : r->unacked.begin()->first));
                MFAIL(IDS("C08", "C16"), r->pending, "%zu bytes were never written", r->pending);
            }
            MFAIL(IDS("C01"), !ready.empty(), "%zu packets were never handed out", ready.size());
            label("settled");
        }
        if (n_dup) label("duplicates");
        if (n_tcp) label("packets over the control connection");
        if (n_ack) label("acknowledgements");
        if (n_bad) label("malformed commands");
        if (n_junk) label("junk datagrams");
        if (n_reuse) label("slot used again");
        if (n_full) label("no free slot");
        if (n_declined) label("announcement declined");
        count("packets by multicast", n_mc); count("packets over control connections", n_tcp); count("delivered", n_deliv); count("acknowledgements", n_ack); count("messages", n_msg); count("connections", n_connected);
        feature(n_mc); feature(n_tcp * 13 + n_deliv); feature(n_ack); feature(n_left * 7 + n_msg); feature((uint64_t) sim::now);
        std::string pr = pbt::prop ? pbt::prop : "";
        bool nt = n_deliv && (n_mc + n_tcp >= 3);
        if (pr == "C08" || pr == "C11") nt = n_ack >= 1 && n_mc >= 2;
        if (pr == "C14") nt = n_announced >= 2 && n_connected;
        if (pr == "C16") nt = n_msg >= 1;
        if (pr == "C17") nt = n_junk >= 1 && n_deliv;
        if (pr == "C19") nt = n_bad >= 1;
        if (pr == "C22") nt = n_deliv >= 2 && n_connected >= 2;
        if (pr == "C29") nt = n_reuse || n_full;
        if (nt) nontrivial();
        s->on_deliver = [](sub_packet_t*) {};
        teardown();
    }
};

} // namespace

namespace rigrun {
void sub_for_prop()
{
    SCase c;
    Opt& o = c.o;
    std::string p = pbt::bias ? pbt::bias : pbt::prop ? pbt::prop : "";
    if (p == "C05") { o.w[DATA] = 25; o.w[P_CLOSE] = 4; o.w[S_CLOSE] = 3; }
    if (p == "C08") { o.w[TIMEOUT] = 18; o.w[DATA] = 28; o.w[MCREAD] = 14; }
    if (p == "C11") { o.w[TIMEOUT] = 25; o.w[TIME] = 25; o.small_buf = 40; o.w[STALL] = 5; o.w[MESSAGE] = 10; }
    if (p == "C14") { o.w[ANNOUNCE] = 25; o.w[P_CLOSE] = 6; o.w[S_CLOSE] = 3; o.refuse = 25; }
    if (p == "C16") { o.w[MESSAGE] = 25; o.w[STALL] = 5; o.small_buf = 40; }
    if (p == "C17") { o.w[JUNKD] = 20; }
    if (p == "C19") { o.w[JUNKT] = 10; o.w[ANNOUNCE] = 14; }
    if (p == "C20") { o.cut = 100; o.w[RESEND] = 18; o.w[MESSAGE] = 8; }
    if (p == "C22") { o.np_lo = 2; o.w[RESTART] = 4; }
    if (p == "C29") { o.w[ANNOUNCE] = 20; o.w[P_CLOSE] = 8; o.w[S_CLOSE] = 4; o.max_hi = 2; o.np_lo = 2; o.w[MESSAGE] = 8; o.small_buf = 40; o.w[JUNKT] = 2; o.w[RESTART] = 3; }
    if (p == "C35") { o.faults = 35; o.w[FAULT] = 5; }
    if (p == "C06") { o.faults = 40; o.w[FAULT] = 6; o.w[P_CLOSE] = 4; }
    if (p == "C32") { o.faults = 100; o.w[FAULT] = 14; o.w[MESSAGE] = 8; }
    c.run();
}
}
