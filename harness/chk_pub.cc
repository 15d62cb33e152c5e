// A library publisher and scripted subscribers that speak the wire format themselves, against an exact model of
// the publisher: what is queued, in flight to whom, resent, released, announced, suspended, and due when.
#include "rig.h"
#include <stdlib.h>
#include <algorithm>
using namespace pbt;
using namespace rig;

namespace rigrun { void world_for_prop(); }

namespace {

// A deviation from the model also counts against the properties that say "everything else goes on unchanged".
#define MFAIL(ids_, cond_, ...) do { if (cond_) { rig::fail_any(ids_, __VA_ARGS__); rig::fail_any(IDS("C18", "C20", "C21", "C29", "C32"), __VA_ARGS__); if (n_reject) rig::fail_any(IDS("C15"), __VA_ARGS__); } } while (0)

enum { QUEUE, MCWRITE, SERVE, TIME, TIMEOUT, CONNECT, ACCEPT, ACK, MSG, JUNK, FLUSH, CLOSE_S, CLOSE_P, READ_S, STALL, ANN, THROTTLE, ANNQ, PREAD, PWRITE, FAULT, BADARG, STRAY, NOPS };

struct Opt {
    int w[NOPS] = {14, 10, 10, 14, 14, 5, 6, 14, 3, 1, 10, 2, 1, 5, 2, 2, 1, 1, 6, 5, 1, 1, 1};
    int max_lo = 1, max_hi = 5;
    int throttle = 20, announce = 40, cut = 50;
    int small_buf = 20;
    int big = 25;
    int faults = 10;
    int reent = 3;                   // percent of the cases that make calls from callbacks
    int deep = 2;                    // percent of the cases with large numbers of packets in flight
    int skip = 1;                    // of 2000 cases: a long history
};

struct Sub {
    sim::Conn* c;
    Link* l = 0;
    std::string out;                 // not yet written to the connection
    bool closed = false;             // closed by us
    bool accepted = false, open = false;   // model: the publisher holds it
    bool stalled = false;
    wire::Parser in;                 // what the publisher has read
    bool bad = false;                // a malformed command was read
    std::vector<std::string> msgs;   // messages completed in the current read
    std::vector<wire::Cmd> acks;
    std::set<packet_id_t> inflight;
    std::deque<packet_id_t> resends; // put into its connection, not seen on the wire
    size_t pending = 0;              // bytes put into its connection and not written
    wire::Parser rx;                 // what we read
    uint64_t got = 0;
};

struct PCase : World {
    Opt o;
    PubRig* p = 0;
    std::vector<std::unique_ptr<Sub>> subs;
    std::map<sim::Conn*, Sub*> bc;
    std::map<packet_id_t, int64_t> sent_ts;
    std::map<packet_id_t, std::set<Sub*>> refs;     // in flight
    std::set<packet_id_t> done;                     // settled
    uint32_t T = 0, R = 0;
    bool suspended = false;
    int64_t interval = 0, ann_next = 0;
    uint16_t nport = 1000;
    uint64_t seedc = 1;
    std::vector<std::pair<Link*, std::string>> msgs;
    uint64_t n_resent = 0, n_acked = 0, n_left = 0, n_susp = 0, n_ann = 0, n_reject = 0, n_refused = 0, n_bad = 0, n_msg = 0, n_verify = 0;
    bool close_allowed = false, crowd = false;
    int reject_pct = 0;

    std::vector<Sub*> opens() { std::vector<Sub*> v; for (auto& s : subs) if (s->open) v.push_back(s.get()); return v; }
    std::vector<Sub*> peers() { std::vector<Sub*> v; for (auto& s : subs) if (!s->closed) v.push_back(s.get()); return v; }
    template <class V> typename V::value_type pick(V& v) { return v[src.draw(v.size())]; }

    // ---- observation
    void tcp_read(sim::Conn& c, int side, const uint8_t* d, size_t n) override
    {
        World::tcp_read(c, side, d, n);
        auto it = bc.find(&c);
        if (side != 1 || it == bc.end()) return;
        Sub* s = it->second;
        if (s->bad) return;
        s->in.feed(d, n);
        wire::Cmd m;
        for (;;) {
            if (s->in.pending() && (uint8_t) s->in.buf[s->in.at] != wire::ACK && (uint8_t) s->in.buf[s->in.at] != wire::MSG) { s->bad = true; break; }
            if (s->in.pending() >= 3 && (uint8_t) s->in.buf[s->in.at] == wire::MSG && wire::get((const uint8_t*) s->in.buf.data() + s->in.at + 1, 2) + 3 > RMC_MAX_PACKET - 1) { s->bad = true; break; }
            if (!s->in.next(m)) break;
            if (m.type == wire::ACK) s->acks.push_back(m); else s->msgs.push_back(m.data);
        }
        if (s->bad) { ++n_bad; if (s->l) s->l->hostile = true; }
    }
    void tcp_written(sim::Conn& c, int side, const uint8_t* d, size_t n) override
    {
        auto it = bc.find(&c);
        if (side == 1 && it != bc.end()) {
            Sub* s = it->second;
            MFAIL(IDS("C09", "C10"), n > s->pending, "%zu bytes were written to a subscriber, %zu were put into its connection", n, s->pending);
            s->pending -= std::min(n, s->pending);
        }
        World::tcp_written(c, side, d, n);
    }
    void mcast_sent(sim::Fd& f, const uint8_t* d, size_t n) override
    {
        World::mcast_sent(f, d, n);
        if (n < wire::HDR) return;
        wire::Hdr h = wire::get_hdr(d);
        if (!h.pid) { ++n_ann; return; }
        sent_ts[h.pid] = sim::now;
        auto v = opens();
        if (v.empty()) done.insert(h.pid);
        for (Sub* s : v) { s->inflight.insert(h.pid); refs[h.pid].insert(s); }
    }

    // ---- model steps
    void settle(Sub* s, packet_id_t id)
    {
        if (!s->inflight.erase(id)) return;
        auto it = refs.find(id);
        it->second.erase(s);
        if (it->second.empty()) { refs.erase(it); done.insert(id); }
    }
    void resume() { if (suspended && refs.size() <= R) suspended = false; }
    void leave(Sub* s)
    {
        s->open = false;
        s->pending = 0;
        while (!s->inflight.empty()) settle(s, *s->inflight.begin());
        resume();
        ++n_left;
    }
    void queued() { if (T && refs.size() >= T) { if (!suspended) ++n_susp; suspended = true; } }
    int64_t next_deadline()
    {
        int64_t d = -1;
        if (ann_next) d = ann_next;
        // A subscriber counts while its connection has room for its oldest packet.
        for (auto& s : subs) {
            if (!s->open || s->inflight.empty() || s->pending + 21 + p->by_pid[*s->inflight.begin()]->len > RMC_MAX_PACKET - 1) continue;
            int64_t r = sent_ts[*s->inflight.begin()] + 100000;
            if (d < 0 || r < d) d = r;
        }
        return d;
    }

    void verify(const char* after)
    {
        if (!p->ctx) return;
        if (subs.size() > 100 && ++n_verify % 25) return;   // with this many, looking at everything after every step takes too long
        uint32_t nq = 0, nb = 0, na = 0;
        rmc_pub_context_get_pending(p->ctx, &nq, &nb, &na);
        size_t ena = 0, enb = 0;
        for (auto& s : subs) if (s->open) { ena += s->inflight.size(); enb += s->pending; }
        MFAIL(IDS("C09", "C13", "C12"), nq != p->q.size() + p->q0.size(), "after %s %u packets are queued, not %zu", after, nq, p->q.size() + p->q0.size());
        MFAIL(IDS("C09", "C10", "C03"), na != ena, "after %s %u acknowledgements are missing, not %zu", after, na, ena);
        MFAIL(IDS("C09", "C10", "C03"), nb != enb, "after %s %u bytes wait to be written, not %zu", after, nb, enb);
        MFAIL(IDS("C12"), (rmc_pub_traffic_suspended(p->ctx) == EBUSY) != suspended, "after %s traffic is %ssuspended with %zu packets unacknowledged (limits %u, %u)", after, suspended ? "not " : "", refs.size(), T, R);
        int64_t d = p->deadline(), e = next_deadline();
        MFAIL(IDS("C11", "C13"), d != e, "after %s the deadline is %lld, not %lld", after, (long long) d, (long long) e);
        for (auto& k : p->pks) {
            if (p->default_free) continue;
            bool want = k->sent_at >= 0 && (k->announce || done.count(k->pid));
            MFAIL(IDS("C04", "C09"), k->freed != (int) want, "after %s packet %llu %s", after, (ull) k->pid, want ? "is settled and was not released" : "was released although it is not settled");
        }
        for (auto& s : subs) {
            if (!s->l) continue;
            MFAIL(IDS("C15"), s->l->p_open != s->open, "after %s the connection of a subscriber is %s", after, s->open ? "closed" : "still open");
            if (s->open) pop_resends(s.get());
            if (s->open) FAIL_ANY_IF(IDS("C10", "C03", "C18", "C20", "C21", "C29", "C32"), s->pending == 0 && !s->resends.empty(), "after %s packet %llu was not resent", after, (ull) s->resends.front());
        }
        uint32_t c = rmc_pub_get_subscriber_count(p->ctx);
        MFAIL(IDS("C15"), c != opens().size(), "after %s %u subscribers are reported, not %zu", after, c, opens().size());
    }

    // ---- operations on the publisher
    void queue(bool ann)
    {
        int n = ann ? 1 : deep && src.chance(50) ? (int) (src.draw(10) == 9 ? src.range(500, 1200) : src.range(20, 120)) : (int) src.range(1, src.chance(20) ? 12 : 4);
        for (int k = 0; k < n; ++k) {
            payload_len_t len = (payload_len_t) (big ? (src.chance(40) ? src.one_of<int>({65312, 65311, 40000, 32768, 21000, 255, 256, 0}) : src.size_biased(0, 65312)) : src.size_biased(0, 200));
            bool was = suspended;
            int r = p->queue(len, seedc++, ann);
            MFAIL(IDS("C12", "C30"), r != (was ? EBUSY : 0), "queueing returned %d with traffic %ssuspended", r, was ? "" : "not ");
            if (!r) queued();
            if (was) { label("queueing refused"); ++n_refused; }
        }
        verify("queueing");
    }
    void mcwrite()
    {
        int r = p->do_write(MC, 0);
        bool f = sim::has_faults();
        bool left = !p->q.empty() || !p->q0.empty();
        if (!faulty) MFAIL(IDS("C10", "C13"), r || left, "writing queued packets returned %d and left %zu", r, p->q.size() + p->q0.size());
        else if (!f) FAIL_ANY_IF(IDS("C32"), !r && left, "writing queued packets left %zu without reporting", p->q.size() + p->q0.size());
        verify("writing multicast");
    }
    void timeouts()
    {
        bool due = interval && ann_next && ann_next <= sim::now;
        bool susp0 = suspended;
        uint64_t calls0 = p->ann_calls;
        size_t q0 = p->q0.size();
        if (due && !p->ann_cb && !susp0) p->q0.push_back(PubRig::Ann{0, {}});
        // What will be resent.
        bool held = false;
        struct Rs { Sub* s; packet_id_t id; };
        std::vector<Rs> rs;
        std::vector<std::pair<Sub*, size_t>> pend;
        for (Sub* s : opens()) {
            size_t pe = s->pending;
            for (packet_id_t id : s->inflight) {
                if (sent_ts[id] + 100000 > sim::now) break;
                size_t need = 21 + p->by_pid[id]->len;
                if (pe + need > RMC_MAX_PACKET - 1) { held = true; break; }
                pe += need;
                rs.push_back({s, id});
            }
            pend.push_back({s, pe});
        }
        int64_t d0 = next_deadline();
        for (auto& x : pend) { note("  (link %d: %zu bytes wait, %zu with what fits, %zu in flight)", x.first->l->id, x.first->pending, x.second, x.first->inflight.size()); x.first->pending = x.second; }
        for (auto& x : rs) { x.s->resends.push_back(x.id); }
        // The rig's checks at the end of the call look at the ledger, which learns of resends from the wire.
        int r = p->do_timeouts();
        if (due) {
            ann_next = interval ? sim::now + interval : 0;
            if (p->q0.size() > q0) queued();
        }
        for (auto& x : rs) { settle(x.s, x.id); ++n_resent; }
        if (!rs.empty()) resume();
        MFAIL(IDS("C13"), p->ann_calls - calls0 != (due && p->ann_cb ? 1 : 0), "the announce callback was called %llu times, an announcement was %sdue", (ull) (p->ann_calls - calls0), due ? "" : "not ");
        MFAIL(IDS("C11", "C10"), !!r != held, "serving timers returned %d", r);
        verify("serving timers");
        if (held) label("resend held back");
        int64_t d1 = p->deadline();
        MFAIL(IDS("C11"), d1 >= 0 && d1 <= sim::now, "timers were served at %lld and the deadline is still %lld", (long long) sim::now, (long long) d1);
        if (d0 >= 0 && d0 <= sim::now) label("timers served when due"); else label("timers served early");
    }
    void accept()
    {
        int lfd = p->fd_of(LI);
        sim::Fd* f = sim::get(lfd);
        size_t waiting = f ? f->acceptq.size() : 0;
        sim::Conn* c = waiting ? f->acceptq.front() : 0;
        bool full = opens().size() >= p->max_subs;
        if (!c) return;                               // the listening socket may block
        Sub* s = c && bc.count(c) ? bc[c] : 0;
        uint8_t op = 0;
        int r = p->do_read(LI, &op);
        bool was_ok = sim::acts.failed.empty();
        if (c && s && f->acceptq.size() < waiting) {           // it took one
            s->l = link_of(*c);
            MFAIL(IDS("C29"), full, "a connection was accepted beyond the limit of %u", p->max_subs);
            if (s->l->p_open) { s->accepted = s->open = true; }
            if (!s->l->admitted && was_ok) {
                ++n_reject;
                MFAIL(IDS("C15"), s->l->p_open, "a rejected subscriber is still connected");
            }
            FAIL_ANY_IF(IDS("C15"), p->use_connect_cb && was_ok && connect_calls != 1, "the connect callback was called %d times for one connection", connect_calls);
            if (!was_ok && !s->l->p_open) s->open = false;
        }
        connect_calls = 0;
        if (was_ok) {
            MFAIL(IDS("C15", "C29", "C30"), c && !full && r, "accepting a connection returned %d", r);
            MFAIL(IDS("C29", "C30"), full && !r, "accepting a connection beyond the limit returned 0");
        }
        verify("accepting");
    }
    void pread(Sub* s)
    {
        if (!s->open) return;
        bool eof = sim::raw_eof(s->c, 1);
        bool readable = sim::readable(s->c->fd[1]);
        size_t m0 = msgs.size();
        uint8_t op = 0;
        int idx = s->l->p_index;
        int r = p->do_read((rmc_index_t) idx, &op);
        bool was_ok = sim::acts.failed.empty();
        after_read(s, r, eof, readable, was_ok, m0);
        verify("reading from a subscriber");
    }
    void after_read(Sub* s, int r, bool eof, bool readable, bool was_ok, size_t m0)
    {
        bool rclosed = !s->open;                  // by the message callback
        // Acknowledgements
        for (auto& a : s->acks) {
            std::vector<packet_id_t> hit;
            for (packet_id_t id : s->inflight) if (id >= a.a && id <= a.b) hit.push_back(id);
            for (packet_id_t id : hit) { settle(s, id); ++n_acked; }
            if (!hit.empty()) resume();
        }
        s->acks.clear();
        size_t k = m0;
        for (auto& m : s->msgs) {
            if (rclosed && k >= msgs.size()) break;
            ++n_msg;
            if (!p->want_msgs) continue;      // dropped: nobody asked for them
            MFAIL(IDS("C16", "C28"), k >= msgs.size(), "a control message of %zu bytes was not handed over", m.size());
            if (k >= msgs.size()) break;
            MFAIL(IDS("C16", "C28"), msgs[k].first != s->l || msgs[k].second != m, "a control message of %zu bytes was handed over as another one of %zu bytes", m.size(), msgs[k].second.size());
            ++k;
        }
        MFAIL(IDS("C16", "C28"), k < msgs.size(), "a control message was handed over that was not sent");
        s->msgs.clear();
        if (rclosed) return;
        if (s->bad) {
            FAIL_ANY_IF(IDS("C18", "C20"), !r, "a malformed command was read and no error reported");
            FAIL_ANY_IF(IDS("C18", "C20"), s->l->p_open, "a malformed command did not end its connection");
            leave(s);
        } else if (readable && eof && was_ok) {
            MFAIL(IDS("C15", "C21"), s->l->p_open, "the end of a connection was read and it is still open");
            leave(s);
        } else if ((!was_ok || sim::raw_eof(s->c, 1)) && !s->l->p_open) leave(s);
        else MFAIL(IDS("C18"), was_ok && r && r != EAGAIN && r != EWOULDBLOCK, "reading from a subscriber returned %d", r);
    }
    void pwrite(Sub* s)
    {
        if (!s->open) return;
        size_t before = s->pending;
        uint8_t op = 0;
        int r = p->do_write((rmc_index_t) s->l->p_index, &op);
        if (!before) FAIL_ANY_IF(IDS("C30", "C07"), r != ENODATA, "writing to a subscriber with nothing to write returned %d", r);
        pop_resends(s);
        verify("writing to a subscriber");
    }
    void pop_resends(Sub* s)
    {
        // Which of the expected resends are on the wire by now (the ledger saw them).
        while (!s->resends.empty() && s->l->resent.count(s->resends.front())) s->resends.pop_front();
    }
    // The socket that datagrams are sent from can receive, too. What it receives is of no interest.
    void mcread()
    {
        sim::Fd* f = sim::get(p->fd_of(MC));
        if (!f || f->rx.empty()) return;
        size_t n = f->rx.size();
        uint8_t op = 0;
        int r = p->do_read(MC, &op);
        bool was_ok = sim::acts.failed.empty();
        note("%s: multicast read = %d", p->name.c_str(), r);
        MFAIL(IDS("C30"), was_ok && r, "reading the multicast socket returned %d", r);
        MFAIL(IDS("C07", "C11"), was_ok && f->rx.size() >= n, "reading the multicast socket took nothing from it");
        verify("reading multicast");
    }
    void stray()
    {
        sim::Fd* f = sim::get(p->fd_of(MC));
        if (!f) return;
        sim::Dgram d;
        d.data = bytes(src.size_biased(0, 200), seedc++);
        d.src = sim::Addr{0x0A000301u, 4444};
        d.src_fd = -1;
        d.ord = 0;
        f->rx.push_back(d);
        note("  (a stray datagram of %zu bytes to the publisher)", d.data.size());
        label("stray datagrams");
    }
    void serve()
    {
        sim::pump();
        auto ev = p->ready();
        for (size_t k = ev.size(); k > 1; --k) std::swap(ev[k - 1], ev[src.draw(k)]);
        for (auto& e : ev) {
            if (e.index == MC) { if (e.read) mcread(); if (e.write) mcwrite(); continue; }
            if (e.index == LI) { if (e.read) accept(); continue; }
            Sub* s = 0;
            for (Sub* x : opens()) if (x->l->p_index == (int) e.index) s = x;
            if (!s) continue;
            bool wf = src.chance(40);
            if (wf && e.write && s->pending) pwrite(s);
            if (e.read && s->open && sim::readable(e.fd)) pread(s);
            if (!wf && e.write && s->open && s->pending) pwrite(s);
        }
    }

    // ---- operations of the subscribers
    void flush(Sub* s, bool all = false)
    {
        if (s->out.empty() || s->closed) return;
        size_t n = all || !cut ? s->out.size() : src.chance(30) ? 1 : src.chance(50) ? s->out.size() : 1 + src.draw(s->out.size());
        size_t w = sim::raw_write(s->c, 0, s->out.data(), n);
        s->out.erase(0, w);
        note("  (a subscriber writes %zu bytes)", w);
        sim::pump();
    }
    void ack(Sub* s)
    {
        packet_id_t hi = p->next_send, lo = hi > 20 ? hi - 20 : 0;
        uint64_t a = 0, b = 0;
        switch (src.weighted({5, 4, 3, 2, 1, 1, 1, 1, 1})) {
        case 0: if (s->inflight.empty()) { a = b = p->next_send - 1; break; } a = *s->inflight.begin(); b = a + src.draw(*s->inflight.rbegin() - a + 1); break;
        case 1: if (s->inflight.empty()) return; { auto it = s->inflight.begin(); std::advance(it, src.draw(s->inflight.size())); a = b = *it; } break;
        case 2: if (s->inflight.empty()) return; a = *s->inflight.begin(); b = *s->inflight.rbegin(); break;
        case 3: a = lo + src.draw(24); b = a + src.draw(6); break;
        case 4: a = lo + src.draw(24); b = a ? a - 1 - src.draw(a) : 0; break;          // reversed
        case 5: a = 0; b = ~0ull; break;
        case 6: a = hi + src.draw(5); b = a + src.draw(4); break;                       // not yet sent
        case 7: a = ~0ull - src.draw(3); b = ~0ull; break;
        default: a = 0; b = src.draw(hi + 1); break;
        }
        note("  (a subscriber acknowledges %llu-%llu)", (ull) a, (ull) b);
        s->out += wire::ack_cmd(a, b);
    }
    void msg(Sub* s)
    {
        size_t len = src.chance(15) ? src.one_of<size_t>({65396, 65395, 40000, 1, 0, 255, 256}) : src.size_biased(0, 300);
        auto d = bytes(len, seedc++);
        s->out += wire::msg_cmd(std::string(d.begin(), d.end()));
    }
    void junk(Sub* s)
    {
        std::string x;
        switch (src.draw(6)) {
        case 0: { auto d = bytes(1 + src.size_biased(0, 100), src.draw(1000000)); x.assign(d.begin(), d.end()); break; }
        case 1: x = std::string(1, (char) src.one_of<int>({0, 4, 5, 255, 128, 17})); break;
        case 2: x = std::string(1, (char) wire::PACKET); for (int k = 0; k < 24; ++k) x += (char) src.draw(256); break;
        case 3: x = std::string("\x03\xff\xff", 3) + std::string(src.draw(300), 'x'); break;
        case 4: x = std::string("\x03", 1); x += (char) (65397 & 255); x += (char) (65397 >> 8); x += std::string(src.draw(40), 'y'); break;
        default: x = std::string("\x02", 1) + std::string(src.draw(16), 'z'); break;     // an unfinished command
        }
        note("  (a subscriber sends %zu bytes of junk, first %u)", x.size(), (uint8_t) x[0]);
        s->out += x;
        label("junk");
    }
    void read_s(Sub* s)
    {
        std::string d = sim::raw_read(s->c, 0);
        s->rx.feed(d.data(), d.size());
        wire::Cmd m;
        while (s->rx.next(m)) ++s->got;
        MFAIL(IDS("C28"), s->rx.bad, "a subscriber read something that is no command");
        MFAIL(IDS("C15"), s->l && s->accepted && !s->l->admitted && !d.empty(), "a rejected subscriber was sent %zu bytes", d.size());
    }

    bool big = false, cut = false, faulty = false, deep = false;
    int connect_calls = 0;

    uint32_t hosts = 0x0A000201u;
    std::set<std::pair<uint32_t, uint16_t>> addrs;
    sim::Addr peer_addr()
    {
        uint32_t ip = hosts + (uint32_t) src.draw(3);
        if (src.draw(30) == 29) {
            uint16_t port = src.one_of<uint16_t>({65535, 65534, 32768, 32767, 256, 255, 1});
            if (addrs.insert({ip, port}).second) return sim::Addr{ip, port};
        }
        do ++nport; while (!nport || !addrs.insert({ip, nport}).second);
        return sim::Addr{ip, nport};
    }
    // ---- calls from callbacks
    int reent_pct = 0, n_reent = 0, n_rclose = 0;
    void called_back(const std::string& where, Link*)
    {
        if (T || !src.chance(reent_pct)) return;
        if (pbt::biased("C34")) every_oracle(true);
        ++n_reent;
        if (where == "message" && src.chance(40)) {
            auto v = opens();
            if (v.empty()) return;
            Sub* s = pick(v);
            note("    from the message callback:");
            int r = p->close_connection((rmc_index_t) s->l->p_index);
            MFAIL(IDS("C34", "C15"), r, "closing a connection from the message callback returned %d", r);
            leave(s);
            ++n_rclose;
            label("connection closed by the message callback");
            return;
        }
        note("    from the %s callback:", where.c_str());
        bool ann = where != "release" && src.chance(20);
        int r = p->queue((payload_len_t) src.size_biased(0, 100), seedc++, ann);
        MFAIL(IDS("C34", "C12"), r, "queueing from the %s callback returned %d", where.c_str(), r);
        label(("packet queued by the " + where + " callback").c_str());
    }
    int64_t any_interval() { return src.chance(6) ? src.one_of<int64_t>({4294967295ll, 2147483648ll, 2147483647ll, 3000000000ll, 100000000}) : src.range(1, 200000); }
    void op()
    {
        std::vector<int> w(o.w, o.w + NOPS);
        if (!faulty) w[FAULT] = 0;
        auto pe = peers();
        switch (src.weighted(w)) {
        case QUEUE: queue(false); break;
        case ANNQ: queue(true); break;
        case MCWRITE: mcwrite(); break;
        case SERVE: serve(); break;
        case TIME: {
            int64_t d = p->deadline();
            switch (src.weighted({3, 2, 2, 2, 1})) {
            case 0: if (d > sim::now) { sim::now = d; break; }  // fallthrough
            case 1: if (interval && ann_next - sim::now > 100001 && src.chance(30)) { sim::now = ann_next - 100000 + src.range(-1, 1); label("two deadlines close together"); break; }
                    sim::now += src.range(1, 100000); break;
            case 2: if (d > sim::now + 1) { sim::now = d - 1; break; }  // fallthrough
            case 3: sim::now += src.range(1, 3000); break;
            default: if (src.chance(8)) { sim::now += src.one_of<int64_t>({3600000000ll, 2147483648ll, 4294967296ll, 86400000000ll}) + src.range(-110000, 110000); label("hours pass"); break; } sim::now += src.range(100000, 400000);
            }
            note("(%lld)", (long long) sim::now);
            sim::pump();
            break;
        }
        case TIMEOUT: timeouts(); break;
        case CONNECT: {
            if (subs.size() > 40) break;
            sim::Conn* c = sim::raw_connect(p->ip, p->ctl_port, peer_addr());
            if (!c) break;
            Sub* s = new Sub;
            subs.emplace_back(s);
            s->c = c;
            bc[c] = s;
            break;
        }
        case ACCEPT: accept(); break;
        case ACK: if (!pe.empty()) { Sub* s = pick(pe); int n = (int) src.range(1, 3); for (int k = 0; k < n; ++k) ack(s); if (src.chance(70)) { flush(s, !cut); if (src.chance(60)) pread(s); } } break;
        case MSG: if (!pe.empty()) { Sub* s = pick(pe); msg(s); if (src.chance(60)) flush(s); } break;
        case JUNK: if (!pe.empty()) { Sub* s = pick(pe); junk(s); if (src.chance(60)) { flush(s); if (src.chance(60)) pread(s); } } break;
        case FLUSH: if (!pe.empty()) flush(pick(pe)); break;
        case CLOSE_S: if (!pe.empty()) {
            Sub* s = pick(pe);
            bool rst = src.chance(30);
            note("  (a subscriber %s)", rst ? "resets its connection" : "closes its connection");
            sim::raw_close(s->c, 0, rst);
            s->closed = true;
            sim::pump();
            label("subscriber leaves");
            break;
        } break;
        case CLOSE_P: { auto v = opens(); if (!v.empty()) { Sub* s = pick(v); int r = p->close_connection((rmc_index_t) s->l->p_index); MFAIL(IDS("C15"), r, "closing a connection returned %d", r); leave(s); verify("closing a connection"); } break; }
        case READ_S: if (!pe.empty()) read_s(pick(pe)); break;
        case STALL: if (!pe.empty()) { Sub* s = pick(pe); s->c->d[1].cap = src.one_of<size_t>({1 << 20, 1, 100, 5000}); label("full socket"); } break;
        case ANN: {
            interval = src.chance(20) ? 0 : any_interval();
            int r;
            { Enter e(p); r = rmc_pub_set_announce_interval(p->ctx, (uint32_t) interval); }
            note("announce interval %lld", (long long) interval);
            MFAIL(IDS("C13", "C30"), r, "setting the announce interval returned %d", r);
            if (!interval) ann_next = 0; else if (!ann_next) ann_next = sim::now + interval;
            verify("setting the announce interval");
            break;
        }
        case THROTTLE: {
            uint32_t a = (uint32_t) src.range(0, deep ? 400 : 12), b = (uint32_t) src.range(0, deep ? 400 : 12);
            if (suspended && b <= a) break;              // when a change applies to traffic that is already suspended is not specified
            if (a == b && a) break;                      // nor is which of two equal marks wins
            int r = rmc_pub_throttling(p->ctx, a, b);
            note("throttling %u %u = %d", a, b, r);
            MFAIL(IDS("C12", "C30"), r != (a < b ? EINVAL : 0), "throttling(%u, %u) returned %d", a, b, r);
            if (!r) { T = a; R = b; }
            verify("setting the limits");
            break;
        }
        case PREAD: { auto v = opens(); if (!v.empty()) pread(pick(v)); break; }
        case PWRITE: { auto v = opens(); if (!v.empty()) pwrite(pick(v)); break; }
        case FAULT: {
            static const struct { const char* call; std::initializer_list<int> e; } f[] = {
                {"sendmsg", {EAGAIN, ENOBUFS, EINTR, ENETUNREACH, EPERM, EHOSTUNREACH, ENETDOWN, ENOMEM}}, {"writev", {EAGAIN, EINTR, ENOBUFS}}, {"readv", {EAGAIN, EINTR, EAGAIN, EINTR, ECONNRESET, ETIMEDOUT, EHOSTUNREACH}}, {"accept", {ECONNABORTED, EMFILE, EINTR, EAGAIN, ENFILE, ENOMEM, EPROTO}}, {"setsockopt", {ENOBUFS, EINVAL, ENOPROTOOPT}}};
            auto& x = f[src.draw(5)];
            auto& q = sim::faults[x.call];
            int n = (int) src.draw(3);
            for (int k = 0; k < n; ++k) q.push_back(0);
            q.push_back(*(x.e.begin() + src.draw(x.e.size())));
            note("(%s will fail with %d after %d calls)", x.call, q.back(), n);
            label("injected failures");
            break;
        }
        case STRAY: stray(); if (src.chance(60)) mcread(); break;
        case BADARG: {
            uint8_t op_ = 0;
            int idx = (int) src.one_of<int>({(int) p->max_subs, (int) p->max_subs + 1, 0x7FFF, 0x7FFC, 0xFFFF, 0});
            if (idx == 0) for (Sub* s : opens()) if (s->l->p_index == 0) idx = 0x7FFF;
            int r1 = p->do_read((rmc_index_t) idx, &op_), r2 = p->do_write((rmc_index_t) idx, &op_), r3 = p->close_connection((rmc_index_t) idx);
            MFAIL(IDS("C30"), !r1 || !r2 || !r3, "calls for connection %d, which does not exist, returned %d, %d, %d", idx, r1, r2, r3);
            verify("calls for a connection that does not exist");
            break;
        }
        }
    }

    void run()
    {
        rig::draw_epoch();
        sim::tick = 0;
        sim::cfg.tcp_delay = 0;
        cut = src.chance(o.cut);
        if (cut && src.chance(50)) sim::cfg.read_chunk = (int) src.range(1, 2);
        if (cut && src.chance(50)) sim::cfg.write_chunk = (int) src.range(1, 2);
        if (src.chance(o.small_buf)) sim::cfg.sndcap = src.one_of<size_t>({100, 3000, 70000});
        sim::cfg.backlog = 128;
        faulty = src.chance(o.faults);
        big = src.chance(o.big) && sim::cfg.write_chunk != 2 && sim::cfg.read_chunk != 2;
        p = add_pub(src.chance(70) ? 0x0A000001u : any_host(), src.chance(50) ? 0 : src.chance(70) ? 5000 : (uint16_t) src.one_of<int>({1, 255, 256, 32767, 32768, 65535}), src.chance(90) ? (uint32_t) src.range(1, 5000) : 0xFFFFFFFFu);
        if (src.chance(30)) p->listen_ip = p->ip;
        if (src.chance(15)) p->mcast_if = p->ip;
        p->style = (Style) src.draw(3);
        p->faulty = faulty;
        p->default_free = src.chance(10);
        p->use_connect_cb = !src.chance(15);
        p->use_disconnect_cb = !src.chance(15);
        if (src.draw(12) == 11) { p->want_msgs = false; label("no control message callback"); }
        reject_pct = src.chance(pbt::biased("C15") ? 60 : 20) ? 40 : 0;
        p->on_connect = [this](Link&) { ++connect_calls; return !src.chance(reject_pct); };
        p->ann_cb = src.chance(60);
        p->on_announce = [this](std::vector<uint8_t>& d) {
            if (src.chance(4)) {
                if (pbt::biased("C34")) every_oracle(true);
                interval = src.chance(50) ? 0 : any_interval();
                note("  (the announce callback sets the interval to %lld)", (long long) interval);
                label("interval set by the announce callback");
                int r = rmc_pub_set_announce_interval(p->ctx, (uint32_t) interval);
                MFAIL(IDS("C13", "C34"), r, "setting the announce interval from the announce callback returned %d", r);
            } d = bytes(src.chance(5) ? src.one_of<size_t>({65312, 32768, 65311, 32767, 256}) : src.size_biased(0, 300), seedc++); p->ann_claim = src.chance(3) ? src.one_of<size_t>({65313, 65314, 65400, 65535}) : 0; return !src.chance(20); };
        p->on_message = [this](Link& l, const std::string& m) { msgs.emplace_back(&l, m); };
        crowd = src.draw(1500) == 1499;
        if (p->create(crowd ? (uint32_t) src.range(250, 300) : (uint32_t) src.range(o.max_lo, o.max_hi)) || p->activate()) harness_bug("publisher");
        if (!crowd && src.chance(o.reent)) { reent_pct = src.one_of<int>({10, 30, 80}); p->reenter = [this](const char* w, Link* l) { called_back(w, l); }; label("calls from callbacks"); }
        if (src.chance(o.announce)) { interval = any_interval(); rmc_pub_set_announce_interval(p->ctx, (uint32_t) interval); ann_next = sim::now + interval; }
        if (!crowd && !faulty && src.draw(2000) + (uint64_t) o.skip >= 2000) { p->skip_ahead(src.one_of<uint64_t>({65500, 65530, 32760})); label("long history"); }
        deep = !big && src.chance(o.deep);
        if (deep) label("hundreds in flight");
        if (src.chance(deep ? 80 : o.throttle)) { R = (uint32_t) src.range(0, deep ? 300 : 5); T = R + (uint32_t) src.range(1, deep ? 200 : 6); rmc_pub_throttling(p->ctx, T, R); }
        if (src.chance(30)) hosts = any_host();
        if (src.chance(20)) nport = (uint16_t) src.one_of<int>({200, 32700, 65400 - 300, 30});
        int nstart = crowd ? (int) src.range(250, 270) : (int) src.range(0, 3);
        if (crowd) label("more than 250 subscribers");
        for (int k = 0; k < nstart; ++k) {
            sim::Conn* c = sim::raw_connect(p->ip, p->ctl_port, peer_addr());
            Sub* s = new Sub;
            subs.emplace_back(s);
            s->c = c;
            bc[c] = s;
            accept();
        }
        int nops = (int) src.range(4, crowd ? 16 : 90);
        for (int k = 0; k < nops; ++k) op();
        // Everything owed is delivered once everyone takes part again.
        reent_pct = 0;
        if (src.chance(70)) {
            sim::faults.clear();
            faulty = false;
            for (auto& s : subs) s->c->d[1].cap = 1 << 20;
            for (int k = 0; k < (crowd ? 25 : 400); ++k) {
                bool busy = false;
                for (auto& s : subs) if (!s->closed) { if (!s->out.empty()) busy = true; flush(s.get(), true); }
                serve();
                for (auto& s : subs) if (!s->closed) read_s(s.get());
                int64_t d = p->deadline();
                if (!refs.empty() || !p->q.empty() || !p->q0.empty()) busy = true;
                for (Sub* s : opens()) if (s->pending || sim::readable(s->c->fd[1])) busy = true;
                if (d >= 0 && !refs.empty()) { if (d > sim::now) sim::now = d; timeouts(); }
                if (!busy) break;
            }
            mcwrite();
            for (Sub* s : opens()) {
                pop_resends(s);
                if (s->pending) continue;
                FAIL_ANY_IF(IDS("C03", "C10", "C21"), !s->resends.empty(), "packet %llu was not resent", (ull) (s->resends.empty() ? 0 : s->resends.front()));
            }
            label("settled");
        }
        if (n_resent) label("resends");
        if (n_acked) label("acknowledgements");
        if (n_susp) label("suspended");
        if (n_bad) label("malformed commands");
        if (n_reject) label("rejected subscribers");
        if (n_left) label("departures");
        count("packets sent", p->sent_data); count("announcements", n_ann); count("resent", n_resent); count("acknowledged", n_acked); count("messages", n_msg); count("connections", subs.size());
        feature(p->sent_data); feature(n_resent); feature(n_acked); feature(n_left * 7 + n_msg); feature((uint64_t) sim::now);
        std::string pr = pbt::prop ? pbt::prop : "";
        bool nt = p->sent_data && (n_acked || n_resent);
        if (pr == "C12") nt = n_susp && (n_acked || n_resent || n_left);
        if (pr == "C13") nt = n_ann >= 2;
        if (pr == "C15") nt = n_left >= 1 && subs.size() >= 2;
        if (pr == "C29") nt = subs.size() >= 2 && n_left >= 1;
        if (pr == "C18") nt = n_bad >= 1;
        if (pr == "C34") nt = n_reent >= 2;
        if (pr == "C16") nt = n_msg >= 1;
        if (nt) nontrivial();
        p->on_message = nullptr;
        teardown();
        subs.clear();
    }
};

} // namespace

namespace rigrun {
void pub_for_prop()
{
    PCase c;
    Opt& o = c.o;
    std::string p = pbt::bias ? pbt::bias : pbt::prop ? pbt::prop : "";
    if (p == "C02") { o.big = 60; o.small_buf = 60; o.w[TIMEOUT] = 20; o.w[PWRITE] = 14; }
    if (p == "C07") o.w[STRAY] = 5;
    if (p == "C09") { o.w[ACK] = 30; o.w[CLOSE_S] = 4; }
    if (p == "C10" || p == "C03") { o.w[TIMEOUT] = 20; o.big = 40; o.w[PWRITE] = 10; }
    if (p == "C11") { o.w[TIMEOUT] = 25; o.w[TIME] = 25; o.w[ANN] = 4; }
    if (p == "C12") { o.throttle = 100; o.deep = 4; o.w[THROTTLE] = 1; o.w[QUEUE] = 25; o.w[MCWRITE] = 18; o.w[CLOSE_S] = 4; o.w[ACK] = 18; }
    if (p == "C13") { o.announce = 90; o.w[ANN] = 4; o.w[ANNQ] = 3; }
    if (p == "C15") { o.w[CONNECT] = 15; o.w[ACCEPT] = 18; o.w[CLOSE_S] = 8; o.w[CLOSE_P] = 4; }
    if (p == "C16") { o.w[MSG] = 25; o.cut = 70; }
    if (p == "C18") { o.w[JUNK] = 14; o.w[CONNECT] = 8; o.cut = 60; }
    if (p == "C20") { o.cut = 100; o.w[MSG] = 10; }
    if (p == "C21") { o.w[STALL] = 8; o.small_buf = 70; o.big = 50; o.max_lo = 2; }
    if (p == "C29") { o.w[CONNECT] = 15; o.w[ACCEPT] = 18; o.w[CLOSE_S] = 10; o.w[CLOSE_P] = 5; o.w[MSG] = 6; o.max_hi = 3; o.w[JUNK] = 2; o.small_buf = 40; }
    if (p == "C32") { o.faults = 100; o.w[FAULT] = 14; o.w[PWRITE] = 10; }
    if (p == "C34") { o.reent = 100; o.w[MSG] = 12; o.throttle = 0; o.announce = 70; every_oracle(false); }
    if (p == "C35") { o.faults = 35; o.w[FAULT] = 5; }
    if (p == "C06") { o.faults = 40; o.w[FAULT] = 6; o.w[CONNECT] = 8; }
    c.run();
}
}
