// Whole-system simulation: library publishers and subscribers over a lossy simulated network, random application
// behaviour, poll latency and timing. The oracles are the rig's per-call checks, the ledger, and the settled state.
#include "rig.h"
#include <stdlib.h>
#include <algorithm>
using namespace pbt;
using namespace rig;

namespace {

enum { BURST, MESSAGE, P_CLOSE, S_CLOSE, ANN, NETCHG, FREEZE, STALL, P_RESTART, S_RESTART, FAULT, EARLY, NOPS };

struct Opt {
    int np_lo = 1, np_hi = 1, ns_lo = 1, ns_hi = 3;
    int loss = 50;            // % of pairs with loss
    int seg = 20;             // % of cases with cut-up streams
    int faults = 0;           // % of cases with injected failures
    int big = 10;             // % of cases with big payloads
    int prompt = 40;          // % of cases in which time bounds apply
    int stalls = 30;          // % of cases with stalls, freezes, small socket buffers
    int reenter = 0;          // % of callbacks that call the library
    int threads = 0;          // every context is used by a thread of its own, whose calls overlap
    int weight[NOPS] = {30, 6, 3, 3, 3, 5, 4, 4, 1, 1, 8, 4};
};

struct Net { int loss, dup; int64_t dmin, dmax; };

struct Nd {
    Node* n;
    int64_t lag;
    int64_t wake = -1;
    int64_t frozen = 0;
    int64_t tm_wake = -1, tm_for = -1;
    bool drain_in_cb = false, lazy_drain = false;
};

struct Case : World {
    Opt o;
    std::vector<Nd> nd;
    std::map<std::pair<uint32_t, uint32_t>, Net> net;   // by addresses
    bool prompt, seg, big, faulty, stalls, hold_accept, settling = false;
    int64_t base_delay = 0;
    int64_t t_end = 0;
    int refuse_pct = 0;
    int payload_class = 0;
    uint64_t seedc = 1;
    uint64_t lost = 0, resent_seen = 0, reordered = 0, dupped = 0;
    std::set<int> freshened;

    Nd& of(Node* n) { for (auto& x : nd) if (x.n == n) return x; harness_bug("no node"); }
    PubRig* pub(Node* n) { return (PubRig*) n; }
    SubRig* sub(Node* n) { return (SubRig*) n; }

    std::vector<PubRig*> pubs() { std::vector<PubRig*> v; for (auto& n : nodes) if (n->is_pub && n->alive) v.push_back((PubRig*) n.get()); return v; }
    std::vector<SubRig*> subs() { std::vector<SubRig*> v; for (auto& n : nodes) if (!n->is_pub && n->alive) v.push_back((SubRig*) n.get()); return v; }

    Net draw_net()
    {
        Net n;
        n.loss = src.chance(o.loss) ? src.one_of<int>({10, 30, 60, 100}) : 0;
        n.dup = src.chance(25) ? 20 : 0;
        n.dmin = 0;
        n.dmax = src.one_of<int64_t>({0, 0, 200, 5000, prompt ? 20000 : 150000});
        return n;
    }

    Link* open_link(SubRig* s, uint32_t ip, uint16_t port)
    {
        for (Link* l : s->links) if (l->s_open && l->c->server.ip == ip && l->c->server.port == port) return l;
        return 0;
    }

    // ---- network
    std::map<Link*, int64_t> hold_until;      // nothing overtakes the first packet of a connection
    void route(sim::Fd& from, sim::Fd& to, const sim::Dgram& d, std::vector<int64_t>& at) override
    {
        auto pi = by_owner.find(from.owner), si = by_owner.find(to.owner);
        if (pi == by_owner.end() || si == by_owner.end() || !pi->second->is_pub || si->second->is_pub) return;
        PubRig* p = pub(pi->second);
        SubRig* s = sub(si->second);
        Net& n = net[{p->ip, s->ip}];
        wire::Hdr h = wire::get_hdr(d.data.data());
        Link* l = open_link(s, p->listen_ip ? p->listen_ip : p->ip, p->ctl_port);
        if (h.pid) {
            if (l && l->p != p) { label("dropped: address still held by a predecessor"); return; }
            if (l && !l->accepted) { known("C01-unaccepted"); return; }
            if (l && l->p_open && l->admitted && !l->next && !l->rx_mc.count(l->first) && !l->rx_tcp.count(l->first)) {
                // The first packet on a connection arrives first.
                if (h.pid == l->first) {
                    at.push_back(sim::now + n.dmin);
                    hold_until[l] = at[0] + 1;
                    return;
                }
                if (src.chance(n.loss)) { ++lost; return; }
                int64_t t = std::max(sim::now, hold_until[l]) + (n.dmax ? src.draw(n.dmax + 1) : 0);
                at.push_back(t);
                return;
            }
        }
        if (n.loss && src.chance(n.loss)) { if (h.pid) ++lost; note("  (lost towards %s)", s->name.c_str()); return; }
        int64_t t = sim::now + n.dmin + (n.dmax ? (int64_t) src.draw(n.dmax + 1) : 0);
        at.push_back(t);
        if (n.dup && src.chance(n.dup)) { at.push_back(t + src.draw(3000)); if (h.pid) ++dupped; }
    }
    void purge(SubRig* s, PubRig* p)
    {
        for (int sf : sim::open_fds(s->owner)) {
            sim::Fd* f = sim::get(sf);
            if (!f || f->kind != sim::UDP) continue;
            for (int pf : sim::open_fds(p->owner)) {
                sim::Fd* g = sim::get(pf);
                if (g && g->kind == sim::UDP) {
                    sim::drop_inflight(pf, sf);
                    for (size_t k = 0; k < f->rx.size();)
                        if (f->rx[k].src_fd == pf && wire::get_hdr(f->rx[k].data.data()).pid) f->rx.erase(f->rx.begin() + k); else ++k;
                }
            }
        }
    }
    void connect_plan(sim::Conn& c) override
    {
        int64_t d = base_delay ? (int64_t) src.draw(base_delay + 1) : 0;
        c.done_at = sim::now + d;
        if (!d && src.chance(15)) c.done_at = sim::now - 1;   // at once
        c.will_refuse = src.chance(refuse_pct);
        if (c.will_refuse) label("connection refused");
    }
    void connect_started(sim::Conn& c) override
    {
        World::connect_started(c);
        Link* l = link_of(c);
        if (!l->s) return;
        for (auto& n : nodes)
            if (n->is_pub && n->alive && n->ip == c.server.ip && pub(n.get())->ctl_port == c.server.port) purge(l->s, pub(n.get()));
    }
    void accepted(sim::Conn& c) override
    {
        World::accepted(c);
        Link* l = link_of(c);
        if (l->p && l->s && l->s_open) purge(l->s, l->p);
    }
    bool held(const sim::Fd* f)                // a connection at the head of the queue whose subscriber does not know it is up
    {
        if (!f || f->kind != sim::LISTEN || f->acceptq.empty()) return false;
        Link* l = link_of(*f->acceptq.front());
        return l->s && l->s_open && !l->complete;
    }
    bool half_up(PubRig* p)
    {
        for (Link* l : p->links) if (l->p_open && l->s && l->s_open && !l->complete) return true;
        return false;
    }
    bool masked(Nd& x, const Node::Ev& e)
    {
        if (!x.n->is_pub) return false;
        if (e.index == LI) return hold_accept && held(sim::get(e.fd));
        if (e.index == MC) return half_up(pub(x.n));
        return false;
    }

    // ---- nodes
    void start(Node* n)
    {
        Nd x;
        x.n = n;
        n->faulty = faulty;
        sim::faults.clear();
        x.lag = src.one_of<int64_t>({1, 20, 300, 3000, prompt ? 5000 : 40000});
        n->style = (Style) src.weighted({2, 1, 2});
        x.lazy_drain = !prompt && src.chance(20);
        x.drain_in_cb = !x.lazy_drain && src.chance(30);
        nd.push_back(x);
        Node* raw = n;
        if (o.reenter) n->reenter = [this, n](const char* w, Link* l) { if (src.chance(reenter_pct)) reenter(n, w, l); };
        if (n->is_pub) {
            PubRig* p = pub(n);
            p->default_free = src.chance(25);
            p->use_connect_cb = !src.chance(20);
            p->use_disconnect_cb = !src.chance(20);
            if (src.draw(16) == 15) { p->want_msgs = false; label("no control message callback"); }
            int rej = src.chance(15) ? 40 : 0;
            p->on_connect = [rej](Link&) { return !src.chance(rej); };
            p->ann_cb = src.chance(40);
            p->on_announce = [this](std::vector<uint8_t>& d) { d = bytes(src.size_biased(0, 300), seedc++); return !src.chance(15); };
            if (p->create((uint32_t) (src.chance(25) ? src.range(1, 3) : 8))) harness_bug("create");
            if (p->activate()) harness_bug("activate");
            p->implicit_ann = !p->ann_cb;
            rmc_pub_set_announce_interval(p->ctx, (uint32_t) src.range(500, 60000));
            if (src.chance(15)) rmc_pub_throttling(p->ctx, (uint32_t) src.range(2, 12), (uint32_t) src.range(0, 4));
        } else {
            SubRig* s = sub(n);
            if (src.chance(25)) { s->cb_alloc = src.chance(25); s->cb_free = !s->cb_alloc && src.chance(40); }
            s->keep_pct = src.chance(25) ? 40 : 0;
            s->use_announce_cb = !src.chance(20);
            s->use_complete_cb = !src.chance(20);
            s->use_ready_cb = x.drain_in_cb || !src.chance(20);
            int rej = src.chance(15) ? 40 : 0;
            s->on_announce = [rej](uint32_t, uint16_t, uint32_t, const std::string&) { return !src.chance(rej); };
            if (x.drain_in_cb) s->on_ready = [s] { s->drain(); };
            if (s->create((uint32_t) (src.chance(20) ? src.range(1, 2) : 6))) harness_bug("create");
            if (s->activate()) harness_bug("activate");
        }
        (void) raw;
    }

    // An application that calls the library from its callbacks.
    int reenter_pct = 0, depth = 0, n_reenter = 0, n_close = 0;
    void reenter(Node* n, const std::string& where, Link* l)
    {
        if (depth > 2 || settling) return;
        ++depth;
        every_oracle(true);
        bool release = where == "release";
        if (n->is_pub) {
            PubRig* p = pub(n);
            int what = release ? 0 : (int) src.weighted({4, 2, 2, 1});
            note("    from the %s callback of %s:", where.c_str(), p->name.c_str());
            switch (what) {
            case 0: p->queue(draw_len(), seedc++); break;
            case 1:                                       // this one
                if (l && l->p_open && !l->disc_reported && l->p_index >= 0) { p->close_connection(l->p_index); ++n_close; label(("closes its own connection: " + where).c_str()); }
                break;
            case 2: {                                     // some other one
                std::vector<Link*> c;
                for (Link* k : p->links) if (k != l && k->p_open && !k->disc_reported && k->p_index >= 0 && (k->admitted || !p->use_connect_cb)) c.push_back(k);
                if (!c.empty()) { p->close_connection(c[src.draw(c.size())]->p_index); ++n_close; label(("closes another connection: " + where).c_str()); }
                break;
            }
            case 3: p->deadline(); rmc_pub_set_announce_interval(p->ctx, (uint32_t) src.range(500, 60000)); break;
            }
        } else {
            SubRig* s = sub(n);
            bool buffer = release || where == "allocation";
            int what = (int) src.weighted({3, 3, buffer ? 0 : 2, buffer ? 0 : 2});
            note("    from the %s callback of %s:", where.c_str(), s->name.c_str());
            std::vector<Link*> c;
            switch (what) {
            case 0: s->drain((size_t) src.range(1, 5)); break;
            case 1: {
                for (Link* k : s->links) if (k->s_open && k->complete) c.push_back(k);
                if (c.empty()) break;
                auto d = bytes(src.size_biased(1, 100), seedc++);
                s->message(l && l->s_open && l->complete && src.chance(70) ? *l : *c[src.draw(c.size())], std::string(d.begin(), d.end()), false);
                break;
            }
            case 2:
                if (l && l->s_open) { s->close_connection(l->s_index); ++n_close; label(("closes its own connection: " + where).c_str()); }
                else goto any;
                break;
            any:
            case 3:
                for (Link* k : s->links) if (k->s_open) c.push_back(k);
                if (!c.empty()) { s->close_connection(c[src.draw(c.size())]->s_index); ++n_close; label(("closes a connection: " + where).c_str()); }
                break;
            }
        }
        ++n_reenter;
        count("calls from callbacks");
        --depth;
    }

    // Threads: while a call on one context is in progress, others do what they do.
    int pause_pct = 0, n_paused = 0;
    Node* in_call = 0;
    static Case*& the() { static Case* c; return c; }
    static void paused() { the()->others(); }
    void others()
    {
        if (in_call || !pause_pct || n_paused >= 300 || !cur || !src.chance(pause_pct)) return;
        in_call = cur;
        sim::paused = 0;
        oracles_too({"C01", "C02", "C16", "C28", "C30"});
        {
            OtherThread t;
            std::vector<size_t> c;
            for (size_t k = 0; k < nd.size(); ++k) if (nd[k].n != in_call && nd[k].n->alive && nd[k].n->active && nd[k].frozen <= sim::now) c.push_back(k);
            int n = (int) src.range(1, 2);
            for (int k = 0; k < n && !c.empty(); ++k) {
                std::vector<size_t> r;               // mostly one that has something to do
                for (size_t j : c) { int64_t d = nd[j].n->deadline(); if (ready_now(nd[j]) || (d >= 0 && d <= sim::now)) r.push_back(j); }
                Nd& x = nd[!r.empty() && !src.chance(15) ? r[src.draw(r.size())] : c[src.draw(c.size())]];
                note("    meanwhile, in the thread of %s:", x.n->name.c_str());
                if (x.n->is_pub && src.chance(30)) pub(x.n)->queue(draw_len(), seedc++);
                if (!x.n->is_pub && src.chance(20)) {
                    std::vector<Link*> l;
                    for (Link* j : sub(x.n)->links) if (j->s_open && j->complete) l.push_back(j);
                    auto d = bytes(src.size_biased(1, 100), seedc++);
                    if (!l.empty()) sub(x.n)->message(*l[src.draw(l.size())], std::string(d.begin(), d.end()), false);
                }
                poll(x);
                ++n_paused;
                count("calls that overlap");
            }
            note("    back in the thread of %s", in_call->name.c_str());
        }
        in_call = 0;
        sim::paused = paused;
    }

    bool ready_now(Nd& x)
    {
        for (auto& e : x.n->ready()) if (!masked(x, e)) return true;
        return false;
    }

    void poll(Nd& x)
    {
        Node* n = x.n;
        sim::pump();
        std::vector<Node::Ev> ev = n->ready();
        // An epoll set has no order.
        for (size_t k = ev.size(); k > 1; --k) std::swap(ev[k - 1], ev[src.draw(k)]);
        bool rf = !src.chance(30);
        for (auto& e : ev) {
            if (!n->alive) return;
            if (masked(x, e)) continue;
            if (e.read && e.index == LI && hold_accept && held(sim::get(e.fd))) continue;
            n->handle(e, rf);
        }
        if (!n->alive) return;
        if (!n->is_pub && !(x.lazy_drain && src.chance(70))) sub(n)->drain();
        int64_t d = n->deadline();
        if ((d >= 0 && d <= sim::now)) timers(x);
        if (!n->is_pub && prompt) bounds(x);
    }

    void timers(Nd& x)
    {
        int64_t t0 = sim::now, d0 = x.n->deadline();
        int r = x.n->do_timeouts();
        int64_t d = x.n->deadline();
        if (faulty) return;
        (void) r;
        FAILIF("C11", d0 >= 0 && d0 <= t0 && d >= 0 && d <= t0, "%s: after timers were served at %lld the deadline is still %lld", x.n->name.c_str(), (long long) t0, (long long) d);
    }

    // Time bounds at a subscriber that has just served everything.
    void bounds(Nd& x)
    {
        SubRig* s = sub(x.n);
        for (Link* l : s->links) {
            if (!l->p || !l->s_open || !l->p_open || !l->complete || !l->admitted) continue;
            int64_t lat = 3 * x.lag + 3 * of(l->p).lag + 2 * sim::cfg.tcp_delay + 25000;
            packet_id_t nx = l->next ? l->next : l->first;
            auto k = l->p->by_pid.find(nx);
            if (k != l->p->by_pid.end() && k->second->sent_at >= 0) {
                size_t by = 0;
                for (packet_id_t i = l->first; i <= nx; ++i) { auto j = l->p->by_pid.find(i); if (j != l->p->by_pid.end() && !l->acked_read.count(i)) by += j->second->len + 21; }
                int64_t lim = k->second->sent_at + 100000 + lat * (int64_t) (1 + by / 30000);
                FAIL_ANY_IF(IDS("C03", "C21"), sim::now > lim, "%s: packet %llu of %s was sent at %lld and not ready at %lld", s->name.c_str(), (ull) nx, l->p->name.c_str(),
                    (long long) k->second->sent_at, (long long) sim::now);
            }
            int64_t alat = 3 * x.lag + 10000;
            for (auto& r : l->rx_mc)
                FAILIF("C08", r.first >= l->first && r.second + 50000 + alat < sim::now && !l->acked_written.count(r.first), "%s: packet %llu was received at %lld and not acknowledged at %lld",
                    s->name.c_str(), (ull) r.first, (long long) r.second, (long long) sim::now);
        }
    }

    // ---- operations
    payload_len_t draw_len()
    {
        switch (payload_class) {
        case 0: return (payload_len_t) src.size_biased(0, 40);
        case 1: return (payload_len_t) src.size_biased(0, 1400);
        default: return (payload_len_t) (src.chance(30) ? src.one_of<int>({65312, 65311, 65300, 32768, 60000, 255, 256, 0}) : src.size_biased(0, 65312));
        }
    }

    void op()
    {
        std::vector<int> w(o.weight, o.weight + NOPS);
        if (prompt) w[FREEZE] = w[STALL] = 0;
        if (!stalls) w[STALL] = w[FREEZE] = 0;
        if (!faulty) w[FAULT] = 0;
        auto ps = pubs(); auto ss = subs();
        PubRig* p = ps[src.draw(ps.size())];
        SubRig* s = ss[src.draw(ss.size())];
        switch (src.weighted(w)) {
        case BURST: {
            int n = (int) src.range(1, payload_class == 2 ? 3 : 10);
            for (int k = 0; k < n; ++k) p->queue(draw_len(), seedc++, src.chance(4));
            break;
        }
        case MESSAGE: {
            std::vector<Link*> c;
            for (Link* l : s->links) if (l->s_open && l->complete) c.push_back(l);
            if (c.empty()) break;
            Link* l = c[src.draw(c.size())];
            bool unique = true;
            for (Link* x : s->links) if (x != l && x->s_open && x->node == l->node) unique = false;
            int n = (int) src.range(1, 3);
            for (int k = 0; k < n; ++k) {
                size_t len = payload_class == 2 && src.chance(20) ? src.size_biased(0, 65000) : src.size_biased(0, 200);
                auto d = bytes(len, seedc++);
                s->message(*l, std::string(d.begin(), d.end()), unique && src.chance(50));
                count("control messages");
            }
            break;
        }
        case P_CLOSE: {
            std::vector<Link*> c;
            for (Link* l : p->links) if (l->p_open) c.push_back(l);
            if (c.empty()) break;
            p->close_connection(c[src.draw(c.size())]->p_index);
            label("publisher closes");
            break;
        }
        case S_CLOSE: {
            std::vector<Link*> c;
            for (Link* l : s->links) if (l->s_open) c.push_back(l);
            if (c.empty()) break;
            s->close_connection(c[src.draw(c.size())]->s_index);
            label("subscriber closes");
            break;
        }
        case ANN: rmc_pub_set_announce_interval(p->ctx, src.chance(20) ? 0 : (uint32_t) src.range(500, 60000)); break;
        case NETCHG: net[{p->ip, s->ip}] = draw_net(); break;
        case FREEZE: {
            Nd& x = nd[src.draw(nd.size())];
            if (x.n->alive) { x.frozen = sim::now + src.range(1000, 300000); note("%s stops until %lld", x.n->name.c_str(), (long long) x.frozen); label("stopped node"); }
            break;
        }
        case STALL: {
            std::vector<Link*> c;
            for (auto& l : links) if (l->s_open || l->p_open) c.push_back(l.get());
            if (c.empty()) break;
            sim::Dir& d = c[src.draw(c.size())]->c->d[src.draw(2)];
            d.stall = !d.stall;
            if (d.stall) label("stalled connection");
            break;
        }
        case P_RESTART: {
            if (nodes.size() > 12) break;
            uint32_t ip = p->ip, id = p->node_id; uint16_t port = p->ctl_port;
            bool same = src.chance(60);
            for (SubRig* t : subs()) purge(t, p);   // whatever is still on its way carries the same address as its successor
            p->destroy();
            nd.erase(std::find_if(nd.begin(), nd.end(), [&](Nd& x) { return x.n == p; }));
            PubRig* q = add_pub(ip, same ? port : 0, src.chance(50) ? id : (uint32_t) src.range(1, 1000));
            start(q);
            label("publisher restart");
            break;
        }
        case S_RESTART: {
            if (nodes.size() > 12) break;
            uint32_t ip = s->ip, id = s->node_id;
            s->destroy();
            nd.erase(std::find_if(nd.begin(), nd.end(), [&](Nd& x) { return x.n == s; }));
            start(add_sub(ip, id));
            label("subscriber restart");
            break;
        }
        case FAULT: {
            static const struct { const char* call; std::initializer_list<int> e; } f[] = {
                {"sendmsg", {EAGAIN, ENOBUFS, EINTR, ENETUNREACH, EPERM, EHOSTUNREACH, ENETDOWN, ENOMEM}}, {"writev", {EAGAIN, EINTR, ENOBUFS}}, {"readv", {EAGAIN, EINTR, EAGAIN, EINTR, ECONNRESET}}, {"recvfrom", {EINTR, EAGAIN, ENOBUFS, ENOMEM, ECONNREFUSED}},
                {"accept", {ECONNABORTED, EMFILE, EINTR, EAGAIN}}, {"connect", {ENETUNREACH, ECONNREFUSED, EADDRNOTAVAIL}},
                {"getsockopt", {ENOBUFS}}, {"setsockopt", {ENOBUFS, EINVAL}}, {"socket", {EMFILE}},
            };
            auto& k = f[src.weighted({6, 6, 4, 4, 3, 2, 1, 1, 1})];
            int n = (int) src.range(1, 3);
            for (int i = 0; i < n; ++i) {
                int skip = (int) src.draw(3);
                while (skip--) sim::faults[k.call].push_back(0);
                sim::faults[k.call].push_back(src.one_of<int>(k.e));
            }
            note("%s() will fail", k.call);
            count("injected failures", n);
            break;
        }
        case EARLY: {
            Nd& x = nd[src.draw(nd.size())];
            if (x.n->alive && x.frozen <= sim::now) timers(x);
            break;
        }
        }
    }

    // Runs until `end`.
    uint64_t iter = 0;
    bool run_until(int64_t end, bool until_quiet)
    {
        int64_t quiet_since = -1;
        while (sim::now < end) {
            if (++iter > 60000) { discard("too many events"); return false; }
            sim::pump();
            bool idle = true;
            int64_t next = end;
            for (auto& x : nd) {
                if (x.wake < 0 && ready_now(x)) x.wake = sim::now + 1 + (int64_t) src.draw(x.lag);
                if (x.wake >= 0) { next = std::min(next, std::max(x.wake, x.frozen)); idle = false; }
                int64_t d = x.n->deadline();
                if (d >= 0) {
                    if (d != x.tm_for) {
                        int64_t at = std::max(d, sim::now);
                        if (d < sim::now) at += 500;      // Did not help last time
                        x.tm_wake = at + (int64_t) src.draw(x.lag);
                        x.tm_for = d;
                    }
                    next = std::min(next, std::max(x.tm_wake, x.frozen));
                    if (!(x.n->is_pub && d - sim::now > 100000)) idle = false;
                } else x.tm_for = -1;
                if (x.n->is_pub && !(pub(x.n)->q.empty())) idle = false;
            }
            int64_t ne = sim::next_event();
            if (ne >= 0) { next = std::min(next, ne); idle = false; }
            if (until_quiet) {
                if (!idle) quiet_since = -1;
                else if (quiet_since < 0) quiet_since = sim::now;
                else if (sim::now - quiet_since > 1000) return true;
                if (idle) next = std::min(next, sim::now + 2000);
            }
            if (next > sim::now) sim::now = next;
            sim::pump();
            for (size_t k = 0; k < nd.size(); ++k) {
                Nd& x = nd[k];
                bool ev = x.wake >= 0 && x.wake <= sim::now && x.frozen <= sim::now;
                bool tm = x.tm_for >= 0 && x.tm_wake <= sim::now && x.frozen <= sim::now;
                if (!ev && !tm) continue;
                x.wake = -1;
                x.tm_for = -1;
                poll(x);
            }
        }
        return true;
    }

    void run()
    {
        rig::draw_epoch();
        prompt = src.chance(o.threads ? 0 : o.prompt);
        seg = !prompt && src.chance(o.seg);
        faulty = !prompt && src.chance(o.faults);
        stalls = !prompt && src.chance(o.stalls);
        hold_accept = src.chance(70);
        big = !seg && src.chance(o.big);
        payload_class = big ? 2 : seg ? 0 : (int) src.weighted({2, 1});
        sim::tick = src.one_of<int64_t>({1, 0, 7});
        if (biased("C31")) sim::tick = 0;     // (logging may read the clock)
        sim::cfg.tcp_delay = src.one_of<int64_t>({0, 100, 3000, prompt ? 10000 : 60000});
        if (seg) { sim::cfg.read_chunk = (int) src.draw(3); sim::cfg.write_chunk = (int) src.draw(3); }
        if (stalls) sim::cfg.sndcap = src.one_of<size_t>({1 << 20, 3000, 70000, 200});
        base_delay = src.one_of<int64_t>({0, 0, 1000, 30000});
        refuse_pct = src.chance(15) ? 30 : 0;
        if (o.threads) { sim::tick = 0; every_oracle(false); the() = this; sim::paused = paused; pause_pct = src.one_of<int>({3, 1, 10, 30}); }
        if (o.reenter) { every_oracle(false); reenter_pct = src.one_of<int>({10, 3, 30, 80}); }
        int np = (int) src.range(o.np_lo, o.np_hi), ns = (int) src.range(o.ns_lo, o.ns_hi);
        bool same_ids = src.chance(20);
        uint32_t pip = src.chance(80) ? 0x0A000001u : any_host(), sip = 0x0A000101u;
        for (int k = 0; k < np; ++k)
            for (int j = 0; j < ns; ++j) net[{pip + k, sip + j}] = draw_net();
        for (int k = 0; k < np; ++k) {
            PubRig* p = add_pub(pip + k, src.chance(50) ? 0 : (uint16_t) (5000 + k), same_ids ? 77 : 100 + k);
            if (src.chance(25)) p->listen_ip = p->ip;
            start(p);
            if (!faulty && !o.reenter && src.draw(2500) == 2499) { p->skip_ahead(src.one_of<uint64_t>({65500, 65530})); label("long history"); }
        }
        for (int k = 0; k < ns; ++k) start(add_sub(sip + k, src.draw(10) == 9 ? (same_ids ? 77 : 100 + k) : 500 + k));   // now and then a publisher's id
        for (auto& x : nd) x.n->faulty = faulty;
        int nops = (int) src.range(0, 26);
        // Let most cases begin with established connections.
        if (!run_until(sim::now + src.one_of<int64_t>({150000, 0, 40000, 70000}), false)) return;
        for (int k = 0; k < nops; ++k) {
            op();
            if (!run_until(sim::now + src.one_of<int64_t>({200, 1, 5000, 30000, 60000, 120000}), false)) return;
        }
        // Quiet down.
        pause_pct = 0;
        sim::faults.clear();
        sim::cfg.tcp_delay = std::min<int64_t>(sim::cfg.tcp_delay, 3000);
        sim::cfg.sndcap = std::max<size_t>(sim::cfg.sndcap, 1 << 16);
        for (auto& l : links) l->c->d[0].stall = l->c->d[1].stall = false;
        for (auto& l : links) for (auto& d : l->c->d) { d.cap = std::max(d.cap, sim::cfg.sndcap); d.delay = std::min(d.delay, sim::cfg.tcp_delay); }
        for (auto& x : nd) { x.frozen = 0; x.lazy_drain = false; if (!prompt) x.lag = std::min<int64_t>(x.lag, 300); if (x.n->is_pub) rmc_pub_set_announce_interval(pub(x.n)->ctx, 0); }
        settling = true;
        bool sudden = src.chance(15);         // Stop in the middle of things
        if (!sudden) {
            if (!run_until(sim::now + 30000000, true)) return;
            for (auto& x : nd) if (!x.n->is_pub) sub(x.n)->drain();
            check_settled();
        } else label("torn down in the middle");
        uint64_t dl = 0, sent = 0, rs = 0; size_t conn = 0;
        for (auto& l : links) { conn += l->complete && l->admitted; rs += l->resent.size(); }
        for (auto& n : nodes) { if (n->is_pub) sent += pub(n.get())->sent_data; else dl += sub(n.get())->delivered; }
        count("packets sent", sent); count("packets delivered", dl); count("packets resent", rs); count("datagrams lost", lost); count("connections", conn);
        if (rs) label("resends"); if (seg) label("cut streams"); if (big) label("big payloads"); if (prompt) label("time bounds apply");
        feature(dl); feature(rs); feature(iter); feature(sent);
        if (o.threads) { if (dl && n_paused >= 5) nontrivial(); }
        else if (o.reenter) { if (dl && n_reenter >= 2 && n_close) nontrivial(); }
        else if (dl >= 3 && (lost || dupped || links.size() > 1)) nontrivial();
        teardown();
    }
};

static void world_case(const Opt& o)
{
    Case c;
    c.o = o;
    c.run();
}

} // namespace

namespace rigrun {
// What the world looks like is biased by the property.
void world_for_prop()
{
    Opt o;
    if (src.chance(20)) o.np_hi = 2;
    std::string p = pbt::bias ? pbt::bias : pbt::prop ? pbt::prop : "";
    if (p == "C02") { o.big = 35; o.seg = 30; }
    if (p == "C03") { o.prompt = 90; o.loss = 80; o.weight[P_CLOSE] = o.weight[S_CLOSE] = 1; }
    if (p == "C21") { o.prompt = 0; o.stalls = 100; o.ns_lo = 2; }
    if (p == "C35") { o.faults = 35; o.weight[FAULT] = 8; }
    if (p == "C06") { o.faults = 40; o.weight[FAULT] = 6; o.weight[P_RESTART] = o.weight[S_RESTART] = 4; }
    if (p == "C07") { o.stalls = 50; o.seg = 40; }
    if (p == "C16") { o.weight[MESSAGE] = 30; o.seg = 40; o.stalls = 50; o.big = 25; }
    if (p == "C20") { o.seg = 100; o.weight[MESSAGE] = 20; }
    if (p == "C22") { o.np_lo = 2; o.np_hi = 4; o.ns_hi = 2; o.weight[P_RESTART] = 3; }
    if (p == "C34") { o.reenter = 1; o.weight[MESSAGE] = 20; o.weight[P_CLOSE] = o.weight[S_CLOSE] = 1; }
    if (p == "C38") { o.threads = 1; o.np_hi = 3; o.ns_lo = 1; o.weight[MESSAGE] = 15; }
    if (p == "C32") { o.faults = 90; o.prompt = 5; o.weight[FAULT] = 25; o.weight[MESSAGE] = 15; }
    world_case(o);
}
}
