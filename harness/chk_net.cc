// C33: configured addresses. Several publishers and subscribers with different groups, ports, interfaces and control
// addresses on multi-homed hosts of a simulated network with two segments.
#include "rig.h"
#include "wire.h"
#include <set>
#include <algorithm>
#include <string.h>
using namespace pbt;
using namespace rig;

namespace {

#define F33(cond, ...) FAILIF("C33", cond, __VA_ARGS__)

struct NCase : World {
    int nh = 2;
    uint16_t fake_port = 1;
    std::vector<PubRig*> pubs;
    std::vector<SubRig*> subs;
    std::map<Node*, int> host;
    std::set<SubRig*> expect, got;
    bool pending = false;
    std::string what;
    std::map<SubRig*, std::vector<std::string>> offered;      // scripted announcements
    uint64_t n_sent = 0, n_reached = 0, n_not = 0, n_stray = 0;

    uint32_t base[2] = {0x0A010100u, 0x0A010200u};     // the segments' networks
    uint32_t ip_of(int h, int i) { return base[i] + h + 1; }
    uint32_t src_ip(Node* n) { return n->mcast_if ? n->mcast_if : ip_of(host[n], 0); }
    uint32_t group_of(Node* n) { return n->is_pub ? ((PubRig*) n)->group : ((SubRig*) n)->group; }
    uint16_t port_of(Node* n) { return n->is_pub ? ((PubRig*) n)->mport : ((SubRig*) n)->mport; }
    uint32_t ctl_ip(PubRig* p) { return p->listen_ip ? p->listen_ip : src_ip(p); }
    bool hears(SubRig* s, uint32_t from, uint32_t group, uint16_t port)
    {
        return s->active && s->group == group && s->mport == port && (src_ip(s) & ~255u) == (from & ~255u);
    }
    bool hears(SubRig* s, PubRig* p) { return hears(s, src_ip(p), p->group, p->mport); }

    void settle_sent()
    {
        if (!pending) return;
        pending = false;
        for (SubRig* s : subs) F33(expect.count(s) != got.count(s), "%s %s %s", what.c_str(), got.count(s) ? "reached" : "did not reach", s->name.c_str());
        n_reached += got.size();
        n_not += subs.size() - got.size();
    }
    void mcast_sent(sim::Fd& f, const uint8_t* d, size_t n) override
    {
        settle_sent();
        World::mcast_sent(f, d, n);
        auto it = by_owner.find(f.owner);
        if (it == by_owner.end() || !it->second->is_pub) return;
        PubRig* p = (PubRig*) it->second;
        ++n_sent;
        pending = true;
        expect.clear(); got.clear();
        what = "a datagram of " + p->name;
        for (SubRig* s : subs) if (hears(s, p)) expect.insert(s);
    }
    void route(sim::Fd&, sim::Fd& to, const sim::Dgram&, std::vector<int64_t>& at) override
    {
        at.push_back(sim::now);
        auto it = by_owner.find(to.owner);
        if (it != by_owner.end() && !it->second->is_pub) got.insert((SubRig*) it->second);
    }
    void connect_plan(sim::Conn& c) override { c.done_at = sim::now; c.will_refuse = false; }
    void connect_started(sim::Conn& c) override
    {
        World::connect_started(c);
        Link* l = link_of(c);
        if (!l->s) return;
        bool ok = false;
        for (PubRig* p : pubs) if (ctl_ip(p) == c.server.ip && p->ctl_port == c.server.port && hears(l->s, p)) ok = true;
        F33(!ok, "%s connects to %x:%u, which no publisher that it hears announced", l->s->name.c_str(), c.server.ip, c.server.port);
    }

    void serve()
    {
        for (int k = 0; k < 400; ++k) {
            sim::pump();
            bool any = false;
            for (auto& n : nodes) {
                if (!n->active) continue;
                auto ev = n->ready();
                for (auto& e : ev) { any = true; n->handle(e); }
                if (!n->is_pub) ((SubRig*) n.get())->drain();
            }
            settle_sent();
            if (any) continue;
            int64_t t = -1;
            for (auto& n : nodes) {
                if (!n->active) continue;
                int64_t d = n->deadline();
                if (d >= 0 && d <= sim::now + 200000 && (t < 0 || d < t)) t = d;
            }
            if (t < 0) return;
            if (t > sim::now) sim::now = t;
            for (auto& n : nodes) if (n->active) n->do_timeouts();
        }
        F33(true, "the contexts do not come to rest");
    }
    void activate(Node* n)
    {
        uint16_t want = n->is_pub ? ((PubRig*) n)->ctl_port : 0;
        int r = n->is_pub ? ((PubRig*) n)->activate() : ((SubRig*) n)->activate();
        F33(r, "%s: activation returned %d", n->name.c_str(), r);
        if (!n->is_pub) return;
        PubRig* p = (PubRig*) n;
        int nl = 0;
        for (int fd : sim::open_fds(p->owner)) {
            sim::Fd* f = sim::get(fd);
            if (!f || f->kind != sim::LISTEN) continue;
            ++nl;
            F33(f->local.ip != p->listen_ip, "%s: listens on address %x, not %x", p->name.c_str(), f->local.ip, p->listen_ip);
            F33(want && f->local.port != want, "%s: listens on port %u, not %u", p->name.c_str(), f->local.port, want);
        }
        F33(nl != 1, "%s: %d listening sockets", p->name.c_str(), nl);
    }
    void deactivate(Node* n)
    {
        int r = n->is_pub ? ((PubRig*) n)->deactivate() : ((SubRig*) n)->deactivate();
        F33(r, "%s: deactivation returned %d", n->name.c_str(), r);
    }
    void send(PubRig* p, bool ann)
    {
        if (!p->active) return;
        p->queue((payload_len_t) src.draw(40), src.draw(1000), ann);
        uint8_t op = 0;
        p->do_write(MC, &op);
        settle_sent();
    }
    // An announcement of a publisher that is not there reaches exactly the subscribers that listen there.
    void stray()
    {
        uint32_t g = src.chance(70) ? group_of(nodes[src.draw(nodes.size())].get()) : 0xE0000001u + (uint32_t) src.draw(4);
        uint16_t port = src.chance(70) ? port_of(nodes[src.draw(nodes.size())].get()) : (uint16_t) src.range(1, 65535);
        uint32_t from = ip_of(20 + (int) src.draw(3), (int) src.draw(2));
        std::string pay = "stray " + std::to_string(++n_stray);
        wire::Hdr h = {};
        h.pid = 0; h.node = 77; h.len = (uint16_t) pay.size(); h.ip = 0x0A020202; h.port = ++fake_port;
        note("scripted announcement from %x to %x:%u", from, g, port);
        offered.clear();
        pending = false;
        sim::raw_mcast(sim::Addr{from, 999}, g, port, wire::dgram(h, (const uint8_t*) pay.data(), pay.size()));
        serve();
        for (SubRig* s : subs) {
            size_t want = hears(s, from, g, port), n = std::count(offered[s].begin(), offered[s].end(), pay);
            F33(n != want, "an announcement sent to %x:%u from %x was offered to %s %zu times, not %zu", g, port, from, s->name.c_str(), n, want);
        }
    }

    void run()
    {
        draw_epoch();
        sim::tick = 0;
        sim::cfg.tcp_delay = 0;
        sim::cfg.net_mask = 0xFFFFFF00;
        nh = 1 + (int) src.draw(3);
        static const uint32_t groups_[][3] = {{0xEF010203, 0xEF010204, 0xE0000201}, {0xEF010203, 0xEF010303, 0xEE010203}, {0xE1010101, 0xEF010101, 0xE1810101}};
        static const uint16_t ports_[][4] = {{4723, 4724, 65535, 1}, {4723, 4979, 32768 + 4723, 8191}};
        auto& groups = groups_[src.draw(3)];
        auto& ports = ports_[src.draw(2)];
        if (src.chance(30)) { base[0] = any_host() & ~255u; do base[1] = src.chance(50) ? base[0] ^ 0x100u << src.draw(15) : any_host() & ~255u; while (base[0] == base[1]); }
        int np = 1 + (int) src.draw(3), ns = 1 + (int) src.draw(3);
        int ng = 1 + (int) src.draw(3), npo = 1 + (int) src.draw(4);
        bool two_nets = src.chance(50);
        auto iface = [&](int h) { int k = (int) src.draw(two_nets ? 3 : 2); return k ? ip_of(h, k - 1) : 0; };
        std::set<std::pair<int, uint16_t>> used;          // host, port
        for (int k = 0; k < np + ns; ++k) {
            bool ispub = k < np;
            int h = (int) src.draw(nh);
            Node* n = ispub ? (Node*) add_pub(ip_of(h, 0), 0, 100 + k) : (Node*) add_sub(ip_of(h, 0), 200 + k);
            host[n] = h;
            sim::host_of[n->owner] = h;
            sim::host_ips[n->owner] = {ip_of(h, 0), ip_of(h, 1)};
            n->mcast_if = iface(h);
            n->style = (Style) src.draw(3);
            uint32_t g = groups[src.draw(ng)];
            uint16_t mp = ports[src.draw(npo)];
            if (ispub) {
                PubRig* p = (PubRig*) n;
                p->group = g; p->mport = mp;
                p->listen_ip = iface(h);
                p->ctl_port = src.one_of<uint16_t>({0, 6000, 6001, 65535, 1});
                if (p->ctl_port && !used.insert({h, p->ctl_port}).second) p->ctl_port = 0;
                if (p->create(8)) harness_bug("create");
                pubs.push_back(p);
            } else {
                SubRig* s = (SubRig*) n;
                s->group = g; s->mport = mp;
                s->use_announce_cb = true;
                s->on_announce = [this, s](uint32_t, uint16_t, uint32_t node, const std::string& pay) { offered[s].push_back(pay); return node != 77; };
                if (s->create(8)) harness_bug("create");
                subs.push_back(s);
            }
        }
        int nops = (int) src.range(3, 25);
        uint64_t reactivated = 0;
        for (int k = 0; k < nops; ++k) {
            Node* n = nodes[src.draw(nodes.size())].get();
            PubRig* p = pubs[src.draw(pubs.size())];
            switch (src.weighted({5, 2, 4, 4, 3, 2, 3})) {
            case 0: if (!n->active) activate(n); break;
            case 1: if (n->active) { deactivate(n); ++reactivated; serve(); } break;
            case 2: send(p, true); serve(); break;
            case 3: send(p, false); serve(); break;
            case 4: stray(); break;
            case 5:
                if (p->active) {
                    int ttl = (int) src.one_of<int>({1, 0, 2, 64, 255});
                    int r;
                    { Enter e(p); r = rmc_pub_set_multicast_ttl(p->ctx, (uint32_t) ttl); }
                    note("%s: TTL %d = %d", p->name.c_str(), ttl, r);
                    F33(r, "%s: setting the TTL returned %d", p->name.c_str(), r);
                    p->ttl = ttl;
                    label("TTL set");
                }
                break;
            case 6: serve(); break;
            }
        }
        for (auto& n : nodes) if (!n->active) activate(n.get());
        serve();
        for (PubRig* p : pubs) { send(p, true); serve(); }
        bool some = false, none = false;
        std::map<SubRig*, uint64_t> before;
        for (SubRig* s : subs) {
            before[s] = s->delivered;
            for (PubRig* p : pubs) {
                int n = 0;
                for (Link* l : s->links) n += l->s_open && l->complete && l->p == p && l->p_open && l->c->server.ip == ctl_ip(p) && l->c->server.port == p->ctl_port;
                F33(n != (int) hears(s, p), "%s has %d connections to %s, not %d", s->name.c_str(), n, p->name.c_str(), (int) hears(s, p));
                (n ? some : none) = true;
            }
        }
        for (int k = 0; k < 3; ++k) for (PubRig* p : pubs) { send(p, false); if (src.chance(50)) serve(); }
        serve();
        for (SubRig* s : subs) {
            size_t want = 0;
            for (PubRig* p : pubs) want += 3 * hears(s, p);
            F33(s->delivered - before[s] != want, "%s delivered %llu packets, not %zu", s->name.c_str(), (ull) (s->delivered - before[s]), want);
        }
        if (two_nets) label("two networks");
        if (reactivated) label("deactivated in between");
        if (n_stray) label("scripted announcements");
        if (some && none) { label("some reached, some not"); nontrivial(); }
        count("datagrams sent", n_sent); count("reached a subscriber", n_reached); count("did not reach a subscriber", n_not);
        feature(n_sent); feature(n_reached * 31 + n_not); feature(np * 4 + ns);
        teardown();
    }
};

static void run33() { sim::reset(); NCase c; c.run(); }

static Reg r33({"C33", run33,
    "one to three publishers and subscribers with different groups, ports, interfaces, control addresses and TTLs on multi-homed hosts of two networks, against a reachability model; "
    "non-trivial: in the end some subscribers hear some publishers and others do not",
    40000, 1500000, "simulation against a reachability model"});

} // namespace
