// The API itself: calls with valid and invalid arguments, in every state of a context, against a model of that state.
#include "rig.h"
#include <stdlib.h>
#include <algorithm>
using namespace pbt;
using namespace rig;

namespace {

#define F30(cond_, ...) FAILIF("C30", cond_, __VA_ARGS__)

struct ACase : World {
    std::vector<PubRig*> pubs;
    std::vector<SubRig*> subs;
    uint64_t seedc = 1, udc = 1;
    uint64_t n_invalid = 0, n_cycles = 0, n_ud = 0, n_failed = 0, n_valid = 0;
    std::map<Node*, int64_t> interval;
    bool fault = false;

    void connect_plan(sim::Conn& c) override { c.done_at = sim::now + (src.chance(50) ? 0 : 500); c.will_refuse = false; }

    // ---- what an application can see of a context
    typedef std::vector<int64_t> Snap;
    Snap snap(Node* n)
    {
        Snap s;
        Enter e(n);
        for (auto& x : n->poll) { s.push_back(x.first); s.push_back(x.second.index); s.push_back(x.second.interest); s.push_back(x.second.armed); }
        for (int fd : sim::open_fds(n->owner)) s.push_back(fd);
        s.push_back((int64_t) sim::live_blocks());
        s.push_back((int64_t) sim::live_bytes());
        if (n->is_pub) {
            PubRig* p = (PubRig*) n;
            uint32_t a = 0, b = 0, c = 0;
            int64_t d = 0;
            s.push_back(rmc_pub_context_get_pending(p->ctx, &a, &b, &c));
            s.push_back(a); s.push_back(b); s.push_back(c);
            s.push_back(rmc_pub_queue_length(p->ctx)); s.push_back(rmc_pub_traffic_suspended(p->ctx));
            s.push_back(rmc_pub_timeout_get_next(p->ctx, &d)); s.push_back(d);
            s.push_back((int64_t) rmc_pub_user_data(p->ctx).u64); s.push_back(rmc_pub_node_id(p->ctx));
            s.push_back(rmc_pub_get_max_subscriber_count(p->ctx)); s.push_back(rmc_pub_get_subscriber_count(p->ctx)); s.push_back(rmc_pub_get_socket_count(p->ctx));
        } else {
            SubRig* u = (SubRig*) n;
            int64_t d = 0;
            s.push_back(rmc_sub_timeout_get_next(u->ctx, &d)); s.push_back(d);
            s.push_back((int64_t) rmc_sub_user_data(u->ctx).u64); s.push_back(rmc_sub_node_id(u->ctx));
            s.push_back(rmc_sub_get_max_publisher_count(u->ctx)); s.push_back(rmc_sub_get_publisher_count(u->ctx)); s.push_back(rmc_sub_get_socket_count(u->ctx));
            s.push_back(rmc_sub_get_dispatch_ready_count(u->ctx));
        }
        return s;
    }
    size_t open_of(SubRig* s) { size_t n = 0; for (Link* l : s->links) n += l->s_open; return n; }
    void verify(const char* after)
    {
        for (auto& n : nodes) {
            if (!n->alive) continue;
            Enter e(n.get());
            const char* nm = n->name.c_str();
            if (n->is_pub) {
                PubRig* p = (PubRig*) n.get();
                F30(rmc_pub_user_data(p->ctx).u64 != p->ud.u64, "%s: after %s the user data is %llx, not %llx", nm, after, (ull) rmc_pub_user_data(p->ctx).u64, (ull) p->ud.u64);
                F30(rmc_pub_node_id(p->ctx) != p->node_id, "%s: after %s the node id is %u, not %u", nm, after, rmc_pub_node_id(p->ctx), p->node_id);
                F30(rmc_pub_get_max_subscriber_count(p->ctx) != p->max_subs, "%s: after %s the limit is %u, not %u", nm, after, rmc_pub_get_max_subscriber_count(p->ctx), p->max_subs);
                size_t open = p->open_links();
                F30(rmc_pub_get_subscriber_count(p->ctx) != open, "%s: after %s %u subscribers are reported, not %zu", nm, after, rmc_pub_get_subscriber_count(p->ctx), open);
                F30(rmc_pub_get_socket_count(p->ctx) != open + (p->active ? 2 : 0), "%s: after %s %u sockets are reported, not %zu", nm, after, rmc_pub_get_socket_count(p->ctx), open + (p->active ? 2 : 0));
                F30(sim::open_count(p->owner) != (int) open + (p->active ? 2 : 0), "%s: after %s %d descriptors are open", nm, after, sim::open_count(p->owner));
                F30(rmc_pub_queue_length(p->ctx) != p->q.size() + p->q0.size(), "%s: after %s %u packets are queued, not %zu", nm, after, rmc_pub_queue_length(p->ctx), p->q.size() + p->q0.size());
                F30(rmc_pub_traffic_suspended(p->ctx), "%s: after %s traffic is suspended", nm, after);
                int64_t d = 0;
                rmc_pub_timeout_get_next(p->ctx, &d);
                F30(!interval[p] && p->q.empty() && p->pks.empty() && d != -1, "%s: after %s there is a deadline and nothing to do", nm, after);
            } else {
                SubRig* s = (SubRig*) n.get();
                F30(rmc_sub_user_data(s->ctx).u64 != s->ud.u64, "%s: after %s the user data is %llx, not %llx", nm, after, (ull) rmc_sub_user_data(s->ctx).u64, (ull) s->ud.u64);
                F30(rmc_sub_node_id(s->ctx) != s->node_id, "%s: after %s the node id is %u, not %u", nm, after, rmc_sub_node_id(s->ctx), s->node_id);
                F30(rmc_sub_get_max_publisher_count(s->ctx) != s->max_pubs, "%s: after %s the limit is %u, not %u", nm, after, rmc_sub_get_max_publisher_count(s->ctx), s->max_pubs);
                size_t open = open_of(s);
                F30(rmc_sub_get_publisher_count(s->ctx) != open, "%s: after %s %u publishers are reported, not %zu", nm, after, rmc_sub_get_publisher_count(s->ctx), open);
                F30(rmc_sub_get_socket_count(s->ctx) != open + (s->active ? 1 : 0), "%s: after %s %u sockets are reported, not %zu", nm, after, rmc_sub_get_socket_count(s->ctx), open + (s->active ? 1 : 0));
                F30(sim::open_count(s->owner) != (int) open + (s->active ? 1 : 0), "%s: after %s %d descriptors are open", nm, after, sim::open_count(s->owner));
                bool first = rmc_sub_get_next_dispatch_ready(s->ctx) != 0;
                F30(first != (rmc_sub_get_dispatch_ready_count(s->ctx) > 0), "%s: after %s %d packets are ready, and the next one is %s", nm, after, rmc_sub_get_dispatch_ready_count(s->ctx), first ? "there" : "missing");
            }
        }
    }
    // A call that has to be refused, and to change nothing.
    template <class Fn> void refused(Node* n, const char* what, int want, Fn fn)
    {
        ++n_invalid;
        Snap a = snap(n);
        int64_t calls = n->is_pub ? (int64_t) ((PubRig*) n)->released : (int64_t) ((SubRig*) n)->delivered;
        int r;
        { Enter e(n); r = fn(); }
        note("%s: %s = %d", n->name.c_str(), what, r);
        F30(want > 0 && r != want, "%s: %s returned %d, not %d", n->name.c_str(), what, r, want);
        F30(want < 0 && !r, "%s: %s returned 0", n->name.c_str(), what);
        int64_t calls2 = n->is_pub ? (int64_t) ((PubRig*) n)->released : (int64_t) ((SubRig*) n)->delivered;
        F30(calls != calls2 || snap(n) != a, "%s: %s was refused and changed something", n->name.c_str(), what);
        verify(what);
    }

    // ---- operations
    std::map<uint32_t, int64_t> made_up;       // ids the library chose, and when
    void id_chosen(uint32_t id, int64_t at)
    {
        F30(!id, "a context made up node id 0");
        auto k = made_up.emplace(id, at).first;
        F30(k->second != at, "contexts made at %lld and %lld both chose node id %u", (long long) k->second, (long long) at, id);
        count("node ids chosen by the library");
    }
    void make_pub(PubRig* p)
    {
        int64_t now = sim::now;
        p->node_id = src.chance(70) ? (uint32_t) src.range(1, 1000) : src.chance(50) ? 0 : 0xFFFFFFFFu;
        p->ctl_port = src.chance(50) ? 0 : (uint16_t) (5000 + p->owner);
        p->listen_ip = src.chance(50) ? 0 : p->ip;
        p->ud = user_data_u64(mix(++udc));
        p->style = (Style) src.draw(3);
        p->default_free = src.chance(20);
        p->use_connect_cb = !src.chance(20);
        p->use_disconnect_cb = !src.chance(20);
        p->ann_cb = src.chance(40);
        p->on_announce = [this](std::vector<uint8_t>& d) { d = bytes(src.size_biased(0, 30), seedc++); return !src.chance(15); };
        int r = p->create(src.chance(10) ? 0 : (uint32_t) src.range(1, 3), !src.chance(15));
        F30(r, "initialising a publisher returned %d", r);
        if (!p->node_id) { p->node_id = rmc_pub_node_id(p->ctx); id_chosen(p->node_id, now); }
        interval[p] = 0;
    }
    void make_sub(SubRig* s)
    {
        int64_t now = sim::now;
        s->node_id = src.chance(70) ? (uint32_t) src.range(1, 1000) : src.chance(50) ? 0 : 0xFFFFFFFFu;
        s->ud = user_data_u64(mix(++udc));
        s->style = (Style) src.draw(3);
        if (src.chance(20)) { s->cb_alloc = src.chance(25); s->cb_free = !s->cb_alloc && src.chance(40); }
        s->use_announce_cb = !src.chance(20);
        s->use_complete_cb = !src.chance(20);
        s->use_ready_cb = !src.chance(20);
        s->keep_pct = src.chance(20) ? 40 : 0;
        s->on_deliver = [s](sub_packet_t*) { ++s->delivered; };   // (a connection may stay unaccepted)
        int r = s->create(src.chance(10) ? 0 : (uint32_t) src.range(1, 3), !src.chance(15));
        F30(r, "initialising a subscriber returned %d", r);
        if (!s->node_id) { s->node_id = rmc_sub_node_id(s->ctx); id_chosen(s->node_id, now); }
    }
    Node* pick() { return nodes[src.draw(nodes.size())].get(); }

    void serve_unpolled(Node* n)               // no poll callbacks: the application watches the sockets itself
    {
        for (int fd : sim::open_fds(n->owner)) {
            sim::Fd* f = sim::get(fd);
            if (!f) continue;
            uint8_t op = 0;
            if (f->kind == sim::UDP) {
                if (n->is_pub) { if (((PubRig*) n)->q.size() || ((PubRig*) n)->q0.size()) n->do_write(MC, &op); }
                else if (sim::readable(fd)) n->do_read(MC, &op);
            } else if (f->kind == sim::LISTEN) { if (sim::readable(fd)) n->do_read(LI, &op); }
        }
        size_t max = n->is_pub ? ((PubRig*) n)->max_subs : ((SubRig*) n)->max_pubs;
        for (size_t k = 0; k < max; ++k) {
            uint8_t op = 0;
            // Which index a descriptor has is only known through the callbacks, so all of them are tried.
            n->do_write((rmc_index_t) k, &op);
            n->do_read((rmc_index_t) k, &op);
        }
    }
    void serve()
    {
        sim::pump();
        for (auto& n : nodes) {
            if (!n->alive) continue;
            if (!n->use_poll) { serve_unpolled(n.get()); continue; }
            for (auto& e : n->ready()) n->handle(e, src.chance(50));
        }
        for (auto& n : nodes) if (n->alive && !n->is_pub && src.chance(70)) ((SubRig*) n.get())->drain(src.chance(50) ? (size_t) -1 : 2);
        ++n_valid;
        verify("serving sockets");
    }
    void set_ud(Node* n)
    {
        user_data_t u = user_data_u64(src.chance(10) ? 0 : mix(++udc));
        n->ud = u;
        int r;
        { Enter e(n); r = n->is_pub ? rmc_pub_set_user_data(((PubRig*) n)->ctx, u) : rmc_sub_set_user_data(((SubRig*) n)->ctx, u); }
        note("%s: user data %llx", n->name.c_str(), (ull) u.u64);
        F30(r, "%s: setting user data returned %d", n->name.c_str(), r);
        ++n_ud;
        verify("setting user data");
    }
    void activate(Node* n)
    {
        if (n->active) {
            bool pub = n->is_pub;
            refused(n, "a second activation", EEXIST, [&] { return pub ? rmc_pub_activate_context(((PubRig*) n)->ctx) : rmc_sub_activate_context(((SubRig*) n)->ctx); });
            return;
        }
        int e = 0;
        if (src.chance(20)) {
            static const char* calls[] = {"socket", "setsockopt", "bind", "listen", "getsockname"};
            const char* c = calls[src.draw(n->is_pub ? 5 : 3)];
            e = src.one_of<int>({EMFILE, ENOBUFS, EADDRINUSE, EACCES, ENODEV, EINVAL, ENOMEM, EADDRNOTAVAIL, ENFILE, ENOTSOCK, EBADF, EPERM});
            int skip = !strcmp(c, "socket") && n->is_pub ? (int) src.draw(2) : !strcmp(c, "setsockopt") ? (int) src.draw(n->is_pub ? 3 : 4) : 0;
            auto& q = sim::faults[c];
            for (int k = 0; k < skip; ++k) q.push_back(0);
            q.push_back(e);
            Snap a = snap(n);
            int r = n->is_pub ? ((PubRig*) n)->activate() : ((SubRig*) n)->activate();
            bool hit = !sim::has_faults();
            sim::faults.clear();
            if (hit) {
                note("(%s failed with %d)", c, e);
                ++n_failed;
                F30(r != e, "%s: activation returned %d when %s() failed with %d", n->name.c_str(), r, c, e);
                FAIL_ANY_IF(IDS("C30", "C06", "C32", "C33"), snap(n) != a, "%s: an activation that failed, %s() returning error %d, changed something: %d descriptors are open", n->name.c_str(), c, e, sim::open_count(n->owner));
                verify("a failed activation");
                return;
            }
            F30(r, "%s: activation returned %d", n->name.c_str(), r);
            ++n_cycles;
            verify("activation");
            return;
        }
        int r = n->is_pub ? ((PubRig*) n)->activate() : ((SubRig*) n)->activate();
        F30(r, "%s: activation returned %d", n->name.c_str(), r);
        ++n_cycles;
        if (n->is_pub) {
            // It has to be reachable where it listens, and its datagrams have to go out.
            PubRig* p = (PubRig*) n;
            bool found = false;
            for (int fd : sim::open_fds(p->owner)) {
                sim::Fd* f = sim::get(fd);
                if (f && f->kind == sim::LISTEN) found = f->local.port == p->ctl_port && (!p->listen_ip || f->local.ip == p->listen_ip || !f->local.ip);
            }
            F30(!found, "%s: nobody listens on its control port %u", p->name.c_str(), p->ctl_port);
        }
        verify("activation");
    }
    void deactivate(Node* n)
    {
        bool was = n->active;
        int r;
        if (was) r = n->is_pub ? ((PubRig*) n)->deactivate() : ((SubRig*) n)->deactivate();
        else {
            Snap a = snap(n);
            r = n->is_pub ? ((PubRig*) n)->deactivate() : ((SubRig*) n)->deactivate();
            bool ready = false;
            F30(!ready && n->is_pub && snap(n) != a, "%s: deactivating an inactive context changed something", n->name.c_str());
        }
        F30(r, "%s: deactivation returned %d", n->name.c_str(), r);
        if (was) label("deactivated");
        verify("deactivation");
    }
    void queue(PubRig* p)
    {
        switch (src.weighted({6, 2, 2})) {
        case 0: {
            payload_len_t len = (payload_len_t) (src.chance(10) ? src.one_of<int>({0, 65312, 1000}) : src.size_biased(0, 100));
            int r = p->queue(len, seedc++, src.chance(15));
            F30(r, "%s: queueing %u bytes returned %d", p->name.c_str(), len, r);
            if (!p->active) label("queued while inactive");
            verify("queueing");
            break;
        }
        case 1: {
            payload_len_t len = (payload_len_t) src.one_of<int>({0, 1, 65312, 65535});
            bool ann = src.chance(30);
            refused(p, "queueing a null payload", EINVAL, [&] { return rmc_pub_queue_packet(p->ctx, 0, len, ann); });
            break;
        }
        case 2: {
            payload_len_t len = (payload_len_t) src.one_of<int>({65313, 65314, 65400, 65535});
            bool ann = src.chance(30);
            std::vector<uint8_t> b(65535);
            refused(p, "queueing more than the maximum", EMSGSIZE, [&] { return rmc_pub_queue_packet(p->ctx, b.data(), len, ann); });
            break;
        }
        }
    }
    void mcast_write(PubRig* p)
    {
        if (p->active) { uint8_t op = 0; int r = p->do_write(MC, &op); F30(r, "%s: writing multicast returned %d", p->name.c_str(), r); F30(op != RMC_WRITE_MULTICAST, "%s: writing multicast is reported as operation %u", p->name.c_str(), op); verify("writing multicast"); return; }
        bool left = !p->q.empty() || !p->q0.empty();
        if (left) refused(p, "writing multicast while inactive", ENOTCONN, [&] { return rmc_pub_write(p->ctx, MC, 0); });
        refused(p, "reading multicast while inactive", ENOTCONN, [&] { return rmc_pub_read(p->ctx, MC, 0); });
    }
    void bad_index(Node* n)
    {
        size_t max = n->is_pub ? ((PubRig*) n)->max_subs : ((SubRig*) n)->max_pubs;
        int idx = src.one_of<int>({(int) max, (int) max + 1, 0x7FFF, 0x7FFC, 0x8000, 0xFFFF, -1});
        if (idx < 0) {                          // a slot that is not in use
            std::vector<int> free_;
            if (n->use_poll) for (size_t k = 0; k < max; ++k) if (!n->has_index((rmc_index_t) k)) free_.push_back((int) k);
            if (free_.empty()) return;
            idx = free_[src.draw(free_.size())];
        }
        uint8_t op = 0xEE;
        uint8_t* o = src.chance(50) ? &op : 0;
        rmc_index_t i = (rmc_index_t) idx;
        switch (src.draw(3)) {
        case 0:
            refused(n, "reading a connection that does not exist", -1, [&] { return n->is_pub ? rmc_pub_read(((PubRig*) n)->ctx, i, o) : rmc_sub_read(((SubRig*) n)->ctx, i, o); });
            F30(o && op != RMC_ERROR, "%s: reading a connection that does not exist is reported as operation %u", n->name.c_str(), op);
            break;
        case 1:
            refused(n, "writing a connection that does not exist", -1, [&] { return n->is_pub ? rmc_pub_write(((PubRig*) n)->ctx, i, o) : rmc_sub_write(((SubRig*) n)->ctx, i, o); });
            F30(o && op != RMC_ERROR, "%s: writing a connection that does not exist is reported as operation %u", n->name.c_str(), op);
            break;
        default:
            // Closing an unused slot of a subscriber is no error.
            refused(n, "closing a connection that does not exist", n->is_pub || idx >= (int) max ? -1 : 0, [&] { return n->is_pub ? rmc_pub_close_connection(((PubRig*) n)->ctx, i) : rmc_sub_close_connection(((SubRig*) n)->ctx, i); });
        }
    }
    void null_args(Node* n)
    {
        uint32_t a, b, c;
        int64_t ts = 0;
        uint8_t x[4] = {1, 2, 3, 4};
        if (n->is_pub) {
            PubRig* p = (PubRig*) n;
            switch (src.draw(20)) {
            case 0: refused(n, "activate(null)", EINVAL, [&] { return rmc_pub_activate_context(0); }); break;
            case 1: refused(n, "deactivate(null)", EINVAL, [&] { return rmc_pub_deactivate_context(0); }); break;
            case 2: refused(n, "delete(null)", EINVAL, [&] { return rmc_pub_delete_context(0); }); break;
            case 3: refused(n, "set_announce_interval(null)", EINVAL, [&] { return rmc_pub_set_announce_interval(0, 5); }); break;
            case 4: refused(n, "set_announce_callback(null)", EINVAL, [&] { return rmc_pub_set_announce_callback(0, 0); }); break;
            case 5: refused(n, "set_subscriber_connect_callback(null)", EINVAL, [&] { return rmc_pub_set_subscriber_connect_callback(0, 0); }); break;
            case 6: refused(n, "set_subscriber_disconnect_callback(null)", EINVAL, [&] { return rmc_pub_set_subscriber_disconnect_callback(0, 0); }); break;
            case 7: refused(n, "set_control_message_callback(null)", EINVAL, [&] { return rmc_pub_set_control_message_callback(0, 0); }); break;
            case 8: refused(n, "set_multicast_ttl(null)", EINVAL, [&] { return rmc_pub_set_multicast_ttl(0, 1); }); break;
            case 9: refused(n, "set_user_data(null)", EINVAL, [&] { return rmc_pub_set_user_data(0, user_data_u64(1)); }); break;
            case 10: refused(n, "throttling(null)", EINVAL, [&] { return rmc_pub_throttling(0, 5, 1); }); break;
            case 11: refused(n, "traffic_suspended(null)", EINVAL, [&] { return rmc_pub_traffic_suspended(0); }); break;
            case 12: refused(n, "close_connection(null)", EINVAL, [&] { return rmc_pub_close_connection(0, 0); }); break;
            case 13: refused(n, "timeout_get_next(null)", EINVAL, [&] { return rmc_pub_timeout_get_next(0, &ts); }); break;
            case 14: refused(n, "timeout_get_next(, null)", EINVAL, [&] { return rmc_pub_timeout_get_next(p->ctx, 0); }); break;
            case 15: refused(n, "timeout_process(null)", EINVAL, [&] { return rmc_pub_timeout_process(0); }); break;
            case 16: refused(n, "queue_packet(null)", EINVAL, [&] { return rmc_pub_queue_packet(0, x, 4, 0); }); break;
            case 17: refused(n, "context_get_pending(null)", EINVAL, [&] { return rmc_pub_context_get_pending(0, &a, &b, &c); }); break;
            case 18: {
                Enter e(n);
                F30(rmc_pub_user_data(0).u64 || rmc_pub_node_id(0) || rmc_pub_queue_length(0) || rmc_pub_get_max_subscriber_count(0) || rmc_pub_get_subscriber_count(0) || rmc_pub_get_socket_count(0),
                    "an accessor of no context returned something");
                ++n_invalid;
                break;
            }
            default: {
                // Every result is optional.
                uint32_t full[3] = {77, 77, 77}, part[3] = {77, 77, 77};
                int m = (int) src.draw(8), r1, r2;
                { Enter e(n); r1 = rmc_pub_context_get_pending(p->ctx, &full[0], &full[1], &full[2]); r2 = rmc_pub_context_get_pending(p->ctx, m & 1 ? &part[0] : 0, m & 2 ? &part[1] : 0, m & 4 ? &part[2] : 0); }
                F30(r1 != r2, "%s: get_pending() returned %d with all and %d with some results", n->name.c_str(), r1, r2);
                for (int k = 0; k < 3; ++k) F30(part[k] != (m >> k & 1 ? full[k] : 77), "%s: get_pending() result %d is %u with some and %u with all results", n->name.c_str(), k, part[k], full[k]);
                break;
            }
            }
        } else {
            SubRig* s = (SubRig*) n;
            switch (src.draw(18)) {
            case 0: refused(n, "activate(null)", EINVAL, [&] { return rmc_sub_activate_context(0); }); break;
            case 1: refused(n, "deactivate(null)", EINVAL, [&] { return rmc_sub_deactivate_context(0); }); break;
            case 2: refused(n, "delete(null)", EINVAL, [&] { return rmc_sub_delete_context(0); }); break;
            case 3: refused(n, "set_announce_callback(null)", EINVAL, [&] { return rmc_sub_set_announce_callback(0, 0); }); break;
            case 4: refused(n, "set_subscription_complete_callback(null)", EINVAL, [&] { return rmc_sub_set_subscription_complete_callback(0, 0); }); break;
            case 5: refused(n, "set_packet_ready_callback(null)", EINVAL, [&] { return rmc_sub_set_packet_ready_callback(0, 0); }); break;
            case 6: refused(n, "set_user_data(null)", EINVAL, [&] { return rmc_sub_set_user_data(0, user_data_u64(1)); }); break;
            case 7: refused(n, "close_connection(null)", EINVAL, [&] { return rmc_sub_close_connection(0, 0); }); break;
            case 8: refused(n, "timeout_get_next(null)", EINVAL, [&] { return rmc_sub_timeout_get_next(0, &ts); }); break;
            case 9: refused(n, "timeout_get_next(, null)", EINVAL, [&] { return rmc_sub_timeout_get_next(s->ctx, 0); }); break;
            case 10: refused(n, "timeout_process(null)", EINVAL, [&] { return rmc_sub_timeout_process(0); }); break;
            case 11: refused(n, "read(null)", EINVAL, [&] { return rmc_sub_read(0, MC, x); }); break;
            case 12: refused(n, "packet_dispatched(, null)", EINVAL, [&] { return rmc_sub_packet_dispatched(s->ctx, 0); }); break;
            case 13: refused(n, "packet_dispatched_keep_payload(, null)", EINVAL, [&] { return rmc_sub_packet_dispatched_keep_payload(s->ctx, 0); }); break;
            case 14: refused(n, "write_control_message_by_node_id(null)", EINVAL, [&] { return rmc_sub_write_control_message_by_node_id(0, 1, x, 4); }); break;
            case 15: refused(n, "write_control_message_by_address(null)", EINVAL, [&] { return rmc_sub_write_control_message_by_address(0, 1, 1, x, 4); }); break;
            case 16: {
                Enter e(n);
                F30(rmc_sub_user_data(0).u64 || rmc_sub_node_id(0) || rmc_sub_get_max_publisher_count(0) || rmc_sub_get_publisher_count(0) || rmc_sub_get_socket_count(0) || rmc_sub_get_dispatch_ready_count(0)
                    || rmc_sub_get_next_dispatch_ready(0) || rmc_sub_packet_payload(0) || rmc_sub_packet_payload_len(0), "an accessor of no context returned something");
                ++n_invalid;
                break;
            }
            default: {
                // A packet that this context did not hand out.
                sub_packet_t k;
                memset(&k, 0, sizeof(k));
                void* pl = sim::raw_malloc(3);
                k.payload = pl;
                k.payload_len = 3;
                bool keep = src.chance(50);
                refused(n, "dispatching a packet that is not ready", ENOENT, [&] { return keep ? rmc_sub_packet_dispatched_keep_payload(s->ctx, &k) : rmc_sub_packet_dispatched(s->ctx, &k); });
                memset(pl, 1, 3);
                sim::raw_free(pl);
            }
            }
        }
    }
    void messages(SubRig* s)
    {
        uint8_t x[4] = {1, 2, 3, 4};
        PubRig* p = pubs[src.draw(pubs.size())];
        uint32_t node = src.chance(50) ? p->node_id : 31337;
        uint32_t ip = src.chance(70) ? p->ip : 0x01020304u;
        uint16_t port = src.chance(70) ? p->ctl_port : 1;
        switch (src.draw(6)) {
        case 0: refused(s, "a control message without payload, by node", EINVAL, [&] { return rmc_sub_write_control_message_by_node_id(s->ctx, node, 0, 4); }); break;
        case 1: refused(s, "a control message of no length, by node", EINVAL, [&] { return rmc_sub_write_control_message_by_node_id(s->ctx, node, x, 0); }); break;
        case 2: refused(s, "a control message without payload, by address", EINVAL, [&] { return rmc_sub_write_control_message_by_address(s->ctx, ip, port, 0, 4); }); break;
        case 3: refused(s, "a control message of no length, by address", EINVAL, [&] { return rmc_sub_write_control_message_by_address(s->ctx, ip, port, x, 0); }); break;
        case 4: {
            for (Link* l : s->links) if (l->s_open && (!l->p || l->p->node_id == node)) return;
            refused(s, "a control message to an unknown node", ENOTCONN, [&] { return rmc_sub_write_control_message_by_node_id(s->ctx, node, x, 4); });
            break;
        }
        default: {
            for (Link* l : s->links) if (l->s_open && l->c->server.ip == ip && l->c->server.port == port) return;
            refused(s, "a control message to an unknown address", ENOTCONN, [&] { return rmc_sub_write_control_message_by_address(s->ctx, ip, port, x, 4); });
        }
        }
    }
    void init_failures()
    {
        rmc_pub_context_t* pc = (rmc_pub_context_t*) 0x1234;
        rmc_sub_context_t* sc = (rmc_sub_context_t*) 0x1234;
        size_t b = sim::live_blocks();
        int r;
        const char* what = "";
        {
            Enter e(nodes[0].get());
            user_data_t u = user_data_u64(5);
            switch (src.draw(9)) {
            case 0: what = "a publisher without result"; r = rmc_pub_init_context(0, 1, (char*) "224.0.0.9", 1, 0, 0, 0, u, 0, 0, 0, 1, 0); break;
            case 1: what = "a publisher without group"; r = rmc_pub_init_context(&pc, 1, 0, 1, 0, 0, 0, u, 0, 0, 0, 1, 0); break;
            case 2: what = "a publisher with an illegal group"; r = rmc_pub_init_context(&pc, 1, (char*) "not.an.ip", 1, 0, 0, 0, u, 0, 0, 0, 1, 0); break;
            case 3: what = "a publisher with an illegal control address"; r = rmc_pub_init_context(&pc, 1, (char*) "224.0.0.9", 1, 0, (char*) "1.2.3.4.5", 0, u, 0, 0, 0, 1, 0); break;
            case 4: what = "a publisher with an illegal interface"; r = rmc_pub_init_context(&pc, 1, (char*) "224.0.0.9", 1, (char*) "eth0", 0, 0, u, 0, 0, 0, 1, 0); break;
            case 5: what = "a subscriber without result"; r = rmc_sub_init_context(0, 1, (char*) "224.0.0.9", 1, 0, u, 0, 0, 0, 1, 0, 0); break;
            case 6: what = "a subscriber without group"; r = rmc_sub_init_context(&sc, 1, 0, 1, 0, u, 0, 0, 0, 1, 0, 0); break;
            case 7: what = "a subscriber with an illegal group"; r = rmc_sub_init_context(&sc, 1, (char*) "", 1, 0, u, 0, 0, 0, 1, 0, 0); break;
            default: what = "a subscriber with an illegal interface"; r = rmc_sub_init_context(&sc, 1, (char*) "224.0.0.9", 1, (char*) "256.1.1.1", u, 0, 0, 0, 1, 0, 0); break;
            }
        }
        ++n_invalid;
        note("initialising %s = %d", what, r);
        F30(r != EINVAL, "initialising %s returned %d", what, r);
        F30(pc != (void*) 0x1234 || sc != (void*) 0x1234, "initialising %s handed out a context", what);
        F30(sim::live_blocks() != b, "initialising %s leaked", what);
        verify("an initialisation that was refused");
    }
    int timers(Node* n)
    {
        // An announcement without callback has no payload; when it is due is decided by C13.
        if (n->is_pub) ((PubRig*) n)->implicit_ann = interval[n] && !((PubRig*) n)->ann_cb;
        int r = n->do_timeouts();
        if (n->is_pub) ((PubRig*) n)->implicit_ann = false;
        return r;
    }
    void op()
    {
        Node* n = pick();
        switch (src.weighted({10, 6, 6, 10, 8, 5, 3, 4, 8, 8, 3, 3, 4, 2, 3, 3})) {
        case 0: serve(); break;
        case 1: { int64_t d = src.range(1, 120000); sim::now += d; sim::pump(); break; }
        case 2: if (n->active) { int r = timers(n); F30(r && r != EAGAIN, "%s: serving timers returned %d", n->name.c_str(), r); verify("serving timers"); } break;
        case 3: queue(pubs[src.draw(pubs.size())]); break;
        case 4: set_ud(n); break;
        case 5: activate(n); break;
        case 6: deactivate(n); break;
        case 7: init_failures(); break;
        case 8: null_args(n); break;
        case 9: bad_index(n); break;
        case 10: {
            PubRig* p = pubs[src.draw(pubs.size())];
            uint32_t a = (uint32_t) src.range(0, 20), b = (uint32_t) src.range(0, 20);
            if (src.chance(20)) b = src.one_of<uint32_t>({0x7FFFFFFF, 0x80000000, 0xFFFFFFFF, 0x10000});
            if (a < b) refused(p, "inverted throttling limits", EINVAL, [&] { return rmc_pub_throttling(p->ctx, a, b); });
            else {
                uint32_t t = 100000 + a, u = b;               // limits that are never met
                switch (src.draw(5)) { case 1: u = t; break; case 4: t = 0x80000000u + a; break; case 2: t = u = 0; break; case 3: t = 0xFFFFFFFFu - a; u = t - b % 2; break; }
                Enter e(p);
                int r = rmc_pub_throttling(p->ctx, t, u);
                F30(r, "%s: throttling(%u, %u) returned %d", p->name.c_str(), t, u, r);
            }
            verify("throttling");
            break;
        }
        case 11: {
            PubRig* p = pubs[src.draw(pubs.size())];
            int hops = (int) src.range(0, 255);
            if (!p->active) refused(p, "setting the TTL while inactive", ENOTCONN, [&] { return rmc_pub_set_multicast_ttl(p->ctx, hops); });
            else {
                int r;
                { Enter e(p); r = rmc_pub_set_multicast_ttl(p->ctx, hops); }
                F30(r, "%s: setting the TTL returned %d", p->name.c_str(), r);
                if (!r) p->ttl = hops;
                for (int fd : sim::open_fds(p->owner)) { sim::Fd* f = sim::get(fd); if (f && f->kind == sim::UDP) F30(f->ttl != hops, "%s: the TTL is %d, not %d", p->name.c_str(), f->ttl, hops); }
                verify("setting the TTL");
            }
            break;
        }
        case 12: messages(subs[src.draw(subs.size())]); break;
        case 13: {                              // delete and make anew
            if (n->is_pub) { ((PubRig*) n)->destroy(); renew((PubRig*) n); } else { ((SubRig*) n)->destroy(); renew((SubRig*) n); }
            break;
        }
        case 14: {
            PubRig* p = pubs[src.draw(pubs.size())];
            if (p->ann_cb) break;                // (a callback's payload is checked elsewhere)
            interval[p] = src.chance(30) ? 0 : src.range(1000, 100000);
            int r;
            { Enter e(p); r = rmc_pub_set_announce_interval(p->ctx, (uint32_t) interval[p]); }
            F30(r, "%s: setting the announce interval returned %d", p->name.c_str(), r);
            interval[p] = 1;                     // a deadline may exist from now on
            verify("setting the announce interval");
            break;
        }
        default: mcast_write(pubs[src.draw(pubs.size())]); break;
        }
    }
    // The deleted rig stays for its ledger; a new one takes its place.
    void renew(PubRig* old)
    {
        PubRig* p = add_pub(old->ip, 0, 1);
        std::replace(pubs.begin(), pubs.end(), old, p);
        retire(old);
        make_pub(p);
        verify("making a publisher");
    }
    void renew(SubRig* old)
    {
        SubRig* s = add_sub(old->ip, 1);
        std::replace(subs.begin(), subs.end(), old, s);
        retire(old);
        make_sub(s);
        verify("making a subscriber");
    }
    std::vector<std::unique_ptr<Node>> gone;
    void retire(Node* old)
    {
        for (size_t k = 0; k < nodes.size(); ++k) if (nodes[k].get() == old) { gone.push_back(std::move(nodes[k])); nodes.erase(nodes.begin() + k); return; }
    }
    void run()
    {
        rig::draw_epoch();
        sim::tick = 0;
        sim::cfg.tcp_delay = 0;
        int np = (int) src.range(1, 2), ns = (int) src.range(1, 2);
        for (int k = 0; k < np; ++k) { PubRig* p = add_pub(0x0A000001u + k, 0, 1); pubs.push_back(p); make_pub(p); }
        for (int k = 0; k < ns; ++k) { SubRig* s = add_sub(0x0A000101u + k, 1); subs.push_back(s); make_sub(s); }
        verify("initialisation");
        // Most cases start with something running.
        if (src.chance(70)) {
            for (auto& n : nodes) { if (src.chance(85)) { sim::faults.clear(); int r = n->is_pub ? ((PubRig*) n.get())->activate() : ((SubRig*) n.get())->activate(); F30(r, "%s: activation returned %d", n->name.c_str(), r); } }
            for (PubRig* p : pubs) { p->queue(0, seedc++, true); }
            for (int k = 0; k < 4; ++k) { serve(); sim::now += 500; }
        }
        int nops = (int) src.range(4, 80);
        for (int k = 0; k < nops; ++k) op();
        count("calls to be refused", n_invalid); count("activations", n_cycles); count("user data changes", n_ud); count("failed activations", n_failed);
        size_t conns_ = links.size();
        if (conns_) label("connections");
        if (n_failed) label("failed activation");
        feature(n_invalid); feature(n_ud * 100 + n_cycles); feature((uint64_t) sim::now); feature(conns_);
        if (n_invalid >= 2 && n_valid) nontrivial();
        teardown();
    }
};

} // namespace

namespace rigrun {
void api_for_prop() { ACase c; c.run(); }
}
