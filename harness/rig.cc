#include "rig.h"
#include <stdarg.h>
#include <string.h>
#include <arpa/inet.h>
#include <algorithm>
using namespace pbt;

namespace rig {

Node* cur;
World* world;

uint32_t any_host()
{
    if (src.chance(60)) return src.one_of<uint32_t>({0xC0A80101u, 0xC0A801FEu, 0x7F000001u, 0xDFFFFF01u, 0x01020304u, 0xAC10FF02u, 0x80000001u});
    return (1 + (uint32_t) src.draw(222)) << 24 | (uint32_t) src.draw(1 << 24) >> 6 << 6 | 1;
}
void draw_epoch()
{
    // 1 s, just before 32-bit microseconds overflow (signed, unsigned), days.
    static const int64_t at[] = {1000000, (1ll << 31) - 70000, (1ll << 32) - 70000, 1000000000000ll};
    sim::now = at[pbt::src.draw(4)];
    if (!world) return;
    world->group = pbt::src.one_of<uint32_t>({0xEF010203, 0xE0000109, 0xEFFFFFFE});
    world->mport = pbt::src.one_of<uint16_t>({4723, 1, 65535, 0x8001});
}


void fail_any(std::initializer_list<const char*> ids, const char* fmt, ...)
{
    for (const char* id : ids)
        if (pbt::prop && pbt::on(id)) {
            char b[1000];
            va_list ap;
            va_start(ap, fmt);
            vsnprintf(b, sizeof(b), fmt, ap);
            va_end(ap);
            if (!strcmp(pbt::prop, "ALL")) {
                std::string t = "[";
                for (const char* i : ids) t += std::string(i) + " ";
                pbt::fail(t.c_str(), "%s] %s", t.c_str(), b);
            }
            pbt::fail(id, "%s", b);
        }
}

static std::string ip_str(uint32_t ip)
{
    char b[32];
    snprintf(b, sizeof(b), "%u.%u.%u.%u", ip >> 24, (ip >> 16) & 255, (ip >> 8) & 255, ip & 255);
    return b;
}

void (*on_call)(bool);
Enter::Enter(Node* n_) : n(n_), prev(cur), prev_owner(sim::owner) { cur = n; sim::owner = n->owner; ++n->calls; if (!prev && on_call) on_call(true); }
Enter::~Enter() { if (!prev && n->alive) n->after_call(); if (!prev && on_call) on_call(false); cur = prev; sim::owner = prev_owner; }

// ---------------------------------------------------------------- poll callbacks

static void poll_add_cb(user_data_t ud, int fd, rmc_index_t index, rmc_poll_action_t action)
{
    Node* n = cur;
    if (!n) return;
    note("  %s: poll_add(%d, index %u, action %u)", n->name.c_str(), fd, index, action);
    FAIL_ANY_IF(IDS("C07", "C30"), ud.u64 != n->ud.u64, "%s: poll_add() got user data %llx, the context has %llx", n->name.c_str(), (ull) ud.u64, (ull) n->ud.u64);
    FAILIF("C07", !sim::is_open(fd), "%s: poll_add() of descriptor %d, which is not open", n->name.c_str(), fd);
    FAILIF("C07", n->poll.count(fd), "%s: poll_add() of descriptor %d, which is registered", n->name.c_str(), fd);
    FAILIF("C07", n->has_index(index), "%s: poll_add() with index %u, which is in use", n->name.c_str(), index);
    FAILIF("C07", action & ~3u, "%s: poll_add() with action %u", n->name.c_str(), action);
    n->poll[fd] = PollEnt{fd, index, (unsigned) action & 3, true};
    sim::Fd* f = sim::get(fd);
    if (f && f->conn && world) {
        Link* l = world->link_of(*f->conn);
        if (l && n->is_pub) l->p_index = index;
        else if (l) {
            l->s_index = index;
            if (l->s) l->s->by_index[index].push_back(l);
        }
    }
}

static void poll_modify_cb(user_data_t ud, int fd, rmc_index_t index, rmc_poll_action_t o, rmc_poll_action_t a)
{
    Node* n = cur;
    if (!n) return;
    note("  %s: poll_modify(%d, index %u, %u -> %u)", n->name.c_str(), fd, index, o, a);
    FAIL_ANY_IF(IDS("C07", "C30"), ud.u64 != n->ud.u64, "%s: poll_modify() got user data %llx, the context has %llx", n->name.c_str(), (ull) ud.u64, (ull) n->ud.u64);
    auto it = n->poll.find(fd);
    FAILIF("C07", it == n->poll.end(), "%s: poll_modify() of descriptor %d, which is not registered", n->name.c_str(), fd);
    if (it == n->poll.end()) return;
    FAILIF("C07", it->second.index != index, "%s: poll_modify() of descriptor %d with index %u, it was added with %u", n->name.c_str(), fd, index, it->second.index);
    FAILIF("C07", a & ~3u, "%s: poll_modify() to action %u", n->name.c_str(), a);
    if (n->style == LT_SKIP && o == a) return;
    it->second.interest = a & 3;
    it->second.armed = true;
    sim::elsewhere();
}

static void poll_remove_cb(user_data_t ud, int fd, rmc_index_t index)
{
    Node* n = cur;
    if (!n) return;
    note("  %s: poll_remove(%d, index %u)", n->name.c_str(), fd, index);
    FAIL_ANY_IF(IDS("C07", "C30"), ud.u64 != n->ud.u64, "%s: poll_remove() got user data %llx, the context has %llx", n->name.c_str(), (ull) ud.u64, (ull) n->ud.u64);
    auto it = n->poll.find(fd);
    FAILIF("C07", it == n->poll.end(), "%s: poll_remove() of descriptor %d, which is not registered", n->name.c_str(), fd);
    if (it == n->poll.end()) return;
    FAILIF("C07", it->second.index != index, "%s: poll_remove() of descriptor %d with index %u, it was added with %u", n->name.c_str(), fd, index, it->second.index);
    FAILIF("C07", !sim::is_open(fd), "%s: poll_remove() of descriptor %d after it was closed", n->name.c_str(), fd);
    n->poll.erase(it);
}

// ---------------------------------------------------------------- Node

std::vector<Node::Ev> Node::ready()
{
    std::vector<Ev> r;
    for (auto& e : poll) {
        if (style == ONESHOT && !e.second.armed) continue;
        bool rd = (e.second.interest & RMC_POLLREAD) && sim::readable(e.first);
        bool wr = (e.second.interest & RMC_POLLWRITE) && sim::writable(e.first);
        if (rd || wr) r.push_back(Ev{e.first, e.second.index, rd, wr});
    }
    return r;
}

bool Node::any_ready()
{
    for (auto& e : poll) {
        if (style == ONESHOT && !e.second.armed) continue;
        if ((e.second.interest & RMC_POLLREAD) && sim::readable(e.first)) return true;
        if ((e.second.interest & RMC_POLLWRITE) && sim::writable(e.first)) return true;
    }
    return false;
}

void Node::handle(const Ev& ev, bool read_first)
{
    auto it = poll.find(ev.fd);
    if (it == poll.end() || it->second.index != ev.index) return;
    if (style == ONESHOT) {
        if (!it->second.armed) return;
        it->second.armed = false;
    }
    int res[2] = {0, 0};
    bool did[2] = {false, false};
    for (int k = 0; k < 2; ++k) {
        bool rd = (k == 0) == read_first;
        if (rd ? !ev.read : !ev.write) continue;
        it = poll.find(ev.fd);
        if (it == poll.end() || it->second.index != ev.index) break;
        // Another event of this round may have used up the reason.
        if (rd ? !sim::readable(ev.fd) : !((it->second.interest & RMC_POLLWRITE) && sim::writable(ev.fd))) {
            if (style == ONESHOT && !it->second.armed && !did[0] && !did[1]) it->second.armed = true;
            continue;
        }
        uint8_t op = 0xEE;
        did[k] = true;
        uint8_t* o = calls % 5 == 3 ? 0 : &op;          // not every application wants to know
        res[k] = rd ? do_read(ev.index, o) : do_write(ev.index, o);
        note("%s: %s(index %u) = %d, op %u", name.c_str(), rd ? "read" : "write", ev.index, res[k], op);
        if (!rd && res[k] == ENODATA) {
            FAIL_ANY_IF(IDS("C07"), true, "%s: write interest on index %u with nothing to write", name.c_str(), ev.index);
        }
    }
    if (style == ONESHOT && (did[0] || did[1])) {
        it = poll.find(ev.fd);
        if (it != poll.end() && it->second.index == ev.index && !it->second.armed) {
            if ((res[0] || res[1]) && rearm_on_error) it->second.armed = true;
            else FAILIF("C07", true, "%s: index %u was served successfully but not armed again", name.c_str(), ev.index);
        }
    }
}

void Node::common_after()
{
    if (!use_poll) return;
    std::vector<int> fds = sim::open_fds(owner);
    FAIL_ANY_IF(IDS("C07"), fds.size() != poll.size(), "%s: %zu descriptors open, %zu registered", name.c_str(), fds.size(), poll.size());
    for (int fd : fds) FAILIF("C07", !poll.count(fd), "%s: descriptor %d is open but not registered", name.c_str(), fd);
}

// ---------------------------------------------------------------- publisher

static PubRig* curp() { return cur && cur->is_pub ? (PubRig*) cur : 0; }
static SubRig* curs() { return cur && !cur->is_pub ? (SubRig*) cur : 0; }

struct Release { PubRig* p; Pk* k; };
static std::vector<Release> releases;

static void pub_free_cb(void* payload, payload_len_t len, user_data_t)
{
    PubRig* p = curp();
    FAILIF("C04", !p, "a publisher's release function was called outside of a publisher's call");
    if (!p) return;
    if (p->skipping) { --p->skipping; sim::raw_free(payload); return; }
    auto it = p->by_buf.find(payload);
    FAILIF("C04", it == p->by_buf.end(), "%s: a buffer was released that was never queued or was released before", p->name.c_str());
    if (it == p->by_buf.end()) return;
    Pk* k = it->second;
    note("  %s: release of packet %llu", p->name.c_str(), (ull) k->pid);
    FAILIF("C04", k->freed, "%s: packet %llu was released twice", p->name.c_str(), (ull) k->pid);
    FAILIF("C04", k->len != len, "%s: packet %llu released with length %u, it was queued with %u", p->name.c_str(), (ull) k->pid, len, k->len);
    FAILIF("C04", k->sent_at < 0 && !p->in_delete, "%s: packet %llu was released before it was sent", p->name.c_str(), (ull) k->pid);
    ++k->freed;
    ++p->released;
    releases.push_back(Release{p, k});
    p->by_buf.erase(it);
    sim::raw_free(k->buf);                    // any later access is caught
    k->buf = 0;
    if (p->reenter && !p->in_delete) p->reenter("release", 0);
}

static Link* pub_link_by_addr(PubRig* p, uint32_t ip, uint16_t port)
{
    for (auto it = p->links.rbegin(); it != p->links.rend(); ++it)
        if ((*it)->c->client.ip == ip && (*it)->c->client.port == port) return *it;
    return 0;
}

static Link* last_accepted;
struct OtherThread::State { Node* cur; int owner; sim::Acts acts; std::vector<Release> releases; Link* last_accepted; };
OtherThread::OtherThread() : st(new State{cur, sim::owner, sim::acts, std::vector<Release>(), last_accepted})
{
    st->releases.swap(releases);
    cur = 0; sim::owner = 0; last_accepted = 0;
}
OtherThread::~OtherThread()
{
    cur = st->cur; sim::owner = st->owner; sim::acts = st->acts; releases.swap(st->releases); last_accepted = st->last_accepted;
    delete st;
}


static uint8_t pub_connect_cb(rmc_pub_context_t* ctx, uint32_t ip, in_port_t port)
{
    PubRig* p = curp();
    if (!p) return 1;
    Link* l = last_accepted;
    note("  %s: connect callback %s:%u", p->name.c_str(), ip_str(ip).c_str(), port);
    FAILIF("C15", p->ctx && ctx != p->ctx, "%s: connect callback got another context", p->name.c_str());
    FAILIF("C15", !l, "%s: connect callback without a new connection", p->name.c_str());
    if (!l) return 1;
    FAILIF("C15", l->c->client.ip != ip || l->c->client.port != port, "%s: connect callback reports %s:%u, the subscriber is %s:%u",
        p->name.c_str(), ip_str(ip).c_str(), port, ip_str(l->c->client.ip).c_str(), l->c->client.port);
    last_accepted = 0;
    l->admitted = p->on_connect ? p->on_connect(*l) : true;
    if (p->reenter) p->reenter("connect", l);
    return l->admitted;
}

static void pub_disconnect_cb(rmc_pub_context_t* ctx, uint32_t ip, in_port_t port)
{
    PubRig* p = curp();
    if (!p) return;
    note("  %s: disconnect callback %s:%u", p->name.c_str(), ip_str(ip).c_str(), port);
    FAILIF("C15", ctx != p->ctx, "%s: disconnect callback got another context", p->name.c_str());
    Link* l = pub_link_by_addr(p, ip, port);
    FAILIF("C15", !l, "%s: disconnect callback reports %s:%u, no such subscriber", p->name.c_str(), ip_str(ip).c_str(), port);
    if (!l) return;
    FAILIF("C15", l->disc_reported, "%s: the departure of %s:%u was reported twice", p->name.c_str(), ip_str(ip).c_str(), port);
    l->disc_reported = true;
    if (p->reenter) p->reenter("disconnect", l);
}

static void pub_message_cb(rmc_pub_context_t* ctx, uint32_t ip, uint16_t port, rmc_node_id_t, void* payload, payload_len_t len)
{
    PubRig* p = curp();
    if (!p) return;
    std::string m((const char*) payload, len);
    note("  %s: control message of %u bytes from %s:%u", p->name.c_str(), len, ip_str(ip).c_str(), port);
    FAILIF("C16", ctx != p->ctx, "%s: control message callback got another context", p->name.c_str());
    Link* l = pub_link_by_addr(p, ip, port);
    FAILIF("C16", !l, "%s: control message from %s:%u, no such subscriber", p->name.c_str(), ip_str(ip).c_str(), port);
    if (!l) return;
    if (!l->hostile && l->s) {
        FAIL_ANY_IF(IDS("C16", "C20"), l->msgs.empty(), "%s: control message of %u bytes that was not sent", p->name.c_str(), len);
        if (!l->msgs.empty()) {
            FAIL_ANY_IF(IDS("C16", "C20"), l->msgs.front() != m, "%s: control message of %u bytes differs from the next one sent (%zu bytes)", p->name.c_str(), len, l->msgs.front().size());
            l->msgs.pop_front();
        }
    }
    if (p->on_message) p->on_message(*l, m);
    if (p->reenter) p->reenter("message", l);
    sim::elsewhere();
}

static uint8_t pub_announce_cb(rmc_pub_context_t* ctx, void* payload, payload_len_t max, payload_len_t* len)
{
    PubRig* p = curp();
    if (!p) return 0;
    ++p->ann_calls;
    FAILIF("C13", ctx != p->ctx, "%s: announce callback got another context", p->name.c_str());
    std::vector<uint8_t> d;
    bool send = p->on_announce ? p->on_announce(d) : true;
    FAILIF("C13", d.size() > max, "%s: announce callback offered %u bytes", p->name.c_str(), max);
    memcpy(payload, d.data(), std::min<size_t>(d.size(), max));
    *len = (payload_len_t) d.size();
    if (p->ann_claim > max) {
        // More than there is room for: as much as there is room for is sent.
        d.resize(max);
        for (size_t k = 0; k < d.size(); ++k) ((uint8_t*) payload)[k] = d[k];
        *len = (payload_len_t) p->ann_claim;
        note("  (claims to be %zu bytes)", p->ann_claim);
    }
    note("  %s: announce callback: %s, %zu bytes", p->name.c_str(), send ? "send" : "do not send", d.size());
    if (p->reenter) p->reenter("announce", 0);
    if (send && rmc_pub_traffic_suspended(ctx) != EBUSY)
        p->q0.push_back(PubRig::Ann{0, d});
    return send;
}

int PubRig::create(uint32_t max, bool with_poll)
{
    Enter e(this);
    max_subs = max;
    use_poll = with_poll;
    alive = true;
    std::string g = ip_str(group), l = ip_str(listen_ip), m = ip_str(mcast_if);
    sim::broken_pipes_kill();
    int r = rmc_pub_init_context(&ctx, node_id, (char*) g.c_str(), mport, mcast_if ? (char*) m.c_str() : 0, listen_ip ? (char*) l.c_str() : 0, ctl_port, ud,
        with_poll ? poll_add_cb : 0, with_poll ? poll_modify_cb : 0, with_poll ? poll_remove_cb : 0, max, default_free ? 0 : pub_free_cb);
    sim::process_is_up();
    if (r) { alive = false; ctx = 0; return r; }
    if (use_connect_cb) rmc_pub_set_subscriber_connect_callback(ctx, pub_connect_cb);
    if (use_disconnect_cb) rmc_pub_set_subscriber_disconnect_callback(ctx, pub_disconnect_cb);
    if (want_msgs) rmc_pub_set_control_message_callback(ctx, pub_message_cb);
    if (ann_cb) rmc_pub_set_announce_callback(ctx, pub_announce_cb);
    return 0;
}

int PubRig::activate()
{
    Enter e(this);
    int r = rmc_pub_activate_context(ctx);
    sim::process_is_up();
    note("%s: activate = %d", name.c_str(), r);
    active = !r;
    ttl = -1;
    for (int fd : sim::open_fds(owner)) {
        sim::Fd* f = sim::get(fd);
        if (f && f->kind == sim::LISTEN) ctl_port = f->local.port;
    }
    return r;
}

int PubRig::deactivate()
{
    Enter e(this);
    note("%s: deactivate", name.c_str());
    active = false;
    return rmc_pub_deactivate_context(ctx);
}

void PubRig::destroy()
{
    if (!alive) return;
    note("%s: delete", name.c_str());
    in_delete = true;
    {
        Enter e(this);
        rmc_pub_delete_context(ctx);
        ctx = 0;
        alive = active = false;
    }
    releases.clear();
    FAIL_ANY_IF(IDS("C06"), sim::open_count(owner), "%s: %d descriptors are open after the context was deleted", name.c_str(), sim::open_count(owner));
    FAIL_ANY_IF(IDS("C06", "C07"), !poll.empty(), "%s: descriptor %d is still registered after the context was deleted", name.c_str(), poll.empty() ? 0 : poll.begin()->first);
    for (auto& k : pks) {
        if (default_free) FAIL_ANY_IF(IDS("C04", "C06"), k->buf && k->block == sim::block_id(k->buf), "%s: packet %llu was not released with the context", name.c_str(), (ull) k->pid);
        else FAIL_ANY_IF(IDS("C04", "C06"), k->freed != 1, "%s: packet %llu was released %d times in the life of the context", name.c_str(), (ull) k->pid, k->freed);
    }
    for (Link* l : links) FAILIF("C15", use_disconnect_cb && l->admitted && !l->disc_reported, "%s: the departure of a subscriber was not reported", name.c_str());
}

int PubRig::queue(payload_len_t len, uint64_t seed, bool announce, Pk** out)
{
    std::unique_ptr<Pk> k(new Pk);
    k->len = len;
    k->seed = seed;
    k->announce = announce;
    k->queued_at = sim::now;
    k->copy = bytes(len, seed);
    k->buf = (uint8_t*) (default_free ? sim::lib_malloc(len) : sim::raw_malloc(len));
    k->block = default_free ? sim::block_id(k->buf) : 0;
    if (len) memcpy(k->buf, k->copy.data(), len);
    k->pid = 0;
    by_buf[k->buf] = k.get();
    int r;
    {
        Enter e(this);
        // The ledger knows it before the call, since the call's own checks look at it.
        if (!announce) { k->pid = next_pid; q.push_back(k.get()); } else q0.push_back(Ann{k.get(), k->copy});
        r = rmc_pub_queue_packet(ctx, k->buf, len, announce);
        if (r) { if (!announce) q.pop_back(); else q0.pop_back(); }
        else if (!announce) { by_pid[next_pid] = k.get(); ++next_pid; }
        note("%s: queue %s of %u bytes = %d%s", name.c_str(), announce ? "announcement" : "packet", len, r, r || announce ? "" : (" as " + std::to_string(k->pid)).c_str());
    }
    if (r) {
        FAIL_ANY_IF(IDS("C04", "C12"), k->freed, "%s: a refused packet was released", name.c_str());
        by_buf.erase(k->buf);
        if (k->buf) { if (default_free) free(k->buf); else sim::raw_free(k->buf); }
        return r;
    }
    if (out) *out = k.get();
    pks.push_back(std::move(k));
    return 0;
}

void PubRig::skip_ahead(uint64_t n)
{
    note("%s: sends %llu packets to nobody", name.c_str(), (ull) n);
    Enter e(this);
    uint64_t want = next_send + n;
    skipping = default_free ? 1 : n + 1;
    for (uint64_t k = 0; k < n; ++k) {
        uint8_t* byte = (uint8_t*) (default_free ? sim::lib_malloc(1) : sim::raw_malloc(1));
        *byte = (uint8_t) k;
        int r = rmc_pub_queue_packet(ctx, byte, 1, 0);
        FAIL_ANY_IF(IDS("C01", "C12", "C27"), r, "%s: queueing packet %llu to nobody returned %d", name.c_str(), (ull) (next_pid + k), r);
        if (r) break;
        if (k % 64 == 63 || k + 1 == n) { r = rmc_pub_write(ctx, MC, 0); FAIL_ANY_IF(IDS("C01", "C10", "C27"), r, "%s: writing returned %d", name.c_str(), r); if (r) break; }
    }
    FAIL_ANY_IF(IDS("C01", "C10", "C27"), next_send != want, "%s: %llu packets were queued and written, and the next one to be sent is %llu, not %llu", name.c_str(), (ull) n, (ull) next_send, (ull) want);
    if (!default_free) FAIL_ANY_IF(IDS("C04", "C09"), skipping != 1, "%s: %llu of %llu packets sent to nobody were not released", name.c_str(), (ull) skipping - 1, (ull) n);
    skipping = 0;
    next_send = next_pid = want;
}

// ---- what a read or write call reports

struct OpWatch {                              // lives as long as the call
    Node* n; rmc_index_t i; const char* what;
    Link* l = 0;                              // the connection with that index
    bool complete = false;
    std::set<std::pair<uint32_t, uint16_t>> up;   // publishers whose connection is complete
    OpWatch(Node* n_, rmc_index_t i_, const char* w) : n(n_), i(i_), what(w)
    {
        sim::acts = sim::Acts();
        if (n->is_pub) { for (Link* k : ((PubRig*) n)->links) if (k->p_open && k->p_index == i) l = k; return; }
        for (Link* k : ((SubRig*) n)->links) {
            if (!k->s_open) continue;
            if (k->s_index == i) l = k;
            if (k->complete) up.insert({k->c->server.ip, k->c->server.port});
        }
        complete = l && l->complete;
    }
    // What failed system calls may do to the connection.
    void after(int r, bool reading)
    {
        if (sim::acts.failed.empty() || n->reenter) return;
        bool soft = true, hard = false;
        for (auto& f : sim::acts.failed) {
            if (f.second != EAGAIN && f.second != EINTR && (f.first == "readv" || f.second != ENOBUFS)) soft = false;
            if (f.first != "readv" && f.first != "writev" && f.first != "recvfrom" && f.first != "sendmsg") soft = false;
            if (f.first == "readv" && f.second != EAGAIN && f.second != EINTR) hard = true;
        }
        if (!l) return;
        bool open = n->is_pub ? l->p_open : l->s_open;
        FAILIF("C32", soft && !open && !sim::acts.rx, "%s: %s(index %u) = %d closed the connection, although %s() only failed with error %d", n->name.c_str(), what, i, r, sim::acts.failed[0].first.c_str(), sim::acts.failed[0].second);
        FAIL_ANY_IF(IDS("C32", "C15"), reading && hard && open, "%s: %s(index %u) = %d left the connection open, although readv() failed with error %d", n->name.c_str(), what, i, r, sim::acts.failed.back().second);
    }
    void bad(int r, uint8_t op, const char* want)
    {
        FAILIF("C35", true, "%s: %s(index %u) = %d is reported as operation %u, it should be %s (%d connections accepted, %zu bytes read, %zu bytes written, %d datagrams sent, %zu received)",
            n->name.c_str(), what, i, r, op, want, sim::acts.accepted, sim::acts.rx, sim::acts.tx, sim::acts.sent, sim::acts.dgrams.size());
    }
    void is(int r, uint8_t op, uint8_t want)
    {
        static const char* nm[] = {"ERROR", "READ_MULTICAST", "READ_MULTICAST_LOOPBACK", "READ_MULTICAST_NEW", "READ_MULTICAST_NOT_READY", "READ_TCP", "READ_ACCEPT", "READ_DISCONNECT", "WRITE_MULTICAST", "COMPLETE_CONNECTION", "WRITE_TCP"};
        if (op != want) bad(r, op, nm[want]);
    }
    void conn_read(int r, uint8_t op)
    {
        if (!n->use_poll) return;             // then indexes are not known
        bool open = l && (n->is_pub ? l->p_open : l->s_open);
        if (!l || (!n->is_pub && !complete)) { FAILIF("C35", !r, "%s: reading index %u, which has no connection, succeeded", n->name.c_str(), i); is(r, op, RMC_ERROR); return; }
        if (r && r != EAGAIN) { is(r, op, RMC_ERROR); return; }
        if (r) { if (op != RMC_ERROR) is(r, op, RMC_READ_TCP); return; }
        is(r, op, sim::acts.rx ? RMC_READ_TCP : RMC_READ_DISCONNECT);
        FAILIF("C35", !sim::acts.rx && open && !n->reenter, "%s: a disconnect is reported, but the connection is open", n->name.c_str());
    }
    void conn_write(int r, uint8_t op)
    {
        if (r) is(r, op, RMC_ERROR);
        else if (sim::acts.tx) is(r, op, RMC_WRITE_TCP);
    }
    void sub_mcast_read(int r, uint8_t op)
    {
        int last = -1;                        // the last datagram that says anything: 1 of a subscribed publisher, 0 not
        bool malformed = false;
        for (auto& d : sim::acts.dgrams) {
            malformed = d.data.size() < (size_t) wire::HDR;
            if (malformed) continue;
            wire::Hdr h = wire::get_hdr(d.data.data());
            malformed = d.data.size() < (size_t) wire::HDR + h.len;
            if (!malformed) last = up.count({h.ip ? h.ip : d.src.ip, h.port});
        }
        if (r) { if (last < 0) is(r, op, RMC_ERROR); return; }
        if (last < 0) { if (op != RMC_ERROR) bad(r, op, "ERROR"); return; }
        if (n->reenter || !n->use_poll) return; // a callback may have closed it meanwhile; whether it is complete is not known
        if (last) is(r, op, RMC_READ_MULTICAST);
        else if (op != RMC_READ_MULTICAST_NEW) is(r, op, RMC_READ_MULTICAST_NOT_READY);
    }
};
int PubRig::do_read(rmc_index_t i, uint8_t* op_)
{
    OpWatch w(this, i, "read");
    Enter e(this);
    last_accepted = 0;
    uint8_t op = 0xEE;
    int r = rmc_pub_read(ctx, i, op_ ? &op : 0);
    w.after(r, true);
    if (op_) {
        *op_ = op;
        if (i == LI) {
            FAILIF("C35", !r && sim::acts.accepted != 1, "%s: accepting succeeded, %d connections were accepted", name.c_str(), sim::acts.accepted);
            w.is(r, op, r ? RMC_ERROR : RMC_READ_ACCEPT);
        } else if (i == MC) { if (r || (op != RMC_READ_MULTICAST && op != RMC_READ_MULTICAST_LOOPBACK)) w.is(r, op, r ? RMC_ERROR : RMC_READ_MULTICAST); }
        else w.conn_read(r, op);
    }
    // Without a connect callback a connection that could not be set up was never admitted.
    if (last_accepted && !use_connect_cb && !last_accepted->p_open) last_accepted->admitted = false;
    return r;
}
int PubRig::do_write(rmc_index_t i, uint8_t* op_)
{
    OpWatch w(this, i, "write");
    Enter e(this);
    uint8_t op = 0xEE;
    int r = rmc_pub_write(ctx, i, op_ ? &op : 0);
    w.after(r, false);
    if (!op_) return r;
    *op_ = op;
    if (i == MC) {
        if (r && !sim::acts.sent) w.is(r, op, RMC_ERROR);
        else if (!r && sim::acts.sent) w.is(r, op, RMC_WRITE_MULTICAST);
    } else {
        FAILIF("C35", use_poll && !w.l && !r, "%s: writing index %u, which has no connection, succeeded", name.c_str(), i);
        w.conn_write(r, op);
    }
    return r;
}
int PubRig::do_timeouts()
{
    Enter e(this);
    last_timeouts = sim::now;
    timeouts_at.push_back(sim::now);
    int r = rmc_pub_timeout_process(ctx);
    note("%s: timers served at %lld = %d", name.c_str(), (long long) sim::now, r);
    return r;
}
int64_t PubRig::deadline()
{
    usec_timestamp_t t = -1;
    Enter e(this);
    rmc_pub_timeout_get_next(ctx, &t);
    return t;
}
int PubRig::close_connection(rmc_index_t i) { Enter e(this); note("%s: close_connection(%u)", name.c_str(), i); return rmc_pub_close_connection(ctx, i); }

size_t PubRig::open_links() { size_t n = 0; for (Link* l : links) n += l->p_open; return n; }

bool PubRig::could_resend(const Pk& k, int64_t t)
{
    auto it = std::lower_bound(timeouts_at.begin(), timeouts_at.end(), k.sent_at + 100000);
    return it != timeouts_at.end() && *it <= t;
}

size_t PubRig::unreleased()
{
    size_t n = 0;
    for (auto& k : pks) n += k->sent_at >= 0 && !k->freed;
    return n;
}

void PubRig::after_call()
{
    common_after();
    // Was everything released in this call allowed to be?
    std::vector<Release> rel;
    rel.swap(releases);
    for (auto& r : rel) {
        if (r.p != this) continue;
        for (int li : r.k->refs) {
            Link* l = world->links[li].get();
            if (!l->p_open || l->hostile || l->acked_read.count(r.k->pid)) continue;
            FAILIF("C04", !could_resend(*r.k, sim::now), "%s: packet %llu was released although a connected subscriber has neither acknowledged it nor been resent it",
                name.c_str(), (ull) r.k->pid);
            if (!l->resent.count(r.k->pid)) l->owed.insert(r.k->pid);
        }
    }
    if (!ctx) return;
    uint32_t nq = 12345, nb = 12345, na = 12345;
    int busy = rmc_pub_context_get_pending(ctx, &nq, &nb, &na);
    if (implicit_ann && nq == q.size() + q0.size() + 1) q0.push_back(Ann{0, {}});
    FAILIF("C09", nq != q.size() + q0.size(), "%s: %u packets reported as queued, there are %zu", name.c_str(), nq, q.size() + q0.size());
    FAILIF("C09", rmc_pub_queue_length(ctx) != nq, "%s: the queue length is %u, %u packets are reported as queued", name.c_str(), rmc_pub_queue_length(ctx), nq);
    FAILIF("C09", !!busy != (nq || nb || na), "%s: busy is %d with %u packets queued, %u bytes to write, %u acknowledgements missing", name.c_str(), busy, nq, nb, na);
    if (links.size() > 100 && ++n_after % 25) return;       // with this many, looking at everything after every call takes too long
    size_t lo = 0, hi = 0;
    for (Link* l : links) {
        if (!l->p_open) continue;
        for (packet_id_t id : l->outstanding) {
            ++hi;
            if (!l->hostile && !could_resend(*by_pid[id], sim::now)) ++lo;
        }
    }
    FAILIF("C09", na < lo || na > hi, "%s: %u acknowledgements reported as missing, %zu to %zu are", name.c_str(), na, lo, hi);
    // Released as soon as nobody needs it?
    for (auto& k : pks) {
        if (k->sent_at < 0 || k->freed || k->announce) continue;
        bool needed = false;
        for (int li : k->refs) {
            Link* l = world->links[li].get();
            if (l->p_open && (l->hostile || l->outstanding.count(k->pid))) { needed = true; break; }
        }
        if (needed) continue;
        if (default_free) { FAILIF("C04", k->block == sim::block_id(k->buf), "%s: packet %llu is settled but was not released", name.c_str(), (ull) k->pid); k->freed = 1; k->buf = 0; continue; }
        FAILIF("C04", true, "%s: packet %llu is settled with every subscriber but was not released", name.c_str(), (ull) k->pid);
    }
    for (auto& k : pks)
        if (k->announce && k->sent_at >= 0 && !k->freed) {
            if (default_free) { FAILIF("C04", k->block == sim::block_id(k->buf), "%s: an announcement was sent but not released", name.c_str()); k->freed = 1; k->buf = 0; }
            else FAILIF("C04", true, "%s: an announcement was sent but not released", name.c_str());
        }
    size_t open = open_links();
    FAILIF("C15", rmc_pub_get_subscriber_count(ctx) != open, "%s: %u subscribers reported, %zu are connected", name.c_str(), rmc_pub_get_subscriber_count(ctx), open);
    FAIL_ANY_IF(IDS("C30", "C06"), rmc_pub_get_socket_count(ctx) != (uint32_t) sim::open_count(owner), "%s: %u sockets reported, %d are open", name.c_str(), rmc_pub_get_socket_count(ctx), sim::open_count(owner));
    for (Link* l : links) {
        FAILIF("C15", l->accepted && !l->admitted && l->p_open, "%s: a rejected subscriber is still connected", name.c_str());
        FAILIF("C15", use_disconnect_cb && l->admitted && !l->p_open && !l->disc_reported, "%s: the departure of %s:%u was not reported", name.c_str(), ip_str(l->c->client.ip).c_str(), l->c->client.port);
    }
    if (use_poll) {
        bool any_w = false;
        for (auto& e : poll) {
            if (e.second.index == MC)
                FAILIF("C07", !!(e.second.interest & RMC_POLLWRITE) != (nq > 0), "%s: %u packets queued, write interest on the multicast socket is %s", name.c_str(), nq, e.second.interest & RMC_POLLWRITE ? "set" : "not set");
            else {
                FAILIF("C07", !(e.second.interest & RMC_POLLREAD), "%s: no read interest on index %u", name.c_str(), e.second.index);
                if (e.second.index != LI && (e.second.interest & RMC_POLLWRITE)) any_w = true;
            }
        }
        FAILIF("C07", any_w != (nb > 0), "%s: %u bytes wait to be written, write interest is %s", name.c_str(), nb, any_w ? "set" : "not set");
    }
}

// ---------------------------------------------------------------- subscriber

static void* sub_alloc_cb(payload_len_t len, user_data_t ud)
{
    SubRig* s = curs();
    FAILIF("C05", !s, "a subscriber's allocation function was called outside of a subscriber's call");
    uint8_t* p = (uint8_t*) (s && !s->cb_free ? sim::lib_malloc(len) : sim::raw_malloc(len));   // without a release function the library calls free()
    if (!s) return p;
    FAIL_ANY_IF(IDS("C05", "C30"), ud.u64 != s->ud.u64, "%s: allocation function got user data %llx, the context has %llx", s->name.c_str(), (ull) ud.u64, (ull) s->ud.u64);
    if (len) memset(p, 0xA5, len);
    s->bufs[p] = Buf{p, len, false, false, s->cb_free ? 0 : sim::block_id(p)};
    if (s->reenter && !s->in_delete) s->reenter("allocation", 0);
    sim::elsewhere();
    return p;
}

static void sub_free_cb(void* payload, payload_len_t len, user_data_t ud)
{
    SubRig* s = curs();
    FAILIF("C05", !s, "a subscriber's release function was called outside of a subscriber's call");
    if (!s) return;
    FAIL_ANY_IF(IDS("C05", "C30"), ud.u64 != s->ud.u64, "%s: release function got user data %llx, the context has %llx", s->name.c_str(), (ull) ud.u64, (ull) s->ud.u64);
    if (!s->cb_alloc) {                       // the library's own malloc()
        FAILIF("C05", !sim::block_id(payload), "%s: a buffer was released that was not allocated or was released before", s->name.c_str());
        FAILIF("C05", std::count(s->kept.begin(), s->kept.end(), payload) != 0, "%s: a buffer was released that the application had kept", s->name.c_str());
        free(payload);
        if (s->reenter && !s->in_delete) s->reenter("release", 0);
        return;
    }
    auto it = s->bufs.find(payload);
    FAILIF("C05", it == s->bufs.end(), "%s: a buffer was released that was not allocated or was released before", s->name.c_str());
    if (it == s->bufs.end()) return;
    FAILIF("C05", it->second.kept, "%s: a buffer was released that the application had kept", s->name.c_str());
    FAILIF("C05", it->second.len != len, "%s: a buffer of %u bytes was released as %u bytes", s->name.c_str(), it->second.len, len);
    s->bufs.erase(it);
    sim::raw_free(payload);
    if (s->reenter && !s->in_delete) s->reenter("release", 0);
}

static uint8_t sub_announce_cb(rmc_sub_context_t* ctx, uint32_t ip, in_port_t port, rmc_node_id_t node, void* payload, payload_len_t len)
{
    SubRig* s = curs();
    if (!s) return 1;
    ++s->announces;
    FAILIF("C14", ctx != s->ctx, "%s: announce callback got another context", s->name.c_str());
    std::string m((const char*) payload, len);
    note("  %s: announce callback %s:%u node %u, %u bytes", s->name.c_str(), ip_str(ip).c_str(), port, node, len);
    bool yes = s->on_announce ? s->on_announce(ip, port, node, m) : 1;
    if (s->reenter) s->reenter("announce", 0);
    return yes;
}

static void sub_complete_cb(rmc_sub_context_t* ctx, uint32_t ip, in_port_t port, rmc_node_id_t node)
{
    SubRig* s = curs();
    if (!s) return;
    ++s->completes;
    note("  %s: subscription complete %s:%u node %u", s->name.c_str(), ip_str(ip).c_str(), port, node);
    FAILIF("C14", ctx != s->ctx, "%s: subscription complete callback got another context", s->name.c_str());
    Link* hit = 0;
    for (Link* l : s->links)
        if (l->s_open && !l->complete && l->c->server.ip == ip && l->c->server.port == port) hit = l;
    FAILIF("C14", !hit, "%s: subscription complete for %s:%u, which is not being connected", s->name.c_str(), ip_str(ip).c_str(), port);
    if (hit) { hit->complete = true; hit->complete_at = sim::now; }
    if (s->on_complete) s->on_complete(ip, port, node);
    if (s->reenter) s->reenter("complete", hit);
}

static void sub_ready_cb(rmc_sub_context_t* ctx)
{
    SubRig* s = curs();
    if (!s) return;
    ++s->ready_calls;
    FAIL_ANY_IF(IDS("C01", "C30"), ctx != s->ctx, "%s: packet ready callback got another context", s->name.c_str());
    FAIL_ANY_IF(IDS("C01", "C30"), !rmc_sub_get_dispatch_ready_count(ctx), "%s: packet ready callback without a ready packet", s->name.c_str());
    if (s->on_ready) s->on_ready();
    if (s->reenter) s->reenter("ready", 0);
    sim::elsewhere();
}

int SubRig::create(uint32_t max, bool with_poll)
{
    Enter e(this);
    max_pubs = max;
    use_poll = with_poll;
    alive = true;
    std::string g = ip_str(group), m = ip_str(mcast_if);
    sim::broken_pipes_kill();
    int r = rmc_sub_init_context(&ctx, node_id, (char*) g.c_str(), mport, mcast_if ? (char*) m.c_str() : 0, ud,
        with_poll ? poll_add_cb : 0, with_poll ? poll_modify_cb : 0, with_poll ? poll_remove_cb : 0, max,
        cb_alloc ? sub_alloc_cb : 0, cb_free ? sub_free_cb : 0);
    sim::process_is_up();
    if (r) { alive = false; ctx = 0; return r; }
    if (use_announce_cb) rmc_sub_set_announce_callback(ctx, sub_announce_cb);
    if (use_complete_cb) rmc_sub_set_subscription_complete_callback(ctx, sub_complete_cb);
    if (use_ready_cb) rmc_sub_set_packet_ready_callback(ctx, sub_ready_cb);
    return 0;
}
int SubRig::activate() { Enter e(this); int r = rmc_sub_activate_context(ctx); sim::process_is_up(); note("%s: activate = %d", name.c_str(), r); if (!r) active = true; return r; }
int SubRig::deactivate() { Enter e(this); note("%s: deactivate", name.c_str()); active = false; return rmc_sub_deactivate_context(ctx); }

void SubRig::release_kept()
{
    for (void* p : kept) {
        auto it = bufs.find(p);
        if (it != bufs.end()) bufs.erase(it);
        if (cb_alloc && cb_free) sim::raw_free(p); else free(p);
    }
    kept.clear();
}

void SubRig::destroy()
{
    if (!alive) return;
    note("%s: delete", name.c_str());
    in_delete = true;
    {
        Enter e(this);
        rmc_sub_delete_context(ctx);
        ctx = 0;
        alive = active = false;
    }
    for (auto it = bufs.begin(); it != bufs.end();)       // given back with free()
        if (it->second.block && !it->second.kept && sim::block_id(it->first) != it->second.block) it = bufs.erase(it); else ++it;
    release_kept();
    FAIL_ANY_IF(IDS("C06"), sim::open_count(owner), "%s: %d descriptors are open after the context was deleted", name.c_str(), sim::open_count(owner));
    FAIL_ANY_IF(IDS("C06", "C07"), !poll.empty(), "%s: descriptor %d is still registered after the context was deleted", name.c_str(), poll.empty() ? 0 : poll.begin()->first);
    FAIL_ANY_IF(IDS("C05", "C06"), !bufs.empty(), "%s: %zu payload buffers were not released with the context", name.c_str(), bufs.size());
}

int SubRig::do_read(rmc_index_t i, uint8_t* op_)
{
    OpWatch w(this, i, "read");
    Enter e(this);
    uint8_t op = 0xEE;
    int r = rmc_sub_read(ctx, i, op_ ? &op : 0);
    w.after(r, true);
    if (!op_) return r;
    *op_ = op;
    if (i == MC) w.sub_mcast_read(r, op); else w.conn_read(r, op);
    return r;
}
int SubRig::do_write(rmc_index_t i, uint8_t* op_)
{
    OpWatch w(this, i, "write");
    uint8_t op = 0xEE;
    Link* l = 0;
    for (Link* x : links) if (x->s_open && x->s_index == i) l = x;
    bool connecting = l && !l->complete;
    Enter e(this);
    int r = rmc_sub_write(ctx, i, op_ ? &op : 0);
    w.after(r, false);
    if (op_) {
        *op_ = op;
        FAILIF("C35", use_poll && !l && !r, "%s: writing index %u, which has no connection, succeeded", name.c_str(), i);
        if (connecting) w.is(r, op, r ? RMC_ERROR : RMC_COMPLETE_CONNECTION); else w.conn_write(r, op);
    }
    if (connecting && !r && l->s_open && !use_complete_cb) { l->complete = true; l->complete_at = sim::now; }
    if (connecting && !r && l->s_open) FAILIF("C14", !l->complete, "%s: the connection is up, but the subscription complete callback was not called", name.c_str());
    if (r && r != ENODATA && r != EAGAIN && r != EWOULDBLOCK && r != EINTR && r != ENOBUFS && r != ENOMEM && rmc_sub_get_publisher_count(ctx) && has_index(i)) {
        // What the application does on a broken connection.
        rmc_sub_close_connection(ctx, i);
    }
    return r;
}
int SubRig::do_timeouts() { Enter e(this); int r = rmc_sub_timeout_process(ctx); note("%s: timers served at %lld = %d", name.c_str(), (long long) sim::now, r); return r; }
int64_t SubRig::deadline() { usec_timestamp_t t = -1; Enter e(this); rmc_sub_timeout_get_next(ctx, &t); return t; }
int SubRig::close_connection(rmc_index_t i) { Enter e(this); note("%s: close_connection(%u)", name.c_str(), i); return rmc_sub_close_connection(ctx, i); }
size_t SubRig::ready_count() { return (size_t) rmc_sub_get_dispatch_ready_count(ctx); }

void SubRig::after_call()
{
    common_after();
    if (!ctx) return;
    size_t open = 0;
    for (Link* l : links) open += l->s_open;
    FAIL_ANY_IF(IDS("C14", "C30"), rmc_sub_get_publisher_count(ctx) != open, "%s: %u publishers reported, %zu connections exist", name.c_str(), rmc_sub_get_publisher_count(ctx), open);
    FAIL_ANY_IF(IDS("C30", "C06"), rmc_sub_get_socket_count(ctx) != (uint32_t) sim::open_count(owner), "%s: %u sockets reported, %d are open", name.c_str(), rmc_sub_get_socket_count(ctx), sim::open_count(owner));
    if (use_poll) for (auto& e : poll) {
        sim::Fd* f = sim::get(e.first);
        if (!f) continue;
        Link* l = f->conn ? world->link_of(*f->conn) : 0;
        if (l && !l->complete) FAILIF("C07", !(e.second.interest & RMC_POLLWRITE), "%s: no write interest on connecting index %u", name.c_str(), e.second.index);
        else FAILIF("C07", !(e.second.interest & RMC_POLLREAD), "%s: no read interest on index %u", name.c_str(), e.second.index);
    }
}

int SubRig::message(Link& l, const std::string& m, bool by_node)
{
    Enter e(this);
    std::unique_ptr<char[]> copy(new char[m.size()]);
    memcpy(copy.get(), m.data(), m.size());
    l.msgs.push_back(m);
    l.msgs_wire.push_back(m);
    int r = by_node ? rmc_sub_write_control_message_by_node_id(ctx, l.node, copy.get(), (payload_len_t) m.size())
                    : rmc_sub_write_control_message_by_address(ctx, l.c->server.ip, l.c->server.port, copy.get(), (payload_len_t) m.size());
    note("%s: control message of %zu bytes = %d", name.c_str(), m.size(), r);
    if (r) { l.msgs.pop_back(); l.msgs_wire.pop_back(); }
    return r;
}

void SubRig::check_delivery(sub_packet_t* pk)
{
    int idx = (int) sub_packet_user_data(pk).u32;
    packet_id_t pid = pk->pid;
    uint8_t* data = (uint8_t*) rmc_sub_packet_payload(pk);
    payload_len_t len = rmc_sub_packet_payload_len(pk);
    ++delivered;
    note("%s: packet %llu of index %d, %u bytes", name.c_str(), (ull) pid, idx, len);
    if (cb_alloc) {
        auto it = bufs.find(data);
        if (it != bufs.end() && it->second.block && it->second.block != sim::block_id(data)) it = bufs.end();
        FAILIF("C05", it == bufs.end(), "%s: packet %llu is handed out with a buffer that was given back", name.c_str(), (ull) pid);
        FAIL_ANY_IF(IDS("C05", "C02"), it != bufs.end() && it->second.len != len, "%s: packet %llu of %u bytes is in a buffer of %u", name.c_str(), (ull) pid, len, it->second.len);
    }
    auto& hist = by_index[idx];
    size_t& at = di[idx];
    Link* hit = 0;
    for (size_t k = at; k < hist.size(); ++k) {
        Link* l = hist[k];
        // What a publisher sends after it closed the connection is not owed to the subscriber.
        bool unowed = !l->next && !l->p_open && pid >= l->first && l->p && (!l->p->by_pid.count(pid) || !l->p->by_pid[pid]->refs.count(l->id));
        if ((l->next ? pid == l->next : pid == l->first || unowed) && (l->rx_mc.count(pid) || l->rx_tcp.count(pid))) { hit = l; at = k; break; }
    }
    if (!hit) {
        Link* l = at < hist.size() ? hist[at] : 0;
        FAIL_ANY_IF(IDS("C01", "C22", "C32", "C20"), true, "%s: packet %llu of index %d was handed out, packet %llu is next", name.c_str(), (ull) pid, idx,
            (ull) (l ? (l->next ? l->next : l->first) : 0));
        return;
    }
    hit->next = pid + 1;
    auto k = hit->p ? hit->p->by_pid.find(pid) : decltype(hit->p->by_pid.find(pid))();
    if (!hit->p) return;
    FAIL_ANY_IF(IDS("C01"), k == hit->p->by_pid.end() || k->second->sent_at < 0, "%s: packet %llu was handed out, it was never sent", name.c_str(), (ull) pid);
    if (k == hit->p->by_pid.end()) return;
    FAIL_ANY_IF(IDS("C02", "C22", "C20", "C32"), len != k->second->len, "%s: packet %llu has %u bytes, %u were queued", name.c_str(), (ull) pid, len, k->second->len);
    size_t n = std::min<size_t>(len, k->second->copy.size());
    if (n && memcmp(data, k->second->copy.data(), n)) {
        size_t b = 0;
        while (data[b] == k->second->copy[b]) ++b;
        fail_any({"C02", "C22", "C20", "C32"}, "%s: packet %llu differs from what was queued at byte %zu of %u", name.c_str(), (ull) pid, b, len);
    }
}

size_t SubRig::drain(size_t n)
{
    size_t done = 0;
    while (done < n) {
        Enter e(this);
        size_t c = (size_t) rmc_sub_get_dispatch_ready_count(ctx);
        sub_packet_t* pk = rmc_sub_get_next_dispatch_ready(ctx);
        FAIL_ANY_IF(IDS("C01", "C30"), !!pk != (c > 0), "%s: %zu packets ready, the next one is %s", name.c_str(), c, pk ? "there" : "missing");
        if (!pk) break;
        if (on_deliver) on_deliver(pk); else check_delivery(pk);
        void* data = rmc_sub_packet_payload(pk);
        bool keep = keep_pct && src.chance(keep_pct);
        if (keep) {
            auto it = bufs.find(data);
            if (it != bufs.end()) it->second.kept = true;
            kept.push_back(data);
        }
        uint64_t block = sim::block_id(data), before = taken;
        int r = keep ? rmc_sub_packet_dispatched_keep_payload(ctx, pk) : rmc_sub_packet_dispatched(ctx, pk);
        FAIL_ANY_IF(IDS("C01", "C30"), r, "%s: dispatching the next packet failed: %d", name.c_str(), r);
        if (!keep) FAILIF("C05", cb_alloc && cb_free ? bufs.count(data) != 0 : block && sim::block_id(data) == block, "%s: the payload of a dispatched packet was not released", name.c_str());
        size_t n_in = (size_t) (taken - before);      // by callbacks
        FAIL_ANY_IF(IDS("C01", "C30"), (size_t) rmc_sub_get_dispatch_ready_count(ctx) != c - 1 - n_in, "%s: %d packets ready after %zu of %zu were dispatched", name.c_str(), rmc_sub_get_dispatch_ready_count(ctx), n_in + 1, c);
        ++taken;
        ++done;
        if (r) break;
    }
    return done;
}

// ---------------------------------------------------------------- World

World::World() { world = this; sim::obs = this; cur = 0; releases.clear(); last_accepted = 0; }
World::~World() { sim::paused = 0; world = 0; cur = 0; }

PubRig* World::add_pub(uint32_t ip, uint16_t port, uint32_t node_id)
{
    PubRig* p = new PubRig;
    nodes.emplace_back(p);
    p->owner = next_owner++;
    p->ip = ip; p->is_pub = true; p->node_id = node_id; p->ctl_port = port; p->listen_ip = 0;
    p->group = group; p->mport = mport;
    p->ud = user_data_u64(0x5000000000000000ull + p->owner);
    p->name = "P" + std::to_string(p->owner);
    sim::owner_ip[p->owner] = ip;
    by_owner[p->owner] = p;
    return p;
}
SubRig* World::add_sub(uint32_t ip, uint32_t node_id)
{
    SubRig* s = new SubRig;
    nodes.emplace_back(s);
    s->owner = next_owner++;
    s->ip = ip; s->is_pub = false; s->node_id = node_id;
    s->group = group; s->mport = mport;
    s->ud = user_data_u64(0x6000000000000000ull + s->owner);
    s->name = "S" + std::to_string(s->owner);
    sim::owner_ip[s->owner] = ip;
    by_owner[s->owner] = s;
    return s;
}

Link* World::link_of(sim::Conn& c)
{
    auto it = by_conn.find(&c);
    if (it != by_conn.end()) return it->second;
    Link* l = new Link;
    l->id = (int) links.size();
    l->c = &c;
    links.emplace_back(l);
    by_conn[&c] = l;
    auto p = by_owner.find(c.owner[1]);
    if (p != by_owner.end() && p->second->is_pub) { l->p = (PubRig*) p->second; l->p->links.push_back(l); }
    auto s = by_owner.find(c.owner[0]);
    if (s != by_owner.end() && !s->second->is_pub) { l->s = (SubRig*) s->second; l->s->links.push_back(l); }
    return l;
}

void World::connect_started(sim::Conn& c)
{
    Link* l = link_of(c);
    l->s_open = true;
    note("  connect to %s:%u", ip_str(c.server.ip).c_str(), c.server.port);
    if (l->s) l->node = l->s->last_announced;
    if (l->s)
        for (Link* o : l->s->links)
            FAILIF("C14", o != l && o->s_open && o->c->server.ip == c.server.ip && o->c->server.port == c.server.port,
                "%s: second control connection to %s:%u", l->s->name.c_str(), ip_str(c.server.ip).c_str(), c.server.port);
}

void World::accepted(sim::Conn& c)
{
    Link* l = link_of(c);
    l->accepted = l->p_open = true;
    l->accepted_at = sim::now;
    last_accepted = l;
    if (l->p) {
        l->first = l->p->next_send;
        l->admitted = !l->p->use_connect_cb;
        FAIL_ANY_IF(IDS("C29"), l->p->open_links() > l->p->max_subs, "%s: %zu connections, the limit is %u", l->p->name.c_str(), l->p->open_links(), l->p->max_subs);
    }
}

static uint64_t hash_of(const uint8_t* d, size_t n) { uint64_t h = n; for (size_t k = 0; k < n; ++k) h = h * 0x100000001B3ull + d[k]; return h; }

void World::mcast_sent(sim::Fd& f, const uint8_t* d, size_t n)
{
    if (pbt::capture) note("  at %lld multicast %zu bytes %llx", (long long) sim::now, n, (ull) hash_of(d, n));
    auto it = by_owner.find(f.owner);
    if (it == by_owner.end() || !it->second->is_pub) return;
    PubRig* p = (PubRig*) it->second;
    if (p->skipping) {
        packet_id_t id = n < (size_t) wire::HDR ? 0 : wire::get_hdr(d).pid;
        FAIL_ANY_IF(IDS("C01", "C10", "C27", "C28"), id != p->next_send, "%s: datagram %llu was sent, %llu is next", p->name.c_str(), (ull) id, (ull) p->next_send);
        ++p->next_send;
        return;
    }
    FAIL_ANY_IF(IDS("C33", "C28", "C13"), sim::dst.ip != p->group || sim::dst.port != p->mport, "%s: datagram sent to %s:%u, not to the group %s:%u", p->name.c_str(), ip_str(sim::dst.ip).c_str(), sim::dst.port, ip_str(p->group).c_str(), p->mport);
    FAIL_ANY_IF(IDS("C33"), f.mcast_if != p->mcast_if, "%s: datagram sent through interface %s, not %s", p->name.c_str(), ip_str(f.mcast_if).c_str(), ip_str(p->mcast_if).c_str());
    FAIL_ANY_IF(IDS("C33", "C30"), p->ttl >= 0 && f.ttl != p->ttl, "%s: datagram sent with TTL %d, not %d", p->name.c_str(), f.ttl, p->ttl);
    FAIL_ANY_IF(IDS("C28", "C02"), n < wire::HDR, "%s: datagram of %zu bytes", p->name.c_str(), n);
    if (n < wire::HDR) return;
    wire::Hdr h = wire::get_hdr(d);
    note("  %s: datagram id %llu, %zu bytes", p->name.c_str(), (ull) h.pid, n);
    if (!h.pid) FAIL_ANY_IF(IDS("C13", "C14"), n != (size_t) wire::HDR + h.len, "%s: announcement of %zu bytes with payload length %u", p->name.c_str(), n, h.len);
    FAIL_ANY_IF(IDS("C28", "C02"), n != (size_t) wire::HDR + h.len, "%s: datagram of %zu bytes with payload length %u", p->name.c_str(), n, h.len);
    FAIL_ANY_IF(IDS("C28", "C13"), h.node != p->node_id, "%s: datagram carries node id %x, not %x", p->name.c_str(), h.node, p->node_id);
    FAIL_ANY_IF(IDS("C28", "C13", "C33"), h.ip != p->listen_ip || h.port != p->ctl_port, "%s: datagram carries control address %s:%u, not %s:%u", p->name.c_str(),
        ip_str(h.ip).c_str(), h.port, ip_str(p->listen_ip).c_str(), p->ctl_port);
    size_t len = n - wire::HDR;
    if (!h.pid) {
        ++p->sent_ann;
        if (!p->q0.empty() && p->q0.front().data.size() == len && !memcmp(p->q0.front().data.data(), d + wire::HDR, len)) {
            if (p->q0.front().pk) p->q0.front().pk->sent_at = sim::now;
            p->q0.pop_front();
            return;
        }
        FAIL_ANY_IF(IDS("C13", "C28"), p->ann_cb || len, "%s: announcement of %zu bytes is not the next one to send", p->name.c_str(), len);
        return;
    }
    ++p->sent_data;
    FAIL_ANY_IF(IDS("C10", "C28", "C01"), p->q.empty() || p->q.front()->pid != h.pid, "%s: datagram %llu was sent, %llu is next", p->name.c_str(), (ull) h.pid, (ull) (p->q.empty() ? 0 : p->q.front()->pid));
    if (p->q.empty() || p->q.front()->pid != h.pid) return;
    Pk* k = p->q.front();
    FAIL_ANY_IF(IDS("C02", "C28", "C10"), k->len != len || memcmp(k->copy.data(), d + wire::HDR, len), "%s: datagram %llu does not carry the queued payload", p->name.c_str(), (ull) h.pid);
    p->q.pop_front();
    k->sent_at = sim::now;
    p->next_send = h.pid + 1;
    for (Link* l : p->links)
        if (l->p_open && l->admitted) { k->refs.insert(l->id); l->outstanding.insert(h.pid); }
}

void World::udp_read(sim::Fd& f, const sim::Dgram& d)
{
    auto it = by_owner.find(f.owner);
    if (it == by_owner.end() || it->second->is_pub || d.data.size() < wire::HDR) return;
    SubRig* s = (SubRig*) it->second;
    wire::Hdr h = wire::get_hdr(d.data.data());
    if (!h.pid) s->last_announced = h.node;
    if (!h.pid || d.data.size() < (size_t) wire::HDR + h.len) return;
    uint32_t ip = h.ip ? h.ip : d.src.ip;
    for (Link* l : s->links)
        if (l->s_open && !l->complete && !s->use_complete_cb && l->c->server.ip == ip && l->c->server.port == h.port) l->rx_maybe.insert(h.pid);
        else if (l->s_open && l->complete && l->c->server.ip == ip && l->c->server.port == h.port)
            if (!l->rx_mc.count(h.pid) && !l->rx_tcp.count(h.pid)) l->rx_mc[h.pid] = sim::now;
}

void World::tcp_written(sim::Conn& c, int side, const uint8_t* d, size_t n)
{
    if (pbt::capture) note("  at %lld side %d wrote %zu bytes %llx", (long long) sim::now, side, n, (ull) hash_of(d, n));
    Link* l = link_of(c);
    wire::Cmd m;
    if (side == 1) {
        if (!l->p) return;
        l->p2s.feed(d, n);
        while (l->p2s.next(m)) {
            const char* nm = l->p->name.c_str();
            FAIL_ANY_IF(IDS("C28", "C20", "C32", "C02", "C03"), m.type != wire::PACKET, "%s: command %d to a subscriber", nm, m.type);
            if (m.type != wire::PACKET) continue;
            packet_id_t id = m.h.pid;
            note("  %s: packet %llu resent on link %d", nm, (ull) id, l->id);
            auto k = l->p->by_pid.find(id);
            FAIL_ANY_IF(IDS("C10", "C28", "C02"), k == l->p->by_pid.end() || k->second->sent_at < 0, "%s: packet %llu resent, it was never sent", nm, (ull) id);
            if (k == l->p->by_pid.end()) continue;
            Pk& pk = *k->second;
            FAIL_ANY_IF(IDS("C28", "C10", "C02"), m.h.node != l->p->node_id || m.h.ip != l->p->listen_ip || m.h.port != l->p->ctl_port, "%s: packet %llu resent with another header", nm, (ull) id);
            FAIL_ANY_IF(IDS("C02", "C10", "C28", "C20", "C32", "C03"), m.h.len != pk.len || memcmp(m.data.data(), pk.copy.data(), pk.len), "%s: packet %llu resent with another payload", nm, (ull) id);
            FAILIF("C10", !pk.refs.count(l->id), "%s: packet %llu resent to a subscriber that was not connected when it was sent", nm, (ull) id);
            FAIL_ANY_IF(IDS("C10", "C32"), l->resent.count(id), "%s: packet %llu resent twice to the same subscriber", nm, (ull) id);
            FAILIF("C10", id <= l->last_resent, "%s: packet %llu resent after packet %llu", nm, (ull) id, (ull) l->last_resent);
            auto a = l->acked_read.find(id);
            if (!l->hostile)
                FAILIF("C10", !l->p->could_resend(pk, a == l->acked_read.end() ? sim::now : a->second), "%s: packet %llu resent %s", nm, (ull) id,
                    a == l->acked_read.end() ? "before the resend timeout" : "although it had been acknowledged");
            l->resent[id] = sim::now;
            l->last_resent = id;
            l->owed.erase(id);
            l->outstanding.erase(id);
        }
        FAIL_ANY_IF(IDS("C28", "C20", "C32", "C02", "C03"), l->p2s.bad, "%s: garbage on the control connection", l->p->name.c_str());
    } else {
        if (!l->s) return;
        l->s2p_w.feed(d, n);
        const char* nm = l->s->name.c_str();
        while (l->s2p_w.next(m)) {
            if (m.type == wire::ACK) {
                note("  %s: acknowledgement %llu-%llu on link %d", nm, (ull) m.a, (ull) m.b, l->id);
                FAIL_ANY_IF(IDS("C08", "C28"), m.b < m.a || m.b - m.a > 1000000, "%s: acknowledgement of %llu-%llu", nm, (ull) m.a, (ull) m.b);
                if (m.b - m.a > 1000000) continue;
                for (packet_id_t id = m.a; id <= m.b; ++id) {
                    FAIL_ANY_IF(IDS("C08", "C29"), !l->rx_mc.count(id) && !l->rx_tcp.count(id) && !l->rx_maybe.count(id), "%s: acknowledgement of packet %llu, which it did not receive", nm, (ull) id);
                    l->acked_written.insert(id);
                }
            } else if (m.type == wire::MSG) {
                FAIL_ANY_IF(IDS("C16", "C28", "C20", "C32"), l->msgs_wire.empty() || l->msgs_wire.front() != m.data, "%s: control message of %zu bytes on the wire is not the next one accepted", nm, m.data.size());
                if (!l->msgs_wire.empty()) l->msgs_wire.pop_front();
            } else
                FAIL_ANY_IF(IDS("C28", "C20", "C32"), true, "%s: command %d to a publisher", nm, m.type);
        }
        FAIL_ANY_IF(IDS("C28", "C16", "C20", "C32", "C08"), l->s2p_w.bad, "%s: garbage on the control connection", nm);
    }
}

void World::tcp_read(sim::Conn& c, int side, const uint8_t* d, size_t n)
{
    Link* l = link_of(c);
    wire::Cmd m;
    if (side == 1) {
        if (!l->p || l->hostile) return;
        l->s2p_r.feed(d, n);
        while (l->s2p_r.next(m))
            if (m.type == wire::ACK)
                for (auto it = l->outstanding.lower_bound(m.a); it != l->outstanding.end() && *it <= m.b;) {
                    if (!l->acked_read.count(*it)) l->acked_read[*it] = sim::now;
                    it = l->outstanding.erase(it);
                }
    } else {
        if (!l->s) return;
        l->p2s_r.feed(d, n);
        while (l->p2s_r.next(m))
            if (m.type == wire::PACKET) l->rx_tcp.insert(m.h.pid);
    }
}

void World::fd_closed(sim::Fd& f)
{
    auto it = by_owner.find(f.owner);
    if (it == by_owner.end()) return;
    Node* n = it->second;
    note("  %s: close(%d)", n->name.c_str(), f.fd);
    FAILIF("C07", n->poll.count(f.fd), "%s: descriptor %d was closed while registered", n->name.c_str(), f.fd);
    n->poll.erase(f.fd);
    if (f.conn) {
        Link* l = link_of(*f.conn);
        if (f.side == 1) l->p_open = false; else l->s_open = false;
    }
}

void World::bad_fd(const char* call, int fd, bool was_ours)
{
    FAILIF("C06", was_ours, "%s() on descriptor %d, which was closed before", call, fd);
    if (fd >= 0) FAILIF("C06", !was_ours, "%s() on descriptor %d, which was never opened", call, fd);
}

void World::teardown()
{
    // In an order the case decides.
    std::vector<Node*> v;
    for (auto& n : nodes) if (n->alive) v.push_back(n.get());
    while (!v.empty()) {
        size_t k = src.draw(v.size());
        Node* n = v[k];
        v.erase(v.begin() + k);
        if (src.chance(20) && n->active) { if (n->is_pub) ((PubRig*) n)->deactivate(); else ((SubRig*) n)->deactivate(); }
        if (n->is_pub) ((PubRig*) n)->destroy(); else ((SubRig*) n)->destroy();
    }
    // Buffers the ledger itself still holds.
    for (auto& n : nodes) {
        if (!n->is_pub) ((SubRig*) n.get())->release_kept();
        else for (auto& k : ((PubRig*) n.get())->pks) if (k->buf && !((PubRig*) n.get())->default_free) { sim::raw_free(k->buf); k->buf = 0; }
    }
    FAIL_ANY_IF(IDS("C06"), sim::live_blocks(), "%zu memory blocks (%zu bytes) are left after every context was deleted", sim::live_blocks(), sim::live_bytes());
}

void World::check_settled()
{
    for (auto& lp : links) {
        Link* l = lp.get();
        if (!l->p || !l->s || !l->p_open || !l->s_open || !l->admitted || !l->complete) continue;
        packet_id_t last = l->p->next_send - 1;
        packet_id_t next = l->next ? l->next : l->first;
        FAIL_ANY_IF(IDS("C01", "C03", "C20", "C22", "C32", "C21"), next <= last, "%s: packet %llu of %s was never delivered (the last one sent is %llu)", l->s->name.c_str(), (ull) next, l->p->name.c_str(), (ull) last);
        FAIL_ANY_IF(IDS("C10", "C04", "C03"), !l->owed.empty(), "%s: packet %llu was released without being acknowledged or resent", l->p->name.c_str(), (ull) (l->owed.empty() ? 0 : *l->owed.begin()));
        FAIL_ANY_IF(IDS("C09", "C04", "C32"), !l->outstanding.empty(), "%s: packet %llu is still waiting for %s", l->p->name.c_str(), (ull) (l->outstanding.empty() ? 0 : *l->outstanding.begin()), l->s->name.c_str());
        for (auto& r : l->rx_mc)
            FAILIF("C08", r.first >= l->first && !l->acked_written.count(r.first), "%s: packet %llu was received by multicast and never acknowledged", l->s->name.c_str(), (ull) r.first);
        FAIL_ANY_IF(IDS("C16", "C20", "C32"), l->p->want_msgs && !l->msgs.empty(), "%s: a control message of %zu bytes did not arrive", l->s->name.c_str(), l->msgs.empty() ? 0 : l->msgs.front().size());
    }
    for (auto& n : nodes) {
        if (!n->is_pub || !n->alive || !n->active) continue;
        PubRig* p = (PubRig*) n.get();
        FAIL_ANY_IF(IDS("C01", "C32", "C21"), !p->q.empty(), "%s: packet %llu was never sent", p->name.c_str(), (ull) (p->q.empty() ? 0 : p->q.front()->pid));
    }
}

} // namespace rig
