// One library context plus the application around it: poll loop, buffers, ledger.
// The rigs check, on every call, the parts of the contract that need no scenario knowledge.
#pragma once
#include "pbt.h"
#include "sim.h"
#include "rmc.h"
#include "wire.h"
#include <errno.h>
#include <functional>
#include <map>
#include <set>
#include <deque>
#include <memory>
#include <string>
#include <vector>

namespace rig {

using pbt::src;
using pbt::note;
typedef unsigned long long ull;

uint32_t any_host();     // an address of a host
void draw_epoch();      // how long the host has been up when the case begins

// Fails whichever of the listed properties is being decided.
void fail_any(std::initializer_list<const char*> ids, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
#define FAIL_ANY_IF(ids_, cond_, ...) do { if (cond_) rig::fail_any(ids_, __VA_ARGS__); } while (0)
#define IDS(...) std::initializer_list<const char*>{__VA_ARGS__}

enum { MC = 0x7FFE, LI = 0x7FFD };       // connection indexes of the sockets that are no connection
enum Style { LT_SKIP, LT, ONESHOT };     // poll loops: level-triggered ignoring no-op changes, level-triggered, one-shot

struct PollEnt { int fd; rmc_index_t index; unsigned interest; bool armed; };

struct PubRig;
struct SubRig;

// A control connection as seen from outside.
struct Link {
    int id;
    sim::Conn* c;
    PubRig* p = 0;
    SubRig* s = 0;
    bool p_open = false, s_open = false;      // the end's descriptor is open
    bool accepted = false, admitted = false;  // publisher side
    bool complete = false;                    // subscriber side
    int p_index = -1, s_index = -1;
    int64_t accepted_at = -1, complete_at = -1;
    packet_id_t first = 0;                    // first id sent after it was accepted
    packet_id_t next = 0;                     // next id to be delivered, 0: none yet
    wire::Parser p2s, p2s_r, s2p_w, s2p_r;    // publisher to subscriber: written, read; subscriber to publisher: written, read
    std::set<packet_id_t> outstanding;        // sent to it, not acknowledged, not seen resent
    std::deque<std::string> msgs_wire;        // accepted control messages not yet written
    std::map<packet_id_t, int64_t> acked_read;
    std::set<packet_id_t> acked_written;
    std::map<packet_id_t, int64_t> resent;    // id -> time its last byte was written
    packet_id_t last_resent = 0;
    std::map<packet_id_t, int64_t> rx_mc;     // subscriber: received by multicast (first time)
    std::set<packet_id_t> rx_tcp;
    std::set<packet_id_t> rx_maybe;           // by multicast, and whether the connection was complete is not known
    std::set<packet_id_t> owed;               // publisher: released or not tracked any more, so it must show up as resent
    std::deque<std::string> msgs;             // accepted control messages not yet given to the publisher's application
    bool hostile = false;                     // scripted peer wrote junk: no claims on what the publisher reads
    bool disc_reported = false;
    uint32_t node = 0;                        // the node id in the announcement that led to it
};

struct Pk {
    uint8_t* buf; payload_len_t len; uint64_t seed; uint64_t block = 0;
    packet_id_t pid; bool announce;
    int64_t queued_at, sent_at = -1;
    int freed = 0;
    std::set<int> refs;                       // links it was sent to
    std::vector<uint8_t> copy;
};

struct Node {
    int owner; uint32_t ip; bool is_pub;
    Style style = LT_SKIP;
    user_data_t ud;
    std::map<int, PollEnt> poll;
    bool active = false, alive = false;
    bool rearm_on_error = true;
    bool in_delete = false;
    bool use_poll = true;
    int64_t calls = 0;
    uint32_t mcast_if = 0;                    // configured interface, 0: none
    int ttl = -1;                             // set since activation, -1: not
    std::string name;
    // The application's calls into the library from the callback `where`; `l` is the connection the callback is about.
    std::function<void(const char* where, Link* l)> reenter;
    // one entry per ready socket
    struct Ev { int fd; rmc_index_t index; bool read, write; };
    std::vector<Ev> ready();
    bool any_ready();
    virtual ~Node() {}
    virtual int do_read(rmc_index_t, uint8_t*) = 0;
    virtual int do_write(rmc_index_t, uint8_t*) = 0;
    virtual int do_timeouts() = 0;
    virtual int64_t deadline() = 0;
    virtual void after_call() = 0;
    // Handles one event the way the application's loop does.
    void handle(const Ev&, bool read_first = true);
    int spurious_writes = 0;
    bool has_index(rmc_index_t i) { for (auto& e : poll) if (e.second.index == i) return true; return false; }
    int fd_of(rmc_index_t i) { for (auto& e : poll) if (e.second.index == i) return e.first; return -1; }
    void common_after();
    bool faulty = false;                      // failures are injected: calls may fail
};

struct Enter {                                // runs library calls on behalf of a node
    Node* n; Node* prev; int prev_owner;
    Enter(Node* n);
    ~Enter();
};
// While it lives, library calls belong to no other: another thread's, made while a call is in progress.
struct OtherThread {
    OtherThread();
    ~OtherThread();
    struct State;
    State* st;
};
extern Node* cur;
extern void (*on_call)(bool enter);        // before and after every call into the library

struct PubRig : Node {
    rmc_pub_context_t* ctx = 0;
    rmc_node_id_t node_id; uint32_t group; uint16_t mport; uint16_t ctl_port; uint32_t listen_ip;
    uint32_t max_subs;
    bool default_free = false;                // no release callback: free()
    std::vector<std::unique_ptr<Pk>> pks;
    std::map<void*, Pk*> by_buf;
    std::map<packet_id_t, Pk*> by_pid;        // sequenced packets accepted
    std::deque<Pk*> q;                        // sequenced, not sent
    struct Ann { Pk* pk; std::vector<uint8_t> data; };
    std::deque<Ann> q0;                       // announcements, not sent
    packet_id_t next_pid = 1, next_send = 1;
    std::vector<Link*> links;
    std::vector<int64_t> timeouts_at;         // when timers were served (for the resend oracle)
    int64_t last_timeouts = -1;
    uint64_t sent_data = 0, sent_ann = 0, released = 0;
    std::function<bool(Link&)> on_connect;    // admission decision
    std::function<void(Link&, const std::string&)> on_message;
    bool want_msgs = true;
    bool use_connect_cb = true, use_disconnect_cb = true;
    // announcement callback behaviour
    bool ann_cb = false;
    std::function<bool(std::vector<uint8_t>&)> on_announce;
    uint64_t ann_calls = 0, n_after = 0;
    bool implicit_ann = false;                // an announcement without payload may be queued by timers at any time
    bool multicast_read_checks = true;
    uint64_t skipping = 0;                    // packets still to be released by skip_ahead()
    size_t ann_claim = 0;                     // the announce callback claims to have written this much

    int create(uint32_t max_subs, bool with_poll = true);
    int activate();
    int deactivate();
    void destroy();
    int queue(payload_len_t len, uint64_t seed, bool announce = false, Pk** out = 0);
    void skip_ahead(uint64_t n);              // sends n packets that nobody listens to
    int do_read(rmc_index_t, uint8_t*) override;
    int do_write(rmc_index_t, uint8_t*) override;
    int do_timeouts() override;
    int64_t deadline() override;
    void after_call() override;
    int close_connection(rmc_index_t);
    size_t open_links();
    bool pending_somewhere();
    // Did the publisher have the chance to put a resend of this packet into the connection before `t`?
    bool could_resend(const Pk& k, int64_t t);
    size_t unreleased();
};

struct Buf { uint8_t* p; payload_len_t len; bool freed; bool kept; uint64_t block; };  // block: of the library's own allocations, freed by free()

struct SubRig : Node {
    rmc_sub_context_t* ctx = 0;
    rmc_node_id_t node_id; uint32_t group; uint16_t mport;
    uint32_t max_pubs;
    bool cb_alloc = true, cb_free = true;     // or malloc() and free()
    std::map<void*, Buf> bufs;
    std::vector<Link*> links;
    std::map<int, std::vector<Link*>> by_index;   // history of each slot
    std::map<int, size_t> di;                     // link being delivered from, per slot
    uint64_t announces = 0, completes = 0, delivered = 0, ready_calls = 0;
    std::function<bool(uint32_t ip, uint16_t port, uint32_t node, const std::string&)> on_announce;
    std::function<void(uint32_t ip, uint16_t port, uint32_t node)> on_complete;
    std::function<void()> on_ready;
    std::function<void(sub_packet_t*)> on_deliver;  // replaces the ledger's own order check
    bool use_announce_cb = true, use_complete_cb = true, use_ready_cb = true;
    uint32_t last_announced = 0;     // node id in the last announcement read
    uint64_t taken = 0;              // packets dispatched
    int keep_pct = 0;
    std::vector<void*> kept;

    int create(uint32_t max_pubs, bool with_poll = true);
    int activate();
    int deactivate();
    void destroy();
    int do_read(rmc_index_t, uint8_t*) override;
    int do_write(rmc_index_t, uint8_t*) override;
    int do_timeouts() override;
    int64_t deadline() override;
    void after_call() override;
    int close_connection(rmc_index_t);
    int message(Link&, const std::string&, bool by_node);
    // Takes up to n packets from the ready queue and checks them.
    size_t drain(size_t n = (size_t) -1);
    size_t ready_count();
    void check_delivery(sub_packet_t*);
    void release_kept();
};

// The world's observer: keeps links and ledgers up to date.
struct World : sim::Observer {
    std::vector<std::unique_ptr<Node>> nodes;
    std::vector<std::unique_ptr<Link>> links;
    std::map<sim::Conn*, Link*> by_conn;
    std::map<int, Node*> by_owner;
    World();
    ~World();
    PubRig* add_pub(uint32_t ip, uint16_t ctl_port, uint32_t node_id);
    SubRig* add_sub(uint32_t ip, uint32_t node_id);
    Link* link_of(sim::Conn& c);
    int next_owner = 1;
    uint32_t group = 0xEF010203;              // for nodes added from now on
    uint16_t mport = 4723;

    void mcast_sent(sim::Fd&, const uint8_t*, size_t) override;
    void udp_read(sim::Fd&, const sim::Dgram&) override;
    void connect_started(sim::Conn&) override;
    void accepted(sim::Conn&) override;
    void tcp_written(sim::Conn&, int side, const uint8_t*, size_t) override;
    void tcp_read(sim::Conn&, int side, const uint8_t*, size_t) override;
    void fd_closed(sim::Fd&) override;
    void bad_fd(const char* call, int fd, bool was_ours) override;
    // End of case: every context is deleted and nothing may be left.
    void teardown();
    // Claims that only hold once everything was served.
    void check_settled();
};
extern World* world;

} // namespace rig
