// In-process simulated operating system: clock, UDP multicast, TCP, descriptors, heap accounting.
// The library's libc calls are redirected here with the linker's --wrap.
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <string>
#include <vector>
#include <deque>
#include <map>
#include <memory>

namespace sim {

extern int64_t now;      // Virtual time, usec
extern int64_t tick;     // Added after every clock read

struct Addr { uint32_t ip; uint16_t port; };

struct Dgram {
    std::vector<uint8_t> data;
    Addr src;
    int src_fd;
    uint64_t ord;
};

enum Kind { UDP, TCP, LISTEN };

struct Conn;

struct Fd {
    int fd;
    int owner;
    Kind kind;
    bool open;
    bool nonblock;
    bool bound;
    bool joined;
    Addr local;
    uint32_t group;
    uint32_t mcast_if;       // sender interface / joined interface
    int ttl;
    bool reuse;
    bool nodelay;
    std::deque<Dgram> rx;
    Conn* conn;
    int side;                // 0 = the side that connected, 1 = the side that accepted
    std::deque<Conn*> acceptq;
    bool connect_pending;
    int so_error;
};

struct Dir {                 // one direction of a TCP connection
    std::string buf;         // written, not yet read
    size_t head = 0;
    size_t arrived = 0;      // readable prefix
    size_t cap = 1 << 20;    // bytes that may be outstanding
    int64_t delay = 0;
    int64_t unacked_until = 0;   // Nagle's algorithm and delayed acknowledgements
    bool stall = false;      // nothing arrives
    bool fin = false;        // writer closed
    bool rst = false;        // reader side sees a reset
    std::deque<std::pair<int64_t, size_t>> transit;
    uint64_t written = 0, read = 0;
    size_t used() const { return buf.size() - head; }
    size_t readable() const { return arrived; }
    size_t space() const { return used() >= cap ? 0 : cap - used(); }
};

enum CState { CONNECTING, ESTABLISHED, REFUSED };

struct Conn {
    int id;
    CState state;
    Addr client, server;
    int fd[2];               // fd[1] = -1 until accepted; raw ends have fd -2
    bool closed[2];
    Dir d[2];                // d[0]: written by side 0
    int64_t done_at;         // when the handshake ends
    bool will_refuse;
    int owner[2];
    int listen_fd;
    void* tag;
};

struct Observer {
    virtual ~Observer() {}
    virtual void mcast_sent(Fd&, const uint8_t*, size_t) {}
    // Arrival times for one receiver of a datagram; empty: lost.
    virtual void route(Fd& from, Fd& to, const Dgram& d, std::vector<int64_t>& at) { at.push_back(now); }
    virtual void udp_read(Fd&, const Dgram&) {}
    virtual void connect_started(Conn&) {}
    virtual void connect_plan(Conn& c) { c.done_at = now; c.will_refuse = false; }
    virtual void accepted(Conn&) {}
    virtual void tcp_written(Conn&, int side, const uint8_t*, size_t) {}
    virtual void tcp_read(Conn&, int side, const uint8_t*, size_t) {}
    virtual void fd_closed(Fd&) {}
    virtual void bad_fd(const char* call, int fd, bool was_ours) {}
};

// What happened since the last reset.
struct Acts {
    int accepted = 0, sent = 0;
    size_t rx = 0, tx = 0;
    std::vector<Dgram> dgrams;
    std::vector<std::pair<std::string, int>> failed;   // calls that were made to fail
};
extern Acts acts;

extern Observer* obs;
// Called when a library call is about to make a system call or to use the heap: what other threads do meanwhile.
extern void (*paused)();
void elsewhere();                         // such a point within a callback
void broken_pipes_kill();                   // before a process's first library call: SIGPIPE has its default effect
void process_is_up();                       // after it: remembers whether that is still so for `owner`
extern int owner;                         // node on whose behalf library calls run
extern std::map<int, uint32_t> owner_ip;  // default source address of a node
extern std::map<int, std::vector<uint32_t>> host_ips; // all addresses of a node's host (none given: any)
extern std::map<int, int> host_of;        // nodes on one host share its ports (none given: a host of its own)
extern Addr dst;                          // where the datagram reported by mcast_sent() goes

// Per-case configuration
struct Cfg {
    int read_chunk = 0;       // 0: all that is there; 1: random part; 2: one byte
    int write_chunk = 0;
    size_t sndcap = 1 << 20;
    int64_t tcp_delay = 0;
    size_t backlog = 128;
    uint32_t net_mask = 0;    // interfaces whose addresses agree in these bits are on one network
};
extern Cfg cfg;

// Injected failures: errno values consumed one per call, 0 = let the call through.
extern std::map<std::string, std::deque<int>> faults;
bool has_faults();

void reset();
Fd* get(int fd);                          // open descriptor or null
bool is_open(int fd);
int open_count(int owner);
std::vector<int> open_fds(int owner);
bool readable(int fd);
bool writable(int fd);
void pump();                              // everything due at `now` happens
int64_t next_event();                     // next time something is due, -1: never

// Raw (scripted) endpoints used by harness code, no descriptor needed.
Conn* raw_connect(uint32_t ip, uint16_t port, Addr from); // null: nobody listens / backlog full
int raw_listen(uint32_t ip, uint16_t port, int owner);    // listening descriptor of a scripted publisher
Conn* raw_accept(int lfd);                                // null if none waits
size_t raw_write(Conn* c, int side, const void* p, size_t n);
std::string raw_read(Conn* c, int side);                  // everything readable
void raw_close(Conn* c, int side, bool rst = false);
bool raw_eof(Conn* c, int side);
void raw_mcast(Addr src, uint32_t group, uint16_t port, const std::vector<uint8_t>& d); // goes through route() with from = dummy
std::vector<std::unique_ptr<Conn>>& conns();
std::vector<Fd*> udp_receivers(uint32_t group, uint16_t port, uint32_t from_ip = 0);
size_t inflight_dgrams();
void drop_inflight(int src_fd, int dst_fd);

// Heap accounting (blocks the library holds).
size_t live_blocks();
size_t live_bytes();
uint64_t block_id(void* p);               // of the live block at p, 0: none
void* raw_malloc(size_t n);               // not accounted
void raw_free(void* p);
void* lib_malloc(size_t n);               // accounted, as if the library or its user had called malloc()
uint64_t clock_reads();

} // namespace sim
