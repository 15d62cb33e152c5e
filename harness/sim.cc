#include <signal.h>
#include "sim.h"
#include "pbt.h"
#include "hooks.h"
#include <stdarg.h>
#include <errno.h>
#include <string.h>
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include <fcntl.h>
#include <time.h>
#include <sys/time.h>
#include <sys/ioctl.h>
#include <sys/socket.h>
#include <sys/uio.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <arpa/inet.h>
#include <unordered_map>
#include <algorithm>

namespace sim {

int64_t now = 1000000;
int64_t tick = 0;
Acts acts;
Observer* obs = 0;
int owner = 0;
void (*paused)() = 0;
std::map<int, uint32_t> owner_ip;
std::map<int, std::vector<uint32_t>> host_ips;
std::map<int, int> host_of;
Addr dst;
Cfg cfg;
std::map<std::string, std::deque<int>> faults;

enum { FD_BASE = 100000 };

static std::vector<std::unique_ptr<Fd>> fds;
static std::vector<std::unique_ptr<Conn>> conns_;
static Observer null_obs;
static uint64_t ord = 0;
static uint16_t next_port = 40000;
static uint64_t n_clock = 0;
static bool active = false;
static std::map<int, bool> mortal;

struct Flight { int64_t at; uint64_t ord; int dst; Dgram d; };
static std::vector<Flight> flight;

struct Block { size_t size; uint64_t id; };
static std::unordered_map<void*, Block>* live = 0;
static uint64_t block_serial = 0;
static size_t live_sz = 0;

void reset()
{
    now = 1000000;
    tick = 0;
    obs = &null_obs;
    owner = 0;
    mortal.clear();
    paused = 0;
    owner_ip.clear();
    host_ips.clear();
    host_of.clear();
    cfg = Cfg();
    faults.clear();
    fds.clear();
    conns_.clear();
    flight.clear();
    ord = 0;
    next_port = 40000;
    n_clock = 0;
    if (!live) live = new std::unordered_map<void*, Block>();
    live->clear();
    live_sz = 0;
}

bool has_faults() { for (auto& f : faults) if (!f.second.empty()) return true; return false; }

static int fault(const char* call)
{
    if (faults.empty()) return 0;
    auto it = faults.find(call);
    if (it == faults.end() || it->second.empty()) return 0;
    int e = it->second.front();
    it->second.pop_front();
    if (e) acts.failed.push_back({call, e});
    return e;
}

static Fd* raw_get(int fd)
{
    size_t i = (size_t) (fd - FD_BASE);
    if (fd < FD_BASE || i >= fds.size()) return 0;
    return fds[i].get();
}
Fd* get(int fd) { Fd* f = raw_get(fd); return f && f->open ? f : 0; }
bool is_open(int fd) { return get(fd) != 0; }
std::vector<int> open_fds(int o)
{
    std::vector<int> r;
    for (auto& f : fds) if (f->open && f->owner == o) r.push_back(f->fd);
    return r;
}
int open_count(int o) { return (int) open_fds(o).size(); }
std::vector<std::unique_ptr<Conn>>& conns() { return conns_; }
uint64_t clock_reads() { return n_clock; }
size_t inflight_dgrams() { return flight.size(); }

static Fd* new_fd(Kind k)
{
    Fd* f = new Fd();
    f->fd = FD_BASE + (int) fds.size();
    f->owner = owner;
    f->kind = k;
    f->open = true;
    f->nonblock = f->bound = f->joined = false;
    f->local = Addr{0, 0};
    f->group = f->mcast_if = 0;
    f->ttl = 1;
    f->reuse = f->nodelay = false;
    f->conn = 0;
    f->side = 0;
    f->connect_pending = false;
    f->so_error = 0;
    fds.emplace_back(f);
    return f;
}

static bool mine(int fd) { return active && fd >= FD_BASE; }

static Fd* need(const char* call, int fd)
{
    Fd* f = get(fd);
    if (!f) {
        errno = EBADF;
        obs->bad_fd(call, fd, raw_get(fd) != 0);
        errno = EBADF;
    }
    return f;
}

static void blocked(const char* call)
{
    pbt::fail(pbt::prop, "%s() on a blocking descriptor with nothing to do would block the caller forever", call);
    errno = EAGAIN;
}

// Every context stands for a process of its own, with its own disposition of SIGPIPE.
static bool sigpipe_is_deadly()
{
    struct sigaction a;
    sigset_t m;
    if (sigaction(SIGPIPE, 0, &a) || (!(a.sa_flags & SA_SIGINFO) && a.sa_handler != SIG_DFL)) return false;
    return pthread_sigmask(SIG_BLOCK, 0, &m) || !sigismember(&m, SIGPIPE);
}
void broken_pipes_kill() { signal(SIGPIPE, SIG_DFL); }
void process_is_up() { if (!sigpipe_is_deadly()) mortal[owner] = false; else mortal.emplace(owner, true); }
static ssize_t broken_pipe(const char* call, bool nosignal)
{
    auto k = mortal.find(owner);
    if (!nosignal && k != mortal.end() && k->second && sigpipe_is_deadly())
        for (const char* id : {"C15", "C32", "C18", "C19"})
            if (pbt::on(id)) pbt::fail(id, "%s() to a connection that the peer has closed: SIGPIPE ends the process", call);
    errno = EPIPE;
    return -1;
}

// ---- readiness -----------------------------------------------------------

static bool tcp_eof(Fd* f)
{
    Conn* c = f->conn;
    Dir& in = c->d[1 - f->side];
    return in.fin && in.used() == 0;
}

bool readable(int fd)
{
    Fd* f = get(fd);
    if (!f) return false;
    switch (f->kind) {
    case UDP: return !f->rx.empty();
    case LISTEN: return !f->acceptq.empty();
    case TCP:
        if (!f->conn || f->conn->state == CONNECTING) return false;
        if (f->conn->state == REFUSED) return true;
        if (f->conn->d[1 - f->side].rst) return true;
        return f->conn->d[1 - f->side].readable() > 0 || tcp_eof(f);
    }
    return false;
}

bool writable(int fd)
{
    Fd* f = get(fd);
    if (!f) return false;
    switch (f->kind) {
    case UDP: return true;
    case LISTEN: return false;
    case TCP:
        if (!f->conn) return false;
        if (f->conn->state == CONNECTING) return false;
        if (f->conn->state == REFUSED) return true;
        if (f->conn->closed[1 - f->side] || f->conn->d[1 - f->side].rst) return true;
        return f->conn->d[f->side].space() > 0;
    }
    return false;
}

// ---- time ----------------------------------------------------------------

void pump()
{
    // Datagrams in order of arrival.
    if (!flight.empty()) {
        std::stable_sort(flight.begin(), flight.end(), [](const Flight& a, const Flight& b) {
            return a.at != b.at ? a.at < b.at : a.ord < b.ord; });
        size_t k = 0;
        while (k < flight.size() && flight[k].at <= now) {
            Fd* f = get(flight[k].dst);
            if (f) f->rx.push_back(std::move(flight[k].d));
            ++k;
        }
        flight.erase(flight.begin(), flight.begin() + k);
    }
    for (size_t i = 0; i < conns_.size(); ++i) {
        Conn* c = conns_[i].get();
        if (c->state == CONNECTING && c->done_at <= now) {
            Fd* l = get(c->listen_fd);
            if (c->will_refuse || !l || !(l->kind == LISTEN)) {
                c->state = REFUSED;
                Fd* f = get(c->fd[0]);
                if (f) f->so_error = ECONNREFUSED;
            } else {
                c->state = ESTABLISHED;
                l->acceptq.push_back(c);
            }
        }
        for (auto& d : c->d) {
            if (d.stall) continue;
            while (!d.transit.empty() && d.transit.front().first <= now) {
                d.arrived += d.transit.front().second;
                d.transit.pop_front();
            }
        }
    }
}

int64_t next_event()
{
    int64_t r = -1;
    auto up = [&](int64_t t) { if (r == -1 || t < r) r = t; };
    for (auto& f : flight) up(f.at);
    for (auto& c : conns_) {
        if (c->state == CONNECTING) up(c->done_at);
        for (auto& d : c->d)
            if (!d.stall && !d.transit.empty()) up(d.transit.front().first);
    }
    return r;
}

// ---- datagrams -----------------------------------------------------------

static bool has_ip(int o, uint32_t ip)
{
    auto h = host_ips.find(o);
    return !ip || h == host_ips.end() || std::find(h->second.begin(), h->second.end(), ip) != h->second.end();
}

std::vector<Fd*> udp_receivers(uint32_t group, uint16_t port, uint32_t from_ip)
{
    std::vector<Fd*> r;
    for (auto& f : fds)
        if (f->open && f->kind == UDP && f->bound && f->local.port == port && f->joined && f->group == group && (!f->local.ip || f->local.ip == group)
            && !(((f->mcast_if ? f->mcast_if : owner_ip[f->owner]) ^ from_ip) & cfg.net_mask))
            r.push_back(f.get());
    return r;
}

static void send_dgram(Fd* from, Addr src, uint32_t group, uint16_t port, const std::vector<uint8_t>& data)
{
    for (Fd* to : udp_receivers(group, port, src.ip)) {
        Dgram d;
        d.data = data;
        d.src = src;
        d.src_fd = from ? from->fd : -1;
        d.ord = ++ord;
        std::vector<int64_t> at;
        static Fd dummy;
        dummy.fd = -1;
        dummy.owner = -1;
        obs->route(from ? *from : dummy, *to, d, at);
        for (int64_t t : at) flight.push_back(Flight{t, ++ord, to->fd, d});
    }
    pump();
}

void raw_mcast(Addr src, uint32_t group, uint16_t port, const std::vector<uint8_t>& d) { send_dgram(0, src, group, port, d); }

void drop_inflight(int src_fd, int dst_fd)
{
    flight.erase(std::remove_if(flight.begin(), flight.end(), [&](const Flight& f) {
        return f.d.src_fd == src_fd && f.dst == dst_fd; }), flight.end());
}

// ---- TCP -----------------------------------------------------------------

static Conn* new_conn(Addr client, Addr server)
{
    Conn* c = new Conn();
    c->id = (int) conns_.size();
    c->state = CONNECTING;
    c->client = client;
    c->server = server;
    c->fd[0] = c->fd[1] = -1;
    c->closed[0] = c->closed[1] = false;
    c->done_at = now;
    c->will_refuse = false;
    c->owner[0] = c->owner[1] = -1;
    c->listen_fd = -1;
    c->tag = 0;
    for (auto& d : c->d) { d.cap = cfg.sndcap; d.delay = cfg.tcp_delay; }
    conns_.emplace_back(c);
    return c;
}

static Fd* find_listener(uint32_t ip, uint16_t port)
{
    for (auto& f : fds)
        if (f->open && f->kind == LISTEN && f->local.port == port) {
            if (f->local.ip ? f->local.ip == ip : host_ips.count(f->owner) ? has_ip(f->owner, ip) : owner_ip[f->owner] == ip) return f.get();
        }
    return 0;
}

static size_t put(Conn* c, int side, const uint8_t* p, size_t n, bool nodelay = true)
{
    Dir& d = c->d[side];
    n = std::min(n, d.space());
    if (!n) return 0;
    d.buf.append((const char*) p, n);
    d.written += n;
    int64_t at = now + d.delay;
    if (!nodelay && n % 1460) at = std::max(at, d.unacked_until + d.delay);
    if (!d.transit.empty()) at = std::max(at, d.transit.back().first);
    d.unacked_until = at + 40000 + d.delay;
    d.transit.push_back({at, n});
    if (!d.stall)
        while (!d.transit.empty() && d.transit.front().first <= now) {
            d.arrived += d.transit.front().second;
            d.transit.pop_front();
        }
    return n;
}

static size_t take(Conn* c, int side, uint8_t* p, size_t n)
{
    Dir& d = c->d[1 - side];
    n = std::min(n, d.arrived);
    if (!n) return 0;
    memcpy(p, d.buf.data() + d.head, n);
    d.head += n;
    d.arrived -= n;
    d.read += n;
    if (d.head > 65536 && d.head * 2 > d.buf.size()) { d.buf.erase(0, d.head); d.head = 0; }
    return n;
}

static void close_side(Conn* c, int side, bool rst)
{
    if (c->closed[side]) return;
    c->closed[side] = true;
    c->d[side].fin = true;
    if (rst) {
        Dir& d = c->d[side];
        d.rst = true;
        d.buf.clear(); d.head = 0; d.arrived = 0; d.transit.clear();
    }
    if (c->listen_fd != -1 && c->fd[1] == -1 && side == 0) {
        // Closed before accept(): still in the accept queue, as on Linux.
    }
}

Conn* raw_connect(uint32_t ip, uint16_t port, Addr from)
{
    Fd* l = find_listener(ip, port);
    if (!l || l->acceptq.size() >= cfg.backlog) return 0;
    Conn* c = new_conn(from, Addr{ip, port});
    c->state = ESTABLISHED;
    c->fd[0] = -2;
    c->listen_fd = l->fd;
    c->owner[1] = l->owner;
    l->acceptq.push_back(c);
    return c;
}

int raw_listen(uint32_t ip, uint16_t port, int o)
{
    int save = owner;
    owner = o;
    Fd* f = new_fd(LISTEN);
    owner = save;
    f->local = Addr{ip, port};
    f->bound = true;
    return f->fd;
}

Conn* raw_accept(int lfd)
{
    Fd* l = get(lfd);
    if (!l || l->acceptq.empty()) return 0;
    Conn* c = l->acceptq.front();
    l->acceptq.pop_front();
    c->fd[1] = -2;
    c->owner[1] = l->owner;
    return c;
}

size_t raw_write(Conn* c, int side, const void* p, size_t n)
{
    if (c->closed[side] || c->closed[1 - side]) return 0;
    return put(c, side, (const uint8_t*) p, n);
}

std::string raw_read(Conn* c, int side)
{
    std::string r;
    Dir& d = c->d[1 - side];
    r.resize(d.arrived);
    if (!r.empty()) {
        size_t n = take(c, side, (uint8_t*) &r[0], r.size());
        r.resize(n);
    }
    return r;
}

void raw_close(Conn* c, int side, bool rst) { close_side(c, side, rst); }
bool raw_eof(Conn* c, int side) { return c->d[1 - side].rst || (c->d[1 - side].fin && c->d[1 - side].used() == 0); }

// ---- heap ----------------------------------------------------------------

size_t live_blocks() { return live ? live->size() : 0; }
size_t live_bytes() { return live_sz; }
uint64_t block_id(void* p) { if (!live) return 0; auto it = live->find(p); return it == live->end() ? 0 : it->second.id; }

// Other threads get their turn here.
void elsewhere()
{
    if (!paused || !owner || !active) return;
    int e = errno;
    paused();
    errno = e;
}

} // namespace sim

using namespace sim;

extern "C" {

void* __real_malloc(size_t);
void* __real_calloc(size_t, size_t);
void* __real_realloc(void*, size_t);
void __real_free(void*);
char* __real_strdup(const char*);
int __real_socket(int, int, int);
int __real_setsockopt(int, int, int, const void*, socklen_t);
int __real_getsockopt(int, int, int, void*, socklen_t*);
int __real_bind(int, const struct sockaddr*, socklen_t);
int __real_listen(int, int);
int __real_accept(int, struct sockaddr*, socklen_t*);
int __real_connect(int, const struct sockaddr*, socklen_t);
ssize_t __real_read(int, void*, size_t);
ssize_t __real_write(int, const void*, size_t);
ssize_t __real_readv(int, const struct iovec*, int);
ssize_t __real_writev(int, const struct iovec*, int);
int __real_close(int);
int __real_fcntl(int, int, ...);
int __real_ioctl(int, unsigned long, ...);
int __real_clock_gettime(clockid_t, struct timespec*);
int __real_gettimeofday(struct timeval*, void*);
time_t __real_time(time_t*);
void __real_exit(int) __attribute__((noreturn));

static void track(void* p, size_t n)
{
    if (p && active && live) { (*live)[p] = Block{n, ++block_serial}; live_sz += n; }
}
static void untrack(void* p)
{
    if (!p || !live) return;
    auto it = live->find(p);
    if (it != live->end()) { live_sz -= it->second.size; live->erase(it); }
}

static inline void pause_here() { if (paused) elsewhere(); }

struct Pause { Pause() { pause_here(); } ~Pause() { pause_here(); } };    // before and after the call

void* __wrap_malloc(size_t n)
{
    Pause pause;
    void* p = __real_malloc(n);
    if (p && active) memset(p, 0xA5, n);     // deterministic garbage
    track(p, n);
    return p;
}
void* __wrap_calloc(size_t a, size_t b) { void* p = __real_calloc(a, b); track(p, a * b); return p; }
void* __wrap_realloc(void* o, size_t n)
{
    untrack(o);
    void* p = __real_realloc(o, n);
    track(p, n);
    return p;
}
void __wrap_free(void* p) { pause_here(); untrack(p); __real_free(p); }
char* __wrap_strdup(const char* s) { char* p = __real_strdup(s); track(p, strlen(s) + 1); return p; }

// The time of day is set again and again, by up to an hour either way; the other clocks do not notice.
static int64_t time_of_day()
{
    uint64_t h = (uint64_t) (now >> 15) * 0x9E3779B97F4A7C15ull;
    return 1542700000000000ll + now + (int64_t) ((h >> 24) % 7200000001ull) - 3600000000ll;
}
int __wrap_clock_gettime(clockid_t id, struct timespec* ts)
{
    if (!active) return __real_clock_gettime(id, ts);
    Pause pause;
    int64_t t = id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE || id == CLOCK_TAI ? time_of_day() : now;
    ts->tv_sec = t / 1000000;
    ts->tv_nsec = (t % 1000000) * 1000;
    now += tick;
    ++n_clock;
    return 0;
}
int __wrap_gettimeofday(struct timeval* tv, void* tz)
{
    if (!active) return __real_gettimeofday(tv, tz);
    int64_t t = time_of_day();
    tv->tv_sec = t / 1000000;
    tv->tv_usec = t % 1000000;
    return 0;
}
time_t __wrap_time(time_t* t)
{
    if (!active) return __real_time(t);
    time_t r = now / 1000000;
    if (t) *t = r;
    return r;
}
int __wrap_usleep(unsigned) { return 0; }
int __wrap_nanosleep(const struct timespec*, struct timespec*) { return 0; }

void __wrap_exit(int rc)
{
    if (active) {
        pbt::fail(pbt::prop, "the library called exit(%d)", rc);
        _exit(rc ? rc : 1);
    }
    __real_exit(rc);
}

int __wrap_socket(int dom, int type, int proto)
{
    if (!active) return __real_socket(dom, type, proto);
    if (int e = fault("socket")) { errno = e; return -1; }
    int t = type & ~(SOCK_NONBLOCK | SOCK_CLOEXEC);
    if (dom != AF_INET || (t != SOCK_DGRAM && t != SOCK_STREAM)) { errno = EINVAL; return -1; }
    Fd* f = new_fd(t == SOCK_DGRAM ? UDP : TCP);
    f->nonblock = type & SOCK_NONBLOCK;
    return f->fd;
}

int __wrap_setsockopt(int fd, int level, int name, const void* val, socklen_t len)
{
    Pause pause;
    if (!mine(fd)) { if (!active) return __real_setsockopt(fd, level, name, val, len); errno = EBADF; obs->bad_fd("setsockopt", fd, false); errno = EBADF; return -1; }
    Fd* f = need("setsockopt", fd);
    if (!f) return -1;
    if (int e = fault("setsockopt")) { errno = e; return -1; }
    if (level == IPPROTO_IP && name == IP_MULTICAST_IF && len >= (socklen_t) sizeof(struct in_addr)) {
        uint32_t ip = ntohl(((const struct in_addr*) val)->s_addr);
        if (!has_ip(f->owner, ip)) { errno = EADDRNOTAVAIL; return -1; }
        f->mcast_if = ip;
    } else if (level == IPPROTO_IP && name == IP_ADD_MEMBERSHIP && len >= (socklen_t) sizeof(struct ip_mreq)) {
        const struct ip_mreq* m = (const struct ip_mreq*) val;
        f->group = ntohl(m->imr_multiaddr.s_addr);
        f->mcast_if = ntohl(m->imr_interface.s_addr);
        if (!has_ip(f->owner, f->mcast_if)) { errno = ENODEV; return -1; }
        if ((f->group >> 28) != 0xE) { errno = EINVAL; return -1; }
        f->joined = true;
    } else if (level == IPPROTO_IP && name == IP_MULTICAST_TTL) {
        int v = 0;
        memcpy(&v, val, len < 4 ? len : 4);
        if (v < -1 || v > 255) { errno = EINVAL; return -1; }
        f->ttl = v;
    } else if (level == SOL_SOCKET && (name == SO_REUSEADDR || name == SO_REUSEPORT)) {
        f->reuse = true;
    } else if (level == IPPROTO_TCP && name == TCP_NODELAY) {
        int v = 0;
        memcpy(&v, val, len < 4 ? len : 4);
        f->nodelay = v;
    }
    return 0;
}

int __wrap_getsockopt(int fd, int level, int name, void* val, socklen_t* len)
{
    Pause pause;
    if (!mine(fd)) { if (!active) return __real_getsockopt(fd, level, name, val, len); errno = EBADF; return -1; }
    Fd* f = need("getsockopt", fd);
    if (!f) return -1;
    if (int e = fault("getsockopt")) { errno = e; return -1; }
    if (level == SOL_SOCKET && name == SO_ERROR) {
        int e = f->so_error;
        f->so_error = 0;
        memcpy(val, &e, sizeof(e));
        *len = sizeof(e);
        return 0;
    }
    memset(val, 0, *len);
    return 0;
}

int __wrap_bind(int fd, const struct sockaddr* a, socklen_t len)
{
    if (!mine(fd)) { if (!active) return __real_bind(fd, a, len); errno = EBADF; return -1; }
    Fd* f = need("bind", fd);
    if (!f) return -1;
    if (int e = fault("bind")) { errno = e; return -1; }
    const struct sockaddr_in* s = (const struct sockaddr_in*) a;
    Addr b = Addr{ntohl(s->sin_addr.s_addr), ntohs(s->sin_port)};
    if (len < (socklen_t) sizeof(*s) || s->sin_family != AF_INET) { errno = EINVAL; return -1; }
    if ((b.ip >> 28) != 0xE && !has_ip(f->owner, b.ip)) { errno = EADDRNOTAVAIL; return -1; }
    if (b.port && host_of.count(f->owner))
        for (auto& o : fds) {
            if (!o->open || !o->bound || o.get() == f || (o->kind == UDP) != (f->kind == UDP) || o->local.port != b.port) continue;
            if (o->kind == TCP || !host_of.count(o->owner) || host_of[o->owner] != host_of[f->owner]) continue;
            if (b.ip && o->local.ip && b.ip != o->local.ip) continue;
            if (!o->reuse || !f->reuse) { errno = EADDRINUSE; return -1; }
        }
    f->bound = true;
    f->local = b;
    if (!f->local.port) f->local.port = next_port++;
    return 0;
}

int __wrap_listen(int fd, int backlog)
{
    if (!mine(fd)) { if (!active) return __real_listen(fd, backlog); errno = EBADF; return -1; }
    Fd* f = need("listen", fd);
    if (!f) return -1;
    if (int e = fault("listen")) { errno = e; return -1; }
    f->kind = LISTEN;
    return 0;
}

int __wrap_getsockname(int fd, struct sockaddr* a, socklen_t* len)
{
    Pause pause;
    Fd* f = need("getsockname", fd);
    if (!f) return -1;
    if (int e = fault("getsockname")) { errno = e; return -1; }
    struct sockaddr_in s;
    memset(&s, 0, sizeof(s));
    s.sin_family = AF_INET;
    s.sin_addr.s_addr = htonl(f->local.ip);
    s.sin_port = htons(f->local.port);
    memcpy(a, &s, std::min<size_t>(*len, sizeof(s)));
    *len = sizeof(s);
    return 0;
}

int __wrap_getpeername(int fd, struct sockaddr* a, socklen_t* len)
{
    Fd* f = need("getpeername", fd);
    if (!f) return -1;
    if (!f->conn) { errno = ENOTCONN; return -1; }
    Addr p = f->side ? f->conn->client : f->conn->server;
    struct sockaddr_in s;
    memset(&s, 0, sizeof(s));
    s.sin_family = AF_INET;
    s.sin_addr.s_addr = htonl(p.ip);
    s.sin_port = htons(p.port);
    memcpy(a, &s, std::min<size_t>(*len, sizeof(s)));
    *len = sizeof(s);
    return 0;
}

static int do_accept(int fd, struct sockaddr* a, socklen_t* len, int flags)
{
    Fd* l = need("accept", fd);
    if (!l) return -1;
    if (l->kind != LISTEN) { errno = EINVAL; return -1; }
    if (int e = fault("accept")) { errno = e; return -1; }
    if (l->acceptq.empty()) {
        if (!l->nonblock) blocked("accept");
        errno = EAGAIN;
        return -1;
    }
    Conn* c = l->acceptq.front();
    l->acceptq.pop_front();
    Fd* f = new_fd(TCP);
    f->owner = l->owner;
    f->nonblock = flags & SOCK_NONBLOCK;
    f->nodelay = l->nodelay;
    f->conn = c;
    f->side = 1;
    f->local = c->server;
    c->fd[1] = f->fd;
    c->owner[1] = l->owner;
    if (a && len) {
        struct sockaddr_in s;
        memset(&s, 0, sizeof(s));
        s.sin_family = AF_INET;
        s.sin_addr.s_addr = htonl(c->client.ip);
        s.sin_port = htons(c->client.port);
        memcpy(a, &s, std::min<size_t>(*len, sizeof(s)));
        *len = sizeof(s);
    }
    ++acts.accepted;
    obs->accepted(*c);
    return f->fd;
}
int __wrap_accept(int fd, struct sockaddr* a, socklen_t* len)
{
    Pause pause;
    if (!mine(fd)) { if (!active) return __real_accept(fd, a, len); errno = EBADF; return -1; }
    return do_accept(fd, a, len, 0);
}
int __wrap_accept4(int fd, struct sockaddr* a, socklen_t* len, int flags)
{
    Pause pause;
    if (!mine(fd)) { errno = EBADF; return -1; }
    return do_accept(fd, a, len, flags);
}

int __wrap_connect(int fd, const struct sockaddr* a, socklen_t len)
{
    Pause pause;
    if (!mine(fd)) { if (!active) return __real_connect(fd, a, len); errno = EBADF; return -1; }
    Fd* f = need("connect", fd);
    if (!f) return -1;
    if (int e = fault("connect")) { errno = e; return -1; }
    const struct sockaddr_in* s = (const struct sockaddr_in*) a;
    uint32_t ip = ntohl(s->sin_addr.s_addr);
    uint16_t port = ntohs(s->sin_port);
    Fd* l = find_listener(ip, port);
    Conn* c = new_conn(Addr{owner_ip[f->owner], next_port++}, Addr{ip, port});
    c->fd[0] = f->fd;
    c->owner[0] = f->owner;
    c->owner[1] = l ? l->owner : -1;
    c->listen_fd = l ? l->fd : -1;
    f->conn = c;
    f->side = 0;
    f->local = c->client;
    obs->connect_plan(*c);
    if (!l || l->acceptq.size() >= cfg.backlog) c->will_refuse = true;
    obs->connect_started(*c);
    if (!f->nonblock || c->done_at < now) {          // done_at in the past: immediate completion
        c->done_at = now;
        pump();
        if (c->state == REFUSED) { f->so_error = 0; errno = ECONNREFUSED; return -1; }
        return 0;
    }
    errno = EINPROGRESS;
    return -1;
}

static ssize_t dgram_send(Fd* f, const struct sockaddr_in* to, const std::vector<uint8_t>& data)
{
    if (int e = fault("sendmsg")) { errno = e; return -1; }
    if (!to) { errno = EDESTADDRREQ; return -1; }
    if (data.size() > 65507) { errno = EMSGSIZE; return -1; }
    uint32_t grp = ntohl(to->sin_addr.s_addr);
    uint16_t port = ntohs(to->sin_port);
    Addr src = { f->mcast_if ? f->mcast_if : owner_ip[f->owner], f->local.port };
    if (!src.port) { f->local.port = next_port++; src.port = f->local.port; }
    dst = Addr{grp, port};
    ++acts.sent;
    obs->mcast_sent(*f, data.data(), data.size());
    send_dgram(f, src, grp, port, data);
    return (ssize_t) data.size();
}

static size_t stream_limit(int mode, size_t n)
{
    if (n <= 1 || mode == 0) return n;
    if (mode == 2) return 1;
    // 0 = everything, so that shrinking goes to whole transfers
    uint64_t r = pbt::src.draw(4);
    if (r == 0) return n;
    if (r == 1) return n - pbt::src.draw(std::min<size_t>(n, 24));
    if (r == 2) return 1 + pbt::src.draw(std::min<size_t>(n, 24));
    return 1 + pbt::src.draw(n);
}

static ssize_t stream_send(Fd* f, const std::vector<uint8_t>& data, const char* call, int flags)
{
    bool dontwait = flags & MSG_DONTWAIT;
    if (int e = fault("writev")) { errno = e; return -1; }
    Conn* c = f->conn;
    if (!c || c->state != ESTABLISHED) {
        if (!c || c->state != CONNECTING) return broken_pipe(call, flags & MSG_NOSIGNAL);
        errno = EAGAIN;
        return -1;
    }
    if (c->closed[f->side]) return broken_pipe(call, flags & MSG_NOSIGNAL);
    if (c->d[1 - f->side].rst) { errno = ECONNRESET; return -1; }
    if (c->closed[1 - f->side]) return broken_pipe(call, flags & MSG_NOSIGNAL);
    if (data.empty()) return 0;
    size_t n = std::min(data.size(), c->d[f->side].space());
    if (n == 0) {
        if (!f->nonblock && !dontwait) blocked(call);
        errno = EAGAIN;
        return -1;
    }
    if (n < data.size() && !f->nonblock && !dontwait) blocked(call);
    n = stream_limit(cfg.write_chunk, n);
    n = put(c, f->side, data.data(), n, f->nodelay);
    acts.tx += n;
    obs->tcp_written(*c, f->side, data.data(), n);
    return (ssize_t) n;
}

static std::vector<uint8_t> gather(const struct iovec* v, int n)
{
    std::vector<uint8_t> r;
    size_t tot = 0;
    for (int i = 0; i < n; ++i) tot += v[i].iov_len;
    r.reserve(tot);
    for (int i = 0; i < n; ++i)
        if (v[i].iov_len) r.insert(r.end(), (const uint8_t*) v[i].iov_base, (const uint8_t*) v[i].iov_base + v[i].iov_len);
    return r;
}
static void scatter(const struct iovec* v, int n, const uint8_t* p, size_t len)
{
    for (int i = 0; i < n && len; ++i) {
        size_t k = std::min(len, v[i].iov_len);
        if (k) memcpy(v[i].iov_base, p, k);
        p += k;
        len -= k;
    }
}
static size_t iov_total(const struct iovec* v, int n) { size_t t = 0; for (int i = 0; i < n; ++i) t += v[i].iov_len; return t; }

static ssize_t any_send(int fd, const struct sockaddr_in* to, const struct iovec* v, int n, int flags, const char* call)
{
    Fd* f = need(call, fd);
    if (!f) return -1;
    std::vector<uint8_t> data = gather(v, n);
    if (f->kind == UDP) return dgram_send(f, to, data);
    if (f->kind == LISTEN) { errno = ENOTCONN; return -1; }
    return stream_send(f, data, call, flags);
}

ssize_t __wrap_sendmsg(int fd, const struct msghdr* m, int flags)
{
    Pause pause;
    return any_send(fd, (const struct sockaddr_in*) m->msg_name, m->msg_iov, (int) m->msg_iovlen, flags, "sendmsg");
}
ssize_t __wrap_sendto(int fd, const void* p, size_t n, int flags, const struct sockaddr* to, socklen_t)
{
    Pause pause;
    struct iovec v = { (void*) p, n };
    return any_send(fd, (const struct sockaddr_in*) to, &v, 1, flags, "sendto");
}
ssize_t __wrap_send(int fd, const void* p, size_t n, int flags)
{
    Pause pause;
    struct iovec v = { (void*) p, n };
    return any_send(fd, 0, &v, 1, flags, "send");
}
ssize_t __wrap_write(int fd, const void* p, size_t n)
{
    Pause pause;
    if (!mine(fd)) return __real_write(fd, p, n);
    struct iovec v = { (void*) p, n };
    return any_send(fd, 0, &v, 1, 0, "write");
}
static bool bad_vector(const struct iovec* v, int n);
ssize_t __wrap_writev(int fd, const struct iovec* v, int n)
{
    Pause pause;
    if (!mine(fd)) { if (!active) return __real_writev(fd, v, n); }
    if (bad_vector(v, n)) { errno = EINVAL; return -1; }
    return any_send(fd, 0, v, n, 0, "writev");
}

// The kernel's own limits on a vector.
static bool bad_vector(const struct iovec* v, int n)
{
    if (n < 0 || n > 1024) return true;
    size_t sum = 0;
    for (int k = 0; k < n; ++k) {
        if ((ssize_t) v[k].iov_len < 0 || (ssize_t) (sum + v[k].iov_len) < 0) return true;
        sum += v[k].iov_len;
    }
    return false;
}

static ssize_t any_recv(int fd, struct sockaddr* from, socklen_t* flen, const struct iovec* v, int n, int flags, const char* call)
{
    Fd* f = need(call, fd);
    if (!f) return -1;
    if (f->kind == UDP) {
        if (int e = fault("recvfrom")) { errno = e; return -1; }
        if (f->rx.empty()) {
            if (!f->nonblock && !(flags & MSG_DONTWAIT)) blocked(call);
            errno = EAGAIN;
            return -1;
        }
        Dgram d = std::move(f->rx.front());
        f->rx.pop_front();
        size_t k = std::min(d.data.size(), iov_total(v, n));
        scatter(v, n, d.data.data(), k);
        if (from && flen) {
            struct sockaddr_in s;
            memset(&s, 0, sizeof(s));
            s.sin_family = AF_INET;
            s.sin_addr.s_addr = htonl(d.src.ip);
            s.sin_port = htons(d.src.port);
            memcpy(from, &s, std::min<size_t>(*flen, sizeof(s)));
            *flen = sizeof(s);
        }
        if (acts.dgrams.size() < 1000) acts.dgrams.push_back(d);
        obs->udp_read(*f, d);
        return (ssize_t) k;
    }
    if (f->kind == LISTEN || !f->conn) { errno = ENOTCONN; return -1; }
    if (int e = fault("readv")) { errno = e; return -1; }
    Conn* c = f->conn;
    if (c->state == REFUSED) { errno = ECONNREFUSED; return -1; }
    if (c->state == CONNECTING) { errno = EAGAIN; return -1; }
    Dir& in = c->d[1 - f->side];
    if (in.rst) { errno = ECONNRESET; return -1; }
    if (!in.readable()) {
        if (tcp_eof(f)) return 0;
        if (!f->nonblock && !(flags & MSG_DONTWAIT)) blocked(call);
        errno = EAGAIN;
        return -1;
    }
    size_t want = std::min(iov_total(v, n), in.readable());
    if (!want) return 0;
    want = stream_limit(cfg.read_chunk, want);
    std::vector<uint8_t> tmp(want);
    want = take(c, f->side, tmp.data(), want);
    scatter(v, n, tmp.data(), want);
    acts.rx += want;
    obs->tcp_read(*c, f->side, tmp.data(), want);
    return (ssize_t) want;
}

ssize_t __wrap_recvmsg(int fd, struct msghdr* m, int flags)
{
    Pause pause;
    return any_recv(fd, (struct sockaddr*) m->msg_name, &m->msg_namelen, m->msg_iov, (int) m->msg_iovlen, flags, "recvmsg");
}
ssize_t __wrap_recvfrom(int fd, void* p, size_t n, int flags, struct sockaddr* from, socklen_t* flen)
{
    Pause pause;
    struct iovec v = { p, n };
    return any_recv(fd, from, flen, &v, 1, flags, "recvfrom");
}
ssize_t __wrap_recv(int fd, void* p, size_t n, int flags)
{
    Pause pause;
    struct iovec v = { p, n };
    return any_recv(fd, 0, 0, &v, 1, flags, "recv");
}
ssize_t __wrap_read(int fd, void* p, size_t n)
{
    Pause pause;
    if (!mine(fd)) return __real_read(fd, p, n);
    struct iovec v = { p, n };
    return any_recv(fd, 0, 0, &v, 1, 0, "read");
}
ssize_t __wrap_readv(int fd, const struct iovec* v, int n)
{
    Pause pause;
    if (!mine(fd)) { if (!active) return __real_readv(fd, v, n); }
    if (bad_vector(v, n)) { errno = EINVAL; return -1; }
    return any_recv(fd, 0, 0, v, n, 0, "readv");
}

int __wrap_shutdown(int fd, int how)
{
    Fd* f = need("shutdown", fd);
    if (!f) return -1;
    if (f->kind != TCP || !f->conn || f->conn->state != ESTABLISHED) { errno = ENOTCONN; return -1; }
    if (how == SHUT_WR || how == SHUT_RDWR) f->conn->d[f->side].fin = true;
    return 0;
}

int __wrap_close(int fd)
{
    Pause pause;
    if (!mine(fd)) {
        if (active && fd < 0) { errno = EBADF; return -1; }
        return __real_close(fd);
    }
    Fd* f = need("close", fd);
    if (!f) return -1;
    obs->fd_closed(*f);
    f->open = false;
    if (f->kind == TCP && f->conn) {
        Conn* c = f->conn;
        // Closing with unread data, or while connecting, resets the peer.
        bool unread = c->d[1 - f->side].used() > 0;
        if (c->state == CONNECTING) { c->will_refuse = true; c->closed[f->side] = true; }
        else close_side(c, f->side, unread && c->d[f->side].used() == 0 && false);
    }
    if (f->kind == LISTEN) {
        for (Conn* c : f->acceptq) close_side(c, 1, true);
        f->acceptq.clear();
    }
    f->rx.clear();
    return 0;
}

static int do_fcntl(int fd, int cmd, long arg)
{
    Fd* f = need("fcntl", fd);
    if (!f) return -1;
    if (int e = fault("fcntl")) { errno = e; return -1; }
    if (cmd == F_GETFL) return O_RDWR | (f->nonblock ? O_NONBLOCK : 0);
    if (cmd == F_SETFL) { f->nonblock = arg & O_NONBLOCK; return 0; }
    return 0;
}
int __wrap_fcntl(int fd, int cmd, ...)
{
    va_list ap;
    va_start(ap, cmd);
    long arg = va_arg(ap, long);
    va_end(ap);
    if (!mine(fd)) { if (active && fd < 0) { errno = EBADF; return -1; } return __real_fcntl(fd, cmd, arg); }
    return do_fcntl(fd, cmd, arg);
}
int __wrap_fcntl64(int fd, int cmd, ...)
{
    va_list ap;
    va_start(ap, cmd);
    long arg = va_arg(ap, long);
    va_end(ap);
    if (!mine(fd)) { if (active && fd < 0) { errno = EBADF; return -1; } return __real_fcntl(fd, cmd, arg); }
    return do_fcntl(fd, cmd, arg);
}
int __wrap_ioctl(int fd, unsigned long req, ...)
{
    va_list ap;
    va_start(ap, req);
    void* arg = va_arg(ap, void*);
    va_end(ap);
    if (!mine(fd)) return __real_ioctl(fd, req, arg);
    Fd* f = need("ioctl", fd);
    if (!f) return -1;
    if (req == FIONBIO) f->nonblock = *(int*) arg != 0;
    if (req == FIONREAD) *(int*) arg = f->kind == UDP ? (f->rx.empty() ? 0 : (int) f->rx.front().data.size())
                             : (f->conn ? (int) f->conn->d[1 - f->side].readable() : 0);
    return 0;
}

const char* __asan_default_options()
{
    return "detect_leaks=0:exitcode=99:abort_on_error=0:allocator_may_return_null=1:quarantine_size_mb=48:"
           "handle_segv=1:detect_stack_use_after_return=1:malloc_fill_byte=165:max_malloc_fill_size=0:print_summary=1";
}
const char* __ubsan_default_options() { return "halt_on_error=1:exitcode=99:print_stacktrace=0"; }

} // extern "C"

namespace sim {
void* raw_malloc(size_t n) { return __real_malloc(n ? n : 1); }
void raw_free(void* p) { __real_free(p); }
void* lib_malloc(size_t n) { return __wrap_malloc(n ? n : 1); }
}

void hooks_case_begin() { sim::reset(); sim::active = true; }
void hooks_case_end() { sim::active = false; sim::obs = &sim::null_obs; }
void hooks_real_exit(int rc) { _exit(rc); }
