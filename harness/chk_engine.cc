// C25: the received-id intervals are the maximal runs of the set of received ids.
// C26: the subscriber engine orders, dedups and hands out packets like its model.
// C27: the publisher engine queues, tracks and releases packets like its model.
#include "pbt.h"
#include "sim.h"
#include "rmc.h"
#include <map>
#include <set>
#include <algorithm>
#include <string.h>
namespace rig { void draw_epoch(); }
using namespace pbt;
typedef unsigned long long ull;

// ---------------------------------------------------------------- C25
#define F25(cond, ...) FAILIF("C25", cond, __VA_ARGS__)

struct Run { packet_id_t a, b; int64_t ts; };
static std::vector<Run> runs_of(const std::map<packet_id_t, int64_t>& m)
{
    std::vector<Run> r;
    for (auto& e : m) {
        if (!r.empty() && r.back().b + 1 == e.first) {
            r.back().b = e.first;
            r.back().ts = std::min(r.back().ts, e.second);
        } else
            r.push_back({e.first, e.first, e.second});
    }
    return r;
}

static void verify25(sub_publisher_t& p, const std::map<packet_id_t, int64_t>& m)
{
    std::vector<Run> r = runs_of(m);
    size_t k = 0;
    int64_t oldest = 0;
    for (auto& x : r) if (!oldest || x.ts < oldest) oldest = x.ts;
    for (sub_pid_interval_node_t* n = sub_pid_interval_list_head(&p.received_interval); n; n = sub_pid_interval_list_next(n), ++k) {
        F25(k >= r.size(), "interval %zu (%llu-%llu) is one too many", k, (ull) n->data.first_pid, (ull) n->data.last_pid);
        F25(n->data.first_pid != r[k].a || n->data.last_pid != r[k].b, "interval %zu is %llu-%llu, the received ids form %llu-%llu",
            k, (ull) n->data.first_pid, (ull) n->data.last_pid, (ull) r[k].a, (ull) r[k].b);
        F25(n->data.receive_ts != r[k].ts, "interval %llu-%llu carries time %lld, its oldest id was received at %lld",
            (ull) r[k].a, (ull) r[k].b, (long long) n->data.receive_ts, (long long) r[k].ts);
    }
    F25(k != r.size(), "%zu intervals, the received ids form %zu", k, r.size());
    F25(sub_oldest_unacknowledged_packet(&p) != oldest, "the oldest unacknowledged id was received at %lld, reported %lld",
        (long long) oldest, (long long) sub_oldest_unacknowledged_packet(&p));
}

// Where ids start, and how far apart groups of them are.
static packet_id_t any_base(int pct, int bits)
{
    if (!src.chance(pct)) return 1;
    return src.chance(70) ? 1 + src.draw(1ull << bits) : src.one_of<uint64_t>({250, 65530, 0x7FFFFFF0ull, 0xFFFFFFF0ull, 0x7FFFFFFFFFFFFFF0ull, ~0ull - (5ull << 48)});
}
static packet_id_t any_stride() { return src.chance(12) ? src.one_of<uint64_t>({1ull << 8, 1ull << 16, 1ull << 31, 1ull << 32, 1ull << 48}) : 0; }

static void run25()
{
    sim::reset();
    sim::tick = 0;
    rig::draw_epoch();
    sim::now += src.draw(1000000);
    sub_publisher_t p;
    memset(&p, 0xA5, sizeof(p));
    sub_init_publisher(&p);
    packet_id_t base = any_base(25, 45), stride = any_stride();
    int span = 2 + (int) src.draw(src.chance(1) ? 400 : thorough ? 120 : 50);
    std::vector<packet_id_t> left;
    for (int i = 0; i < span; ++i) left.push_back(base + i + (stride ? stride * src.draw(4) : 0));
    std::sort(left.begin(), left.end());
    left.erase(std::unique(left.begin(), left.end()), left.end());
    std::map<packet_id_t, int64_t> m;
    int n = 3 + (int) src.draw(span + 10), merges = 0, acks = 0, grown_after_ack = 0;
    bool direct = src.chance(50);
    std::set<packet_id_t> acked;
    F25(sub_oldest_unacknowledged_packet(&p) != 0, "a fresh publisher has an unacknowledged packet");
    for (int i = 0; i < n; ++i) {
        sim::now += src.draw(1000);
        if (src.weighted({9, 1}) == 0 && !left.empty()) {
            size_t k = src.weighted({3, 2, 3}) == 0 ? 0 : src.draw(left.size());
            packet_id_t id = left[k];
            left.erase(left.begin() + k);
            bool lo = m.count(id - 1), hi = m.count(id + 1);
            int want = lo && hi ? -1 : lo || hi ? 0 : 1;
            m[id] = sim::now;
            if (lo && hi) ++merges;
            if (acked.count(id - 1) || acked.count(id + 1)) ++grown_after_ack;
            if (direct) {
                int r = sub_packet_add_to_received_interval(&p, id);
                note("t=%lld add %llu = %d", (long long) sim::now, (ull) id, r);
                F25(r != want, "adding %llu returned %d, not %d", (ull) id, r, want);
            } else {
                sub_packet_received(&p, id, 0, 0, 1, sim::now, user_data_nil());
                note("t=%lld received %llu", (long long) sim::now, (ull) id);
            }
        } else if (!m.empty()) {
            // What an acknowledgement does: the first interval leaves.
            sub_pid_interval_t v;
            Run r = runs_of(m)[0];
            int ok = sub_pid_interval_list_pop_head(&p.received_interval, &v);
            note("acknowledge the first interval");
            F25(!ok || v.first_pid != r.a || v.last_pid != r.b, "the first interval is not %llu-%llu", (ull) r.a, (ull) r.b);
            for (packet_id_t x = r.a; x <= r.b; ++x) { m.erase(x); acked.insert(x); }
            ++acks;
        }
        verify25(p, m);
        if (src.exhausted) break;
    }
    if (merges) label("two intervals merged");
    if (acks) label("interval acknowledged in between");
    if (grown_after_ack) label("id next to an acknowledged interval");
    if (base > 1) label("large ids");
    if (stride) label("ids far apart");
    if (merges) nontrivial();
    feature(base); feature(span);
    sub_reset_publisher(&p, 0);
    m.clear();
    verify25(p, m);
}

static Reg r25({"C25", run25,
    "random insertion orders of distinct ids over a random span with passing time and interleaved acknowledgement of the first interval, "
    "compared with the maximal runs of the id set; non-trivial: an id closed the gap between two intervals",
    600000, 8000000, "model-based property testing"});

// ---------------------------------------------------------------- C26
#define F26(cond, ...) FAILIF("C26", cond, __VA_ARGS__)

struct Undelivered { void* p; payload_len_t len; uint64_t ud; };
static std::vector<Undelivered>* freed26;
static void free26(void* p, payload_len_t l, user_data_t ud) { freed26->push_back({p, l, ud.u64}); }

static void run26()
{
    sim::reset();
    sim::tick = 0;
    rig::draw_epoch();
    static uint8_t dummy[4096];
    int rounds = 1 + (int) src.draw(3);
    bool any_gap = false, any_dup = false;
    std::vector<Undelivered> freed;
    freed26 = &freed;
    sub_publisher_t p;
    memset(&p, 0xA5, sizeof(p));
    for (int round = 0; round < rounds; ++round) {
        sub_init_publisher(&p);
        sub_packet_list_t ready;
        sub_packet_list_init(&ready, 0, 0, 0);
        packet_id_t base = any_base(40, 40), stride = any_stride();
        int span = 1 + (int) src.draw(thorough ? 80 : 30);
        std::map<packet_id_t, Undelivered> got;      // received, not ready
        std::vector<Undelivered> out;                 // ready, in order
        std::vector<packet_id_t> outpid;
        packet_id_t last = 0;                         // last id made ready
        bool started = false;
        std::set<packet_id_t> ivl;
        int n = 4 + (int) src.draw(span * 2 + 10);
        note("publisher with ids from %llu", (ull) base);
        bool deep = src.draw(800) == 799;
        if (deep) label("deep gap");
        for (int i = 0; i < n && !src.exhausted; ++i) {
            sim::now += src.draw(100);
            switch (src.weighted({8, 4, 3, 2})) {
            case 0: {
                packet_id_t id = src.chance(60) ? std::min<packet_id_t>(base + span, (started ? last : base - 1) + 1 + src.draw(5)) : base + src.draw(span + 1);
                if (stride && src.chance(30)) id += stride * src.draw(4);
                bool dup = started ? id <= last || got.count(id) : got.count(id);
                if (!started && dup) break;           // Only defined once the first packets were processed
                int d = sub_packet_is_duplicate(&p, id);
                F26(!!d != dup, "id %llu is %sa duplicate, reported %d", (ull) id, dup ? "" : "not ", d);
                if (dup) { any_dup = true; note("id %llu is a duplicate", (ull) id); break; }
                Undelivered u = {dummy + src.draw(4096), (payload_len_t) src.draw(65313), mix(id * 7 + round)};
                bool keep = src.chance(80);
                sub_packet_received(&p, id, u.p, u.len, keep, sim::now, user_data_u64(u.ud));
                if (keep) ivl.insert(id);
                note("receive %llu", (ull) id);
                got[id] = u;
                if (started && id != last + 1) any_gap = true;
                if (deep && started && id + 2000 > id) {        // hundreds of packets wait for one
                    deep = false;
                    uint64_t m = src.one_of<uint64_t>({130, 201, 257, 300, 520, 1100});
                    for (packet_id_t x = id + 1; x <= id + m; ++x) {
                        if (got.count(x)) continue;
                        Undelivered v = {dummy + x % 4096, (payload_len_t) (x % 60000), mix(x * 7 + round)};
                        sub_packet_received(&p, x, v.p, v.len, keep, sim::now, user_data_u64(v.ud));
                        if (keep) ivl.insert(x);
                        got[x] = v;
                    }
                    note("receive %llu packets more", (ull) m);
                }
                break;
            }
            case 1: {
                sub_process_received_packets(&p, &ready);
                if (!started && !got.empty()) { started = true; last = got.begin()->first - 1; }
                while (started && !got.empty() && got.begin()->first == last + 1) {
                    out.push_back(got.begin()->second);
                    outpid.push_back(++last);
                    got.erase(got.begin());
                }
                note("process: %zu ready", out.size());
                break;
            }
            case 2: {
                sub_packet_t* pk = 0;
                int ok = sub_packet_list_pop_head(&ready, &pk);
                F26(!!ok != !out.empty(), "%s packet ready, the model has %zu", ok ? "a" : "no", out.size());
                if (!ok) break;
                F26(pk->pid != outpid[0], "packet %llu handed out, %llu is next", (ull) pk->pid, (ull) outpid[0]);
                F26(rmc_sub_packet_payload(pk) != out[0].p || rmc_sub_packet_payload_len(pk) != out[0].len,
                    "packet %llu handed out with another payload", (ull) pk->pid);
                F26(sub_packet_user_data(pk).u64 != out[0].ud, "packet %llu handed out with another user data", (ull) pk->pid);
                free(pk);
                out.erase(out.begin()); outpid.erase(outpid.begin());
                break;
            }
            case 3: {
                packet_id_t id = base + src.draw(span + 2) + (stride ? stride * src.draw(4) : 0);
                if (!started) break;
                bool dup = id <= last || got.count(id);
                int d = sub_packet_is_duplicate(&p, id);
                F26(!!d != dup, "id %llu is %sa duplicate, reported %d", (ull) id, dup ? "" : "not ", d);
                break;
            }
            }
            F26(sub_packet_list_size(&ready) != out.size(), "%u packets ready, the model has %zu", sub_packet_list_size(&ready), out.size());
            packet_id_t next = 0;
            size_t nivl = 0;
            for (auto id : ivl) { if (!next || id != next) ++nivl; next = id + 1; }
            F26(sub_pid_interval_list_size(&p.received_interval) != nivl, "%u unacknowledged intervals, the ids to acknowledge form %zu",
                sub_pid_interval_list_size(&p.received_interval), nivl);
        }
        // The end of the subscription: what was never ready is given back, once each.
        freed.clear();
        bool with_cb = !src.chance(10);
        sub_reset_publisher(&p, with_cb ? free26 : 0);
        note("reset with %zu packets not ready", got.size());
        if (with_cb) {
            F26(freed.size() != got.size(), "%zu payloads given back at the end, %zu packets were not ready", freed.size(), got.size());
            for (auto& u : freed) {
                bool hit = false;
                for (auto it = got.begin(); it != got.end(); ++it)
                    if (it->second.p == u.p && it->second.len == u.len && it->second.ud == u.ud) { got.erase(it); hit = true; break; }
                F26(!hit, "a payload given back at the end does not belong to a packet that was not ready");
            }
        }
        F26(sub_oldest_unacknowledged_packet(&p) != 0, "something is left to acknowledge after the end of the subscription");
        // Ready packets survive it.
        size_t k = 0;
        sub_packet_t* pk = 0;
        while (sub_packet_list_pop_head(&ready, &pk)) {
            F26(k >= out.size() || pk->pid != outpid[k] || rmc_sub_packet_payload(pk) != out[k].p, "ready packet %zu changed", k);
            free(pk);
            ++k;
        }
        F26(k != out.size(), "%zu ready packets left of %zu", k, out.size());
        F26(sim::live_blocks() != 0, "%zu memory blocks are still held after the end of the subscription", sim::live_blocks());
        feature(base); feature(span);
    }
    if (any_gap) label("gap");
    if (any_dup) label("duplicate");
    if (rounds > 1) label("publisher slot reused");
    if (any_gap && any_dup) nontrivial();
}

static Reg r26({"C26", run26,
    "random receive/duplicate-query/process/hand-out/reset histories over one reused publisher slot against a reference model; "
    "non-trivial: the history has both a gap and a duplicate",
    400000, 5000000, "model-based property testing"});

// ---------------------------------------------------------------- C27
#define F27(cond, ...) do { FAILIF("C27", cond, __VA_ARGS__); FAILIF("C09", cond, __VA_ARGS__); } while (0)

struct P27 { packet_id_t pid; void* p; payload_len_t len; uint64_t ud; int64_t ts; std::set<int> refs; bool sent; };
static std::vector<Undelivered>* freed27;
static void free27(void* p, payload_len_t l, user_data_t ud) { freed27->push_back({p, l, ud.u64}); }

static void run27()
{
    sim::reset();
    static uint8_t dummy[1 << 16];
    rig::draw_epoch();
    int64_t now = sim::now + (int64_t) src.draw(1000000);
    pub_context_t ctx;
    memset(&ctx, 0xA5, sizeof(ctx));
    pub_init_context(&ctx);
    const bool crowd = src.draw(300) == 299;
    const int NS = crowd ? (int) src.range(250, 300) : 5;
    std::vector<pub_subscriber_t> subs(NS);
    memset((void*) subs.data(), 0xA5, NS * sizeof(subs[0]));
    std::vector<char> act(NS);
    std::vector<uint64_t> sud(NS);
    std::vector<P27> all;
    std::vector<size_t> queue, orphan;
    packet_id_t next = 1;
    std::vector<Undelivered> freed, expect;
    freed27 = &freed;
    int n = 10 + (int) src.draw(thorough ? 150 : 70);
    bool multi_ref = false, dup_ack = false, late_join = false, timed = false, left_inflight = false, noack = false;
    int nsent = 0;

    auto drop_ref = [&](P27& k, int s) {
        k.refs.erase(s);
        if (k.refs.empty()) expect.push_back({k.p, k.len, k.ud});
    };
    auto check_freed = [&](const char* what) {
        F27(freed.size() != expect.size(), "%s released %zu payloads, not %zu", what, freed.size(), expect.size());
        for (auto& e : expect) {
            bool hit = false;
            for (size_t i = 0; i < freed.size(); ++i)
                if (freed[i].p == e.p && freed[i].len == e.len && freed[i].ud == e.ud) { freed.erase(freed.begin() + i); hit = true; break; }
            F27(!hit, "%s did not release the payload it should", what);
        }
        F27(!freed.empty(), "%s released a payload still in use", what);
        freed.clear(); expect.clear();
    };

    if (crowd) {
        label("more than 250 subscribers");
        for (int s = 0; s < NS; ++s) { sud[s] = mix(s + 4321); pub_init_subscriber(&subs[s], &ctx, user_data_u64(sud[s])); act[s] = true; }
        note("%d subscribers join", NS);
    }
    if (!crowd && src.draw(3000) == 2999) {
        // A long history before the one that is looked at closely.
        const int len = (int) src.one_of<int>({65500, 65530, 32760, 300});
        label("long history");
        note("%d packets sent and acknowledged", len);
        sud[0] = mix(77); pub_init_subscriber(&subs[0], &ctx, user_data_u64(sud[0])); act[0] = true;
        for (int k = 0; k < len; ++k) {
            packet_id_t id = pub_queue_packet(&ctx, dummy, 1, user_data_u64(5));
            F27(id != next, "queued packet got id %llu, not %llu", (ull) id, (ull) next);
            pub_packet_t* pk = pub_next_queued_packet(&ctx);
            F27(!pk || pk->pid != next, "packet %llu is next to be sent, not %llu", (ull) (pk ? pk->pid : 0), (ull) next);
            pub_packet_sent(&ctx, pk, now);
            pub_packet_ack(&subs[0], next, free27);
            F27(freed.size() != 1, "an acknowledgement released %zu payloads", freed.size());
            freed.clear();
            ++next;
        }
    }
    // Many packets in flight.
    const bool deep = !crowd && src.draw(100) == 99;
    if (deep) { n = (int) src.range(300, 1200); label("hundreds in flight"); }
    const int bulk = deep && src.draw(8) == 7 ? (int) src.range(400, 1500) * 2 : 0;     // queued and sent before anything else
    if (bulk) {
        label("a thousand in flight");
        n += bulk;
        sud[0] = mix(78);
        if (!act[0]) { pub_init_subscriber(&subs[0], &ctx, user_data_u64(sud[0])); act[0] = true; }
    }
    for (int i = 0; i < n && !src.exhausted; ++i) {
        now += src.draw(60);
        int dq = deep && i < n * 3 / 4 ? 20 : 6;
        switch (i < bulk ? (i & 1) : src.weighted({dq, dq, deep ? 3 : 7, deep && !act[0] ? 20 : 2, 1, deep ? 1 : 2, 1})) {
        case 0: {
            P27 k;
            k.p = dummy + all.size(); k.len = (payload_len_t) src.draw(65313); k.ud = mix(all.size() + 99); k.ts = 0; k.sent = false;
            bool na = src.chance(12);
            packet_id_t id = na ? pub_queue_no_acknowledge_packet(&ctx, k.p, k.len, user_data_u64(k.ud))
                                : pub_queue_packet(&ctx, k.p, k.len, user_data_u64(k.ud));
            k.pid = na ? 0 : next++;
            if (na) noack = true;
            note("queue%s -> %llu", na ? " without acknowledgement" : "", (ull) id);
            F27(id != k.pid, "queued packet got id %llu, not %llu", (ull) id, (ull) k.pid);
            all.push_back(k);
            // Unacknowledged packets go first, in order; the others by id.
            size_t at = 0;
            while (at < queue.size() && all[queue[at]].pid <= k.pid) ++at;
            queue.insert(queue.begin() + at, all.size() - 1);
            break;
        }
        case 1: {
            pub_packet_t* pk = pub_next_queued_packet(&ctx);
            F27(!!pk != !queue.empty(), "%s packet to send, %zu are queued", pk ? "a" : "no", queue.size());
            if (!pk) break;
            P27& k = all[queue[0]];
            F27(pk->pid != k.pid || pk->payload != k.p || pk->payload_len != k.len, "next packet to send is %llu, not %llu", (ull) pk->pid, (ull) k.pid);
            F27(pub_packet_user_data(pk).u64 != k.ud, "next packet to send has another user data");
            pub_packet_sent(&ctx, pk, now);
            k.ts = now; k.sent = true;
            ++nsent;
            note("t=%lld send %llu", (long long) now, (ull) k.pid);
            if (k.pid) {
                for (int s = 0; s < NS; ++s) if (act[s]) k.refs.insert(s);
                if (k.refs.empty()) orphan.push_back(queue[0]);
                if (k.refs.size() > 1) multi_ref = true;
            }
            queue.erase(queue.begin());
            break;
        }
        case 2: {
            int s = (int) src.draw(NS);
            if (!act[s]) break;
            packet_id_t id = src.chance(20) ? src.draw(next + 2) : 0;
            if (!id) {
                std::vector<packet_id_t> c;
                for (auto& k : all) if (k.refs.count(s)) c.push_back(k.pid);
                if (c.empty()) break;
                id = src.chance(50) ? c[0] : c[src.draw(c.size())];
            }
            note("subscriber %d acknowledges %llu", s, (ull) id);
            pub_packet_ack(&subs[s], id, free27);
            bool hit = false;
            for (auto& k : all) if (k.pid == id && k.refs.count(s)) { drop_ref(k, s); hit = true; }
            if (!hit) dup_ack = true;
            check_freed("acknowledgement");
            break;
        }
        case 3: {
            int s = (int) src.draw(NS);
            if (act[s]) break;
            sud[s] = mix(i + 1234);
            pub_init_subscriber(&subs[s], &ctx, user_data_u64(sud[s]));
            act[s] = true;
            if (nsent) late_join = true;
            note("subscriber %d joins", s);
            break;
        }
        case 4: {
            int s = (int) src.draw(NS);
            if (!act[s]) break;
            note("subscriber %d leaves", s);
            pub_reset_subscriber(&subs[s], free27);
            act[s] = false;
            for (auto& k : all) if (k.refs.count(s)) { left_inflight = true; drop_ref(k, s); }
            check_freed("departure");
            memset(&subs[s], 0xA5, sizeof(subs[s]));
            break;
        }
        case 5: {
            int64_t to = (int64_t) src.draw(200);
            pub_sub_list_t r;
            pub_sub_list_init(&r, 0, 0, 0);
            pub_get_timed_out_subscribers(&ctx, now, to, &r);
            std::set<pub_subscriber_t*> rs;
            pub_subscriber_t* x = 0;
            while (pub_sub_list_pop_head(&r, &x)) { F27(rs.count(x), "a timed out subscriber is listed twice"); rs.insert(x); }
            for (int s = 0; s < NS; ++s) if (act[s]) {
                std::vector<packet_id_t> w;
                for (auto& k : all) if (k.refs.count(s) && k.ts + to <= now) w.push_back(k.pid);
                F27(rs.count(&subs[s]) != !w.empty(), "subscriber %d with %zu overdue packets is %sreported as timed out", s, w.size(), rs.count(&subs[s]) ? "" : "not ");
                rs.erase(&subs[s]);
                pub_packet_list_t pl;
                pub_packet_list_init(&pl, 0, 0, 0);
                pub_get_timed_out_packets(&subs[s], now, to, &pl);
                std::vector<packet_id_t> g;
                pub_packet_t* pk = 0;
                while (pub_packet_list_pop_head(&pl, &pk)) g.push_back(pk->pid);
                note("t=%lld subscriber %d: %zu packets older than %lld", (long long) now, s, g.size(), (long long) to);
                F27(g.size() != w.size(), "subscriber %d: %zu timed out packets reported, %zu are overdue", s, g.size(), w.size());
                for (size_t q = 0; q < g.size(); ++q)
                    F27(g[q] != w[q], "subscriber %d: timed out packet %zu is %llu, not %llu", s, q, (ull) g[q], (ull) w[q]);
                if (w.size() > 1) timed = true;
            }
            F27(!rs.empty(), "a subscriber that left is reported as timed out");
            break;
        }
        case 6: {
            for (int s = 0; s < NS; ++s) if (act[s])
                F27(pub_subscriber_user_data(&subs[s]).u64 != sud[s], "subscriber %d has another user data", s);
            break;
        }
        }
        F27(pub_queue_size(&ctx) != queue.size(), "%u packets queued, not %zu", pub_queue_size(&ctx), queue.size());
        uint32_t un = 0;
        int64_t oldest = -1, rep = 12345;
        for (auto& k : all) if (!k.refs.empty()) { ++un; if (oldest == -1 || k.ts < oldest) oldest = k.ts; }
        uint32_t c = pub_get_unacknowledged_packet_count(&ctx);
        F27(c < un || c > un + orphan.size(), "%u unacknowledged packets, not %u", c, un);
        int r = pub_get_oldest_unackowledged_packet(&ctx, &rep);
        F27(r != 1 || rep != oldest, "oldest unacknowledged packet sent at %lld, reported %lld", (long long) oldest, (long long) rep);
    }
    // Everybody leaves: every sent packet is released.
    for (int s = 0; s < NS; ++s) if (act[s]) {
        pub_reset_subscriber(&subs[s], free27);
        for (auto& k : all) if (k.refs.count(s)) drop_ref(k, s);
        check_freed("final departure");
    }
    uint32_t c = pub_get_unacknowledged_packet_count(&ctx);
    F27(c > orphan.size(), "%u unacknowledged packets after everybody left", c);
    if (multi_ref) label("packet held by several subscribers");
    if (dup_ack) label("duplicate or unknown acknowledgement");
    if (late_join) label("subscriber joined later");
    if (timed) label("several overdue packets");
    if (left_inflight) label("subscriber left with packets in flight");
    if (noack) label("packet without acknowledgement");
    if (multi_ref && (timed || left_inflight)) nontrivial();
    feature(all.size()); feature(nsent);
}

static Reg r27({"C27", run27,
    "random queue/send/ack/join/leave/timeout-query histories with up to five (now and then 300) subscribers against a reference model; "
    "non-trivial: a packet was held by several subscribers, and several were overdue or a subscriber left with packets in flight",
    250000, 3000000, "model-based property testing"});

namespace rigrun { void engine_pub() { run27(); } }
