// Known findings: the histories listed in KNOWN_FINDINGS.txt, each against the code as it is now.
#include "rig.h"
using namespace pbt;
using namespace rig;

namespace {

struct Script : World {
    PubRig* p;
    SubRig* s;
    std::set<packet_id_t> drop;               // multicast packets that do not arrive
    std::vector<packet_id_t> got;
    void route(sim::Fd&, sim::Fd&, const sim::Dgram& d, std::vector<int64_t>& at) override
    {
        if (!drop.count(wire::get_hdr(d.data.data()).pid)) at.push_back(sim::now);
    }
    void connect_plan(sim::Conn& c) override { c.done_at = sim::now; c.will_refuse = false; }
    Script()
    {
        sim::tick = 0;
        p = add_pub(0x0A000001, 5001, 11);
        s = add_sub(0x0A000101, 21);
        p->create(4);
        s->on_deliver = [this](sub_packet_t* k) { got.push_back(k->pid); };
        s->create(4);
        p->activate();
        s->activate();
    }
    void serve(Node* n) { for (int k = 0; k < 20; ++k) { sim::pump(); auto r = n->ready(); if (r.empty()) break; for (auto& e : r) n->handle(e); } if (!n->is_pub) s->drain(); }
    void settle(int64_t us)
    {
        for (int64_t t = 0; t < us; t += 10000) {
            sim::now += 10000;
            serve(p); serve(s);
            p->do_timeouts(); s->do_timeouts();
            serve(p); serve(s);
        }
    }
    void send() { p->queue(10, 7); uint8_t op; p->do_write(MC, &op); sim::pump(); }
    bool has(packet_id_t k) { for (packet_id_t g : got) if (g == k) return true; return false; }
    void subscribe() { p->queue(0, 1, true); uint8_t op; p->do_write(MC, &op); serve(s); }
};

// The subscriber is connected and accepted before packet 1 is sent. Packet 1 is lost on multicast, packet 2 arrives
// and starts the run; the resent packet 1 is then taken for a duplicate.
bool first_lost()
{
    Script c;
    c.subscribe();
    c.serve(c.p);
    c.drop = {1};
    c.send();
    c.send();
    c.serve(c.s);
    c.drop.clear();
    c.settle(1000000);
    return c.has(2) && !c.has(1);
}

// The subscriber is connected but not accepted when packets 1 and 2 are sent. It receives 1, 2 is lost, and 3 is sent
// after accept(): nobody resends 2, so nothing is delivered any more.
bool unaccepted()
{
    Script c;
    c.subscribe();
    c.drop = {2};
    c.send();
    c.send();
    c.drop.clear();
    c.serve(c.s);
    c.serve(c.p);
    c.send();
    c.settle(1000000);
    return c.has(1) && !c.has(2) && !c.has(3);
}

static RegKnown k1({"C03", "first-packet-lost", "the first packet sent to a new subscriber is lost on multicast and a later one arrives: the resent packet is dropped as a duplicate", first_lost});
static RegKnown k2({"C01", "C01-unaccepted", "a packet sent before accept() of a connected subscriber is lost while another one arrived: the gap is never filled", unaccepted});

} // namespace
