// Which generators decide which property, and how many cases they run.
#include "pbt.h"
using namespace pbt;

namespace rigrun {
void world_for_prop();    // chk_world.cc
void pub_for_prop();      // chk_pub.cc
void sub_for_prop();      // chk_sub.cc
void api_for_prop();      // chk_api.cc
void engine_pub();        // chk_engine.cc
}
using namespace rigrun;

#define WORLD_RULE "at least three packets were delivered while datagrams were lost or duplicated or several connections existed"
#define PUB_RULE "packets were sent and acknowledged or resent"
#define MIX(name, pct, a, b) static void name() { if (src.chance(pct)) a(); else b(); }

MIX(scripted, 50, pub_for_prop, sub_for_prop)
MIX(m70, 70, world_for_prop, pub_for_prop)
MIX(s70, 70, world_for_prop, sub_for_prop)
MIX(m50, 50, world_for_prop, pub_for_prop)
MIX(s50, 50, world_for_prop, sub_for_prop)
MIX(m20, 20, world_for_prop, pub_for_prop)
MIX(w3, 50, world_for_prop, scripted)
MIX(e10, 10, engine_pub, pub_for_prop)
MIX(w10, 10, world_for_prop, scripted)
MIX(w3a, 25, api_for_prop, w3)

#define SUB_RULE "packets of at least one publisher were received and delivered"
#define P_RULE "scripted subscribers: " PUB_RULE
#define S_RULE "scripted publishers: " SUB_RULE

static Reg r1({"C01", s70, WORLD_RULE "; " S_RULE, 4500, 200000, "simulation and model"});
static Reg r2({"C02", w3, WORLD_RULE "; " P_RULE "; " S_RULE, 6000, 300000, "simulation and model"});
static Reg r3({"C03", m70, WORLD_RULE "; " P_RULE, 5000, 200000, "simulation and model"});
static Reg r4({"C04", m50, WORLD_RULE "; " P_RULE, 6000, 300000, "simulation and model"});
static Reg r5({"C05", s50, WORLD_RULE "; " S_RULE, 6000, 300000, "simulation and model"});
static Reg r6({"C06", w3a, WORLD_RULE "; " P_RULE "; " S_RULE "; calls in every state of a context: as for C30", 8000, 300000, "simulation and models"});
static Reg r7({"C07", w3a, WORLD_RULE "; " P_RULE "; " S_RULE "; calls in every state of a context: as for C30", 8000, 300000, "simulation and models"});
static Reg r8({"C08", sub_for_prop, "at least one acknowledgement was written and two packets were received by multicast", 40000, 2000000, "model"});
static Reg r9({"C09", e10, PUB_RULE "; engine histories as for C27", 60000, 2000000, "model"});
static Reg r10({"C10", pub_for_prop, PUB_RULE, 60000, 2000000, "model"});
static Reg r11({"C11", scripted, P_RULE "; scripted publishers: at least one acknowledgement was written and two packets were received by multicast", 60000, 2000000, "models"});
static Reg r12({"C12", pub_for_prop, "traffic was suspended and packets were then acknowledged, resent or dropped with a subscriber", 60000, 2000000, "model"});
static Reg r13({"C13", pub_for_prop, "at least two announcements were sent", 60000, 2000000, "model"});
static Reg r14({"C14", sub_for_prop, "at least two announcements were offered or accepted and a connection attempted", 40000, 2000000, "model"});
static Reg r15({"C15", pub_for_prop, "at least two subscribers and a departure", 60000, 2000000, "model"});
static Reg r16({"C16", w3, "control messages were sent and arrived", 6000, 300000, "simulation and models"});
static Reg r17({"C17", sub_for_prop, "malformed datagrams arrived and packets were delivered", 40000, 2000000, "model"});
static Reg r18({"C18", pub_for_prop, "a malformed command was read by the publisher", 60000, 2000000, "model"});
static Reg r19({"C19", sub_for_prop, "a malformed command was read by the subscriber", 40000, 2000000, "model"});
static Reg r20({"C20", w10, "streams were split or written in parts: " WORLD_RULE "; " P_RULE "; " S_RULE, 20000, 600000, "simulation and models"});
static Reg r21({"C21", m20, WORLD_RULE "; " P_RULE, 10000, 600000, "model and simulation"});
static Reg r22({"C22", s50, WORLD_RULE "; scripted publishers: at least two connections and two deliveries", 6000, 300000, "simulation and model"});
static Reg r28({"C28", scripted, P_RULE "; " S_RULE, 50000, 2000000, "models"});
static Reg r29({"C29", scripted, "a slot was used again or a connection refused for lack of one", 50000, 2000000, "models"});
static Reg r30({"C30", api_for_prop, "at least two calls that have to be refused were made, and sockets were served", 40000, 2000000, "model"});
static Reg r32({"C32", w3a, WORLD_RULE "; " P_RULE "; " S_RULE "; calls in every state of a context: as for C30", 8000, 300000, "simulation and models"});
MIX(w60, 60, world_for_prop, pub_for_prop)
static Reg r34({"C34", w60, "at least one packet was delivered, two calls were made from callbacks and one of them closed a connection; scripted subscribers: two calls were made from callbacks", 5000, 300000, "simulation"});
static Reg r38({"C38", world_for_prop, "at least one packet was delivered and five calls were made while another context's call was in progress", 1500, 60000, "simulation"});
static Reg r35({"C35", w3, WORLD_RULE "; " P_RULE "; " S_RULE, 8000, 300000, "simulation and models"});

// Every oracle at once, over what every check generates. Not a registered check: it serves to try out changes.
static void all()
{
    static const struct { const char* id; int w; } W[] = {{"C09", 4}, {"C10", 4}, {"C12", 4}, {"C13", 4}, {"C15", 4}, {"C18", 4}, {"C29", 4}, {"C28", 2}, {"C11", 4}, {"C08", 4}, {"C14", 4}, {"C17", 4}, {"C19", 4},
        {"C30", 8}, {"C31", 1}, {"C23", 8}, {"C24", 8}, {"C25", 8}, {"C26", 8}, {"C27", 8}, {"C33", 3}, {"C35", 1}, {"C34", 1}, {"C38", 1}, {"C32", 2}, {"C16", 2}, {"C22", 1}, {"C02", 1}, {"C21", 2}, {"C20", 4}, {"C01", 1}, {"C06", 1}, {"C07", 2}, {"C03", 1}, {"C05", 1}, {"C04", 1}};
    int tot = 0;
    for (auto& w : W) tot += w.w;
    int k = (int) src.draw(tot);
    for (auto& w : W) { if (k < w.w) { bias = w.id; label(w.id); note("as for %s", bias); find_check(w.id)->run(); bias = 0; return; } k -= w.w; }
}
static Reg r99({"ALL", all, "every generator, every oracle", 20000, 500000, "all"});
