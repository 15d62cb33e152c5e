// The Wireshark dissector against the wire format: it is run on a stand-in for Wireshark's interface, with datagrams and
// control connections cut into segments at any point, and has to show every field that is there, once, with its value.
#include "pbt.h"
#include "wire.h"
#include "wsstub/ws_stub.h"
#include <map>
#include <string>
#include <vector>
#include <deque>
#include <stdarg.h>
using namespace pbt;
typedef unsigned long long ull;

struct tvbuff { const uint8_t* p; int len; };
struct _column_info { std::string text[COL_N]; };
struct dissector_handle { dissector_t f; int proto; std::string name; };
struct dissector_table { std::map<guint32, dissector_handle_t> m; };
struct _proto_node { int hf, start, len; bool subtree; _proto_node* up; };

namespace {

struct Bounds {};                           // what Wireshark throws when a dissector reads behind the end of the data
struct Shown { int hf; ull value; std::string bytes; };

struct Ws {
    std::vector<const header_field_info*> hf{0};        // by id; protocols have none
    std::vector<std::string> protos{""};
    int etts = 0;
    std::map<std::string, dissector_table*> tables;
    std::vector<dissector_handle*> handles;
    const proto_plugin* plugin = 0;
    // one call
    std::vector<Shown> shown;
    std::deque<proto_node> nodes;
    std::deque<std::string> strings;
    std::deque<tvbuff> subs;
    uint64_t steps = 0;
    int pdus = 0;
};
Ws* ws;

void bug(const char* what) { FAILIF("C36", true, "the dissector %s", what); }
void step() { if (++ws->steps > 3000000) bug("does not end"); }
void need(const tvbuff_t* t, int off, int len)
{
    step();
    if (off < 0 || len < 0 || off > t->len || len > t->len - off) throw Bounds();
}
ull get(const tvbuff_t* t, int off, int n, bool le)
{
    need(t, off, n);
    ull v = 0;
    for (int i = 0; i < n; ++i) v |= (ull) t->p[off + (le ? i : n - 1 - i)] << (8 * i);
    return v;
}
dissector_table* table(const char* n) { auto& t = ws->tables[n]; if (!t) t = new dissector_table; return t; }
bool numeric(int type) { return type == FT_BOOLEAN || (type >= FT_CHAR && type <= FT_INT64) || type == FT_IPv4; }

proto_item* add(proto_tree* tree, int hf, tvbuff_t* tvb, int start, int length, guint enc, const ull* value, ull* ret = 0)
{
    step();
    if (hf <= 0 || hf >= (int) ws->hf.size()) { bug("shows a field that is not registered"); return 0; }
    if (length == -1) { need(tvb, start, 0); length = tvb->len - start; }
    need(tvb, start, length);
    const header_field_info* h = ws->hf[hf];
    Shown s{hf, 0, std::string((const char*) tvb->p + start, length)};
    if (value) s.value = *value;
    else if (h && numeric(h->type)) {
        int most = h->type == FT_UINT8 || h->type == FT_INT8 || h->type == FT_CHAR ? 4 : h->type >= FT_UINT40 && h->type != FT_IPv4 ? 8 : 4;
        if (length < 1 || length > most || (h->type == FT_IPv4 && length != 4)) { bug("shows a number that is too wide"); return 0; }
        s.value = get(tvb, start, length, enc & ENC_LITTLE_ENDIAN);
    }
    if (ret) *ret = s.value;
    if (!tree) return 0;
    if (h) ws->shown.push_back(s);
    ws->nodes.push_back(proto_node{hf, start, length, false, tree});
    return &ws->nodes.back();
}
std::string vformat(const char* fmt, va_list ap) { char b[4096]; vsnprintf(b, sizeof b, fmt, ap); if (strlen(b) > 500) b[500] = 0; return b; }
#define FORMAT() ({ va_list ap; va_start(ap, fmt); std::string s_ = vformat(fmt, ap); va_end(ap); s_; })

} // namespace

extern "C" {

size_t ws_stub_strlcpy(char* d, const char* s, size_t n) { size_t l = strlen(s); if (n) { size_t c = l < n ? l : n - 1; memcpy(d, s, c); d[c] = 0; } return l; }
int ws_stub_printf(const char* fmt, ...) { step(); return (int) FORMAT().size(); }

void proto_register_plugin(const proto_plugin* p) { ws->plugin = p; }
int proto_register_protocol(const char* name, const char*, const char*) { ws->hf.push_back(0); ws->protos.resize(ws->hf.size()); ws->protos.back() = name; return (int) ws->hf.size() - 1; }
void proto_register_field_array(int parent, hf_register_info* hf, int num)
{
    if (parent <= 0 || parent >= (int) ws->hf.size()) { bug("registers fields of no protocol"); return; }
    for (int i = 0; i < num; ++i) { ws->hf.push_back(&hf[i].hfinfo); *hf[i].p_id = (int) ws->hf.size() - 1; }
}
void proto_register_subtree_array(gint* const* ind, int num) { for (int i = 0; i < num; ++i) *ind[i] = ws->etts++; }
dissector_handle_t create_dissector_handle(dissector_t f, int proto) { ws->handles.push_back(new dissector_handle{f, proto, ""}); return ws->handles.back(); }
dissector_handle_t register_dissector(const char* name, dissector_t f, int proto) { ws->handles.push_back(new dissector_handle{f, proto, name}); return ws->handles.back(); }
dissector_handle_t find_dissector(const char* name) { for (auto h : ws->handles) if (h->name == name) return h; return 0; }
dissector_table_t find_dissector_table(const char* name) { step(); return table(name); }
dissector_handle_t dissector_get_uint_handle(dissector_table_t t, guint32 v) { step(); auto it = t->m.find(v); return it == t->m.end() ? 0 : it->second; }
void dissector_add_uint(const char* t, guint32 v, dissector_handle_t h) { step(); table(t)->m[v] = h; }
void dissector_change_uint(const char* t, guint32 v, dissector_handle_t h) { step(); table(t)->m[v] = h; }
void dissector_delete_uint(const char* t, guint32 v, dissector_handle_t) { step(); table(t)->m.erase(v); }
void dissector_add_for_decode_as(const char*, dissector_handle_t) {}
int call_dissector_with_data(dissector_handle_t h, tvbuff_t* t, packet_info* p, proto_tree* tree, void* d) { step(); return h->f(t, p, tree, d); }
int call_dissector(dissector_handle_t h, tvbuff_t* t, packet_info* p, proto_tree* tree) { return call_dissector_with_data(h, t, p, tree, 0); }

guint tvb_captured_length(const tvbuff_t* t) { step(); return t->len; }
guint tvb_reported_length(const tvbuff_t* t) { step(); return t->len; }
gint tvb_captured_length_remaining(const tvbuff_t* t, gint off) { step(); return off < 0 || off > t->len ? 0 : t->len - off; }
gint tvb_reported_length_remaining(const tvbuff_t* t, gint off) { step(); return off < 0 || off > t->len ? 0 : t->len - off; }
gboolean tvb_bytes_exist(const tvbuff_t* t, gint off, gint len) { step(); return off >= 0 && len >= 0 && off <= t->len && len <= t->len - off; }
gboolean tvb_offset_exists(const tvbuff_t* t, gint off) { step(); return off >= 0 && off < t->len; }
tvbuff_t* tvb_new_subset_length(tvbuff_t* t, gint off, gint len) { if (len == -1) len = t->len - off; need(t, off, len); ws->subs.push_back(tvbuff{t->p + off, len}); return &ws->subs.back(); }
tvbuff_t* tvb_new_subset_remaining(tvbuff_t* t, gint off) { need(t, off, 0); return tvb_new_subset_length(t, off, t->len - off); }
guint8 tvb_get_guint8(tvbuff_t* t, gint o) { return (guint8) get(t, o, 1, true); }
guint16 tvb_get_guint16(tvbuff_t* t, gint o, guint e) { return (guint16) get(t, o, 2, e & ENC_LITTLE_ENDIAN); }
guint32 tvb_get_guint32(tvbuff_t* t, gint o, guint e) { return (guint32) get(t, o, 4, e & ENC_LITTLE_ENDIAN); }
guint64 tvb_get_guint64(tvbuff_t* t, gint o, guint e) { return get(t, o, 8, e & ENC_LITTLE_ENDIAN); }
guint16 tvb_get_letohs(tvbuff_t* t, gint o) { return (guint16) get(t, o, 2, true); }
guint32 tvb_get_letohl(tvbuff_t* t, gint o) { return (guint32) get(t, o, 4, true); }
guint64 tvb_get_letoh64(tvbuff_t* t, gint o) { return get(t, o, 8, true); }
guint16 tvb_get_ntohs(tvbuff_t* t, gint o) { return (guint16) get(t, o, 2, false); }
guint32 tvb_get_ntohl(tvbuff_t* t, gint o) { return (guint32) get(t, o, 4, false); }
guint64 tvb_get_ntoh64(tvbuff_t* t, gint o) { return get(t, o, 8, false); }
guint32 tvb_get_ipv4(tvbuff_t* t, gint o) { need(t, o, 4); guint32 v; memcpy(&v, t->p + o, 4); return v; }
const guint8* tvb_get_ptr(tvbuff_t* t, gint o, gint n) { if (n == -1) n = t->len - o; need(t, o, n); return t->p + o; }
void* tvb_memcpy(tvbuff_t* t, void* d, gint o, size_t n) { if (n > 0x7fffffff) throw Bounds(); need(t, o, (int) n); return memcpy(d, t->p + o, n); }
static gchar* keep(const std::string& s) { ws->strings.push_back(s); return &ws->strings.back()[0]; }
static std::string dotted(const uint8_t* p) { char b[20]; snprintf(b, sizeof b, "%u.%u.%u.%u", p[0], p[1], p[2], p[3]); return b; }
gchar* tvb_ip_to_str(tvbuff_t* t, gint o) { need(t, o, 4); return keep(dotted(t->p + o)); }

proto_item* proto_tree_add_item(proto_tree* tree, int hf, tvbuff_t* t, gint s, gint n, guint e) { return add(tree, hf, t, s, n, e, 0); }
proto_item* proto_tree_add_item_ret_uint(proto_tree* tree, int hf, tvbuff_t* t, gint s, gint n, guint e, guint32* r) { ull v = 0; auto i = add(tree, hf, t, s, n, e, 0, &v); if (r) *r = (guint32) v; return i; }
proto_item* proto_tree_add_item_ret_uint64(proto_tree* tree, int hf, tvbuff_t* t, gint s, gint n, guint e, guint64* r) { ull v = 0; auto i = add(tree, hf, t, s, n, e, 0, &v); if (r) *r = v; return i; }
proto_item* proto_tree_add_uint(proto_tree* tree, int hf, tvbuff_t* t, gint s, gint n, guint32 v) { ull x = v; return add(tree, hf, t, s, n, 0, &x); }
proto_item* proto_tree_add_uint64(proto_tree* tree, int hf, tvbuff_t* t, gint s, gint n, guint64 v) { ull x = v; return add(tree, hf, t, s, n, 0, &x); }
proto_item* proto_tree_add_ipv4(proto_tree* tree, int hf, tvbuff_t* t, gint s, gint n, guint32 v) { ull x = __builtin_bswap32(v); return add(tree, hf, t, s, n, 0, &x); }
proto_tree* proto_item_add_subtree(proto_item* ti, gint idx) { step(); if (idx < 0 || idx >= ws->etts) bug("adds a subtree that is not registered"); if (ti) ti->subtree = true; return ti; }
proto_tree* proto_tree_add_subtree(proto_tree* tree, tvbuff_t* t, gint s, gint n, gint idx, proto_item** ti, const char*)
{
    need(t, s, n == -1 ? 0 : n);
    if (idx < 0 || idx >= ws->etts) bug("adds a subtree that is not registered");
    proto_item* i = 0;
    if (tree) { ws->nodes.push_back(proto_node{0, s, n, true, tree}); i = &ws->nodes.back(); }
    if (ti) *ti = i;
    return i;
}
void proto_item_append_text(proto_item*, const char* fmt, ...) { step(); FORMAT(); }
void proto_item_set_text(proto_item*, const char* fmt, ...) { step(); FORMAT(); }
void proto_item_set_len(proto_item* i, gint n) { step(); if (i) i->len = n; }

static std::string& col(column_info* c, gint el) { step(); static std::string none; return c && el >= 0 && el < COL_N ? c->text[el] : none; }
void col_clear(column_info* c, gint el) { col(c, el).clear(); }
void col_set_str(column_info* c, gint el, const gchar* s) { col(c, el) = s; }
void col_add_str(column_info* c, gint el, const gchar* s) { col(c, el) = s; }
void col_append_str(column_info* c, gint el, const gchar* s) { col(c, el) += s; }
void col_add_fstr(column_info* c, gint el, const gchar* fmt, ...) { col(c, el) = FORMAT(); }
void col_append_fstr(column_info* c, gint el, const gchar* fmt, ...) { col(c, el) += FORMAT(); }
void col_append_sep_fstr(column_info* c, gint el, const gchar* sep, const gchar* fmt, ...) { auto& t = col(c, el); if (!t.empty()) t += sep ? sep : ", "; t += FORMAT(); }
const gchar* col_get_text(column_info* c, gint el) { return col(c, el).c_str(); }
void col_set_fence(column_info*, gint) { step(); }

void address_to_str_buf(const address* a, gchar* buf, int len) { step(); snprintf(buf, len > 0 ? len : 0, "%s", a->type == AT_IPv4 ? dotted((const uint8_t*) a->data).c_str() : ""); }
gchar* address_to_str(void*, const address* a) { return keep(a->type == AT_IPv4 ? dotted((const uint8_t*) a->data) : ""); }
void* wmem_packet_scope(void) { return 0; }
char* wmem_strdup_printf(void*, const char* fmt, ...) { return keep(FORMAT()); }

void tcp_dissect_pdus(tvbuff_t* t, packet_info* pi, proto_tree* tree, gboolean deseg, guint fixed, guint (*plen)(packet_info*, tvbuff_t*, int, void*), dissector_t f, void* data)
{
    int off = 0;
    while (off < t->len) {
        step();
        int left = t->len - off;
        if (deseg && pi->can_desegment && left < (int) fixed) { pi->desegment_offset = off; pi->desegment_len = DESEGMENT_ONE_MORE_SEGMENT; return; }
        guint n = plen(pi, t, off, data);
        if (n < fixed) throw Bounds();
        if (deseg && pi->can_desegment && left < (int) n) { pi->desegment_offset = off; pi->desegment_len = n - left; return; }
        tvbuff_t* sub = tvb_new_subset_length(t, off, std::min<int>(left, (int) n));
        ++ws->pdus;
        try { f(sub, pi, tree, data); } catch (Bounds&) {}
        off += (int) n;
    }
}

} // extern "C"

namespace {

std::string ip_text(uint32_t ip) { uint8_t b[4] = {(uint8_t) (ip >> 24), (uint8_t) (ip >> 16), (uint8_t) (ip >> 8), (uint8_t) ip}; return dotted(b); }

struct Field { const char* abbrev; ull value; std::string bytes; bool text; };
typedef std::vector<Field> Fields;

struct Seen {
    std::string info, protocol;
    int ret = 0;
    bool bounds = false;
    int deseg_offset = 0; guint32 deseg_len = 0;
    int pdus = 0;
    std::vector<Shown> shown;
};

struct WCase {
    bool with_tree;
    uint32_t source;
    uint8_t source_bytes[4];
    Seen dissect(dissector_handle_t h, const std::string& data, bool well = true)
    {
        Seen s;
        // Exactly as long as the data, so that whatever reads behind it is seen.
        std::vector<uint8_t> exact(data.begin(), data.end());
        exact.shrink_to_fit();
        tvbuff t{exact.data(), (int) exact.size()};
        _column_info c;
        packet_info pi;
        memset(&pi, 0, sizeof pi);
        for (int i = 0; i < 4; ++i) source_bytes[i] = (uint8_t) (source >> (24 - 8 * i));
        pi.cinfo = &c;
        pi.src = pi.net_src = address{AT_IPv4, 4, source_bytes};
        pi.can_desegment = 2;
        ws->shown.clear(); ws->nodes.clear(); ws->strings.clear(); ws->subs.clear();
        ws->steps = 0; ws->pdus = 0;
        proto_node root{0, 0, 0, true, 0};
        try { s.ret = h->f(&t, &pi, with_tree ? &root : 0, 0); } catch (Bounds&) { s.bounds = true; }
        s.info = c.text[COL_INFO]; s.protocol = c.text[COL_PROTOCOL];
        s.deseg_offset = pi.desegment_offset; s.deseg_len = pi.desegment_len;
        s.pdus = ws->pdus;
        s.shown = ws->shown;
        FAILIF("C36", well && !s.bounds && (s.ret < 0 || s.ret > (int) data.size()), "of %zu bytes the dissector says it took %d", data.size(), s.ret);
        FAILIF("C36", well && s.deseg_len && (s.deseg_offset < 0 || s.deseg_offset > (int) data.size()), "the dissector keeps data from offset %d of %zu bytes", s.deseg_offset, data.size());
        return s;
    }
    static const char* name_of(const header_field_info* h, ull v)
    {
        for (auto* p = (const value_string*) h->strings; p && p->strptr; ++p) if (p->value == v) return p->strptr;
        return 0;
    }
    // The fields the library defines, in the order they are shown; each has to be there once.
    void compare(const char* what, const std::vector<Shown>& shown, const Fields& want)
    {
        std::map<std::string, std::vector<const Field*>> w;
        std::map<std::string, std::vector<const Shown*>> g;
        for (auto& f : want) w[f.abbrev].push_back(&f);
        for (auto& s : shown) g[ws->hf[s.hf]->abbrev].push_back(&s);
        for (auto& x : w) {
            auto& got = g[x.first];
            FAILIF("C36", got.size() != x.second.size(), "%s: field %s is shown %zu times, not %zu times", what, x.first.c_str(), got.size(), x.second.size());
            for (size_t i = 0; i < got.size() && i < x.second.size(); ++i) {
                const Field* f = x.second[i];
                if (f->text) FAILIF("C36", got[i]->bytes != f->bytes, "%s: field %s (%zu of %zu) shows other bytes (%zu) than those on the wire (%zu)", what, x.first.c_str(), i + 1, got.size(), got[i]->bytes.size(), f->bytes.size());
                else if (x.first == "rmc_ctl.ctl.command") FAILIF("C36", !name_of(ws->hf[got[i]->hf], f->value), "%s: command %llu has no name", what, f->value);
                if (!f->text) FAILIF("C36", got[i]->value != f->value, "%s: field %s (%zu of %zu) shows %llu, the value on the wire is %llu", what, x.first.c_str(), i + 1, got.size(), got[i]->value, f->value);
            }
        }
    }
    static void add_header(Fields& f, const wire::Hdr& h, const std::string& payload)
    {
        f.push_back({"rmc_data.packet.pid", h.pid, "", false});
        f.push_back({"rmc.node_id", h.node, "", false});
        f.push_back({"rmc.payload_len", h.len, "", false});
        f.push_back({"rmc.control_ip", h.ip, "", false});
        f.push_back({"rmc.control_port", h.port, "", false});
        f.push_back({"rmc_data.packet.payload", 0, payload, true});
    }
    uint64_t number() { return src.chance(60) ? src.draw(1000) : src.one_of<uint64_t>({0xFFFFFFFFull, 0x100000000ull, 0xFFFFFFFFFFFFFFFFull, 0x8000000000000000ull, 0x0102030405060708ull, 65536}); }
    std::string payload(size_t most)
    {
        auto b = bytes(src.chance(3) ? most - src.draw(3) : src.size_biased(0, 300), src.draw(100000));
        return std::string(b.begin(), b.end());
    }
    wire::Hdr header(bool announce, size_t len)
    {
        wire::Hdr h;
        h.pid = announce ? 0 : std::max<uint64_t>(1, number());
        h.node = (uint32_t) number();
        h.len = (uint16_t) len;
        h.ip = src.chance(20) ? 0 : src.one_of<uint32_t>({0x7F000001u, 0x0A000201u, 0xC0A80105u, 0x01020304u, 0xFEFDFCFBu, 1u, 0x0A000000u + (uint32_t) src.draw(65536)});
        h.port = (uint16_t) src.one_of<int>({4724, 1, 65535, 256, 255, 40000, 20000 + (int) src.draw(1000)});
        return h;
    }
    dissector_handle_t datagrams() { auto h = dissector_get_uint_handle(table("udp.port"), 4723); if (!h) bug("is not registered for the multicast port"); return h; }

    wire::Hdr last{0, 0, 0, 0, 4724};
    void datagram(bool announce)
    {
        std::string p = payload(65312);
        wire::Hdr h = header(announce, p.size());
        last = h;
        auto d = wire::dgram(h, (const uint8_t*) p.data(), p.size());
        auto* tcp = table("tcp.port");
        static dissector_handle other{0, 0, "somebody else's"};
        bool taken = src.chance(10), had = tcp->m.count(h.port);
        if (taken && !had) tcp->m[h.port] = &other;
        note("datagram: packet %llu node %u %zu bytes %s:%u", (ull) h.pid, h.node, p.size(), ip_text(h.ip).c_str(), h.port);
        Seen s = dissect(datagrams(), std::string(d.begin(), d.end()));
        const char* what = announce ? "an announcement" : "a datagram";
        FAILIF("C36", s.bounds, "%s that is well formed is called malformed", what);
        FAILIF("C36", !s.bounds && s.ret <= 0, "%s that is well formed is not recognised", what);
        FAILIF("C36", s.protocol.find("RMC") == std::string::npos, "the protocol of %s is shown as '%s'", what, s.protocol.c_str());
        Fields f;
        add_header(f, h, p);
        if (with_tree) compare(what, s.shown, f);
        char b[120];
        snprintf(b, sizeof b, "0x%.8X", h.node);
        FAILIF("C36", s.info.find(b) == std::string::npos, "%s of node %s is summed up as '%s'", what, b, s.info.c_str());
        snprintf(b, sizeof b, "%s:%u", ip_text(h.ip ? h.ip : source).c_str(), h.port);
        size_t at = s.info.find(b);
        FAILIF("C36", at == std::string::npos || (at && isdigit((unsigned char) s.info[at - 1])), "%s of %s is summed up as '%s'", what, b, s.info.c_str());
        FAILIF("C36", at != std::string::npos && (at && s.info[at - 1] == '*') != !h.ip, "%s of %s, which is %s, is summed up as '%s'", what, b, h.ip ? "what it says" : "its source", s.info.c_str());
        snprintf(b, sizeof b, "len[%u]", h.len);
        FAILIF("C36", s.info.find(b) == std::string::npos, "%s with %u bytes is summed up as '%s'", what, h.len, s.info.c_str());
        if (announce) FAILIF("C36", s.info.find("announce") == std::string::npos, "an announcement is summed up as '%s'", s.info.c_str());
        else { snprintf(b, sizeof b, "pid[%llu]", (ull) h.pid); FAILIF("C36", s.info.find(b) == std::string::npos, "packet %llu is summed up as '%s'", (ull) h.pid, s.info.c_str()); }
        auto it = tcp->m.find(h.port);
        if (taken && !had) FAILIF("C36", it == tcp->m.end() || it->second != &other, "an announcement took port %u from another dissector", h.port);
        else FAILIF("C36", announce && it == tcp->m.end(), "after an announcement connections to port %u are not dissected", h.port);
        if (taken && !had) tcp->m.erase(h.port);
        label(announce ? "announcement" : "datagram");
    }
    dissector_handle_t control()
    {
        auto* tcp = table("tcp.port");
        if (tcp->m.empty()) datagram(true);
        if (tcp->m.empty()) { with_tree = true; for (int k = 0; k < 50 && tcp->m.empty(); ++k) datagram(true); }
        return tcp->m.empty() ? 0 : tcp->m.begin()->second;
    }
    // A control connection's bytes, cut into segments.
    void stream(bool resends)
    {
        dissector_handle_t h = control();
        if (!h) return;
        struct C { wire::Cmd c; size_t end; };
        std::vector<C> cmds;
        std::string all;
        int n = (int) src.range(1, 8);
        Fields want;
        for (int k = 0; k < n; ++k) {
            wire::Cmd c;
            if (resends) {
                c.type = wire::PACKET;
                c.data = payload(65312);
                c.h = header(false, c.data.size());
                all += wire::packet_cmd(c.h, (const uint8_t*) c.data.data(), c.data.size());
                add_header(want, c.h, c.data);
            } else if (src.chance(50)) {
                c.type = wire::ACK;
                c.a = number(); c.b = number();
                all += wire::ack_cmd(c.a, c.b);
                want.push_back({"rmc_ctl.ack.first_pid", c.a, "", false});
                want.push_back({"rmc_ctl.ack.last_pid", c.b, "", false});
            } else {
                c.type = wire::MSG;
                c.data = payload(65395);
                all += wire::msg_cmd(c.data);
                want.push_back({"rmc_ctl.msg.payload_len", c.data.size(), "", false});
                want.push_back({"rmc_ctl.msg.payload", 0, c.data, true});
            }
            want.push_back({"rmc_ctl.ctl.command", (ull) c.type, "", false});
            cmds.push_back({c, all.size()});
        }
        std::vector<Shown> shown;
        std::string kept;
        guint32 more = 0;
        size_t at = 0, upto = 0, segments = 0;
        int mss = src.chance(40) ? 0 : (int) src.one_of<int>({1448, 1, 7, 20, 100});
        if (mss && mss < 1448 && all.size() > 3000) mss = 1448;
        if (mss == 1 && all.size() > 400) mss = 20;
        while (at < all.size()) {
            size_t len = !mss ? (src.chance(40) ? all.size() - at : 1 + src.size_biased(0, all.size() - at - 1)) : std::min<size_t>(mss, all.size() - at);
            std::string data = all.substr(at, len);
            at += len;
            ++segments;
            note("segment of %zu bytes, %zu of %zu", len, at, all.size());
            while (!data.empty()) {
                std::string buf;
                if (!kept.empty() && more != DESEGMENT_ONE_MORE_SEGMENT) {
                    size_t t = std::min<size_t>(more, data.size());
                    kept += data.substr(0, t);
                    data.erase(0, t);
                    more -= (guint32) t;
                    if (more) break;
                    buf.swap(kept);
                } else { buf = kept + data; data.clear(); kept.clear(); }
                Seen s = dissect(h, buf);
                FAILIF("C36", s.bounds, "a control connection that is well formed is called malformed");
                FAILIF("C36", s.protocol.find("RMC") == std::string::npos, "the protocol of a control connection is shown as '%s'", s.protocol.c_str());
                FAILIF("C36", !s.ret && !s.deseg_len, "%zu bytes of a control connection, first %u, are not recognised", buf.size(), (uint8_t) buf[0]);
                size_t used = buf.size();
                if (s.deseg_len) { kept = buf.substr(s.deseg_offset); more = s.deseg_len; used = s.deseg_offset; }
                // The commands that end in what was used have to be summed up.
                size_t now = at - data.size() - kept.size();
                int resent = 0, msgs = 0;
                std::string expect;
                for (auto& c : cmds) if (c.end > upto && c.end <= now) {
                    char b[100] = "";
                    if (c.c.type == wire::PACKET) { ++resent; continue; }
                    if (c.c.type == wire::ACK) snprintf(b, sizeof b, "[%llu-%llu]", (ull) c.c.a, (ull) c.c.b);
                    else { ++msgs; snprintf(b, sizeof b, " %zu bytes", c.c.data.size()); }
                    if (s.info.size() < 400) FAILIF("C36", s.info.find(b) == std::string::npos, "a segment with '%s' is summed up as '%s'", b, s.info.c_str());
                }
                if (resent) { char b[40]; snprintf(b, sizeof b, " %d packet", resent); FAILIF("C36", s.info.find(b) == std::string::npos, "a segment with %d resent packets is summed up as '%s'", resent, s.info.c_str()); }
                if (!resent && !msgs && resends) FAILIF("C36", s.info.find(" packet") != std::string::npos, "a segment where no packet ends is summed up as '%s'", s.info.c_str());
                if (!resends) { size_t shows = 0, acks = 0; for (char x : s.info) shows += x == '['; for (auto& c : cmds) acks += c.c.type == wire::ACK && c.end > upto && c.end <= now; if (s.info.size() < 400) FAILIF("C36", shows != acks, "a segment where %zu acknowledgements end is summed up as '%s'", acks, s.info.c_str()); }
                upto = now;
                (void) used;
                shown.insert(shown.end(), s.shown.begin(), s.shown.end());
            }
        }
        FAILIF("C36", !kept.empty(), "the last %zu bytes of a control connection are never dissected", kept.size());
        if (with_tree) compare(resends ? "a control connection with resent packets" : "a control connection with acknowledgements and messages", shown, want);
        if (segments > 1) nontrivial();
        feature(mix(all.size() * 131 + segments * 7 + (resends ? 1 : 0)));
        label(resends ? "resent packets" : "acknowledgements and messages");
        count("segments", segments);
    }
    void junk()
    {
        std::string d;
        bool tcp = src.chance(50);
        switch (src.draw(4)) {
        case 0: { auto b = bytes(src.size_biased(0, 300), src.draw(1000000)); d.assign(b.begin(), b.end()); break; }
        case 1: { auto p = payload(3000); auto h = header(src.chance(30), p.size() + src.draw(70000)); auto b = wire::dgram(h, (const uint8_t*) p.data(), p.size()); d.assign(b.begin(), b.end()); if (tcp) d.insert(0, 1, 1); break; }
        case 2: { auto p = payload(3000); auto b = wire::dgram(header(false, p.size()), (const uint8_t*) p.data(), p.size()); d.assign(b.begin(), b.begin() + src.draw(b.size() + 1)); break; }
        default: { for (int k = (int) src.draw(40); k > 0; --k) { d += src.chance(50) ? wire::ack_cmd(src.draw(10), 3) : wire::msg_cmd(std::string(src.draw(5), 'x')); if (src.chance(20)) d += (char) src.draw(256); } tcp = true; break; }
        }
        if (d.empty()) return;
        if (tcp && (uint8_t) d[0] > 3 && src.chance(70)) d[0] = (char) (1 + src.draw(3));
        note("%zu bytes of junk to the %s dissector", d.size(), tcp ? "control" : "datagram");
        auto h = tcp ? control() : datagrams();
        if (h) dissect(h, d, false);
        if (tcp) table("tcp.port");
        label("junk");
    }
    void run()
    {
        ws = new Ws;
        plugin_register();
        if (!ws->plugin || !ws->plugin->register_protoinfo) harness_bug("the plugin does not compile or does not register itself");
        ws->plugin->register_protoinfo();
        if (ws->plugin->register_handoff) ws->plugin->register_handoff();
        static std::map<std::string, dissector_table*> lasting;     // tables live as long as Wireshark does
        for (auto& t : ws->tables) { auto& l = lasting[t.first]; if (!l) l = new dissector_table; l->m = t.second->m; delete t.second; t.second = l; }
        for (auto& l : lasting) if (!ws->tables.count(l.first)) { l.second->m.clear(); ws->tables[l.first] = l.second; }
        if (!lasting.count("tcp.port")) { lasting["tcp.port"] = table("tcp.port"); }
        source = 0x0A000200u + (uint32_t) src.draw(250);
        with_tree = !src.chance(15);
        int n = (int) src.range(1, 6);
        for (int k = 0; k < n; ++k) {
            switch (src.weighted({3, 3, 4, 4, 2})) {
            case 0: datagram(false); break;
            case 1: datagram(true); break;
            case 2: stream(false); break;
            case 3: stream(true); break;
            default: junk(); break;
            }
        }
        for (auto h : ws->handles) delete h;
        for (auto& l : lasting) l.second->m.clear();
        delete ws;
        ws = 0;
    }
};
static void run() { WCase c; c.run(); }
static Reg reg({"C36", run, "a control connection was cut into more than one segment", 25000, 1000000, "model"});

} // namespace
