// Independent codec of the wire format.
#pragma once
#include <stdint.h>
#include <string.h>
#include <string>
#include <vector>

namespace wire {

enum { PACKET = 1, ACK = 2, MSG = 3, HDR = 20 };

struct Hdr { uint64_t pid; uint32_t node; uint16_t len; uint32_t ip; uint16_t port; };

inline void put(std::string& o, uint64_t v, int n) { for (int i = 0; i < n; ++i) o.push_back((char) (v >> (8 * i))); }
inline uint64_t get(const uint8_t* p, int n) { uint64_t v = 0; for (int i = 0; i < n; ++i) v |= (uint64_t) p[i] << (8 * i); return v; }

inline void put_hdr(std::string& o, const Hdr& h) { put(o, h.pid, 8); put(o, h.node, 4); put(o, h.len, 2); put(o, h.ip, 4); put(o, h.port, 2); }
inline Hdr get_hdr(const uint8_t* p) { return Hdr{get(p, 8), (uint32_t) get(p + 8, 4), (uint16_t) get(p + 12, 2), (uint32_t) get(p + 14, 4), (uint16_t) get(p + 18, 2)}; }

inline std::vector<uint8_t> dgram(const Hdr& h, const uint8_t* p, size_t n)
{
    std::string o; put_hdr(o, h);
    std::vector<uint8_t> r(o.begin(), o.end());
    if (n) r.insert(r.end(), p, p + n);
    return r;
}
inline std::string packet_cmd(const Hdr& h, const uint8_t* p, size_t n) { std::string o(1, (char) PACKET); put_hdr(o, h); o.append((const char*) p, n); return o; }
inline std::string ack_cmd(uint64_t a, uint64_t b) { std::string o(1, (char) ACK); put(o, a, 8); put(o, b, 8); return o; }
inline std::string msg_cmd(const std::string& m) { std::string o(1, (char) MSG); put(o, m.size(), 2); o += m; return o; }

struct Cmd { int type; Hdr h; uint64_t a, b; std::string data; };

// Incremental command parser.
struct Parser {
    std::string buf;
    size_t at = 0;
    bool bad = false;
    void feed(const void* p, size_t n)
    {
        if (at > 65536) { buf.erase(0, at); at = 0; }
        buf.append((const char*) p, n);
    }
    size_t pending() const { return buf.size() - at; }
    bool next(Cmd& c)
    {
        const uint8_t* p = (const uint8_t*) buf.data() + at;
        size_t n = buf.size() - at, need;
        if (bad || !n) return false;
        c.type = p[0];
        switch (c.type) {
        case PACKET:
            if (n < 1 + HDR) return false;
            c.h = get_hdr(p + 1);
            need = 1 + HDR + c.h.len;
            if (n < need) return false;
            c.data.assign((const char*) p + 1 + HDR, c.h.len);
            break;
        case ACK:
            need = 17;
            if (n < need) return false;
            c.a = get(p + 1, 8); c.b = get(p + 9, 8);
            break;
        case MSG:
            if (n < 3) return false;
            need = 3 + get(p + 1, 2);
            if (n < need) return false;
            c.data.assign((const char*) p + 3, need - 3);
            break;
        default: bad = true; return false;
        }
        at += need;
        return true;
    }
};

} // namespace wire
