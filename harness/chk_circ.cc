// C23: the circular buffer is a bounded byte FIFO.
#include "pbt.h"
#include "sim.h"
#include "rmc.h"
#include <deque>
#include <errno.h>
#include <string.h>
using namespace pbt;

#define F(cond, ...) FAILIF("C23", cond, __VA_ARGS__)

static void run()
{
    uint32_t size;
    switch (src.draw(6)) {
    case 0: size = 2 + src.draw(6); break;
    case 1: size = 1 + src.draw(16); break;
    case 2: size = 8 + src.draw(57); break;
    case 3: size = 64 + src.draw(450); break;
    case 4: size = 2 + src.draw(4); break;
    default: size = 1 + src.draw(thorough ? 70000 : 3000); break;
    }
    uint8_t* mem = (uint8_t*) sim::raw_malloc(size);   // exact size: the sanitizer sees any overrun
    memset(mem, 0xEE, size);
    circ_buf_t cb;
    memset(&cb, 0x5A, sizeof(cb));
    circ_buf_init(&cb, mem, size);
    std::deque<uint8_t> m;
    uint32_t cap = size - 1;
    uint64_t seed = 1;
    bool wrapped_alloc = false, wrapped_read = false, trimmed = false, trimmed_wrapped = false;
    auto is_wrapped = [&]() {
        uint8_t *a, *b; uint32_t x = 0, y = 0;
        return !circ_buf_read_segment(&cb, size, &a, &x, &b, &y) && y > 0;
    };
    int nops = 5 + (int) src.draw(thorough ? 120 : 60);
    note("buffer of %u bytes", size);

    for (int i = 0; i < nops; ++i) {
        int op = src.weighted({8, 5, 4, 4, 4, 3, 1});
        auto len_for = [&](uint32_t limit) -> uint32_t {
            switch (src.draw(5)) {
            case 0: return (uint32_t) src.draw(4);
            case 1: return limit;
            case 2: return limit ? (uint32_t) src.draw(limit) : 0;
            case 3: return limit + (uint32_t) src.draw(3);
            default: return (uint32_t) src.draw(size + 2);
            }
        };
        switch (op) {
        case 0: {
            uint32_t n = len_for(cap - (uint32_t) m.size());
            uint8_t *s1 = (uint8_t*) 1, *s2 = (uint8_t*) 1;
            uint32_t l1 = 0xdead, l2 = 0xdead;
            int r = circ_buf_alloc(&cb, n, &s1, &l1, &s2, &l2);
            note("alloc(%u) = %d [%u+%u]", n, r, r ? 0 : l1, r ? 0 : l2);
            if (n > cap - m.size()) {
                F(r != ENOMEM, "alloc(%u) with %zu of %u bytes free returned %d, not ENOMEM", n, cap - m.size(), cap, r);
                break;
            }
            F(r != 0, "alloc(%u) with %zu bytes free failed: %d", n, cap - m.size(), r);
            if (r) return;
            F((uint64_t) l1 + l2 != n, "alloc(%u) handed out %u + %u bytes", n, l1, l2);
            F(l1 && (s1 < mem || s1 + l1 > mem + size), "alloc(%u): first segment outside the buffer", n);
            F(l2 && (s2 < mem || s2 + l2 > mem + size), "alloc(%u): second segment outside the buffer", n);
            F(n && !l1, "alloc(%u): nothing in the first segment", n);
            if (l2) wrapped_alloc = true;
            for (uint32_t k = 0; k < l1; ++k) { uint8_t b = (uint8_t) mix(++seed); s1[k] = b; m.push_back(b); }
            for (uint32_t k = 0; k < l2; ++k) { uint8_t b = (uint8_t) mix(++seed); s2[k] = b; m.push_back(b); }
            break;
        }
        case 1: {
            uint32_t n = len_for((uint32_t) m.size());
            uint32_t left = 0xdead;
            bool want = src.draw(4) != 3;
            int r = circ_buf_free(&cb, n, want ? &left : 0);
            note("free(%u) = %d left %u", n, r, want ? left : 0);
            for (uint32_t k = 0; k < n && !m.empty(); ++k) m.pop_front();
            F(r != 0, "free(%u) returned %d", n, r);
            F(want && left != m.size(), "free(%u) reported %u bytes left, there are %zu", n, left, m.size());
            break;
        }
        case 2: {
            uint32_t t = len_for((uint32_t) m.size());
            bool w = is_wrapped();
            circ_buf_trim(&cb, t);
            note("trim(%u) of %zu", t, m.size());
            if (t < m.size()) { trimmed = true; if (w) trimmed_wrapped = true; }
            while (m.size() > t) m.pop_back();
            break;
        }
        case 3: case 4: {
            uint32_t off = op == 3 ? 0 : len_for((uint32_t) m.size());
            uint32_t n = len_for((uint32_t) m.size());
            uint8_t* out = (uint8_t*) sim::raw_malloc(n);
            uint32_t got = 0xdead;
            bool want = src.draw(4) != 3;
            int r = op == 3 ? circ_buf_read(&cb, out, n, want ? &got : 0)
                            : circ_buf_read_offset(&cb, off, out, n, want ? &got : 0);
            note("read(offset %u, %u) = %d got %u", off, n, r, want ? got : 0);
            if (off > m.size())
                F(r != EINVAL, "read at offset %u of %zu bytes returned %d, not EINVAL", off, m.size(), r);
            else {
                uint32_t e = (uint32_t) std::min<size_t>(n, m.size() - off);
                F(r != 0, "read(offset %u, %u) returned %d", off, n, r);
                F(want && got != e, "read(offset %u, %u) of %zu bytes reported %u bytes, not %u", off, n, m.size(), got, e);
                if (e && is_wrapped()) wrapped_read = true;
                for (uint32_t k = 0; k < e; ++k)
                    F(out[k] != m[off + k], "read(offset %u, %u): byte %u is %02x, %02x was stored", off, n, k, out[k], m[off + k]);
            }
            sim::raw_free(out);
            break;
        }
        case 5: {
            uint32_t n = len_for((uint32_t) m.size());
            uint8_t *s1 = (uint8_t*) 1, *s2 = (uint8_t*) 1;
            uint32_t l1 = 0xdead, l2 = 0xdead;
            int r = circ_buf_read_segment(&cb, n, &s1, &l1, &s2, &l2);
            note("read_segment(%u) = %d [%u+%u]", n, r, l1, l2);
            uint32_t e = (uint32_t) std::min<size_t>(n, m.size());
            F(r != 0, "read_segment(%u) returned %d", n, r);
            F((uint64_t) l1 + l2 != e, "read_segment(%u) of %zu bytes gave %u + %u", n, m.size(), l1, l2);
            if (l2) wrapped_read = true;
            F(l1 && (s1 < mem || s1 + l1 > mem + size), "read_segment(%u): first segment outside the buffer", n);
            F(l2 && (s2 < mem || s2 + l2 > mem + size), "read_segment(%u): second segment outside the buffer", n);
            for (uint32_t k = 0; k < e; ++k) {
                uint8_t b = k < l1 ? s1[k] : s2[k - l1];
                F(b != m[k], "read_segment(%u): byte %u is %02x, %02x was stored", n, k, b, m[k]);
            }
            break;
        }
        case 6: {
            uint8_t *s1, *s2; uint32_t l1, l2;
            int miss = (int) src.draw(3);    // which of the four results has nowhere to go
            note("calls without a buffer, without result %d, without a target", miss);
            F(circ_buf_alloc(0, 1, &s1, &l1, &s2, &l2) != EINVAL, "alloc without a buffer is not EINVAL");
            F(circ_buf_alloc(&cb, cap > m.size(), miss == 0 ? 0 : &s1, miss == 1 ? 0 : &l1, miss == 2 ? 0 : &s2, miss == 3 ? 0 : &l2) != EINVAL,
              "alloc without result pointer %d is not EINVAL", miss);
            F(circ_buf_read_offset(&cb, 0, 0, 1, 0) != EINVAL, "read without a target is not EINVAL");
            F(circ_buf_read_segment(&cb, 1, miss == 0 ? 0 : &s1, miss == 1 ? 0 : &l1, miss == 2 ? 0 : &s2, miss == 3 ? 0 : &l2) != EINVAL,
              "read_segment without result pointer %d is not EINVAL", miss);
            break;
        }
        }
        F(circ_buf_in_use(&cb) != m.size(), "in use: %u, %zu bytes are stored", circ_buf_in_use(&cb), m.size());
        F(circ_buf_available(&cb) != cap - m.size(), "available: %u, %zu bytes are free", circ_buf_available(&cb), cap - m.size());
        if (src.exhausted) break;
    }
    // Everything that is stored comes out.
    std::vector<uint8_t> out(m.size() + 1);
    uint32_t got = 0;
    F(circ_buf_read(&cb, out.data(), (uint32_t) m.size(), &got) || got != m.size(), "final read returned %u of %zu bytes", got, m.size());
    for (size_t k = 0; k < m.size(); ++k) F(out[k] != m[k], "final read: byte %zu is %02x, %02x was stored", k, out[k], m[k]);
    if (wrapped_alloc) label("allocation over the end");
    if (wrapped_read) label("read over the end");
    if (trimmed) label("trim");
    if (trimmed_wrapped) label("trim of wrapped data");
    if (size > 1000) label("buffer over 1000 bytes");
    if (wrapped_alloc && wrapped_read) nontrivial();
    feature(size);
    sim::raw_free(mem);
}

static Reg r1({"C23", run,
    "random sequences of init/alloc+fill/free/trim/read/read_offset/read_segment on a buffer of random size against a byte deque; "
    "non-trivial: data crossed the end of the buffer both when stored and when read",
    1200000, 12000000, "model-based property testing"});
