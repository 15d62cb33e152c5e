// C24: the generic list is a sequence.
#include "pbt.h"
#include "sim.h"
#include <string.h>
#include <errno.h>
extern "C" {
#include "list_inst.h"
}
using namespace pbt;
#define F(cond, ...) FAILIF("C24", cond, __VA_ARGS__)

typedef std::vector<std::pair<tl_node*, int64_t>> Model;

static int n_alloc, n_free;
static tl_node* my_alloc(void* ud) { ++n_alloc; F(ud != (void*) &n_alloc, "alloc_node got the wrong user data"); return (tl_node*) sim::lib_malloc(sizeof(tl_node)); }
static void my_free(tl_node* n, void* ud) { ++n_free; F(ud != (void*) &n_alloc, "free_node got the wrong user data"); free(n); }

static int asc(int64_t a, int64_t b, void*) { return a < b ? 1 : a > b ? -1 : 0; }   // >= 0: insert before
static int desc(int64_t a, int64_t b, void*) { return a > b ? 1 : a < b ? -1 : 0; }
static int64_t cmp_calls;
static int eq(int64_t needle, int64_t hay, void* ud) { ++*(int64_t*) ud; return needle == hay; }
static int eq_sorted_asc(int64_t needle, int64_t hay, void*) { return needle == hay ? 1 : hay > needle ? -1 : 0; }
static int eq_sorted_desc(int64_t needle, int64_t hay, void*) { return needle == hay ? 1 : hay < needle ? -1 : 0; }
static int stop_at(int64_t needle, int64_t hay, void*) { return needle == hay ? -1 : 0; }

static std::vector<int64_t>* seen;
static int64_t stop_after;
static uint8_t visit(tl_node* n, void* ud) { seen->push_back(n->data); F(ud != (void*) &seen, "for_each passed the wrong user data"); return (int64_t) seen->size() < stop_after; }

static void verify(tl_list* l, const Model& m, int li)
{
    F(tl_list_size(l) != m.size(), "list %d: size %u, %zu elements were stored", li, tl_list_size(l), m.size());
    size_t k = 0;
    tl_node* prev = 0;
    for (tl_node* n = tl_list_head(l); n; n = tl_list_next(n), ++k) {
        F(k >= m.size(), "list %d: more than %zu elements when walked from the head", li, m.size());
        if (k >= m.size()) return;
        F(n != m[k].first, "list %d: element %zu is another node", li, k);
        F(n->data != m[k].second, "list %d: element %zu is %lld, not %lld", li, k, (long long) n->data, (long long) m[k].second);
        F(tl_list_prev(n) != prev, "list %d: element %zu has the wrong predecessor", li, k);
        prev = n;
    }
    F(k != m.size(), "list %d: %zu elements when walked from the head, not %zu", li, k, m.size());
    F(tl_list_tail(l) != prev, "list %d: wrong tail", li);
}

static void run()
{
    tl_list l[2];
    Model m[2];
    bool custom = src.chance(50);
    size_t base = sim::live_blocks();
    n_alloc = n_free = 0;
    for (auto& x : l) {
        memset(&x, 0x5A, sizeof(x));
        tl_list_init(&x, custom ? (void*) &n_alloc : 0, custom ? my_alloc : 0, custom ? my_free : 0);
    }
    int dir[2] = { (int) src.draw(3), (int) src.draw(3) };   // 0 free form, 1 kept ascending, 2 kept descending
    int range = 2 + (int) src.draw(40);
    int nops = 4 + (int) src.draw(70);
    bool mid = false, moved = false, sorted_mid = false, unlinked = false;
    std::vector<std::pair<tl_node*, int64_t>> loose;

    for (int i = 0; i < nops && !src.exhausted; ++i) {
        int a = (int) src.draw(2);
        tl_list* L = &l[a];
        Model& M = m[a];
        int64_t v = src.range(0, range);
        int op;
        if (dir[a]) op = src.one_of({4, 4, 4, 5, 6, 7, 8, 9, 10, 11, 13, 14, 15, 16, 17});
        else op = (int) src.draw(20);
        auto where = [&]() { return (size_t) src.draw(M.size()); };
        auto sorted_pos = [&](bool rev) -> size_t {
            auto c = dir[a] == 2 ? (rev ? asc : desc) : (rev ? desc : asc);
            if (!rev) { for (size_t k = 0; k < M.size(); ++k) if (c(v, M[k].second, 0) >= 0) return k; return M.size(); }
            for (size_t k = M.size(); k-- > 0;) if (c(v, M[k].second, 0) >= 0) return k + 1;
            return 0;
        };
        switch (op) {
        case 0: case 18: { tl_node* n = tl_list_push_head(L, v); note("%d push_head %lld", a, (long long) v); M.insert(M.begin(), {n, v}); break; }
        case 1: case 19: { tl_node* n = tl_list_push_tail(L, v); note("%d push_tail %lld", a, (long long) v); M.push_back({n, v}); break; }
        case 2: if (!M.empty()) { size_t k = where(); tl_node* n = tl_list_insert_before(M[k].first, v); note("%d insert_before #%zu %lld", a, k, (long long) v); if (k) mid = true; M.insert(M.begin() + k, {n, v}); } break;
        case 3: if (!M.empty()) { size_t k = where(); tl_node* n = tl_list_insert_after(M[k].first, v); note("%d insert_after #%zu %lld", a, k, (long long) v); if (k + 1 < M.size()) mid = true; M.insert(M.begin() + k + 1, {n, v}); } break;
        case 4: case 5: {
            bool rev = src.chance(50);
            size_t k = sorted_pos(rev);
            auto c = dir[a] == 2 ? (rev ? asc : desc) : (rev ? desc : asc);
            tl_node* n;
            if (!loose.empty() && src.chance(40)) {
                n = loose.back().first; n->data = v; loose.pop_back();
                tl_node* q = rev ? tl_list_insert_sorted_node_rev(L, n, c, 0) : tl_list_insert_sorted_node(L, n, c, 0);
                F(q != n, "insert_sorted_node returned another node");
            } else
                n = rev ? tl_list_insert_sorted_rev(L, v, c, 0) : tl_list_insert_sorted(L, v, c, 0);
            note("%d insert_sorted%s %lld -> #%zu", a, rev ? "_rev" : "", (long long) v, k);
            if (k && k < M.size()) sorted_mid = true;
            M.insert(M.begin() + k, {n, v});
            break;
        }
        case 6: if (!M.empty()) { size_t k = where(); tl_node* n = tl_list_unlink(M[k].first); note("%d unlink #%zu", a, k); F(n != M[k].first, "unlink returned another node"); F(n->data != M[k].second, "unlink changed the data"); loose.push_back(M[k]); M.erase(M.begin() + k); unlinked = true; } break;
        case 7: if (!M.empty()) { size_t k = where(); if (k && k + 1 < M.size()) mid = true; tl_list_delete(M[k].first); note("%d delete #%zu", a, k); M.erase(M.begin() + k); } break;
        case 8: { int64_t d = -77; int r = tl_list_pop_head(L, &d); note("%d pop_head", a); F(!r != M.empty(), "pop_head of %zu elements returned %d", M.size(), r); if (!M.empty()) { F(d != M[0].second, "pop_head gave %lld, not %lld", (long long) d, (long long) M[0].second); M.erase(M.begin()); } break; }
        case 9: { int64_t d = -77; int r = tl_list_pop_tail(L, &d); note("%d pop_tail", a); F(!r != M.empty(), "pop_tail of %zu elements returned %d", M.size(), r); if (!M.empty()) { F(d != M.back().second, "pop_tail gave %lld, not %lld", (long long) d, (long long) M.back().second); M.pop_back(); } break; }
        case 10: { tl_node* n = tl_list_pop_head_node(L); note("%d pop_head_node", a); F(n != (M.empty() ? 0 : M[0].first), "pop_head_node gave another node"); if (n) { loose.push_back(M[0]); M.erase(M.begin()); } break; }
        case 11: { tl_node* n = tl_list_pop_tail_node(L); note("%d pop_tail_node", a); F(n != (M.empty() ? 0 : M.back().first), "pop_tail_node gave another node"); if (n) { loose.push_back(M.back()); M.pop_back(); } break; }
        case 12: if (!loose.empty()) {
            auto e = loose.back(); loose.pop_back(); moved = true;
            int w = (int) src.draw(4);
            note("%d put node back, way %d", a, w);
            if (w == 0) { tl_list_push_head_node(L, e.first); M.insert(M.begin(), e); }
            else if (w == 1 || M.empty()) { tl_list_push_tail_node(L, e.first); M.push_back(e); }
            else if (w == 2) { size_t k = where(); tl_list_insert_before_node(M[k].first, e.first); M.insert(M.begin() + k, e); }
            else { size_t k = where(); tl_list_insert_after_node(M[k].first, e.first); M.insert(M.begin() + k + 1, e); }
            break;
        }
        // fall through
        case 13: {
            cmp_calls = 0;
            bool rev = src.chance(50);
            tl_node* n = rev ? tl_list_find_node_rev(L, v, eq, &cmp_calls) : tl_list_find_node(L, v, eq, &cmp_calls);
            tl_node* e = 0;
            if (rev) { for (size_t k = M.size(); k-- > 0;) if (M[k].second == v) { e = M[k].first; break; } }
            else for (auto& x : M) if (x.second == v) { e = x.first; break; }
            note("%d find%s %lld", a, rev ? "_rev" : "", (long long) v);
            F(n != e, "find_node%s(%lld) found %s", rev ? "_rev" : "", (long long) v, n ? (e ? "another node" : "an element that is not there") : "nothing");
            break;
        }
        case 14: {
            // The comparison may end the search early with -1.
            tl_node* e = 0; tl_node* n;
            if (dir[a] == 0) { n = tl_list_find_node(L, v, stop_at, 0); }
            else {
                for (auto& x : M) if (x.second == v) { e = x.first; break; }
                n = tl_list_find_node(L, v, dir[a] == 1 ? eq_sorted_asc : eq_sorted_desc, 0);
            }
            F(n != e, "find_node with an early end gave the wrong node");
            break;
        }
        case 15: {
            std::vector<int64_t> s, e;
            seen = &s;
            stop_after = src.chance(50) ? 1 + (int64_t) src.draw(M.size() + 1) : 1 << 30;
            bool rev = src.chance(50);
            if (rev) tl_list_for_each_rev(L, visit, &seen); else tl_list_for_each(L, visit, &seen);
            for (auto& x : M) e.push_back(x.second);
            if (rev) e = std::vector<int64_t>(e.rbegin(), e.rend());
            if ((int64_t) e.size() > stop_after) e.resize(stop_after);
            F(s != e, "for_each%s visited %zu elements, %zu expected, or in another order", rev ? "_rev" : "", s.size(), e.size());
            break;
        }
        case 16: if (src.chance(20)) { tl_list_empty(L); note("%d empty", a); M.clear(); } break;
        case 17: { F(tl_list_next(0) || tl_list_prev(0), "next/prev of nothing is not nothing"); break; }
        }
        verify(&l[0], m[0], 0);
        verify(&l[1], m[1], 1);
        F(sim::live_blocks() - base != m[0].size() + m[1].size() + loose.size(), "%zu nodes are allocated, %zu are in use",
          sim::live_blocks() - base, m[0].size() + m[1].size() + loose.size());
    }
    for (auto& x : l) { tl_list_empty(&x); F(tl_list_size(&x) || tl_list_head(&x) || tl_list_tail(&x), "an emptied list is not empty"); }
    if (custom) F(n_alloc - n_free != (int) loose.size(), "custom allocator: %d nodes allocated, %d freed, %zu outside the lists", n_alloc, n_free, loose.size());
    if (mid) label("insert/delete in the middle");
    if (moved) label("node moved between lists");
    if (sorted_mid) label("sorted insert in the middle");
    if (unlinked) label("unlink");
    if (mid || sorted_mid || moved) nontrivial();
}
static Reg r1({"C24", run,
    "random operation sequences over two lists (pushes, sorted inserts, unlink and relink, deletes, pops, searches, iteration) against vectors; "
    "non-trivial: an insert or delete in the middle, or a node moved between lists",
    1500000, 15000000, "model-based property testing"});
