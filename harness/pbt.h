// Choice-sequence property-based testing engine.
//
// Every random decision of a case is one Src::draw(n). A case is fully
// determined by the sequence of drawn values, so a failing case is shrunk by
// deleting / zeroing / lowering entries of that sequence and replayed from it.
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <string>
#include <vector>
#include <initializer_list>

namespace pbt {

struct Src {
    // Uniform in [0, n). 0 is always the "simplest" choice by convention.
    uint64_t draw(uint64_t n);
    // Inclusive range; shrinks towards lo.
    int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t) draw((uint64_t) (hi - lo) + 1); }
    // true with probability pct/100; shrinks towards false.
    bool chance(int pct) { return (int) draw(100) >= 100 - pct; }
    // Weighted index; shrinks towards index 0.
    int weighted(std::initializer_list<int> w);
    int weighted(const std::vector<int>& w);
    template <class T> T one_of(std::initializer_list<T> l) { return *(l.begin() + draw(l.size())); }
    // A size in [lo, hi] biased to small values and boundaries.
    uint64_t size_biased(uint64_t lo, uint64_t hi);

    // internals
    std::vector<uint64_t> replay;
    bool replaying = false;
    size_t pos = 0;
    uint64_t s0 = 0, s1 = 0;
    bool exhausted = false;     // Too many draws: case must wind down
    bool norecord = false;
    void seed(uint64_t s);
    uint64_t rnd();
    // Draws the choices made since position `from` once more; end_again() goes back to where it was.
    void again(size_t from);
    void end_again();
    struct Saved { std::vector<uint64_t> replay; bool replaying, exhausted; size_t pos; } saved;
};

extern Src src;

// Which property does this process decide. Oracles of other properties are ignored.
extern const char* prop;
extern bool thorough;
extern int (*command)(int argc, char** argv);  // other things the program can be asked to do; < 0: nothing
bool on(const char* id);                  // id == prop
void oracles_too(std::initializer_list<const char*>);   // and those of these, whatever is being decided
void every_oracle(bool);                  // from now on every property's oracles speak for the one being decided
extern const char* bias;                  // generate as for this property (null: prop)
bool biased(const char* id);

// Report that property <id> does not hold in this case. Only acts when id is
// the property being decided; never returns then.
void fail(const char* id, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
// Harness inconsistency: the case is dropped and counted, never a violation.
void discard(const char* why);
[[noreturn]] void harness_bug(const char* fmt, ...) __attribute__((format(printf, 1, 2)));

// Case classification.
void label(const char* l);                // counts the case once under this label
void count(const char* l, uint64_t n = 1);// adds to a running counter
void nontrivial();                        // marks case as non-trivial by the check's rule
void feature(uint64_t h);                 // folds into the case fingerprint (distinctness)
void note(const char* fmt, ...) __attribute__((format(printf, 1, 2))); // trace line (only kept when tracing)
extern bool tracing;
extern std::vector<std::string>* capture; // when set, every trace line goes here as well
void known(const char* finding_id);       // case ran into a listed known finding and was excluded

#define FAILIF(id, cond, ...) do { if (pbt::prop && pbt::on(id) && (cond)) pbt::fail(id, __VA_ARGS__); } while (0)

struct Check {
    const char* id;
    void (*run)();               // one case
    const char* rule;
    uint64_t quick_cases;
    uint64_t thorough_cases;
    const char* technique;
};

void register_check(const Check& c);
const Check* find_check(const char* id);
struct Reg { Reg(const Check& c) { register_check(c); } };

// Known findings: a fixed history that shows the defect. Returns true when it still fails.
struct Known {
    const char* id;              // property
    const char* key;
    const char* what;
    bool (*still_fails)();
};
void register_known(const Known& k);
struct RegKnown { RegKnown(const Known& k) { register_known(k); } };

uint64_t mix(uint64_t x);
// Deterministic content bytes.
void fill(uint8_t* p, size_t n, uint64_t seed);
std::vector<uint8_t> bytes(size_t n, uint64_t seed);

} // namespace pbt
