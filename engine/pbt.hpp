// A small property-based testing engine: every random decision of a case is drawn from a recorded tape.
#pragma once
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <functional>
#include <map>
#include <string>
#include <vector>

namespace pbt {

struct Failure { std::string key, msg; };   // the property does not hold for this case
struct Discard {};                          // the case is outside the domain

std::string vfmt(const char* f, va_list ap);
std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));

class Ctx {
public:
    // --- choices (0 is always the simplest value) ---
    uint64_t draw(uint64_t n);                              // uniform in [0, n)
    int64_t  range(int64_t lo, int64_t hi) { return lo + static_cast<int64_t>(draw(static_cast<uint64_t>(hi - lo) + 1U)); }
    bool     chance(unsigned num, unsigned den) { return draw(den) >= den - num; }   // false is simplest
    uint64_t bits();                                        // 64 bits, biased towards small and boundary values
    size_t   pick(std::initializer_list<unsigned> weights); // index by weight
    template <class C> auto& of(C& c) { return c[draw(c.size())]; }
    template <class T> T one(std::initializer_list<T> l) { return *(l.begin() + draw(l.size())); }

    // --- verdicts ---
    [[noreturn]] void fail(const char* key, const char* f, ...) __attribute__((format(printf, 3, 4)));
    [[noreturn]] void discard() { throw Discard{}; }

    // --- reporting ---
    bool describing = false;
    void note(const char* f, ...) __attribute__((format(printf, 2, 3)));  // part of the written-out case
    void label(const char* f, ...) __attribute__((format(printf, 2, 3))); // distribution counters
    void nontrivial() { nontriv = true; }

    // --- engine side ---
    std::vector<uint64_t> in;       // values to be replayed
    std::string text;
    char* sink = nullptr; size_t sink_cap = 0; size_t sink_len = 0;   // also written here, so that it survives a crash
    bool     nontriv = false;
    bool     fresh   = true;        // beyond `in`: true: random, false: zero
    uint64_t rng     = 0;
    size_t   pos     = 0;
    uint64_t* out = nullptr; size_t* out_len = nullptr; size_t out_cap = 0;   // recording
    std::map<std::string, uint64_t>* labels = nullptr;
    uint64_t next_random();
};

struct Target {
    const char* name;
    void (*fn)(Ctx&);
    uint64_t quick;      // number of cases, quick tier
    uint64_t thorough;   // number of cases, thorough tier
};

// Provided by the harness:
extern const char* harness_rule();               // what a case is, and what makes it non-trivial
std::vector<Target> harness_targets();
std::vector<std::string> harness_assumptions();
std::vector<Target> harness_known() __attribute__((weak));   // optional: cases of listed known findings
inline unsigned default_cpu_limit = 20;          // CPU seconds one case may take before it counts as endless

// Live heap bytes of this process (sanitizer hook based; 0 when not available).
size_t live_bytes();
size_t live_blocks();
extern thread_local bool count_allocs;

#define CHECK(cond, key, ...) do { if (!(cond)) c.fail(key, __VA_ARGS__); } while (0)

} // namespace pbt
