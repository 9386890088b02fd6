// C03: the existence set against std::set, over generated histories.
#include <chdr.hpp>
#include "pbt.hpp"
#include "env.hpp"
#include <algorithm>
#include <optional>
#include <set>
#include <stdexcept>
#include <vector>
using pbt::Ctx;
template <class W>
static void one(Ctx& c) {
    using S = chdr::existence_set<W>;
    sv::audit_resource res[2];
    auto resource = [&]() -> std::pmr::memory_resource* { const auto k = c.draw(3); return k == 0 ? std::pmr::get_default_resource() : &res[k - 1]; };
    const uint64_t keys = c.one<uint64_t>({4, 20, 70, 300, 2000}); size_t in = 0, out = 0; bool tuned = false;
    {
        std::optional<S> s[2]; std::set<size_t> m[2];
        for (size_t k = 0; k < 2; ++k) { if (c.chance(1, 2)) { s[k].emplace(resource()); } else { s[k].emplace(static_cast<size_t>(c.draw(200)), resource()); } }
        auto key = [&]() -> size_t { return c.chance(1, 5) ? (c.draw(8) + 1) * 64 - c.draw(3) : c.draw(keys); };
        auto verify = [&](size_t k) {
            const S& x = *s[k]; auto& v = m[k]; const size_t far = std::max<size_t>({keys, 512, x.size()}) + 70; std::vector<char> f(far); for (auto i : v) { f[i] = 1; }
            for (size_t i = 0; i < far; ++i) { if (x.contains(i) != (f[i] != 0)) { c.fail("contains", "set %zu: key %zu is reported %s", k, i, v.count(i) ? "absent" : "present"); } }
            for (size_t i : {std::numeric_limits<size_t>::max(), std::numeric_limits<size_t>::max() - 1, size_t{1} << 63, size_t{1} << 32}) { CHECK(!x.contains(i), "contains", "set %zu: key %zu is reported present", k, i); }
            CHECK(x.size() <= x.capacity(), "capacity", "set %zu: size %zu, capacity %zu", k, static_cast<size_t>(x.size()), static_cast<size_t>(x.capacity()));
            CHECK(x.empty() == (x.size() == 0), "empty", "set %zu: size %zu, reported %sempty", k, static_cast<size_t>(x.size()), x.empty() ? "" : "not "); CHECK(v.empty() || !x.empty(), "empty", "set %zu holds keys but is reported empty", k);
            auto walk = [&](auto b, auto e, bool back) { size_t n = 0; const size_t z = x.size(); for (; b != e; ++b, ++n) { CHECK(n < z, "iteration", "set %zu: iteration passes its size", k); const size_t i = back ? z - 1 - n : n; CHECK(static_cast<bool>(*b) == (f[i] != 0), "iteration", "set %zu: iteration reports key %zu otherwise than contains", k, i); } CHECK(n == z, "iteration", "set %zu: iteration ends early", k); };
            switch (x.size() < 100 ? 6 : c.draw(6)) { case 0: walk(x.begin(), x.end(), false); break; case 1: walk(x.cbegin(), x.cend(), false); break; case 2: walk(s[k]->begin(), s[k]->end(), false); break; case 3: walk(x.rbegin(), x.rend(), true); break; case 4: walk(x.crbegin(), x.crend(), true); break; case 5: walk(s[k]->rbegin(), s[k]->rend(), true); break; default: walk(x.begin(), x.end(), false); walk(x.cbegin(), x.cend(), false); walk(s[k]->begin(), s[k]->end(), false); walk(x.rbegin(), x.rend(), true); walk(x.crbegin(), x.crend(), true); walk(s[k]->rbegin(), s[k]->rend(), true); }
        };
        verify(0);
        const size_t steps = 1 + c.draw(40);
        for (size_t t = 0; t < steps; ++t) {
            const size_t k = c.draw(2), o = 1 - k; S& x = *s[k];
            switch (c.pick({24, 12, 4, 4, 4, 2, 2, 2, 2, 2, 2, 1})) {
                case 0: { const size_t i = key(); const auto how = c.draw(7); c.note("%zu: push %zu (way %llu)", k, i, static_cast<unsigned long long>(how)); m[k].insert(i); ++in;
                    switch (how) { case 0: x.push(i); break; case 1: x.emplace(i); break; case 2: x.push(static_cast<unsigned>(i)); break; case 3: x.emplace(static_cast<int>(i)); break; case 4: x.push(static_cast<int>(i)); break; case 5: x.emplace(static_cast<uint16_t>(i)); break; default: { const unsigned long long j = i; x.push(j); } } break; }
                case 1: { size_t i = key(); if (!m[k].empty() && c.chance(2, 3)) { auto f = m[k].begin(); std::advance(f, c.draw(m[k].size())); i = *f; } c.note("%zu: erase %zu", k, i); x.erase(i); out += m[k].erase(i); break; }
                case 2: { const size_t i = key(), a = c.draw(100), b = c.chance(1, 2) ? std::numeric_limits<size_t>::max() : c.draw(400); c.note("%zu: allocate for %zu, by %zu, at most %zu", k, i, a, b); if (b == std::numeric_limits<size_t>::max()) { x.allocate(i, a); } else { x.allocate(i, a, b); } tuned = true; break; }
                case 3: { const size_t n = c.draw(600); c.note("%zu: reserve %zu", k, n); x.reserve(n); CHECK(x.capacity() >= n, "reserve", "capacity %zu after reserving %zu", static_cast<size_t>(x.capacity()), n); tuned = true; break; }
                case 4: { c.note("%zu: trim", k); x.trim(); const size_t want = m[k].empty() ? 0 : *m[k].rbegin() + 1; CHECK(x.size() == want, "trim", "set %zu has size %zu after trimming instead of %zu", k, static_cast<size_t>(x.size()), want); tuned = true; break; }
                case 5: { c.note("%zu: shrink to fit", k); x.shrink_to_fit(); tuned = true; break; }
                case 6: { c.note("%zu: clear", k); x.clear(); m[k].clear(); CHECK(x.size() == 0, "clear", "size %zu after clearing", static_cast<size_t>(x.size())); break; }
                case 7: { const size_t n = c.draw(400), was = x.size(); const bool v = c.chance(1, 3); c.note("%zu: resize %zu with %s", k, n, v ? "present" : "absent"); if (c.chance(1, 2) && !v) { x.resize(n); } else { x.resize(n, static_cast<W>(v)); }
                    CHECK(x.size() == n, "resize", "size %zu after resizing to %zu", static_cast<size_t>(x.size()), n); m[k].erase(m[k].lower_bound(n), m[k].end()); if (v) { for (size_t i = was; i < n; ++i) { m[k].insert(i); } } break; }
                case 8: { c.note("%zu: assigned by copy from %zu", k, o); x = *s[o]; m[k] = m[o]; break; }
                case 9: { c.note("%zu: assigned by move from %zu", k, o); x = std::move(*s[o]); m[k] = std::move(m[o]); s[o]->clear(); m[o].clear(); break; }
                case 10: { const bool mv = c.chance(1, 2); c.note("%zu: %s into a new one", k, mv ? "moved" : "copied"); if (mv) { S y(std::move(x)); s[k].reset(); s[k].emplace(std::move(y)); } else { S y(x); s[k].reset(); s[k].emplace(y); } break; }
                default: { const size_t i = c.chance(1, 2) ? std::numeric_limits<size_t>::max() - c.draw(2) : (size_t{1} << 63) + c.draw(64); c.note("%zu: push %zu, which cannot be stored", k, i);
                    bool thrown = false; try { x.push(i); } catch (const std::length_error&) { thrown = true; } CHECK(thrown, "refusal", "pushing %zu does not fail", i); break; }
            }
            verify(k); verify(o);
        }
    }
    if (in > 4 && out > 0) { c.nontrivial(); }
    c.label("%s%s", out ? "keys removed" : "no key removed", tuned ? ", capacity tuned" : "");
    for (auto& r : res) { CHECK(r.error.empty(), "resource", "%s", r.error.c_str()); CHECK(r.live.empty(), "leak", "%zu blocks are left in the memory resource", r.live.size()); }
}
// Large keys: positions beyond 16 bits. The keys are expanded from one drawn number.
template <class W>
static void large(Ctx& c) {
    using S = chdr::existence_set<W>;
    uint64_t q = c.draw(1U << 30); auto rnd = [&] { q += 0x9E3779B97F4A7C15ULL; uint64_t z = q; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; return z ^ (z >> 31); };
    const size_t span = c.one<size_t>({3000, 65600, 70000, 300000}); const auto shape = c.draw(4); const size_t stride = 1 + c.draw(300); size_t next = 0;
    auto key = [&]() -> size_t { switch (shape) { case 0: return rnd() % span; case 1: next = (next + stride) % span; return next; case 2: next = (next + span - stride % span) % span; return next; default: return rnd() % 3 ? 65536 * (1 + rnd() % std::max<size_t>(1, span / 65536)) - 3 + rnd() % 6 : rnd() % span; } };
    S s; std::vector<char> m(span + 70000 + 300, 0); size_t top = 0, in = 0, out = 0;
    if (c.chance(1, 3)) { s.reserve(c.draw(span)); }
    auto verify = [&](const char* what) {
        for (size_t i = 0; i < m.size(); ++i) { if (s.contains(i) != (m[i] != 0)) { c.fail("contains", "%s: key %zu is reported %s", what, i, m[i] ? "absent" : "present"); } }
        CHECK(s.size() <= s.capacity(), "capacity", "size %zu, capacity %zu", static_cast<size_t>(s.size()), static_cast<size_t>(s.capacity()));
        size_t n = 0; for (auto x : s) { CHECK(n < m.size() && static_cast<bool>(x) == (m[n] != 0), "iteration", "iteration reports key %zu otherwise than contains", n); ++n; } CHECK(n == s.size(), "iteration", "iteration visits %zu keys of %zu", n, static_cast<size_t>(s.size()));
    };
    const size_t steps = 1 + c.draw(12); c.note("keys up to %zu, kind %llu, stride %zu", span, static_cast<unsigned long long>(shape), stride);
    for (size_t t = 0; t < steps; ++t) {
        switch (c.pick({6, 3, 1, 1, 1, 1})) {
            case 0: { const size_t n = 1 + c.draw(3000); c.note("push %zu keys", n); for (size_t i = 0; i < n; ++i) { const size_t k = key(); s.push(k); in += !m[k]; m[k] = 1; top = std::max(top, k + 1); } break; }
            case 1: { const size_t n = 1 + c.draw(3000); c.note("erase %zu keys", n); for (size_t i = 0; i < n; ++i) { const size_t k = key(); s.erase(k); out += m[k] != 0; m[k] = 0; } break; }
            case 2: { const size_t k = key(), a = 1 + c.draw(70000); c.note("allocate for %zu by %zu", k, a); s.allocate(k, a); break; }
            case 3: { c.note("trim"); s.trim(); size_t want = m.size(); while (want > 0 && !m[want - 1]) { --want; } CHECK(s.size() == want, "trim", "size %zu after trimming instead of %zu", static_cast<size_t>(s.size()), want); break; }
            case 4: { c.note("copied"); S z(s); s.clear(); CHECK(s.empty(), "clear", "not empty after clearing"); if (c.chance(1, 2)) { s = z; } else { s = std::move(z); } break; }
            default: { const size_t n = c.draw(span); c.note("resize %zu", n); s.resize(n); std::fill(m.begin() + static_cast<ptrdiff_t>(n), m.end(), 0); break; }
        }
        verify("after an operation");
    }
    if (in > 100) { c.nontrivial(); } c.label("large: keys up to %zu%s", span, out ? ", keys removed" : "");
}
namespace pbt {
const char* harness_rule() { return "A case is a history of up to 40 operations over two sets (bit, byte or wider flags) and three memory resources; after each, membership of every key up to past the greatest one, size, capacity and iteration are compared with std::set; or (the large- targets) up to 12 bursts over one set with keys up to 300000. Non-trivial: more than four insertions and at least one removal of a present key; more than 100 distinct keys of a large set."; }
#define E(W) {#W, one<W>, 36000, 2000000},
#define L(W) {"large-" #W, large<W>, 100, 5000},
using u8 = uint8_t; using u16 = uint16_t; using u64 = uint64_t;
std::vector<Target> harness_targets() { return { E(bool) E(char) E(u8) E(u16) E(int) E(u64) L(bool) L(char) L(u16) }; }
std::vector<std::string> harness_assumptions() { return {"keys up to 300000, and keys that no memory could hold"}; }
}
