// C02: stack and queue against a plain sequence, over generated histories.
#include <chdr.hpp>
#include "pbt.hpp"
#include "env.hpp"
#include <algorithm>
#include <deque>
#include <memory>
#include <optional>
#include <string>
using pbt::Ctx;
struct Pair { int a = 0, b = 0; Pair() = default; Pair(int x, int y) : a(x), b(y) {} };
template <class T> struct Tr;
template <> struct Tr<int> { static int make(int k) { return k; } static int key(int x) { return x; } };
template <> struct Tr<char> { static char make(int k) { return static_cast<char>(k % 100); } static int key(char x) { return x; } };
template <> struct Tr<Pair> { static Pair make(int k) { return {k, -k}; } static int key(const Pair& x) { return x.a == -x.b ? x.a : -1; } };
template <> struct Tr<std::string> { static std::string make(int k) { return std::string(30, 'y') + std::to_string(k); } static int key(const std::string& x) { return x.size() < 31 ? -1 : atoi(x.c_str() + 30); } };
template <> struct Tr<std::unique_ptr<int>> { static std::unique_ptr<int> make(int k) { return std::make_unique<int>(k); } static int key(const std::unique_ptr<int>& x) { return x ? *x : -1; } };
struct alignas(64) Wide { int k = 0; char pad[60]; };
template <> struct Tr<Wide> { static Wide make(int k) { Wide w; w.k = k; return w; } static int key(const Wide& x) { return x.k; } };

template <template <class> class A, class T, bool Fifo>
static void one(Ctx& c) {
    using Q = A<T>; using R = Tr<T>; constexpr bool copyable = std::is_copy_constructible_v<T>;
    sv::audit_resource res[2];
    auto resource = [&](uint64_t k) -> std::pmr::memory_resource* { return k == 0 ? std::pmr::get_default_resource() : &res[k - 1]; };
    size_t taken = 0, put = 0; bool copied = false;
    {
        std::optional<Q> q[2]; std::deque<int> m[2]; uint64_t at[2];
        for (size_t k = 0; k < 2; ++k) { at[k] = c.draw(3); if constexpr (!Fifo) { if (c.chance(1, 3)) { q[k].emplace(static_cast<size_t>(c.draw(20)), resource(at[k])); continue; } } q[k].emplace(resource(at[k])); }
        auto next = [&](std::deque<int>& v) -> int& { return Fifo ? v.front() : v.back(); };
        auto verify = [&](size_t k) {
            Q& x = *q[k]; const Q& y = x; auto& v = m[k];
            CHECK(y.size() == v.size() && y.empty() == v.empty(), "size", "%zu items are reported instead of %zu", y.size(), v.size());
            auto same = [&](auto b, auto e, auto mb, auto me, const char* what) { size_t i = 0; for (; b != e && mb != me; ++b, ++mb, ++i) { CHECK(R::key(*b) == *mb, "iteration", "%s: item %zu is %d instead of %d", what, i, R::key(*b), *mb); } CHECK(b == e && mb == me, "iteration", "%s visits another number of items", what); };
            same(x.begin(), x.end(), v.begin(), v.end(), "iteration"); same(y.begin(), y.end(), v.begin(), v.end(), "iteration"); same(y.cbegin(), y.cend(), v.begin(), v.end(), "iteration");
            same(x.rbegin(), x.rend(), v.rbegin(), v.rend(), "reverse iteration"); same(y.rbegin(), y.rend(), v.rbegin(), v.rend(), "reverse iteration"); same(y.crbegin(), y.crend(), v.rbegin(), v.rend(), "reverse iteration");
            if (!v.empty()) { CHECK(R::key(x.top()) == next(v) && R::key(y.top()) == next(v), "top", "the top is %d instead of %d", R::key(x.top()), next(v)); CHECK(R::key(x.front()) == next(v) && R::key(y.front()) == next(v), "front", "the front is %d, or %d of a constant one, instead of %d", R::key(x.front()), R::key(y.front()), next(v)); }
        };
        const size_t steps = 1 + c.draw(60); int n = 0; const unsigned fill = c.chance(1, 4) ? 60 : 24;
        for (size_t t = 0; t < steps; ++t) {
            const size_t k = c.draw(2), o = 1 - k; Q& x = *q[k];
            switch (c.pick({fill, 18, 1, 2, 2, 2, 2, 1})) {
                case 0: { size_t many = c.chance(1, 10) ? 1 + c.draw(70) : 1; for (; many > 0; --many) { ++n; ++put; const auto how = c.draw(copyable ? 3 : 2); if (many < 3) { c.note("%zu: push %d (way %llu)", k, n % 100, static_cast<unsigned long long>(how)); }
                    T v = R::make(n % 100); m[k].push_back(n % 100); if (how == 0) { x.push(std::move(v)); } else if (how == 1) { if constexpr (std::is_same_v<T, Pair>) { x.emplace(n % 100, -(n % 100)); } else { x.emplace(std::move(v)); } } else if constexpr (copyable) { const T& w = v; x.push(w); } } break; }
                case 1: { size_t many = c.chance(1, 10) ? 1 + c.draw(70) : 1; for (; many > 0 && !m[k].empty(); --many) { if (many < 3) { c.note("%zu: pop", k); } x.pop(); if (Fifo) { m[k].pop_front(); } else { m[k].pop_back(); } ++taken; } break; }
                case 2: { c.note("%zu: clear", k); x.clear(); m[k].clear(); break; }
                case 3: { if constexpr (copyable) { c.note("%zu: assigned by copy from %zu", k, o); x = *q[o]; m[k] = m[o]; copied = true; } break; }
                case 4: { if constexpr (copyable) { c.note("%zu: copied into a new one", k); const auto before = at[k] ? res[at[k] - 1].allocs : 0; Q y(x); if (at[k] && !m[k].empty()) { CHECK(res[at[k] - 1].allocs > before, "resource-of-copy", "the copy does not use the memory resource of its source"); } q[k].reset(); q[k].emplace(y); copied = true; } break; }
                case 5: { c.note("%zu: assigned by move from %zu", k, o); x = std::move(*q[o]); m[k] = std::move(m[o]); q[o]->clear(); m[o].clear(); copied = true; break; }
                case 6: { c.note("%zu: moved into a new one", k); Q y(std::move(x)); q[k].reset(); q[k].emplace(std::move(y)); copied = true; break; }
                default: { c.note("swap"); std::swap(*q[0], *q[1]); std::swap(m[0], m[1]); copied = true; break; }
            }
            verify(k); verify(o);
        }
        for (size_t k = 0; k < 2; ++k) { while (!m[k].empty()) { CHECK(R::key(q[k]->top()) == next(m[k]), "order", "%d comes out instead of %d", R::key(q[k]->top()), next(m[k])); q[k]->pop(); if (Fifo) { m[k].pop_front(); } else { m[k].pop_back(); } } CHECK(q[k]->empty(), "size", "not empty after taking out everything"); }
    }
    if (put > 5 && taken > 1) { c.nontrivial(); }
    c.label("%s%s", taken ? "items taken out" : "nothing taken out", copied ? ", copied or moved" : "");
    for (auto& r : res) { CHECK(r.error.empty(), "resource", "%s", r.error.c_str()); CHECK(r.live.empty(), "leak", "%zu blocks are left in the memory resource", r.live.size()); }
}
// Large contents: counts beyond 8 and 16 bits, long streams through a small or large window.
template <template <class> class A, class T, bool Fifo>
static void large(Ctx& c) {
    using Q = A<T>; Q q; std::deque<uint32_t> m; uint32_t n = 0; size_t taken = 0, peak = 0;
    auto next = [&]() -> uint32_t { return Fifo ? m.front() : m.back(); };
    auto look = [&](const char* what) { CHECK(q.size() == m.size() && q.empty() == m.empty(), "size", "%s: %zu items are reported instead of %zu", what, q.size(), m.size()); if (!m.empty()) { CHECK(static_cast<uint32_t>(q.top()) == next() && static_cast<uint32_t>(q.front()) == next(), "top", "%s: the top of %zu items is %u instead of %u", what, m.size(), static_cast<unsigned>(q.top()), next()); } };
    const size_t steps = 2 + c.draw(8); const size_t most = c.one<size_t>({600, 5000, 70000});
    for (size_t t = 0; t < steps; ++t) {
        switch (c.pick({5, 4, 1, 1, 1, 2})) {
            case 0: { const size_t k = 1 + c.draw(most); c.note("push %zu", k); for (size_t i = 0; i < k; ++i) { ++n; m.push_back(static_cast<uint32_t>(static_cast<T>(n))); q.push(static_cast<T>(n)); } look("push"); break; }
            case 1: { const size_t k = std::min(m.size(), static_cast<size_t>(1 + c.draw(most))); c.note("pop %zu", k); for (size_t i = 0; i < k; ++i) { look("pop"); q.pop(); if (Fifo) { m.pop_front(); } else { m.pop_back(); } ++taken; } look("popped"); break; }
            case 2: { c.note("copied"); Q z(q); q.clear(); CHECK(q.empty(), "size", "not empty after clearing"); if (c.chance(1, 2)) { q = z; } else { q = std::move(z); } look("copy"); break; }
            case 3: { c.note("clear"); q.clear(); m.clear(); look("clear"); break; }
            case 4: { size_t i = 0; for (auto x : q) { CHECK(i < m.size() && static_cast<uint32_t>(x) == m[i], "iteration", "iteration gives another item at %zu", i); ++i; } CHECK(i == m.size(), "iteration", "iteration visits %zu items of %zu", i, m.size()); break; }
            default: { const size_t k = 1 + c.draw(most), w = c.draw(40); c.note("%zu through a window of %zu", k, w); for (size_t i = 0; i < k; ++i) { ++n; m.push_back(static_cast<uint32_t>(static_cast<T>(n))); q.push(static_cast<T>(n)); if (i >= w) { look("stream"); q.pop(); if (Fifo) { m.pop_front(); } else { m.pop_back(); } ++taken; } } break; }
        }
        peak = std::max(peak, m.size());
    }
    while (!m.empty()) { look("at the end"); q.pop(); if (Fifo) { m.pop_front(); } else { m.pop_back(); } }
    CHECK(q.empty() && q.size() == 0, "size", "not empty after taking out everything");
    if (peak > 300 && taken > 100) { c.nontrivial(); } c.label("large: up to %s items", peak > 65536 ? "more than 65536" : peak > 256 ? "65536" : "256");
}
namespace pbt {
const char* harness_rule() { return "A case is a history of up to 60 operations (bursts of up to 70 items) over two stacks or two queues, six item types and three memory resources; after each, every observer is compared with a plain sequence, and at the end everything is taken out; or (the large- targets) up to 9 bursts of up to 70000 items over one. Non-trivial: more than five items put in and more than one taken out; more than 300 held at once and 100 taken out."; }
#define E(T) {"stack-" #T, one<chdr::stack, T, false>, 10000, 500000}, {"queue-" #T, one<chdr::queue, T, true>, 10000, 500000},
#define L(T) {"large-stack-" #T, large<chdr::stack, T, false>, 60, 3000}, {"large-queue-" #T, large<chdr::queue, T, true>, 60, 3000},
using string = std::string; using move_only = std::unique_ptr<int>;
std::vector<Target> harness_targets() { return { E(int) E(char) E(Pair) E(string) E(move_only) E(Wide) L(int) L(uint16_t) L(size_t) }; }
std::vector<std::string> harness_assumptions() { return {"one that was moved from is cleared or destroyed next"}; }
}
