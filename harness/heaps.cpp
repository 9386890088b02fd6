// C01: the heap against a multiset model, over generated histories.
#define HEAP_SUPPRESS_EXCEPTION_WARNING
#include <chdr.hpp>
#include "pbt.hpp"
#include "env.hpp"
#include <algorithm>
#include <map>
#include <memory>
#include <optional>
#include <string>
#include <vector>
using pbt::Ctx;

// Item types; `key` is what the order looks at, `id` tells items of equal key apart.
struct Keyed { int k = -1000; int id = -1; };
struct ByKey { bool operator()(const Keyed& a, const Keyed& b) const { return a.k < b.k; } };
struct ByKeyDown { bool operator()(const Keyed& a, const Keyed& b) const { return a.k > b.k; } };
struct ByPtr { bool operator()(const std::unique_ptr<Keyed>& a, const std::unique_ptr<Keyed>& b) const { return a->k < b->k; } };
struct ByRaw { bool operator()(const Keyed* a, const Keyed* b) const { return a->k < b->k; } };
template <class T> struct Tr;
template <> struct Tr<Keyed> { static Keyed make(int k, int id) { return {k, id}; } static int k(const Keyed& x) { return x.k; } static int id(const Keyed& x) { return x.id; } static void set(Keyed& x, int k) { x.k = k; } };
template <> struct Tr<int> { static int make(int k, int) { return k; } static int k(const int& x) { return x; } static int id(const int&) { return 0; } static void set(int& x, int k) { x = k; } };
template <> struct Tr<std::string> { static std::string make(int k, int) { return std::string(20, 'x') + pbt::fmt("%06d", k + 1000); } static int k(const std::string& x) { return x.size() < 26 ? -9999 : atoi(x.c_str() + 20) - 1000; } static int id(const std::string&) { return 0; } static void set(std::string& x, int k) { x = make(k, 0); } };
template <> struct Tr<std::unique_ptr<Keyed>> { using P = std::unique_ptr<Keyed>; static P make(int k, int id) { return P(new Keyed{k, id}); } static int k(const P& x) { return x ? x->k : -9999; } static int id(const P& x) { return x ? x->id : -9999; } static void set(P& x, int k) { x->k = k; } };
template <> struct Tr<Keyed*> { static inline std::vector<std::unique_ptr<Keyed>> own; static Keyed* make(int k, int id) { own.push_back(std::make_unique<Keyed>(Keyed{k, id})); return own.back().get(); } static int k(Keyed* x) { return x->k; } static int id(Keyed* x) { return x->id; } static void set(Keyed*& x, int k) { x->k = k; } };

template <class T, class Cmp, size_t Kd, bool Down>
static void one(Ctx& c) {
    using H = chdr::heap<T, Cmp, std::pmr::vector<T>, Kd>; using R = Tr<T>; constexpr bool copyable = std::is_copy_constructible_v<T>; constexpr bool shared = std::is_pointer_v<T>;
    if constexpr (shared) { R::own.clear(); }
    sv::audit_resource res[2];
    auto resource = [&](uint64_t k) -> std::pmr::memory_resource* { return k == 0 ? std::pmr::get_default_resource() : &res[k - 1]; };
    const auto where = c.draw(3); const int keys = c.one<int>({2, 4, 12, 200});
    auto key = [&] { return static_cast<int>(c.draw(keys)); };
    int next_id = 0; auto make = [&](int k) { return R::make(k, next_id++); };
    auto before = [](int a, int b) { return Down ? a > b : a < b; };       // item of key b precedes item of key a
    {
    std::optional<H> h[2]; using M = std::vector<std::pair<int, int>>; M m[2]; uint64_t at[2]; size_t raw[2] = {0, 0};   // raw: unsorted items at the end
    auto put = [&](size_t k, const T& x) { m[k].emplace_back(R::k(x), R::id(x)); };
    auto take = [&](M& v, std::pair<int, int> x, const char* what) { auto f = std::find(v.begin(), v.end(), x); CHECK(f != v.end(), "invented", "%s gives an item of key %d (number %d), which is not in the heap", what, x.first, x.second); v.erase(f); };
    auto of = [](const T& x) { return std::make_pair(R::k(x), R::id(x)); };
    auto drain = [&](H& x, M v, const char* what, uint64_t how) {
        while (!x.empty()) {
            CHECK(x.size() == v.size(), "size", "%s: %zu items left instead of %zu", what, x.size(), v.size());
            const auto t = of(x.top()); for (auto& y : v) { CHECK(!before(t.first, y.first), "order", "%s: the top has key %d although an item of key %d is there", what, t.first, y.first); }
            if (how == 0) { x.pop(); take(v, t, what); } else { auto y = x.dequeue(); CHECK(of(y) == t, "dequeue", "%s: dequeue gives key %d instead of the top, key %d", what, R::k(y), t.first); take(v, t, what); }
        }
        CHECK(v.empty(), "lost", "%s: the heap is empty although %zu items were not taken out", what, v.size());
    };
    auto verify = [&](size_t k) {
        H& x = *h[k]; const H& y = x; M v = m[k]; std::sort(v.begin(), v.end());
        CHECK(y.size() == v.size() && y.empty() == v.empty(), "size", "heap %zu has %zu items instead of %zu", k, y.size(), v.size());
        auto same = [&](auto b, auto e, const char* what) { M g; for (; b != e; ++b) { g.push_back(of(*b)); CHECK(g.size() <= v.size(), "iteration", "%s of heap %zu visits more than its %zu items", what, k, v.size()); } std::sort(g.begin(), g.end()); CHECK(g == v, "contents", "%s of heap %zu does not visit the items put in and not taken out", what, k); };
        same(y.begin(), y.end(), "iteration"); same(x.begin(), x.end(), "mutable iteration"); same(y.rbegin(), y.rend(), "reverse iteration"); same(y.cbegin(), y.cend(), "constant iteration"); same(y.crbegin(), y.crend(), "constant reverse iteration"); same(x.rbegin(), x.rend(), "mutable reverse iteration");
        size_t i = 0; for (auto& z : y) { CHECK(of(y.at(i)) == of(z) && of(y[i]) == of(z), "index", "item %zu of heap %zu is not the one iteration visits", i, k); ++i; }
        if (v.empty()) { return; }
        CHECK(&x.back() == &*(x.end() - 1) && &y.back() == &*(y.end() - 1), "back", "the back of heap %zu is not its last item", k);
        CHECK(&x.top() == &x.front() && &y.top() == &y.front() && of(y.top()) == of(*y.begin()), "front", "front and top of heap %zu differ", k);
        if (raw[k] == 0) {
            const auto t = of(y.top()); CHECK(std::find(v.begin(), v.end(), t) != v.end(), "invented", "the top of heap %zu has key %d (number %d), which is not in the heap", k, t.first, t.second);
            for (auto& z : v) { CHECK(!before(t.first, z.first), "order", "the top of heap %zu has key %d although an item of key %d is there", k, t.first, z.first); }
            if constexpr (copyable) { if (c.chance(1, 4)) { H z(y); drain(z, m[k], "a copy", c.draw(2)); } }
        }
    };
    for (size_t k = 0; k < 2; ++k) {
        at[k] = where == 2 ? k + 1 : where;
        switch (c.draw(4)) {
            case 0:  h[k].emplace(resource(at[k])); break;
            case 1:  h[k].emplace(static_cast<size_t>(c.draw(20)), resource(at[k])); break;
            default: {
                std::pmr::vector<T> v(resource(at[k])); const auto n = c.draw(24); for (size_t i = 0; i < n; ++i) { v.push_back(make(key())); put(k, v.back()); }
                if (c.describing) { std::string s; for (auto& x : v) { s += pbt::fmt(" %d", R::k(x)); } c.note("heap %zu made from%s", k, s.c_str()); }
                if constexpr (copyable) { if (c.chance(1, 2)) { const auto& w = v; h[k].emplace(w); } else { h[k].emplace(std::move(v)); } }
                else { h[k].emplace(std::move(v)); }
            }
        }
        verify(k);
    }
    const size_t steps = 1 + c.draw(40); size_t inserts = 0, removals = 0, special = 0;
    for (size_t t = 0; t < steps; ++t) {
        const size_t k = c.draw(2), o = 1 - k; H& x = *h[k];
        auto sorted = [&](size_t q) { if (raw[q] == 0) { return; } c.note("%zu: sort up the last %zu", q, raw[q]); H& z = *h[q]; for (size_t i = z.size() - raw[q]; i < z.size(); ++i) { z.sort_up(z.at(i)); } raw[q] = 0; };
        const auto op = c.pick({20, 8, 8, 6, 6, 5, 5, 4, 2, 2, 2, 2, 1, 3, 1, 3});
        if (op > 1 && op != 7) { sorted(k); }
        switch (op) {
            case 0: { const int q = key(); const auto how = c.draw(copyable ? 5 : 3); c.note("%zu: push key %d (way %llu)", k, q, static_cast<unsigned long long>(how)); sorted(k);
                T v = make(q); put(k, v); ++inserts;
                switch (how) { case 0: x.push(std::move(v)); break; case 1: x.emplace(std::move(v)); break; case 2: x.enqueue(std::move(v)); break; default: if constexpr (copyable) { const T& w = v; if (how == 3) { x.push(w); } else { x.enqueue(w); } } }
                break; }
            case 1: { const int q = key(); const auto how = c.draw(copyable ? 5 : 3); c.note("%zu: push key %d unsorted (way %llu)", k, q, static_cast<unsigned long long>(how)); T v = make(q); put(k, v); ++inserts; ++raw[k]; ++special;
                switch (how) { case 0: x.push_nosort(std::move(v)); break; case 1: x.emplace_nosort(std::move(v)); break; case 2: x.enqueue_nosort(std::move(v)); break; default: if constexpr (copyable) { const T& w = v; if (how == 3) { x.push_nosort(w); } else { x.enqueue_nosort(w); } } }
                break; }
            case 2: { if (x.empty()) { break; } const auto y = of(x.top()); c.note("%zu: pop", k); x.pop(); take(m[k], y, "pop"); ++removals; break; }
            case 3: { if (x.empty()) { break; } const auto y = of(x.top()); c.note("%zu: dequeue", k); T v = x.dequeue(); CHECK(of(v) == y, "dequeue", "dequeue gives key %d instead of the top, key %d", R::k(v), y.first); take(m[k], y, "dequeue"); ++removals; break; }
            case 4: { if (x.empty()) { break; } const auto i = c.draw(x.size()); const T& y = x.at(i); const auto z = of(y); c.note("%zu: erase item %llu, key %d", k, static_cast<unsigned long long>(i), z.first); x.erase(y); take(m[k], z, "erase"); ++removals; ++special; break; }
            case 5: { if (x.empty()) { break; } const auto i = c.draw(x.size()); const auto z = of(x.at(i)); c.note("%zu: erase at iterator %llu, key %d", k, static_cast<unsigned long long>(i), z.first); auto it = x.erase(x.begin() + static_cast<ptrdiff_t>(i)); take(m[k], z, "erase"); CHECK(it >= x.begin() && it <= x.end(), "erase", "erase returns an iterator outside the heap"); ++removals; ++special; break; }
            case 6: { if (x.empty()) { break; } const auto i = c.draw(x.size()); const T& y = x.at(i); const int was = R::k(y), now = key(); c.note("%zu: key of item %llu changed from %d to %d", k, static_cast<unsigned long long>(i), was, now); if (shared) { break; }
                take(m[k], of(y), "change"); R::set(*(x.begin() + static_cast<ptrdiff_t>(i)), now); put(k, y); if (before(was, now)) { x.sort_up(y); } else { x.sort_down(y); } ++special; break; }
            case 7: { if (x.empty()) { break; } const auto y = of(x.back()); c.note("%zu: pop back", k); x.pop_back(); take(m[k], y, "pop_back"); if (raw[k]) { --raw[k]; } ++removals; break; }
            case 8: { c.note("%zu: clear", k); x.clear(); m[k].clear(); break; }
            case 9: { sorted(o); if (where == 2) { break; } c.note("swap"); x.swap(*h[o]); std::swap(m[0], m[1]); std::swap(raw[0], raw[1]); break; }
            case 10: { if (k == c.draw(2)) { c.note("%zu: moved to itself by way of another", k); H y(std::move(x)); h[k].emplace(std::move(y)); } else { sorted(o); c.note("%zu: assigned by move from %zu", k, o); x = std::move(*h[o]); m[k] = std::move(m[o]); h[o].emplace(resource(at[o])); m[o].clear(); } break; }
            case 11: { if constexpr (copyable) { sorted(o); c.note("%zu: assigned by copy from %zu", k, o); x = *h[o]; m[k] = m[o]; } break; }
            case 12: { c.note("%zu: reserve / shrink", k); if (c.chance(1, 2)) { x.reserve(x.size() + c.draw(30)); } else { x.shrink_to_fit(); } break; }
            case 13: { if constexpr (copyable) { const auto n = c.draw(8); std::vector<T> v; for (size_t i = 0; i < n; ++i) { v.push_back(make(key())); put(k, v.back()); } c.note("%zu: insert %llu items", k, static_cast<unsigned long long>(n)); x.insert(v.begin(), v.end()); inserts += n; ++special; } break; }
            case 14: { if (x.empty()) { break; } const auto a = c.draw(x.size() + 1), b = a + c.draw(x.size() - a + 1); c.note("%zu: erase items %llu to %llu", k, static_cast<unsigned long long>(a), static_cast<unsigned long long>(b)); for (auto i = a; i < b; ++i) { take(m[k], of(x.at(i)), "erase"); } x.erase(x.begin() + static_cast<ptrdiff_t>(a), x.begin() + static_cast<ptrdiff_t>(b)); ++special; break; }
            default: { const int q = key(); T v = make(q); put(k, v); const auto z = of(v); const auto i = c.draw(x.size() + 1); c.note("%zu: insert key %d at %llu", k, q, static_cast<unsigned long long>(i)); ++inserts; ++special;
                auto it = x.insert(x.begin() + static_cast<ptrdiff_t>(i), std::move(v)); CHECK(it >= x.begin() && it < x.end() && of(*it) == z, "insert", "insert does not return the inserted item"); break; }
        }
        verify(k); if (op >= 9 && op <= 11) { verify(o); }
        if (!m[k].empty() && raw[k] == 0) {
            T& y = *(x.begin() + static_cast<ptrdiff_t>(c.draw(x.size())));
            if constexpr (std::is_same_v<T, int>) { CHECK(x.contains(y), "contains", "an item of the heap counts as absent"); T copy = y; CHECK(!x.contains(copy), "contains", "an item that is not in the heap counts as present"); }
            if constexpr (std::is_same_v<T, int>) { const int q = key(); auto lo = x.lower_bounds(q), up = x.upper_bounds(q); bool l = false, u = false; for (auto& [a, b] : m[k]) { (void)b; l |= !before(a, q); u |= before(q, a); }
                CHECK((lo != x.end()) == l && (!l || !before(*lo, q)), "lower_bounds", "lower_bounds of %d", q); CHECK((up != x.end()) == u && (!u || before(q, *up)), "upper_bounds", "upper_bounds of %d", q); }
        }
    }
    for (size_t k = 0; k < 2; ++k) { H& x = *h[k]; for (size_t i = x.size() - raw[k]; i < x.size(); ++i) { x.sort_up(x.at(i)); } drain(x, m[k], "at the end", c.draw(2)); }
    if (inserts > 5 && removals > 1) { c.nontrivial(); }
    c.label("arity %zu, %s", Kd, special ? "with repairs" : "queue operations only");
    }
    for (auto& r : res) { CHECK(r.error.empty(), "resource", "%s", r.error.c_str()); CHECK(r.live.empty(), "leak", "%zu blocks are left in the memory resource", r.live.size()); }
}
// Large heaps: positions beyond 8 and 16 bits. The contents are expanded from one drawn number.
template <class Cmp, size_t Kd, bool Down>
static void large(Ctx& c) {
    using H = chdr::heap<int, Cmp, std::pmr::vector<int>, Kd>;
    const auto near = c.pick({2, 2, 1, 2}); const size_t n = near == 0 ? 240 + c.draw(40) : near == 1 ? 1000 + c.draw(9000) : near == 2 ? 65520 + c.draw(40) : 65600 + c.draw(40000);
    uint64_t s = c.draw(1U << 30); auto rnd = [&] { s += 0x9E3779B97F4A7C15ULL; uint64_t z = s; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; return z ^ (z >> 31); };
    const auto shape = c.draw(4); const int span = c.one<int>({1 << 20, 3, 1000}); size_t made = 0; auto key = [&] { ++made; return shape == 0 ? static_cast<int>(rnd() % span) : shape == 1 ? static_cast<int>(made) : shape == 2 ? -static_cast<int>(made) : static_cast<int>((made * 7919U) % span); };
    std::map<int, size_t> m; size_t count = 0; auto put = [&](int k) { ++m[k]; ++count; }; auto take = [&](int k, const char* what) { auto f = m.find(k); CHECK(f != m.end(), "invented", "%s gives an item of key %d, which is not in the heap", what, k); if (--f->second == 0) { m.erase(f); } --count; };
    auto first = [&] { return Down ? m.begin()->first : m.rbegin()->first; };
    const auto how = c.draw(4); c.note("%zu items (keys: kind %llu of %d), way %llu", n, static_cast<unsigned long long>(shape), span, static_cast<unsigned long long>(how));
    H h;
    if (how == 0) { for (size_t i = 0; i < n; ++i) { const int k = key(); put(k); h.push(k); } }
    else { std::pmr::vector<int> v; for (size_t i = 0; i < n; ++i) { v.push_back(key()); put(v.back()); }
        if (how == 1) { h = H(v); } else if (how == 2) { h.insert(v.begin(), v.end()); } else { for (int k : v) { h.push_nosort(k); } for (size_t i = 0; i < h.size(); ++i) { h.sort_up(h.at(i)); } } }
    auto top = [&](const char* what) { CHECK(h.size() == count && h.empty() == m.empty(), "size", "%s: the heap has %zu items instead of %zu", what, h.size(), count); if (count) { CHECK(h.top() == first(), "order", "%s: the top of %zu items has key %d instead of %d", what, count, h.top(), first()); } };
    top("made"); const size_t steps = c.draw(60); size_t repairs = 0;
    for (size_t t = 0; t < steps && count > 1; ++t) {
        const auto op = c.pick({3, 3, 2, 4, 2, 1}); const size_t i = static_cast<size_t>(rnd() % (c.chance(1, 3) ? std::min<size_t>(count, 70) : count));
        switch (op) {
            case 0: { const int k = key(); put(k); h.push(k); break; }
            case 1: { const auto many = std::min<size_t>(count, 1 + c.draw(30)); for (size_t q = 0; q < many; ++q) { top("pop"); take(h.top(), "pop"); h.pop(); } break; }
            case 2: { const int k = *(h.begin() + static_cast<ptrdiff_t>(i)); take(k, "erase"); auto it = h.erase(h.begin() + static_cast<ptrdiff_t>(i)); CHECK(it >= h.begin() && it <= h.end(), "erase", "erase returns an iterator outside the heap"); ++repairs; break; }
            case 3: { int& x = *(h.begin() + static_cast<ptrdiff_t>(i)); const int was = x, now = key(); c.note("key of item %zu changed from %d to %d", i, was, now); take(was, "change"); put(now); x = now; if (Down ? was > now : was < now) { h.sort_up(x); } else { h.sort_down(x); } ++repairs; break; }
            case 4: { const int k = h.at(i); take(k, "erase"); h.erase(h.at(i)); ++repairs; break; }
            default: { H z(h); h.clear(); CHECK(h.empty() && h.size() == 0, "clear", "not empty after clearing"); if (c.chance(1, 2)) { h = z; } else { h = std::move(z); } break; }
        }
        top("after an operation");
    }
    { std::map<int, size_t> g; for (int k : h) { ++g[k]; } CHECK(g == m, "contents", "iteration does not visit the items put in and not taken out"); }
    while (!m.empty()) { top("at the end"); take(h.dequeue(), "dequeue"); }
    CHECK(h.empty(), "size", "not empty after taking out everything");
    if (steps > 4) { c.nontrivial(); } c.label("large: %s%s", near == 0 ? "near 256" : near == 1 ? "thousands" : "around and above 65536", repairs ? ", with repairs" : "");
}
// A comparator with state of its own, which copies, moves and swaps have to carry along. It is given to the heap by a derived class.
struct Order { int64_t pivot = 0; bool operator()(int a, int b) const { const auto d = [this](int x) { const int64_t e = x - pivot; return e < 0 ? -e : e; }; return d(a) != d(b) ? d(a) > d(b) : a < b; } };  // the item nearest to the pivot comes first
template <size_t Kd> struct Around : chdr::heap<int, Order, std::pmr::vector<int>, Kd> { using base = chdr::heap<int, Order, std::pmr::vector<int>, Kd>; explicit Around(int pivot) { base::comp.pivot = pivot; } };
template <size_t Kd>
static void stateful(Ctx& c) {
    using H = Around<Kd>; struct Side { std::optional<H> h; std::vector<int> m; Order o; }; Side s[3]; size_t carried = 0;
    auto fresh = [&](Side& x) { const int p = static_cast<int>(c.draw(100)) - 50; x.h.emplace(p); x.o.pivot = p; x.m.clear(); };
    auto top = [&](Side& x, const char* what) { CHECK(x.h->size() == x.m.size(), "size", "%s: %zu items instead of %zu", what, x.h->size(), x.m.size()); if (!x.m.empty()) { const int best = *std::max_element(x.m.begin(), x.m.end(), x.o); CHECK(x.h->top() == best, "order", "%s: the top is %d instead of %d (pivot %d)", what, x.h->top(), best, static_cast<int>(x.o.pivot)); } };
    auto pop = [&](Side& x, const char* what) { top(x, what); if (!x.m.empty()) { x.m.erase(std::find(x.m.begin(), x.m.end(), x.h->top())); x.h->pop(); } };
    for (auto& x : s) { fresh(x); }
    const size_t steps = 5 + c.draw(60);
    for (size_t t = 0; t < steps; ++t) {
        Side &x = s[c.draw(3)], &y = s[c.draw(3)]; const auto op = c.pick({30, 8, 2, 3, 2, 3, 3, 1});
        switch (op) {
            case 0: { const int v = static_cast<int>(c.draw(200)) - 100; x.h->push(v); x.m.push_back(v); break; }
            case 1: pop(x, "pop"); break;
            case 2: { c.note("copy constructed"); H z(*y.h); if (&x != &y) { x.h.emplace(static_cast<const H&>(z)); x.m = y.m; x.o = y.o; } ++carried; break; }
            case 3: { c.note("assigned by copy"); const H& z = *y.h; *x.h = z; x.m = y.m; x.o = y.o; ++carried; break; }
            case 4: { c.note("move constructed"); H z(std::move(*y.h)); if (&x == &y) { x.h.emplace(std::move(z)); } else { x.h.emplace(std::move(z)); x.m = y.m; x.o = y.o; fresh(y); } ++carried; break; }
            case 5: { if (&x == &y) { break; } c.note("assigned by move"); *x.h = std::move(*y.h); x.m = y.m; x.o = y.o; fresh(y); ++carried; break; }
            case 6: { c.note("swapped"); x.h->swap(*y.h); std::swap(x.m, y.m); std::swap(x.o, y.o); ++carried; break; }
            default: { x.h->clear(); x.m.clear(); break; }
        }
        top(x, "after an operation"); top(y, "after an operation");
    }
    for (auto& x : s) { while (!x.m.empty()) { pop(x, "at the end"); } CHECK(x.h->empty(), "size", "not empty after taking out everything"); }
    if (carried > 1) { c.nontrivial(); } c.label("comparator with state, arity %zu", Kd);
}
namespace pbt {
const char* harness_rule() { return "A case is a history of up to 40 operations over two heaps (arity 2, 3, 4 or 7; five item types; three memory resources); after each, contents, size, top, iteration and indexing are compared with a multiset model, and copies and the final state are drained in order; or (the stateful- targets) up to 64 operations over three heaps whose comparators carry state; or (the large- targets) one heap of 240 to 105600 items and up to 60 operations, drained in order. Non-trivial: more than five insertions and more than one removal; more than four operations on a large heap; more than one copy, move or swap with a stateful comparator."; }
#define E(n, T, C, K, D) {n "-" #K, one<T, C, K, D>, 5000, 300000},
#define A(K) E("keyed", Keyed, ByKey, K, false) E("keyed-reversed", Keyed, ByKeyDown, K, true) E("int", int, std::less<int>, K, false) E("string", std::string, std::greater<std::string>, K, true) E("unique_ptr", std::unique_ptr<Keyed>, ByPtr, K, false) E("pointer", Keyed*, ByRaw, K, false)
#define L(K) {"large-" #K, large<std::less<int>, K, false>, 12, 400}, {"large-reversed-" #K, large<std::greater<int>, K, true>, 12, 400},
std::vector<Target> harness_targets() { return { A(2) A(3) A(4) A(7) L(2) L(4) L(5) L(9) L(17) {"stateful-2", stateful<2>, 4000, 200000}, {"stateful-3", stateful<3>, 2000, 200000}, {"stateful-4", stateful<4>, 2000, 200000} }; }
std::vector<std::string> harness_assumptions() { return {"heaps that are swapped use the same memory resource", "a heap moved from is assigned to or destroyed next", "unsorted items are sorted up in the order they were added before the heap is used as a queue"}; }
}
