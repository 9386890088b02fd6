// M01: grids against a model. M02 shares the shapes (see shapes.cpp).
#include <chdr.hpp>
#include "pbt.hpp"
#include <algorithm>
#include <array>
#include <cmath>
#include <vector>
using pbt::Ctx;

template <class V, size_t D> static std::string show(const chdr::coord<V, D>& u) { std::string s = "("; for (size_t i = 0; i < D; ++i) { s += (i ? "," : "") + std::to_string(u[i]); } return s + ")"; }

template <class W, class V, size_t D, bool Large = false>
static void one(Ctx& c) {
    using C = chdr::coord<V, D>; using G = chdr::mazes::grid<C, W>;
    // Sizes
    C size{}; size_t n = 1;
    if constexpr (Large) {                                   // more than 65536 cells, all along one axis or spread
        size_t room = 65537 + c.draw(30000); const size_t first = c.draw(D), even = 2 + static_cast<size_t>(std::pow(double(room), 1.0 / D)); const bool flat = c.chance(1, 3);
        for (size_t k = 0; k < D; ++k) { const size_t a = (first + k) % D, s = k + 1 == D ? room : flat ? 1 + c.draw(3) : std::min(room, even / 2 + c.draw(even)); size[a] = static_cast<V>(s); n *= s; room = (room + s - 1) / s; } }
    else { size_t room = D <= 3 ? 120 : D == 4 ? 90 : 60; const size_t first = c.draw(D);
        for (size_t k = 0; k < D; ++k) { const size_t a = (first + k) % D; const size_t s = 1 + c.draw(std::max<size_t>(1, std::min<size_t>(room, k == 0 && c.chance(1, 4) ? room : 6))); size[a] = static_cast<V>(s); n *= s; room = std::max<size_t>(1, room / s); } }
    // Content
    constexpr auto wall = std::numeric_limits<W>::max();
    std::vector<W> w(n); const auto kind = c.draw(4);
    uint64_t seed = Large ? 1 + c.draw(1U << 30) : 0; auto mix = [&](uint64_t k) { seed += 0x9E3779B97F4A7C15ULL; uint64_t z = seed; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; return (z ^ (z >> 31)) % k; };
    if constexpr (Large) { for (size_t i = 0; i < n; ++i) { const bool closed = kind != 0 && mix(4) < kind; if constexpr (std::is_same_v<W, bool>) { w[i] = closed; } else { w[i] = closed ? wall : static_cast<W>(mix(120)); } } }
    else { for (size_t i = 0; i < n; ++i) {
        if constexpr (std::is_same_v<W, bool>) { w[i] = kind == 0 ? false : kind == 3 ? !c.chance(1, 4) : c.chance(1, 3); }
        else { w[i] = kind == 0 ? W(0) : c.chance(kind == 3 ? 3 : 1, 4) ? wall : c.chance(1, 3) ? static_cast<W>(wall - 1) : c.chance(1, 3) ? std::numeric_limits<W>::min() : static_cast<W>(c.draw(120)); }
    } }
    const auto how = c.draw(5);
    c.note("rank %zu size %s weight type of %zu bytes%s coordinates of %zu bytes, built by way %llu", D, show<V, D>(size).c_str(), sizeof(W), std::is_same_v<W, bool> ? " (bits)" : std::is_signed_v<W> ? " (signed)" : "", sizeof(V), static_cast<unsigned long long>(how));
    if (c.describing && !Large) { std::string s; for (size_t i = 0; i < n; ++i) { s += (i ? " " : "") + std::to_string(static_cast<long long>(w[i])); } c.note("weights %s", s.c_str()); }
    auto make = [&]() -> G {
        switch (how) {
            case 0:  return G(size, w);
            case 1:  { auto t = w; return G(size, std::move(t)); }
            case 2:  { G g(size); g.nodes(w); return g; }
            case 3:  { C other{}; for (auto& x : other) { x = 1; } G g(other); G h(size, w); g = std::move(h); return g; }
            default: { G h(size, w); G g(std::move(h)); return g; }
        }
    };
    if (c.chance(1, 10)) {                                   // a grid without content is all active
        const G g(size); CHECK(g.count() == n, "count", "an empty grid counts %zu cells instead of %zu", g.count(), n);
        for (size_t i = 0; i < n; ++i) { CHECK(g[i].is_active(), "default-active", "cell %zu of a grid without content is not active", i); }
    }
    const G g = make();
    auto on   = [&](size_t i) { return w[i] != wall; };
    auto idx  = [&](const C& u) { size_t r = 0; for (size_t k = D; k-- > 0;) { r = r * static_cast<size_t>(size[k]) + static_cast<size_t>(u[k]); } return r; };
    auto cell = [&](size_t i) { C u{}; for (size_t k = 0; k < D; ++k) { u[k] = static_cast<V>(i % static_cast<size_t>(size[k])); i /= static_cast<size_t>(size[k]); } return u; };
    auto in   = [&](const C& u) { for (size_t k = 0; k < D; ++k) { if (!(u[k] < size[k])) { return false; } } return true; };
    CHECK(g.size() == size, "size", "the size is reported as %s", show<V, D>(g.size()).c_str());
    CHECK(g.count() == n, "count", "%zu cells are counted instead of %zu", g.count(), n);
    CHECK(g.nodes() == w, "nodes", "the nodes are not those given");
    CHECK(std::equal(g.begin(), g.end(), w.begin(), w.end()) && std::equal(g.cbegin(), g.cend(), w.begin(), w.end()), "iteration", "iteration differs from the nodes given");
    CHECK(std::equal(g.rbegin(), g.rend(), w.rbegin(), w.rend()) && std::equal(g.crbegin(), g.crend(), w.rbegin(), w.rend()), "reverse-iteration", "reverse iteration differs from the nodes given");
    size_t walls = 0; for (size_t i = 0; i < n; ++i) { walls += !on(i); }
    if (walls > 0 && walls < n && n > 3) { c.nontrivial(); }
    c.label("rank %zu, %s", D, walls == 0 ? "all active" : walls == n ? "none active" : "mixed");
    // Indices outside
    for (uint64_t x : {uint64_t(n), uint64_t(n) + c.draw(50), c.bits()}) { if (x < n) { continue; }
        CHECK(!g.contains(static_cast<size_t>(x)), "contains-index", "index %llu counts as contained among %zu cells", static_cast<unsigned long long>(x), n);
        if (x <= std::numeric_limits<V>::max()) { CHECK(!g.contains(static_cast<V>(x)), "contains-index", "index %llu counts as contained among %zu cells", static_cast<unsigned long long>(x), n); } }
    for (int t = 0; t < 3; ++t) { C u = cell(c.draw(n)); const auto k = c.draw(D); u[k] = c.chance(1, 2) ? static_cast<V>(size[k] + static_cast<V>(c.draw(3))) : static_cast<V>(0) - static_cast<V>(1 + c.draw(2)); CHECK(g.contains(u) == in(u), "contains-coordinate", "%s counts as %scontained", show<V, D>(u).c_str(), in(u) ? "not " : ""); }
    const size_t look = Large ? 200 : n <= 24 || D <= 3 ? n : 24;          // cells looked at
    size_t pow3 = 1; for (size_t k = 0; k < D; ++k) { pow3 *= 3; }
    for (size_t t = 0; t < look; ++t) {
        const size_t i = look == n ? t : Large && t % 4 == 0 ? (t % 8 == 0 ? std::min(n - 1, 65536 + t / 8) : n - 1 - t / 4) : c.draw(n); const C u = cell(i);
        CHECK(g.contains(u) && g.contains(i) && g.contains(static_cast<V>(i)), "contains", "cell %zu %s does not count as contained", i, show<V, D>(u).c_str());
        CHECK(g[u].is_active() == on(i) && g[i].is_active() == on(i) && g[static_cast<V>(i)].is_active() == on(i), "activity", "cell %zu %s is reported %sactive", i, show<V, D>(u).c_str(), on(i) ? "in" : "");
        CHECK(g[u].value() == w[i] && g[i].value() == w[i], "weight", "cell %zu %s is reported with another weight", i, show<V, D>(u).c_str());
        // Neighbourhoods
        std::vector<size_t> axis, diag;
        for (size_t k = 0; k < D; ++k) { if (u[k] > 0) { C d = u; --d[k]; if (on(idx(d))) { axis.push_back(idx(d)); } } if (u[k] + 1 < size[k]) { C d = u; ++d[k]; if (on(idx(d))) { axis.push_back(idx(d)); } } }
        for (size_t m = 0; m < pow3; ++m) {
            C d = u, dir{}; size_t r = m; bool ok = true, self = true;
            for (size_t k = 0; k < D; ++k) { const auto x = r % 3; r /= 3; dir[k] = static_cast<V>(x); if (x != 1) { self = false; } if (x == 0) { if (u[k] == 0) { ok = false; } d[k] = u[k] - 1; } if (x == 2) { if (u[k] + 1 >= size[k]) { ok = false; } d[k] = u[k] + 1; } }
            const bool want = ok && on(idx(d));
            if (want && !self) { diag.push_back(idx(d)); }
            if (D <= 4 || (m + i) % 8 == 0) { const auto got = g.check_neighbour(u, dir); CHECK(got.first == want && (!want || got.second == d), "check_neighbour", "from %s in direction %s: reported %sactive at %s", show<V, D>(u).c_str(), show<V, D>(dir).c_str(), got.first ? "" : "not ", show<V, D>(got.second).c_str()); }
        }
        std::sort(axis.begin(), axis.end()); std::sort(diag.begin(), diag.end());
        auto same = [&](const auto& nb, const std::vector<size_t>& want, const char* what) {
            std::vector<size_t> got; for (auto& [a, x] : nb) { if (a) { CHECK(in(x), "neighbour-outside", "%s of %s list %s, which is outside", what, show<V, D>(u).c_str(), show<V, D>(x).c_str()); got.push_back(idx(x)); } }
            std::sort(got.begin(), got.end());
            CHECK(got == want, "neighbours", "%s of cell %zu %s: %zu listed, %zu expected", what, i, show<V, D>(u).c_str(), got.size(), want.size());
        };
        same(g.get_neighbours(u), axis, "axis neighbours"); same(g.template get_neighbours<false>(static_cast<V>(i)), axis, "axis neighbours by index");
        if (D <= 4 || t < 6) { same(g.template get_neighbours<true>(u), diag, "diagonal neighbours"); same(g.template get_neighbours<true>(static_cast<V>(i)), diag, "diagonal neighbours by index"); }
        CHECK(g.is_transitory(i) == (axis.size() == 2), "transitory", "cell %zu with %zu neighbours is reported %stransitory", i, axis.size(), axis.size() == 2 ? "not " : "");
        CHECK(g.is_transitory(g.get_neighbours(u)) == (axis.size() == 2), "transitory", "neighbourhood of %zu cells is reported %stransitory", axis.size(), axis.size() == 2 ? "not " : "");
    }
}
using u8 = uint8_t; using u16 = uint16_t; using u32 = uint32_t; using u64 = size_t; using i8 = int8_t; using i16 = int16_t; using i32 = int32_t; using i64 = int64_t;
namespace pbt {
const char* harness_rule() { return "A case is one grid (rank 1-5, several weight and coordinate types, built in one of five ways) with generated size and content; every public observation is compared with a model, at every cell (at 24 drawn cells of larger ones of rank 4 and up); the large- targets take grids of more than 65536 cells, looked at in 200 cells. Non-trivial: active and inactive cells are mixed, and there are more than three."; }
#define E(W, V, D, n) {#W "-" #V "-" #D, one<W, V, D>, n * 1000, n * 30000},
#define L(W, V, D) {"large-" #W "-" #V "-" #D, one<W, V, D, true>, 40, 3000},
std::vector<Target> harness_targets() { return {
#include "grid_types.inc"
L(u8, u32, 1) L(bool, u64, 1) L(u8, u32, 2) L(bool, u32, 2) L(bool, u64, 3) L(u16, u32, 3) L(bool, u32, 4) L(char, u64, 4) L(bool, u32, 5) }; }
std::vector<std::string> harness_assumptions() { return {"coordinates are of unsigned 32-bit or 64-bit type", "sizes are at least one in every axis; up to 120 cells, or 65537 to about 200000"}; }
}
