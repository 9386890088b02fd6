// M02: coordinates and linear indices.
#include <chdr.hpp>
#include "pbt.hpp"
#include <array>
#include <vector>
using pbt::Ctx;
using u128 = unsigned __int128;
template <class V, size_t D> static std::string show(const chdr::coord<V, D>& u) { std::string s = "("; for (size_t i = 0; i < D; ++i) { s += (i ? "," : "") + std::to_string(u[i]); } return s + ")"; }
template <class V, size_t D> static u128 ref(const chdr::coord<V, D>& u, const chdr::coord<V, D>& s) { u128 r = 0; for (size_t k = D; k-- > 0;) { r = r * static_cast<u128>(s[k]) + static_cast<u128>(u[k]); } return r; }
template <class V, size_t D> static void check(Ctx& c, const chdr::coord<V, D>& u, const chdr::coord<V, D>& s) {
    const u128 want = ref<V, D>(u, s);
    const auto i = chdr::utils::to_1d(u, s);
    static_assert(std::is_same_v<std::decay_t<decltype(i)>, V>, "the index is of the coordinate's type");
    CHECK(static_cast<u128>(i) == want, "to_1d", "%s in %s has index %s, to_1d gives %s", show<V, D>(u).c_str(), show<V, D>(s).c_str(), std::to_string(static_cast<uint64_t>(want)).c_str(), std::to_string(i).c_str());
    const auto b = chdr::utils::to_nd(i, s);
    CHECK(b == u, "to_nd", "%s in %s has index %s, to_nd of it gives %s", show<V, D>(u).c_str(), show<V, D>(s).c_str(), std::to_string(i).c_str(), show<V, D>(b).c_str());
}
template <class V, size_t D> static void one(Ctx& c) {
    using C = chdr::coord<V, D>; C s{}; u128 n = 1; const u128 lim = static_cast<u128>(std::numeric_limits<V>::max());
    const bool small = c.chance(1, 3); u128 room = small ? std::min<u128>(3000, lim) : lim;
    const size_t first = c.draw(D);
    for (size_t k = 0; k < D; ++k) {
        const size_t a = (first + k) % D; uint64_t top = static_cast<uint64_t>(std::min<u128>(room, lim));
        uint64_t x;
        switch (c.draw(4)) {
            case 0:  x = 1 + c.draw(std::min<uint64_t>(top, 5)); break;
            case 1:  x = 1 + c.draw(std::min<uint64_t>(top, 70)); break;
            case 2:  x = 1 + c.draw(top); break;
            default: x = k + 1 == D ? top : 1 + c.bits() % top;                              // as much as there is room for
        }
        s[a] = static_cast<V>(x); n *= x; room /= x; if (room == 0) { room = 1; }
    }
    bool equal = true; for (auto x : s) { equal &= x == s[0]; }
    if (!equal) { c.nontrivial(); }
    c.label("rank %zu, %s", D, n <= 3000 ? "every cell" : n < (u128{1} << 31) ? "below 2^31" : n < (u128{1} << 32) ? "below 2^32" : "larger");
    c.note("rank %zu, %s coordinates of %zu bytes, size %s", D, std::is_signed_v<V> ? "signed" : "unsigned", sizeof(V), show<V, D>(s).c_str());
    if (n <= 3000) {
        C u{}; V want = 0;
        for (uint64_t i = 0; i < static_cast<uint64_t>(n); ++i, ++want) {
            check<V, D>(c, u, s); CHECK(chdr::utils::to_1d(u, s) == want, "order", "%s in %s is not number %s", show<V, D>(u).c_str(), show<V, D>(s).c_str(), std::to_string(want).c_str());
            for (size_t k = 0; k < D; ++k) { if (++u[k] < s[k]) { break; } u[k] = 0; }
        }
    }
    else {
        for (int t = 0; t < 12; ++t) { C u{}; for (size_t k = 0; k < D; ++k) { u[k] = static_cast<V>(c.chance(1, 4) ? 0 : c.chance(1, 3) ? static_cast<uint64_t>(s[k]) - 1 : c.draw(static_cast<uint64_t>(s[k]))); } c.note("cell %s", show<V, D>(u).c_str()); check<V, D>(c, u, s); }
    }
    // The product of the sizes, as the grid counts it.
    CHECK(static_cast<u128>(chdr::utils::product<size_t>(s)) == n, "product", "the product of %s is given as %zu", show<V, D>(s).c_str(), chdr::utils::product<size_t>(s));
}
using u32 = uint32_t; using u64 = size_t; using i32 = int32_t; using i64 = int64_t; using u16 = uint16_t; using u8 = uint8_t; using i16 = int16_t;
namespace pbt {
const char* harness_rule() { return "A case is one shape (rank 1-8, 8-bit to 64-bit coordinates, signed or not): every cell of it up to 3000 cells, otherwise twelve drawn cells; to_1d is compared with 128-bit arithmetic and to_nd with its inverse. Non-trivial: the sizes are not all equal."; }
#define E(V) {#V "-1", one<V, 1>, 3000, 300000}, {#V "-2", one<V, 2>, 12000, 1000000}, {#V "-3", one<V, 3>, 12000, 1000000}, {#V "-4", one<V, 4>, 12000, 1000000}, {#V "-5", one<V, 5>, 12000, 1000000}, {#V "-6", one<V, 6>, 6000, 500000}, {#V "-8", one<V, 8>, 6000, 500000},
std::vector<Target> harness_targets() { return { E(u32) E(u64) E(i32) E(i64) E(u16) E(i16) E(u8) }; }
std::vector<std::string> harness_assumptions() { return {"the product of the sizes is representable in the coordinate type"}; }
}
