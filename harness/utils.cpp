// U01-U03: distances, arithmetic helpers and formatting, over generated arguments, against their definitions.
#include <chdr.hpp>
#include "pbt.hpp"
#include <array>
#include <cmath>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <limits>
#include <map>
#include <queue>
#include <string>
#include <vector>
using pbt::Ctx;
using LD = long double;
using H = chdr::heuristics; using U = chdr::utils;
// An argument of type T: small, anywhere, near a power of two or near the ends of the type.
template <class T> static T arg(Ctx& c, bool non_negative = false) {
    if constexpr (std::is_floating_point_v<T>) {
        T v; switch (c.draw(5)) { case 0: v = static_cast<T>(c.draw(16)); break; case 1: v = static_cast<T>(c.draw(1000001)) / static_cast<T>(997); break; case 2: v = static_cast<T>(c.draw(1U << 24)) * static_cast<T>(1024); break; case 3: v = std::ldexp(static_cast<T>(1 + c.draw(1U << 20)), static_cast<int>(c.range(-60, 20))); break; default: v = static_cast<T>(c.draw(8)) / 4; }
        return !non_negative && c.chance(1, 3) ? -v : v;
    }
    else {
        using N = std::make_unsigned_t<T>; constexpr int bits = sizeof(T) * 8; N v;
        switch (c.draw(5)) { case 0: v = static_cast<N>(c.draw(16)); break; case 1: v = static_cast<N>(c.draw(200)); break; case 2: v = static_cast<N>(c.bits()); break;
            case 3: v = static_cast<N>((N{1} << c.draw(bits)) + static_cast<N>(c.range(-2, 2))); break; default: v = static_cast<N>(static_cast<N>(std::numeric_limits<T>::max()) - static_cast<N>(c.draw(3))); }
        T r; memcpy(&r, &v, sizeof r);
        if (std::is_signed_v<T>) { if (c.chance(1, 3)) { r = static_cast<T>(~r); } if (non_negative && r < 0) { r = static_cast<T>(~r); } }
        return r;
    }
}
template <class T> static std::string show(T v) { if constexpr (std::is_floating_point_v<T>) { return pbt::fmt("%.21Lg", static_cast<LD>(v)); } else if constexpr (std::is_signed_v<T>) { return pbt::fmt("%lld", static_cast<long long>(v)); } else { return pbt::fmt("%llu", static_cast<unsigned long long>(v)); } }
template <class T> static const char* name() { if constexpr (std::is_same_v<T, float>) { return "float"; } else if constexpr (std::is_same_v<T, double>) { return "double"; } else if constexpr (std::is_same_v<T, LD>) { return "long double"; } else if constexpr (std::is_signed_v<T>) { return sizeof(T) == 1 ? "int8" : sizeof(T) == 2 ? "int16" : sizeof(T) == 4 ? "int32" : "int64"; } else { return sizeof(T) == 1 ? "uint8" : sizeof(T) == 2 ? "uint16" : sizeof(T) == 4 ? "uint32" : "uint64"; } }

#if PROP == 1
template <class T> static T near_by(T a, uint64_t d) { if constexpr (std::is_integral_v<T>) { return a > static_cast<T>(std::numeric_limits<T>::max() - static_cast<T>(d)) ? a : static_cast<T>(a + static_cast<T>(d)); } else { return a; } }
template <class T> static LD gap(T a, T b) { if constexpr (std::is_floating_point_v<T>) { return static_cast<LD>(a < b ? b - a : a - b); } else { const __int128 d = static_cast<__int128>(a) - static_cast<__int128>(b); return static_cast<LD>(static_cast<unsigned __int128>(d < 0 ? -d : d)); } }
template <class S> static bool close(LD want, S have, LD scale, int n) { if constexpr (std::is_integral_v<S>) { return static_cast<LD>(have) == want; } else { return std::fabs(static_cast<LD>(have) - want) <= scale * static_cast<LD>(std::numeric_limits<S>::epsilon()) * (n + 4) + std::numeric_limits<S>::min() * 4; } }
template <class T, size_t K, class S> static void distances(Ctx& c) {
    using C = std::array<T, K>; constexpr bool whole = std::is_integral_v<S>; const LD most = static_cast<LD>(std::numeric_limits<S>::max());
    C a{}, b{}; const bool equal = c.chance(1, 12), near = c.chance(1, 3); for (size_t i = 0; i < K; ++i) { a[i] = arg<T>(c); b[i] = equal ? a[i] : near && std::is_integral_v<T> ? near_by(a[i], c.draw(7)) : arg<T>(c); }
    std::string sa, sb; for (size_t i = 0; i < K; ++i) { sa += show(a[i]) + " "; sb += show(b[i]) + " "; } c.note("coordinates of %s, scalar %s: (%s) (%s)", name<T>(), name<S>(), sa.c_str(), sb.c_str());
    LD sum = 0, sq = 0, major = 0, minor = 0, can = 0; size_t differ = 0; bool wide = false;
    for (size_t i = 0; i < K; ++i) { const LD d = gap(a[i], b[i]); sum += d; sq += d * d; if (d > major) { minor = major; major = d; } else if (d > minor) { minor = d; } const LD den = gap(a[i], T{0}) + gap(b[i], T{0}); if (den != 0) { can += d / den; } differ += d != 0; wide |= d > 2147483647.0L; }
    if (differ > 0) { c.nontrivial(); } c.label("%s", wide ? "beyond 31 bits" : differ == 0 ? "equal" : "within 31 bits");
    const bool fits_sq = whole ? sq <= most && sq < 18446744073709551616.0L : sq < most / 16;
    auto check = [&](const char* what, LD want, auto f, bool metric) {
        const S v = f(a, b), w = f(b, a);
        CHECK(close(want, v, std::fabs(want), static_cast<int>(K)), what, "the distance is %s instead of %s", show(v).c_str(), show(want).c_str());
        CHECK(v == w, what, "the distance is %s one way and %s the other", show(v).c_str(), show(w).c_str());
        if (metric) { CHECK((v == 0) == (differ == 0) || (!whole && want < static_cast<LD>(std::numeric_limits<S>::min())), what, "the distance of %s points is %s", differ ? "different" : "equal", show(v).c_str()); }
    };
    if (!whole || sum <= most) { check("manhattan", sum, [](auto& x, auto& y) { return H::manhattan_distance<S>(x, y); }, true); check("chebyshev", major, [](auto& x, auto& y) { return H::chebyshev_distance<S>(x, y); }, true); }
    if (fits_sq) { check("squared euclidean", sq, [](auto& x, auto& y) { return H::sqr_euclidean_distance<S>(x, y); }, false); }
    if constexpr (!whole) {
        if (fits_sq && (sq == 0 || sq > static_cast<LD>(std::numeric_limits<S>::min()) / std::numeric_limits<S>::epsilon() )) { check("euclidean", std::sqrt(sq), [](auto& x, auto& y) { return H::euclidean_distance<S>(x, y); }, true); }
        check("octile", major + minor * (std::sqrt(2.0L) - 1), [](auto& x, auto& y) { return H::octile_distance<S>(x, y); }, true); check("canberra", can, [](auto& x, auto& y) { return H::canberra_distance<S>(x, y); }, true);
        LD dot = 0, na = 0, nb = 0, mag = 0; for (size_t i = 0; i < K; ++i) { const LD x = static_cast<LD>(a[i]), y = static_cast<LD>(b[i]); dot += x * y; mag += std::fabs(x * y); na += x * x; nb += y * y; }
        const LD big = std::max(na, nb), small = std::min(na, nb), low = static_cast<LD>(std::numeric_limits<S>::min()) / std::numeric_limits<S>::epsilon();
        if (big < most / 16 && (small == 0 || (small > low && std::sqrt(small) * std::sqrt(big) > low))) { const LD norm = std::sqrt(na) * std::sqrt(nb), want = norm > 0 ? 1 - dot / norm : 1; const S v = H::cosine_distance<S>(a, b), w = H::cosine_distance<S>(b, a); CHECK(close(want, v, 1 + (norm > 0 ? mag / norm : 0), static_cast<int>(K) * 2), "cosine", "the distance is %s instead of %s", show(v).c_str(), show(want).c_str()); CHECK(v == w, "cosine", "the distance is %s one way and %s the other", show(v).c_str(), show(w).c_str()); }
    }
    else if (fits_sq && sq < 4503599627370496.0L) { check("euclidean", std::floor(std::sqrt(sq)), [](auto& x, auto& y) { return H::euclidean_distance<S>(x, y); }, true); }
}
template <class T, class S> static void ranks(Ctx& c) { switch (c.draw(6)) { case 0: distances<T, 2, S>(c); break; case 1: distances<T, 1, S>(c); break; case 2: distances<T, 3, S>(c); break; case 3: distances<T, 4, S>(c); break; case 4: distances<T, 5, S>(c); break; default: distances<T, 7, S>(c); } }
template <class T> static void coordinates(Ctx& c) {
    if constexpr (std::is_integral_v<T>) { switch (c.draw(6)) { case 0: ranks<T, float>(c); break; case 1: ranks<T, double>(c); break; case 2: ranks<T, LD>(c); break; case 3: ranks<T, uint32_t>(c); break; case 4: ranks<T, uint64_t>(c); break; default: ranks<T, int32_t>(c); } }
    else { switch (c.draw(2)) { case 0: ranks<T, double>(c); break; default: ranks<T, LD>(c); } }
}
// The distances, as heuristics, against the cheapest routes through an open box.
template <size_t K, class I> static void admissible(Ctx& c) {
    using C = std::array<I, K>; size_t n = 1; std::array<int, K> ext; for (auto& e : ext) { e = static_cast<int>(1 + c.draw(K > 2 ? 4 : 8)); n *= static_cast<size_t>(e); } const bool diagonal = c.chance(1, 2), euclid = diagonal && c.chance(1, 2);
    auto unpack = [&](size_t i) { std::array<int, K> r; for (size_t k = 0; k < K; ++k) { r[k] = static_cast<int>(i % static_cast<size_t>(ext[k])); i /= static_cast<size_t>(ext[k]); } return r; };
    const size_t from = c.draw(n); std::vector<double> cost(n, 1e30); std::priority_queue<std::pair<double, size_t>, std::vector<std::pair<double, size_t>>, std::greater<>> q; cost[from] = 0; q.push({0, from});
    while (!q.empty()) { auto [d, i] = q.top(); q.pop(); if (d > cost[i]) { continue; } const auto at = unpack(i); size_t all = 1; for (size_t k = 0; k < K; ++k) { all *= 3; }
        for (size_t m = 0; m < all; ++m) { size_t r = m, j = 0, mul = 1, moved = 0; bool in = true; for (size_t k = 0; k < K; ++k) { const int v = at[k] + static_cast<int>(r % 3) - 1; moved += r % 3 != 1; r /= 3; in &= v >= 0 && v < ext[k]; j += static_cast<size_t>(v) * mul; mul *= static_cast<size_t>(ext[k]); }
            if (!in || moved == 0 || (!diagonal && moved > 1)) { continue; } const double w = d + (euclid ? std::sqrt(static_cast<double>(moved)) : 1); if (w < cost[j] - 1e-12) { cost[j] = w; q.push({w, j}); } } }
    auto coord = [&](size_t i) { C r; const auto u = unpack(i); for (size_t k = 0; k < K; ++k) { r[k] = static_cast<I>(u[k]); } return r; }; const C a = coord(from);
    c.note("%zu dimensions, box of %zu, %s", K, n, euclid ? "diagonal steps of their length" : diagonal ? "diagonal steps" : "axis steps"); if (n > 4) { c.nontrivial(); }
    for (size_t i = 0; i < n; ++i) { const C b = coord(i); const double d = cost[i] + 1e-9;
        auto under = [&](const char* what, double h) { CHECK(h <= d, what, "the heuristic is %.17g, the cheapest route costs %.17g", h, cost[i]); };
        if (!diagonal) { under("manhattan", H::manhattan_distance<double>(a, b)); CHECK(H::manhattan_distance<uint32_t>(a, b) == static_cast<uint32_t>(std::lround(cost[i])), "manhattan", "the heuristic differs from the number of steps through an open box"); }
        if (!diagonal || euclid) { under("euclidean", H::euclidean_distance<double>(a, b)); under("octile", H::octile_distance<double>(a, b)); if (euclid && K == 2) { CHECK(std::fabs(H::octile_distance<double>(a, b) - cost[i]) < 1e-9, "octile", "the heuristic differs from the cheapest route through an open plane"); } }
        under("chebyshev", H::chebyshev_distance<double>(a, b)); if (diagonal && !euclid) { CHECK(H::chebyshev_distance<uint32_t>(a, b) == static_cast<uint32_t>(std::lround(cost[i])), "chebyshev", "the heuristic differs from the number of steps through an open box"); } }
}
static void routes(Ctx& c) { switch (c.draw(4)) { case 0: admissible<2, unsigned>(c); break; case 1: admissible<1, uint8_t>(c); break; case 2: admissible<3, uint16_t>(c); break; default: admissible<4, size_t>(c); } }
#endif

#if PROP == 2
template <class T> struct LL { using type = std::conditional_t<std::is_floating_point_v<T>, LD, __int128>; };
// --- at compile time ---
constexpr size_t N = 160;
template <class T> constexpr T value(uint64_t& s) {
    s = s * 6364136223846793005ULL + 1442695040888963407ULL; const uint64_t r = (s ^ (s >> 33)) * 0xff51afd7ed558ccdULL; const unsigned how = static_cast<unsigned>(r >> 61);
    if constexpr (std::is_floating_point_v<T>) { T v = static_cast<T>((r >> 20) % 1000000); if (how < 2) { v /= 997; } else if (how == 2) { v *= static_cast<T>(1048576); v *= v; } else if (how == 3) { v /= static_cast<T>(1099511627776.0); } else if (how == 4) { v = static_cast<T>((r >> 20) % 5); } return v; }
    else { const uint64_t m = static_cast<uint64_t>(std::numeric_limits<T>::max()); return static_cast<T>(how < 3 ? (r >> 20) % 20 % (m + (m != UINT64_MAX)) : how == 3 ? m - (r >> 20) % 3 : how == 4 ? m >> ((r >> 20) % (sizeof(T) * 8)) : (r & m)); }
}
template <class T> struct Row { T v, root; int sign; T abs, lo, hi, clamped, power; unsigned base, exp; T a, b, x, y; T product; };
template <class T> constexpr std::array<Row<T>, N> table(uint64_t s) {
    std::array<Row<T>, N> t{};
    for (auto& r : t) {
        r.v = value<T>(s); r.root = U::sqrt<T>(r.v); r.a = value<T>(s); r.b = value<T>(s); if (std::is_signed_v<T>) { if (s >> 63) { r.a = static_cast<T>(-r.a); } if ((s >> 62) & 1) { r.b = static_cast<T>(-r.b); } }
        if constexpr (std::is_signed_v<T>) { r.sign = U::sign<int>(r.a); } else { r.sign = U::sign<int>(r.a); } r.abs = U::abs<T>(r.a); r.lo = U::min<T>(r.a, r.b); r.hi = U::max<T>(r.a, r.b); r.clamped = U::clamp<T>(r.v, r.lo, r.hi); r.base = static_cast<unsigned>((s >> 40) % 12); r.exp = 0;
        if constexpr (std::is_unsigned_v<T> && !std::is_floating_point_v<T>) { const uint64_t m = std::numeric_limits<T>::max(); unsigned e = static_cast<unsigned>((s >> 30) % 70); if (r.base < 2) { r.exp = e; } else { uint64_t p = 1; while (r.exp < e && p <= m / r.base) { p *= r.base; ++r.exp; } } if (r.base > m) { r.base = 1; } r.power = U::powui<T>(static_cast<T>(r.base), static_cast<T>(r.exp)); }
        r.x = value<T>(s); r.y = value<T>(s); r.product = U::product<T>(std::array<T, 3>{r.v, r.x, r.y});
    }
    return t;
}
template <class T> constexpr auto rows = table<T>(0x243F6A8885A308D3ULL + sizeof(T) * 77 + std::is_signed_v<T>);
// --- oracles ---
template <class T> static void root(Ctx& c, T v, T r, const char* when) {
    if constexpr (std::is_floating_point_v<T>) { const LD want = std::sqrt(static_cast<LD>(v)); CHECK(std::fabs(static_cast<LD>(r) - want) <= want * std::numeric_limits<T>::epsilon() * 1.001L, "sqrt", "%s: the root of %s is %s instead of %s", when, show(v).c_str(), show(r).c_str(), show(want).c_str()); }
    else { const auto x = static_cast<unsigned __int128>(r); CHECK(x * x <= v && (x + 1) * (x + 1) > v, "sqrt", "%s: the root of %s is %s", when, show(v).c_str(), show(r).c_str()); }
}
template <class T, size_t K> static LD product_of(const std::array<T, K>& a) { LD p = 1; bool over = false, zero = false; const LD m = static_cast<LD>(std::numeric_limits<T>::max()); for (auto v : a) { p *= static_cast<LD>(v); zero |= v == 0; if (p > m) { over = true; p = m; } } (void) over; return zero ? 0 : p; }
template <class T> static void same(Ctx& c, const char* what, const char* when, T have, T want, const std::string& args) { CHECK(have == want, what, "%s: %s(%s) is %s instead of %s", when, what, args.c_str(), show(have).c_str(), show(want).c_str()); }
template <class T> static void product(Ctx& c, T have, LD want, size_t n, const std::string& args, const char* when) { bool ok; if constexpr (std::is_integral_v<T>) { ok = static_cast<LD>(have) == want; } else { ok = std::fabs(static_cast<LD>(have) - want) <= want * std::numeric_limits<T>::epsilon() * static_cast<LD>(n); } CHECK(ok, "product", "%s: product(%s) is %s instead of %s", when, args.c_str(), show(have).c_str(), show(want).c_str()); }
template <class T> static void at_compile_time(Ctx& c) {
    const auto& r = rows<T>[c.draw(N)]; const char* w = "compile time"; c.note("%s: v %s, a %s, b %s, base %u, exponent %u, x %s, y %s", name<T>(), show(r.v).c_str(), show(r.a).c_str(), show(r.b).c_str(), r.base, r.exp, show(r.x).c_str(), show(r.y).c_str()); if (r.v > 1) { c.nontrivial(); }
    root<T>(c, r.v, r.root, w); const std::string ab = show(r.a) + ", " + show(r.b);
    same<int>(c, "sign", w, r.sign, r.a > 0 ? 1 : r.a < 0 ? -1 : 0, show(r.a)); same<T>(c, "abs", w, r.abs, r.a < 0 ? static_cast<T>(-r.a) : r.a, show(r.a)); same<T>(c, "min", w, r.lo, r.a < r.b ? r.a : r.b, ab); same<T>(c, "max", w, r.hi, r.a > r.b ? r.a : r.b, ab);
    same<T>(c, "clamp", w, r.clamped, r.v < r.lo ? r.lo : r.v > r.hi ? r.hi : r.v, show(r.v) + ", " + ab);
    if constexpr (std::is_unsigned_v<T> && !std::is_floating_point_v<T>) { uint64_t p = 1; for (unsigned i = 0; i < r.exp; ++i) { p *= r.base; } same<T>(c, "powui", w, r.power, static_cast<T>(p), pbt::fmt("%u, %u", r.base, r.exp)); }
    product<T>(c, r.product, product_of<T, 3>({r.v, r.x, r.y}), 3, show(r.v) + ", " + show(r.x) + ", " + show(r.y), w);
}
template <class T, size_t K> static void product_case(Ctx& c) { std::array<T, K> a; std::string s; for (auto& v : a) { v = arg<T>(c, true); if (std::is_floating_point_v<T>) { v = std::floor(v); } s += show(v) + " "; } c.note("product of %s", s.c_str()); product<T>(c, U::product<T>(a), product_of<T, K>(a), K, s, "run time");
    if constexpr (std::is_integral_v<T>) { LD p = 1; bool zero = false; for (auto v : a) { p *= static_cast<LD>(v); zero |= v == 0; } if (zero) { p = 0; } if (p < 18446744073709551616.0L * 0.999L) { product<uint64_t>(c, U::product<uint64_t>(a), std::min(p, 18446744073709551615.0L), K, s, "run time, in uint64"); } }
    const auto kernel = U::make_kernel<std::array<T, K>>(); for (auto v : kernel) { CHECK(v == 3, "make_kernel", "an element is %s", show(v).c_str()); } }
template <class T> static void at_run_time(Ctx& c) {
    const char* w = "run time"; T a = arg<T>(c), b = c.chance(1, 8) ? a : arg<T>(c), v = c.chance(1, 8) ? b : arg<T>(c); c.note("%s: v %s, a %s, b %s", name<T>(), show(v).c_str(), show(a).c_str(), show(b).c_str()); const std::string ab = show(a) + ", " + show(b); if (a != b && v > 1) { c.nontrivial(); }
    const T lo = a < b ? a : b, hi = a < b ? b : a;
    same<T>(c, "min", w, U::min<T>(a, b), lo, ab); same<T>(c, "max", w, U::max<T>(a, b), hi, ab); same<T>(c, "clamp", w, U::clamp<T>(v, lo, hi), v < lo ? lo : v > hi ? hi : v, show(v) + ", " + ab);
    same<int>(c, "sign", w, U::sign<int>(a), a > 0 ? 1 : a < 0 ? -1 : 0, show(a)); same<LD>(c, "sign", w, U::sign<LD>(a), a > 0 ? 1 : a < 0 ? -1 : 0, show(a));
    if (!std::is_integral_v<T> || !std::is_signed_v<T> || a != std::numeric_limits<T>::min()) { same<T>(c, "abs", w, U::abs<T>(a), a < 0 ? static_cast<T>(-a) : a, show(a)); }
    const T q = arg<T>(c, true); if (!std::is_integral_v<T> || static_cast<LD>(q) < 4503599627370496.0L) { root<T>(c, q, U::sqrt<T>(q), w); }
    if constexpr (std::is_unsigned_v<T> && std::is_integral_v<T>) {
        const T base = static_cast<T>(c.chance(1, 3) ? c.draw(4) : arg<T>(c)); const T wish = static_cast<T>(c.draw(70)); T exp = 0; unsigned __int128 p = 1; while (exp < wish && p * base <= std::numeric_limits<T>::max()) { p *= base; ++exp; }
        if (base < 2 && c.chance(1, 4)) { exp = arg<T>(c); p = base == 1 || exp == 0; } c.note("power %s, %s", show(base).c_str(), show(exp).c_str()); same<T>(c, "powui", w, U::powui<T>(base, exp), static_cast<T>(p), show(base) + ", " + show(exp)); if (exp > 1) { c.label("a power"); }
    }
    switch (c.draw(5)) { case 0: product_case<T, 2>(c); break; case 1: product_case<T, 1>(c); break; case 2: product_case<T, 3>(c); break; case 3: product_case<T, 4>(c); break; default: product_case<T, 6>(c); }
}
#endif

#if PROP == 3
static void durations(Ctx& c) {
    LD d; switch (c.draw(7)) { case 0: d = static_cast<LD>(c.draw(100)); break; case 1: d = static_cast<LD>(c.draw(2000001)) / 1000.0L; break; case 2: d = std::pow(10.0L, -static_cast<LD>(c.draw(20))) * static_cast<LD>(1 + c.draw(2000)); break; case 3: d = std::ldexp(static_cast<LD>(1 + c.draw(UINT32_MAX)), static_cast<int>(c.range(-120, 30))); break;
        case 4: d = std::pow(10.0L, -3.0L * static_cast<LD>(c.draw(5))) * (1.0L + static_cast<LD>(c.range(-3, 3)) * c.one<LD>({1e-19L, 1e-12L, 1e-7L, 1e-3L})); break; case 5: d = c.one<LD>({0.0L, std::numeric_limits<LD>::min(), std::numeric_limits<LD>::denorm_min(), std::numeric_limits<LD>::epsilon()}); break; default: d = static_cast<LD>(c.draw(1000000)) * c.one<LD>({1.0L, 1000.0L, 1e7L, 1e11L}); }
    if (c.chance(1, 5)) { d = -d; }
    const bool given = c.chance(2, 3); LD scale = std::numeric_limits<LD>::epsilon(); if (given) { scale = c.one<LD>({0.2L, 1.0L, 0.5L, 0.1L, 0.01L, 0.001L, 1e-6L, 1e-9L, 0.25L, 0.3L, 0.0L, -1.0L, 2.0L, 0.7L}); }
    c.note("duration %s, scale %s", show(d).c_str(), given ? show(scale).c_str() : "not given"); const std::string s = given ? U::to_string(d, scale) : U::to_string(d); c.note("formatted: %s", s.c_str());
    char* end = nullptr; const LD number = std::strtold(s.c_str(), &end); CHECK(end != s.c_str(), "format", "'%s' does not begin with a number", s.c_str()); const std::string unit = end; const std::string digits = s.substr(0, static_cast<size_t>(end - s.c_str()));
    CHECK(digits.find_first_not_of("-0123456789.") == std::string::npos, "format", "'%s' is not a plain number", digits.c_str());
    const std::array<const char*, 4> units{"s", "ms", "µs", "ns"}; size_t i = 0; while (i < 4 && unit != units[i]) { ++i; } CHECK(i < 4, "unit", "'%s' does not end with a unit", s.c_str());
    const LD mul = std::pow(1000.0L, static_cast<LD>(i)), value = d * mul; scale = std::min(1.0L, std::max(0.0L, scale));
    CHECK(std::fabs(number - value) <= scale / 2 + 0.5000001e-6L + std::fabs(value) * std::numeric_limits<LD>::epsilon() * 16, "value", "%s is formatted as '%s'", show(d).c_str(), s.c_str());
    CHECK(i == 3 || std::fabs(value) >= 1 - 1e-15L, "unit", "%s is formatted as '%s', in too large a unit", show(d).c_str(), s.c_str()); CHECK((i == 0) == (std::fabs(d) >= 1) && (i == 0 || std::fabs(value) / 1000 < 1 + 1e-15L), "unit", "%s is formatted as '%s', in too small a unit", show(d).c_str(), s.c_str());
    if (scale > 1e-5L) { const LD steps = number / scale; CHECK(std::fabs(steps - std::floor(steps + 0.5L)) * scale <= 0.5000001e-6L + std::fabs(value) * 1e-17L, "scale", "'%s' is not a multiple of %s", s.c_str(), show(scale).c_str()); }
    CHECK(digits.find('.') == std::string::npos || (digits.back() != '0' && digits.back() != '.'), "zeros", "insignificant zeros are left in '%s'", s.c_str());
    if (d != 0) { c.nontrivial(); } c.label("in %s", unit.c_str());
}
static void zeros(Ctx& c) {
    std::string whole, frac, exponent; const size_t n = 1 + c.draw(6), m = c.draw(8); for (size_t i = 0; i < n; ++i) { whole += static_cast<char>(c.chance(1, 2) ? '1' + c.draw(9) : '0'); } for (size_t i = 0; i < m; ++i) { frac += static_cast<char>(c.chance(1, 2) ? '1' + c.draw(9) : '0'); }
    const bool point = c.chance(2, 3), exp = c.chance(1, 8); if (exp) { exponent = pbt::fmt("e%s%02d", c.chance(1, 2) ? "-" : "+", static_cast<int>(c.one<int>({0, 10, 5, 20}))); } const std::string in = (c.chance(1, 5) ? "-" : "") + whole + (point ? "." + frac : "") + exponent; c.note("'%s'", in.c_str());
    const std::string out = U::trim_trailing_zeros(in); c.note("trimmed: '%s'", out.c_str());
    std::string want = in; if (point && !exp) { while (want.back() == '0') { want.pop_back(); } if (want.back() == '.') { want.pop_back(); } }
    CHECK(!out.empty() && std::strtold(out.c_str(), nullptr) == std::strtold(in.c_str(), nullptr), "value", "'%s' is trimmed to '%s'", in.c_str(), out.c_str());
    if (!exp) { CHECK(out == want, "zeros", "'%s' is trimmed to '%s' instead of '%s'", in.c_str(), out.c_str(), want.c_str()); }
    if (in != want || in.back() == '0') { c.nontrivial(); } c.label("%s%s", point ? "with a point" : "an integer", in != want ? ", zeros to remove" : "");
}
#endif
namespace pbt {
#if PROP == 1
#define E(T) {name<T>(), coordinates<T>, 60000, 4000000},
const char* harness_rule() { return "A case is a pair of coordinates of one of ten component types, rank 1 to 7, and a scalar type; every distance function is compared with its definition evaluated in wider arithmetic, both ways round, or ('routes') an open box of up to four dimensions whose cheapest routes are compared with the heuristics. Non-trivial: the coordinates differ; for boxes: more than four cells."; }
std::vector<Target> harness_targets() { return { E(uint8_t) E(uint16_t) E(uint32_t) E(uint64_t) E(int8_t) E(int16_t) E(int32_t) E(int64_t) E(float) E(double) {"routes", ::routes, 8000, 300000} }; }
std::vector<std::string> harness_assumptions() { return {"the exact distance is representable in the scalar type", "octile, Canberra and cosine distances are asked for in a floating-point scalar type"}; }
#elif PROP == 2
#define E(T) {name<T>(), at_run_time<T>, 60000, 4000000},
#define F(N, T) {"constexpr-" N, at_compile_time<T>, 2000, 20000},
const char* harness_rule() { return "A case is a set of arguments of one type given to every helper (at run time), or one row of a table of 160 generated rows per type that the compiler evaluated; results are compared with definitions evaluated in wider arithmetic. Non-trivial: the arguments differ and the one whose root is taken exceeds one (compile time: the root's argument exceeds one)."; }
std::vector<Target> harness_targets() { return { E(uint8_t) E(uint16_t) E(uint32_t) E(uint64_t) E(int8_t) E(int16_t) E(int32_t) E(int64_t) E(float) E(double) E(LD) F("uint8", uint8_t) F("uint16", uint16_t) F("uint32", uint32_t) F("uint64", uint64_t) F("int32", int32_t) F("int64", int64_t) F("float", float) F("double", double) F("long-double", LD) }; }
std::vector<std::string> harness_assumptions() { return {"products are of values that are not negative", "powers are representable", "the least value of a signed type has no absolute value", "run-time roots of integers are below 2^52"}; }
#else
const char* harness_rule() { return "A case is a duration and a scale, or a number written out in digits; the text is parsed back. Non-trivial: the duration is not zero; the number ends in zeros."; }
std::vector<Target> harness_targets() { return { {"durations", ::durations, 300000, 20000000}, {"zeros", ::zeros, 300000, 20000000} }; }
std::vector<std::string> harness_assumptions() { return {"durations are finite and below 1e18 seconds"}; }
#endif
}
