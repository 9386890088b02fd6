#include "solve.hpp"

namespace sv {

std::vector<Variant>& variants() { static std::vector<Variant> v; return v; }

std::string path_str(const Path& p, unsigned rank) {
    std::string s;
    for (auto& c : p) { s += '('; for (unsigned i = 0; i < rank; ++i) { s += (i ? "," : "") + std::to_string(c[i]); } s += ')'; }
    return s.empty() ? "<empty>" : s;
}

std::string Query::str() const {
    std::string s = shape == 7 ? "long corridor " : shape == 6 ? "huge grid " : shape == 5 ? "large grid " : "grid ";
    for (unsigned i = 0; i < rank; ++i) { s += (i ? "x" : "") + std::to_string(size[i]); }
    s += " start " + path_str({start}, rank) + " end " + path_str({end}, rank) + " cells (.=active #=inactive, first axis across):\n";
    const size_t n = count();
    if (n > 4000) { return s + "(not shown)\n"; }
    for (size_t i = 0; i < n; ++i) {
        const Cell c = cell(i);
        s += c == start ? 'S' : c == end ? 'E' : active[i] ? '.' : '#';
        if (c[0] + 1 == size[0]) { s += '\n'; if (rank > 2 && i + 1 < n && c[1] + 1 == size[1]) { s += '\n'; } }
    }
    return s;
}

uint64_t mix64(uint64_t x) { x += 0x9E3779B97F4A7C15ULL; x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ULL; x = (x ^ (x >> 27)) * 0x94D049BB133111EBULL; return x ^ (x >> 31); }

// A grid too large to draw cell by cell: noise, a maze or open space expanded from one drawn number.
static Query gen_large(pbt::Ctx& c, unsigned rank, size_t max_cells) {
    Query q; q.rank = rank; q.shape = 5;
    const double side = std::pow(static_cast<double>(max_cells), 1.0 / rank);
    size_t room = max_cells;
    const bool lng = c.chance(1, 3);
    for (unsigned k = 0; k < rank; ++k) {
        const unsigned left = rank - k;
        size_t lim = lng && k == 0 ? room / (left > 1 ? 2U : 1U) : std::min(room, static_cast<size_t>(std::max(2.0, side * 1.3)));
        size_t sz = std::max<size_t>(1, lim - std::min<size_t>(lim - 1, c.draw(std::max<size_t>(1, lim / 2))));
        q.size[k] = static_cast<uint32_t>(sz); room = std::max<size_t>(1, room / sz);
    }
    const size_t n = q.count(); const auto how = c.draw(4); const uint64_t seed = c.draw(1U << 20);
    q.active.assign(n, 1);
    if (how == 1) { for (size_t i = 0; i < n; ++i) { q.active[i] = mix64(seed ^ (i << 21)) % 4U != 0U; } }
    else if (how >= 2) {                                   // corridors carved by a seeded depth-first walk, then openings (3)
        std::fill(q.active.begin(), q.active.end(), 0);
        std::vector<size_t> st{0}; q.active[0] = 1; uint64_t r = seed;
        while (!st.empty()) {
            const Cell u = q.cell(st.back()); std::array<std::pair<unsigned, int>, 2 * MAXR> dirs; size_t nd = 0;
            for (unsigned k = 0; k < rank; ++k) {
                if (u[k] >= 2)            { Cell d = u; d[k] -= 2; if (!q.active[q.idx(d)]) { dirs[nd++] = {k, -1}; } }
                if (u[k] + 2 < q.size[k]) { Cell d = u; d[k] += 2; if (!q.active[q.idx(d)]) { dirs[nd++] = {k, 1}; } }
            }
            if (nd == 0) { st.pop_back(); continue; }
            r = mix64(r); const auto [k, s] = dirs[r % nd];
            Cell d = u; d[k] += static_cast<uint32_t>(s); q.active[q.idx(d)] = 1; d[k] += static_cast<uint32_t>(s); q.active[q.idx(d)] = 1; st.push_back(q.idx(d));
        }
        if (how == 3) { for (size_t i = 0; i < n / 20U; ++i) { r = mix64(r); q.active[r % n] = 1; } }
    }
    auto some = [&](uint64_t salt) { uint64_t r = mix64(seed ^ salt); for (int t = 0; t < 64; ++t) { if (q.active[r % n]) { break; } r = mix64(r); } return static_cast<size_t>(r % n); };
    const size_t s = c.chance(1, 2) ? some(1) : 0, e = c.chance(1, 2) ? some(2) : [&] { size_t i = n - 1; while (i > 0 && !q.active[i]) { --i; } return i; }();
    q.start = q.cell(s); q.end = q.cell(e); if (c.chance(1, 2)) { std::swap(q.start, q.end); }
    return q;
}

// More cells than 16 bits can count: a straight or winding corridor (its routes have more steps than that, too) or open space.
static Query gen_huge(pbt::Ctx& c, unsigned rank, size_t cells) {
    Query q; q.rank = rank; q.shape = 6;
    const bool winding = rank == 2 && c.chance(2, 3);
    if (rank == 1) { q.size[0] = static_cast<uint32_t>(cells - c.draw(1000)); }
    else if (winding) { const auto w = 3 + c.draw(600); q.size[0] = static_cast<uint32_t>(w); q.size[1] = static_cast<uint32_t>(cells * 2 / (w + 1)) | 1U; if (c.chance(1, 2)) { std::swap(q.size[0], q.size[1]); } }
    else { const auto side = static_cast<uint32_t>(std::pow(static_cast<double>(cells), 1.0 / rank)); for (unsigned k = 0; k < rank; ++k) { q.size[k] = side + 1U; } }
    const size_t n = q.count(); q.active.assign(n, 1);
    if (winding) {                                         // every other line is a wall with one opening, at alternate ends
        const bool x = q.size[1] > q.size[0]; const unsigned a = x ? 1 : 0, b = x ? 0 : 1;
        for (size_t i = 0; i < n; ++i) { const Cell u = q.cell(i); if (u[a] % 2U == 1U) { q.active[i] = u[b] == (u[a] % 4U == 1U ? q.size[b] - 1U : 0U); } }
    }
    size_t s = c.chance(1, 2) ? 0 : c.draw(n / 64), e = n - 1 - (c.chance(1, 2) ? 0 : c.draw(n / 64));
    while (!q.active[s]) { ++s; }
    while (!q.active[e]) { --e; }
    if (c.chance(1, 8)) { q.active[n / 2] = 0; }
    q.start = q.cell(s); q.end = q.cell(e); if (c.chance(1, 2)) { std::swap(q.start, q.end); }
    return q;
}

// A corridor, or two joined at both ends, longer than 8 bits can count, with few ways through.
static Query gen_long(pbt::Ctx& c, unsigned rank, size_t cells) {
    Query q; q.rank = rank; q.shape = 7;
    const auto a = static_cast<unsigned>(c.draw(rank)); const bool ring = rank > 1 && cells >= 900 && c.chance(3, 4); const auto b = ring ? static_cast<unsigned>((a + 1 + c.draw(rank - 1)) % rank) : a;
    q.size[a] = static_cast<uint32_t>(230 + c.draw(110)); if (ring) { q.size[b] = 3; }
    q.active.assign(q.count(), 1);
    size_t s = c.draw(8), e = q.size[a] - 1 - c.draw(8);
    auto at = [&](size_t x, uint32_t y) { Cell u{}; u[a] = static_cast<uint32_t>(x); if (ring) { u[b] = y; } return q.idx(u); };
    if (ring) {                                            // both sides lead to the end
        const size_t l = c.draw(s + 1), r = e + c.draw(q.size[a] - e);
        for (size_t x = 0; x < q.size[a]; ++x) { if (x != l && x != r ) { q.active[at(x, 1)] = 0; } if (x < l || x > r) { q.active[at(x, 0)] = q.active[at(x, 2)] = 0; } }
        q.start = q.cell(at(c.chance(1, 2) ? l : s, 0)); q.end = q.cell(at(e, c.chance(1, 2) ? 0 : 2));
        if (c.chance(1, 2)) { q.start = q.cell(at(l, 1)); }
        if (c.chance(1, 8)) { q.active[at(e / 2, 0)] = 0; }
    }
    else { q.start = q.cell(at(s, 0)); q.end = q.cell(at(e, 0)); if (c.chance(1, 16)) { q.active[at(e / 2, 0)] = 0; } }
    if (c.chance(1, 2)) { std::swap(q.start, q.end); }
    return q;
}

Query gen_query(pbt::Ctx& c, unsigned rank, const GenOpt& o) {
    if (o.lengthy >= 300 && c.chance(1, o.lengthy_in)) { return gen_long(c, rank, o.lengthy); }
    if (o.huge && c.chance(1, o.huge_in)) { return gen_huge(c, rank, o.huge); }
    if (o.large && c.chance(1, o.large_in)) { return gen_large(c, rank, o.large); }
    Query q; q.rank = rank;
    // sizes: product bounded by max_cells
    size_t room = o.max_cells;
    const unsigned first = static_cast<unsigned>(c.draw(rank));         // the axis that may get long
    const auto kind = c.pick({3, 2, 1, 1});                             // mixed, equal, one long axis, tiny
    for (unsigned k = 0; k < rank; ++k) {
        const unsigned a = (first + k) % rank;
        size_t lim;
        const unsigned left = rank - k;
        if (kind == 1)      { lim = static_cast<size_t>(std::floor(std::pow(static_cast<double>(room), 1.0 / left) + 1e-9)); }
        else if (kind == 2) { lim = k == 0 ? room / (rank > 1 ? 2U : 1U) : std::min<size_t>(room, 3); }
        else if (kind == 3) { lim = std::min<size_t>(room, 3); }
        else                { lim = std::min<size_t>(room, std::max<size_t>(2, static_cast<size_t>(2.2 * std::pow(static_cast<double>(room), 1.0 / left)))); }
        lim = std::max<size_t>(1, std::min<size_t>(lim, room));
        size_t sz;
        if (kind == 1 && k > 0) { sz = q.size[first]; }
        else                    { sz = 1 + c.draw(lim); }
        sz = std::min(sz, room);
        q.size[a] = static_cast<uint32_t>(sz); room /= sz; if (room == 0) { room = 1; }
    }
    const size_t n = q.count();
    q.shape = static_cast<unsigned>(c.pick({3, 2, 3, 2, 2}));
    auto& A = q.active;
    auto pick_cell = [&]() { return c.draw(n); };
    switch (q.shape) {
        case 0: {                                           // noise
            static const unsigned dens[] = {0, 1, 2, 3, 4, 5};
            const unsigned d = dens[c.draw(6)];             // inactive eighths
            A.assign(n, 1);
            if (d) { for (size_t i = 0; i < n; ++i) { A[i] = !c.chance(d, 10); } }
            break;
        }
        case 1: {                                           // random walks carve corridors
            A.assign(n, 0);
            const auto walks = 1 + c.draw(4);
            for (uint64_t w = 0; w < walks; ++w) {
                Cell p = q.cell(pick_cell()); A[q.idx(p)] = 1;
                const auto legs = 1 + c.draw(8);
                for (uint64_t l = 0; l < legs; ++l) {
                    const auto ax = static_cast<unsigned>(c.draw(rank)); const bool up = c.draw(2); const auto len = 1 + c.draw(6);
                    for (uint64_t s = 0; s < len; ++s) { if (up ? p[ax] + 1 < q.size[ax] : p[ax] > 0) { p[ax] += up ? 1U : ~0U; A[q.idx(p)] = 1; } }
                }
            }
            break;
        }
        case 2: {                                           // perfect maze on the even lattice, with some extra openings
            A.assign(n, 0);
            std::vector<size_t> st; Cell p{}; A[q.idx(p)] = 1; st.push_back(q.idx(p));
            while (!st.empty()) {
                const Cell u = q.cell(st.back()); std::vector<std::pair<unsigned, int>> dirs;
                for (unsigned k = 0; k < rank; ++k) {
                    if (u[k] >= 2)            { Cell d = u; d[k] -= 2; if (!A[q.idx(d)]) { dirs.push_back({k, -1}); } }
                    if (u[k] + 2 < q.size[k]) { Cell d = u; d[k] += 2; if (!A[q.idx(d)]) { dirs.push_back({k, 1}); } }
                }
                if (dirs.empty()) { st.pop_back(); continue; }
                const auto [k, s] = dirs[c.draw(dirs.size())];
                Cell d = u; d[k] += static_cast<uint32_t>(s); A[q.idx(d)] = 1; d[k] += static_cast<uint32_t>(s); A[q.idx(d)] = 1; st.push_back(q.idx(d));
            }
            const auto open = c.draw(6);
            for (uint64_t i = 0; i < open; ++i) { A[pick_cell()] = 1; }
            break;
        }
        case 3: {                                           // open space with a few boxes of wall
            A.assign(n, 1);
            const auto boxes = c.draw(5);
            for (uint64_t b = 0; b < boxes; ++b) {
                Cell lo{}, hi{};
                for (unsigned k = 0; k < rank; ++k) { lo[k] = static_cast<uint32_t>(c.draw(q.size[k])); hi[k] = std::min<uint32_t>(q.size[k] - 1, lo[k] + static_cast<uint32_t>(c.draw(q.size[k]))); }
                for (size_t i = 0; i < n; ++i) { const Cell u = q.cell(i); bool in = true; for (unsigned k = 0; k < rank; ++k) { in &= u[k] >= lo[k] && u[k] <= hi[k]; } if (in) { A[i] = 0; } }
            }
            break;
        }
        default: {                                          // walls across one axis with gaps
            A.assign(n, 1);
            unsigned ax = static_cast<unsigned>(c.draw(rank)); if (q.size[ax] < 3) { for (unsigned k = 0; k < rank; ++k) { if (q.size[k] > q.size[ax]) { ax = k; } } }
            for (uint32_t x = 1; x + 1 < q.size[ax]; x += 2) {
                if (!c.chance(3, 4)) { continue; }
                std::vector<size_t> wall; for (size_t i = 0; i < n; ++i) { if (q.cell(i)[ax] == x) { wall.push_back(i); } }
                for (auto i : wall) { A[i] = 0; }
                const auto gaps = c.draw(3); for (uint64_t g = 0; g < gaps; ++g) { A[wall[c.draw(wall.size())]] = 1; }
            }
        }
    }
    if (o.max_free < n) {                                   // keep exponential searches small
        size_t f = 0; for (size_t i = 0; i < n; ++i) { if (A[i] && ++f > o.max_free) { A[i] = 0; } }
    }
    // end points: usually active cells, often far apart
    std::vector<size_t> act; for (size_t i = 0; i < n; ++i) { if (A[i]) { act.push_back(i); } }
    auto any = [&]() { return act.empty() || c.chance(1, 24) ? pick_cell() : act[c.draw(act.size())]; };
    const size_t s = any(); q.start = q.cell(s);
    size_t e;
    const auto how = c.pick({4, 4, 2});
    if (how == 0 || !A[s]) { e = any(); }
    else {
        const auto d = q.distances(s, false);
        std::vector<size_t> r; size_t far = 0;
        for (size_t i = 0; i < n; ++i) { if (d[i] != Query::INF && i != s) { r.push_back(i); far = std::max(far, d[i]); } }
        if (r.empty()) { e = any(); }
        else if (how == 1) { std::vector<size_t> f; for (auto i : r) { if (d[i] + 1 >= far) { f.push_back(i); } } e = f[c.draw(f.size())]; }
        else { e = r[c.draw(r.size())]; }
    }
    q.end = q.cell(e);
    if (o.outside && c.chance(1, 20)) {                     // an end point beyond one axis
        Cell& u = c.chance(1, 2) ? q.start : q.end; const auto k = static_cast<unsigned>(c.draw(rank));
        u[k] = q.size[k] + static_cast<uint32_t>(c.draw(3));
    }
    return q;
}

static bool adjacent(const Query& q, const Cell& a, const Cell& b, bool diag) {
    unsigned man = 0, che = 0;
    for (unsigned k = 0; k < q.rank; ++k) { const unsigned d = a[k] > b[k] ? a[k] - b[k] : b[k] - a[k]; man += d; che = std::max(che, d); }
    return diag ? che == 1 : man == 1;
}

size_t check_route(pbt::Ctx& c, const Query& q, const Path& p, bool diag, const char* who) {
    const auto show = path_str(p, q.rank);
    for (auto& u : p) {
        CHECK(q.inside(u), "out-of-bounds", "%s: %s leaves the grid", who, show.c_str());
        CHECK(q.on(u), "inactive-cell", "%s: %s crosses the inactive cell %s", who, show.c_str(), path_str({u}, q.rank).c_str());
    }
    if (q.start == q.end) {
        CHECK(p.size() == 1 && p[0] == q.end, "trivial-route", "%s: expected exactly the end cell, got %s", who, show.c_str());
        return 0;
    }
    std::vector<uint8_t> seen(q.count(), 0);
    for (auto& u : p) { CHECK(!seen[q.idx(u)]++, "repeated-cell", "%s: %s visits %s twice", who, show.c_str(), path_str({u}, q.rank).c_str()); }
    for (size_t i = 1; i < p.size(); ++i) {
        CHECK(adjacent(q, p[i - 1], p[i], diag), "broken-step", "%s: %s jumps from %s to %s", who, show.c_str(), path_str({p[i - 1]}, q.rank).c_str(), path_str({p[i]}, q.rank).c_str());
    }
    // either direction; an end point may be left out
    auto joins = [&](const Cell& from, const Cell& to) -> long {
        long steps = static_cast<long>(p.size()) - 1;
        if (p.front() != from) { if (!adjacent(q, from, p.front(), diag) || seen[q.idx(from)]) { return -1; } ++steps; }
        if (p.back() != to)    { if (!adjacent(q, p.back(), to, diag)    || seen[q.idx(to)])   { return -1; } ++steps; }
        return steps;
    };
    long st = joins(q.start, q.end); if (st < 0) { st = joins(q.end, q.start); }
    CHECK(st >= 0, "not-joined", "%s: %s does not lead from start %s to end %s", who, show.c_str(), path_str({q.start}, q.rank).c_str(), path_str({q.end}, q.rank).c_str());
    return static_cast<size_t>(st);
}

} // namespace sv
