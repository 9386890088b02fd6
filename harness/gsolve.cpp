#include "gsolve.hpp"
#ifndef HUGE_IN
#define HUGE_IN 25
#endif
namespace sv {
// One node is linked to hundreds of others, a few of which lead on.
static GQuery gen_hub(pbt::Ctx& c, unsigned rank, const GGen& o) {
    GQuery q; q.rank = rank; const bool huge = o.huge && c.chance(1, HUGE_IN); const size_t n = huge ? 65500 + c.draw(1100) : 40 + c.draw(std::min<size_t>(o.hub_limit, 700) - 40); q.size[0] = static_cast<uint32_t>(n);
    if (rank > 1 && c.chance(1, 2)) { const auto a = static_cast<uint32_t>(2 + c.draw(20)); q.size[0] = a; q.size[1] = static_cast<uint32_t>(n / a); }
    q.node.assign(q.count(), 1); const unsigned scale = o.unit_scale ? 1U : 4U; const size_t m = q.count();
    auto add = [&](size_t a, size_t b) { q.edges.push_back({a, b, q.manhattan(a, b) * scale + static_cast<unsigned>(c.draw(3))}); };
    if (huge && (c.chance(1, 2) || o.huge == 1)) {         // one long chain with a few short cuts
        const uint64_t seed = c.draw(1U << 20);
        for (size_t i = 0; i + 1 < m; ++i) { q.edges.push_back({i, i + 1, q.manhattan(i, i + 1) * scale + static_cast<unsigned>(mix64(seed ^ (i << 20)) % 3U)}); }
        for (uint64_t k = c.draw(4); k-- > 0;) { const auto a = c.draw(m), b = c.draw(m); add(std::min(a, b), std::max(a, b)); }
        q.start = q.cell(c.draw(40)); q.end = q.cell(m - 1 - c.draw(40)); return q;
    }
    const size_t hub = c.draw(m), skip = c.draw(8); const bool back = c.chance(1, 4);
    for (size_t i = 0; i < m; ++i) { if (i != hub && (skip == 0 || i % (skip + 1) != skip)) { q.edges.push_back({hub, i, q.manhattan(hub, i) * scale + 1}); } }
    if (back) { for (uint64_t k = c.draw(4); k-- > 0;) { add(c.draw(m), hub); } }
    const size_t s = c.chance(1, 3) ? hub : c.draw(m); if (s != hub) { add(s, hub); }
    size_t e = c.draw(m); if (c.chance(1, 2)) { const size_t via = c.draw(m); if (via != hub && e != hub) { q.edges.erase(std::remove_if(q.edges.begin(), q.edges.end(), [&](auto& x) { return x.from == hub && x.to == e; }), q.edges.end()); add(via, e); } }
    q.start = q.cell(s); q.end = q.cell(e);
    return q;
}
// Costs never undercut the Manhattan distance between the two ends, so that it is a consistent heuristic.
GQuery gen_graph(pbt::Ctx& c, unsigned rank, const GGen& o) {
    if (o.hub_in != 0 && c.chance(1, o.hub_in)) { return gen_hub(c, rank, o); }
    GQuery q; q.rank = rank; size_t room = o.max_cells;
    for (unsigned k = 0; k < rank; ++k) {
        const size_t lim = k + 1 == rank ? room : std::max<size_t>(1, std::min<size_t>(room, static_cast<size_t>(2.5 * std::pow(static_cast<double>(room), 1.0 / (rank - k)))));
        q.size[k] = static_cast<uint32_t>(1 + c.draw(lim)); room = std::max<size_t>(1, room / q.size[k]);
    }
    const size_t n = q.count(); q.node.assign(n, 1);
    if (c.chance(1, 3)) { for (size_t i = 0; i < n; ++i) { q.node[i] = !c.chance(1, 3); } }
    std::vector<size_t> ids; for (size_t i = 0; i < n; ++i) { if (q.node[i]) { ids.push_back(i); } }
    const unsigned scale = o.unit_scale ? 1U : 4U;
    q.two_way = c.chance(1, 3);
    const auto costs = c.draw(4);                          // tight, small spread, wide spread, mostly equal
    auto add = [&](size_t a, size_t b) {
        unsigned extra = 0;
        switch (costs) { case 0: break; case 1: extra = static_cast<unsigned>(c.draw(6)); break; case 2: extra = static_cast<unsigned>(c.draw(4) * c.draw(40)); break; default: extra = c.chance(1, 4) ? static_cast<unsigned>(c.draw(12)) : 2U; }
        const uint64_t w = uint64_t{q.manhattan(a, b)} * scale + extra;
        q.edges.push_back({a, b, w}); if (q.two_way) { q.edges.push_back({b, a, w}); }
    };
    if (!ids.empty()) {
        if (c.chance(1, 2)) {                              // lattice links between neighbours
            for (auto i : ids) { const Cell u = q.cell(i); for (unsigned k = 0; k < rank; ++k) { if (u[k] + 1 < q.size[k]) { Cell d = u; ++d[k]; if (q.on(d)) { if (!c.chance(1, 4)) { add(i, q.idx(d)); } if (!q.two_way && !c.chance(1, 4)) { add(q.idx(d), i); } } } } if (q.edges.size() > o.max_edges) { break; } }
        }
        if (c.chance(1, 3)) { for (size_t i = 1; i < ids.size(); ++i) { add(ids[i - 1], ids[i]); } }              // a chain through all nodes
        const auto links = c.draw(std::min<size_t>(o.max_edges, 3 * ids.size()) + 1);
        for (uint64_t i = 0; i < links; ++i) { add(ids[c.draw(ids.size())], ids[c.draw(ids.size())]); }           // any pair, loops and parallel links included
    }
    uint64_t top = 1; for (auto& e : q.edges) { top = std::max(top, e.cost); }
    const uint64_t room_up = o.exact / (2 * (n + 1)) / (top + 1);
    if (room_up > 1 && c.chance(1, 4)) {                   // costs as large as the scalar can add up exactly, a few units apart
        uint64_t k = 1; while (k * 2 <= room_up) { k *= 2; } k >>= c.chance(1, 2) ? 0 : c.draw(20); k = std::max<uint64_t>(k, 1);
        for (size_t i = 0; i < q.edges.size(); ++i) { const bool twin = q.two_way && i % 2 == 1; q.edges[i].cost = twin ? q.edges[i - 1].cost : k * q.edges[i].cost + (k > 4 ? c.draw(3) : 0); }
    }
    auto any = [&] { return ids.empty() || c.chance(1, 24) ? c.draw(n) : ids[c.draw(ids.size())]; };
    const size_t s = any(); size_t e;
    if (q.node[s] && c.chance(3, 4)) {
        const auto d = q.costs(s); std::vector<size_t> r; for (auto i : ids) { if (i != s && d[i] != GQuery::INF) { r.push_back(i); } }
        std::sort(r.begin(), r.end(), [&](size_t a, size_t b) { return d[a] != d[b] ? d[a] > d[b] : a < b; });
        e = r.empty() ? any() : r[c.chance(1, 2) ? c.draw(r.size()) : c.draw(1 + r.size() / 4)];
    }
    else { e = any(); }
    q.start = q.cell(s); q.end = q.cell(e);
    return q;
}
} // namespace sv
