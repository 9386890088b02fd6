// Searches on weighted graphs: queries, instantiations, reference search.
#pragma once
#include "solve.hpp"

namespace sv {
struct GEdge { size_t from, to; uint64_t cost; };          // cost in quarters (integral scalars: whole units)
struct GQuery {
    unsigned rank = 2; Cell size{1, 1, 1, 1, 1};
    std::vector<uint8_t> node; std::vector<GEdge> edges; Cell start{}, end{}; bool two_way = false;
    size_t count() const { size_t n = 1; for (unsigned i = 0; i < rank; ++i) { n *= size[i]; } return n; }
    size_t idx(const Cell& c) const { size_t r = 0; for (unsigned i = rank; i-- > 0;) { r = r * size[i] + c[i]; } return r; }
    Cell cell(size_t i) const { Cell c{}; for (unsigned k = 0; k < rank; ++k) { c[k] = static_cast<uint32_t>(i % size[k]); i /= size[k]; } return c; }
    bool inside(const Cell& c) const { for (unsigned i = 0; i < rank; ++i) { if (c[i] >= size[i]) { return false; } } return true; }
    bool on(const Cell& c) const { return inside(c) && node[idx(c)]; }
    unsigned manhattan(size_t a, size_t b) const { const Cell x = cell(a), y = cell(b); unsigned d = 0; for (unsigned k = 0; k < rank; ++k) { d += x[k] > y[k] ? x[k] - y[k] : y[k] - x[k]; } return d; }
    static constexpr uint64_t INF = ~uint64_t{0};
    std::vector<uint64_t> costs(size_t s) const {
        std::vector<uint64_t> d(count(), INF); d[s] = 0; bool again = true;
        while (again) { again = false; for (auto& e : edges) { if (d[e.from] != INF && d[e.from] + e.cost < d[e.to]) { d[e.to] = d[e.from] + e.cost; again = true; } } }
        return d;
    }
    std::string str() const {
        std::string s = "graph over a box "; for (unsigned i = 0; i < rank; ++i) { s += (i ? "x" : "") + std::to_string(size[i]); }
        s += " start " + std::to_string(idx(start)) + " end " + std::to_string(idx(end)); if (edges.size() > 5000) { return s + " (" + std::to_string(edges.size()) + " edges, not shown)"; } s += "; nodes"; for (size_t i = 0; i < node.size(); ++i) { if (node[i]) { s += ' ' + std::to_string(i); } }
        s += "; edges (from>to:cost in quarters)"; for (auto& e : edges) { s += ' ' + std::to_string(e.from) + '>' + std::to_string(e.to) + ':' + std::to_string(e.cost); }
        return s;
    }
};
struct GVariant {
    const char* solver; const char* types; unsigned rank; bool lazy, no_cleanup, reverse, integral;
    Mem mem; size_t maxcells; uint64_t exact;                       // sums of costs the scalar holds exactly
    Path (*run)(const GQuery&, const RunOpt&, Pools&);
    std::shared_ptr<void> (*prepare)(const GQuery&);
    Path (*run_on)(const std::shared_ptr<void>&, const GQuery&, const RunOpt&, Pools&);
};
inline std::vector<GVariant>& gvariants() { static std::vector<GVariant> v; return v; }
struct GRegister { explicit GRegister(const GVariant& v) { gvariants().push_back(v); } };
struct GGen { size_t max_cells = 40; size_t max_edges = 120; bool unit_scale = false; unsigned hub_in = 0; size_t hub_limit = 0; unsigned huge = 0; uint64_t exact = 0; };   // huge: 1: chains, 2: hubs, too; exact: now and then costs are so large that sums come near it
GQuery gen_graph(pbt::Ctx& c, unsigned rank, const GGen& o);
} // namespace sv
