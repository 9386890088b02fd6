// Shared by all solver harnesses: queries on grids, the table of solver instantiations, reference searches.
#pragma once
#include "pbt.hpp"
#include <algorithm>
#include <array>
#include <cmath>
#include <cstring>
#include <deque>
#include <limits>
#include <memory>
#include <memory_resource>
#include <string>
#include <vector>

namespace sv {

constexpr unsigned MAXR = 5;
using Cell = std::array<uint32_t, MAXR>;

// One search problem on a grid, independent of the types it is posed in.
struct Query {
    unsigned rank = 2;
    Cell size{1, 1, 1, 1, 1};
    std::vector<uint8_t> active;      // by linear index, first axis fastest
    Cell start{}, end{};
    unsigned shape = 0;

    size_t count() const { size_t n = 1; for (unsigned i = 0; i < rank; ++i) { n *= size[i]; } return n; }
    size_t idx(const Cell& c) const { size_t r = 0; for (unsigned i = rank; i-- > 0;) { r = r * size[i] + c[i]; } return r; }
    Cell cell(size_t i) const { Cell c{}; for (unsigned k = 0; k < rank; ++k) { c[k] = static_cast<uint32_t>(i % size[k]); i /= size[k]; } return c; }
    bool inside(const Cell& c) const { for (unsigned i = 0; i < rank; ++i) { if (c[i] >= size[i]) { return false; } } return true; }
    bool valid() const { return on(start) && on(end); }
    bool on(const Cell& c) const { return inside(c) && active[idx(c)]; }
    void neighbours(size_t i, bool diag, std::vector<size_t>& out) const {   // active neighbours
        out.clear();
        const Cell c = cell(i);
        if (!diag) {
            for (unsigned k = 0; k < rank; ++k) {
                if (c[k] > 0)            { Cell d = c; --d[k]; if (on(d)) { out.push_back(idx(d)); } }
                if (c[k] + 1 < size[k])  { Cell d = c; ++d[k]; if (on(d)) { out.push_back(idx(d)); } }
            }
        }
        else {
            size_t n = 1; for (unsigned k = 0; k < rank; ++k) { n *= 3; }
            for (size_t m = 0; m < n; ++m) {
                Cell d = c; bool ok = true, self = true; size_t r = m;
                for (unsigned k = 0; k < rank; ++k) { const int o = static_cast<int>(r % 3) - 1; r /= 3; if (o) { self = false; } if (o < 0 && c[k] == 0) { ok = false; } d[k] = c[k] + static_cast<uint32_t>(o); }
                if (ok && !self && on(d)) { out.push_back(idx(d)); }
            }
        }
    }
    static constexpr size_t INF = std::numeric_limits<size_t>::max();
    std::vector<size_t> distances(size_t from, bool diag) const {
        std::vector<size_t> d(count(), INF); std::vector<size_t> nb;
        if (!active[from]) { return d; }
        std::deque<size_t> q{from}; d[from] = 0;
        while (!q.empty()) { const auto u = q.front(); q.pop_front(); neighbours(u, diag, nb); for (auto v : nb) { if (d[v] == INF) { d[v] = d[u] + 1; q.push_back(v); } } }
        return d;
    }
    std::string str() const;
};

// Options chosen at run time (the others are part of an instantiation).
struct RunOpt {
    size_t   capacity     = 0;
    size_t   memory_limit = std::numeric_limits<size_t>::max();
    unsigned heuristic    = 0;     // index into the instantiation's list of heuristics
    double   weight       = 1;     // the heuristic's weight
    unsigned call         = 0;     // form of the call: a constant, a temporary, a solver object
};

using Path = std::vector<Cell>;

// Where a search gets its memory from.
enum class Mem { pools, small_pools, audit };
struct Pools;                     // set of resources, see env.hpp

struct Variant {
    const char* solver;
    unsigned rank;
    bool lazy, no_cleanup, reverse, octile;
    const char* types;            // description of weight/scalar/index types
    bool integral_cost;
    Mem  mem;
    unsigned n_heuristics;
    const char* const* heuristics;
    size_t maxcells;              // limit of the index types used
    Path (*run)(const Query&, const RunOpt&, Pools&);
    std::shared_ptr<void> (*prepare)(const Query&);                                   // builds the maze once
    Path (*run_on)(const std::shared_ptr<void>&, const Query&, const RunOpt&, Pools&); // searches a prepared maze
};

std::vector<Variant>& variants();
struct Register { explicit Register(const Variant& v) { variants().push_back(v); } };

// ---- generators ----
struct GenOpt {
    size_t   max_cells = 100;
    size_t   max_free  = ~size_t{0};   // keep at most so many cells active
    size_t   large     = 0;            // now and then a grid of up to this many cells
    unsigned large_in  = 60;           // one case in so many
    unsigned huge_in   = 0;            // one case in so many has more than 65536 cells (where index types allow)
    size_t   huge      = 0;            // the number of cells these may have
    unsigned lengthy_in = 250;          // one case in so many is a corridor of hundreds of steps
    size_t   lengthy   = 0;            // the number of cells these may have
    bool     outside   = false;        // end points may lie outside the grid
};
Query gen_query(pbt::Ctx& c, unsigned rank, const GenOpt& o);
std::string path_str(const Path& p, unsigned rank);
uint64_t mix64(uint64_t x);

// ---- oracles ----
// Checks that `p` is a route of `q`. Endpoints may be left out. Fails the case otherwise. Returns the number of steps of the completed walk.
size_t check_route(pbt::Ctx& c, const Query& q, const Path& p, bool diag, const char* who);

} // namespace sv
