// A01-A04: the memory pools, over generated histories, against a ledger of what the system handed out.
#include <chdr.hpp>
#include "pbt.hpp"
#include <algorithm>
#include <cstdlib>
#include <cstring>
#include <list>
#include <map>
#include <memory_resource>
#include <sanitizer/asan_interface.h>
#include <new>
#include <optional>
#include <string>
#include <vector>
using pbt::Ctx;

// --- the system allocator, recorded while a pool runs ---
namespace ledger {
struct Block { char* p; size_t size, align; int owner; char* base; };
static Block blocks[1 << 16]; static size_t count = 0;      // over-aligned: what pools take their blocks with
static bool armed = false; static int owner = 0; static long plain = 0, fail_at = -1; static unsigned fails = 0, fail_for = 0;
static size_t takes = 0, block_takes = 0, drawn = 0; static char error[200];
static void reset() { count = 0; drawn = 0; armed = false; plain = 0; fail_at = -1; fails = 0; fail_for = 0; takes = block_takes = 0; error[0] = 0; }
static bool refuse() { if (!armed) { return false; } ++takes; if (fail_at < 0) { return false; } if (fail_at > 0) { --fail_at; return false; } ++fails; if (--fail_for == 0) { fail_at = -1; } return true; }
static void* take(size_t n, size_t a) {
    if (n > (size_t{1} << 33) || refuse()) { throw std::bad_alloc(); }
    void* b = nullptr; a = std::max(a, sizeof(void*)); const size_t off = ++drawn % 3 == 0 ? 0 : a;   // not more aligned than asked for, as a rule
    if (posix_memalign(&b, a * 2, n + off + (n + off == 0)) != 0) { throw std::bad_alloc(); }
    ASAN_POISON_MEMORY_REGION(b, off); char* p = static_cast<char*>(b) + off;
    if (count < sizeof(blocks) / sizeof(*blocks)) { blocks[count++] = {p, n, a, armed ? owner : -1, static_cast<char*>(b)}; } else { std::abort(); }
    if (armed) { ++block_takes; }
    return p;
}
static void give(void* p, size_t a) {
    if (p == nullptr) { return; }
    for (size_t i = 0; i < count; ++i) { if (blocks[i].p == p) { if (blocks[i].align != std::max(a, sizeof(void*))) { snprintf(error, sizeof error, "a block of alignment %zu is returned to the system with alignment %zu", blocks[i].align, a); } auto b = blocks[i]; blocks[i] = blocks[--count]; ASAN_UNPOISON_MEMORY_REGION(b.base, static_cast<size_t>(b.p - b.base)); free(b.base); return; } }
    { snprintf(error, sizeof error, "memory is returned to the system that was not taken from it"); return; }
}
}
void* operator new(size_t n) { if (n > (size_t{1} << 33) || ledger::refuse()) { throw std::bad_alloc(); } void* p = malloc(n ? n : 1); if (p == nullptr) { throw std::bad_alloc(); } if (ledger::armed) { ++ledger::plain; } return p; }
void* operator new[](size_t n) { return operator new(n); }
void* operator new(size_t n, std::align_val_t a) { return ledger::take(n, static_cast<size_t>(a)); }
void* operator new[](size_t n, std::align_val_t a) { return ledger::take(n, static_cast<size_t>(a)); }
void operator delete(void* p) noexcept { if (ledger::armed && p) { --ledger::plain; } free(p); }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete(void* p, size_t) noexcept { operator delete(p); }
void operator delete[](void* p, size_t) noexcept { operator delete(p); }
void operator delete(void* p, std::align_val_t a) noexcept { ledger::give(p, static_cast<size_t>(a)); }
void operator delete[](void* p, std::align_val_t a) noexcept { ledger::give(p, static_cast<size_t>(a)); }
void operator delete(void* p, size_t, std::align_val_t a) noexcept { ledger::give(p, static_cast<size_t>(a)); }
void operator delete[](void* p, size_t, std::align_val_t a) noexcept { ledger::give(p, static_cast<size_t>(a)); }

struct Armed { explicit Armed(int owner) { ledger::owner = owner; ledger::takes = ledger::block_takes = 0; ledger::fails = 0; ledger::armed = true; } ~Armed() { ledger::armed = false; ledger::fail_at = -1; } };
enum Kind { MONO, HET, HOM };
template <class P> struct Traits;
template <size_t S, size_t A, size_t H> struct Traits<chdr::monotonic_pool<S, A, H>> { static constexpr Kind kind = MONO; static constexpr size_t stack = S, widest = H; };
template <size_t S, size_t A, size_t H, bool C> struct Traits<chdr::heterogeneous_pool<S, A, H, C>> { static constexpr Kind kind = HET; static constexpr size_t stack = S, widest = H; };
template <size_t S, size_t A, size_t H> struct Traits<chdr::homogeneous_pool<S, A, H>> { static constexpr Kind kind = HOM; static constexpr size_t stack = S, widest = H; };

template <class P> P* construct(void* at, size_t width, size_t capacity) { if constexpr (std::is_constructible_v<P, size_t, size_t>) { if (capacity != 32) { return new (at) P(width, capacity); } } return new (at) P(width); }
struct Live { char* p; size_t size, align; unsigned char fill; bool on_stack; };
template <class P> struct Side {
    alignas(P) unsigned char room[sizeof(P)]; P* pool = nullptr; size_t width = 4096;
    std::vector<Live> live; std::vector<Live> freed;   // freed: known to the pool, not handed out again yet
    size_t size = 0, align = 0;                        // homogeneous: those of the epoch (0: open)
    bool fresh = false, mixed = false;                                // reset, and nothing asked for since
};
template <class P> static void one(Ctx& c, bool faults) {
    constexpr Kind kind = Traits<P>::kind; ledger::reset();
    size_t got = 0, returned = 0, grown = 0, faulted = 0, epochs = 0, reused = 0; unsigned char stamp = 0;
    {
        Side<P> s[2];
        struct Guard { Side<P>* s; ~Guard() { for (int k = 0; k < 2; ++k) { if (s[k].pool) { Armed a(k); s[k].pool->~P(); s[k].pool = nullptr; } } } } guard{s};
        auto make = [&](int k) {
            Side<P>& x = s[k]; const auto pick = c.draw(6); x.width = pick == 0 ? 4096 : pick == 1 ? 2 + c.draw(14) : pick == 2 ? 64 : pick == 3 ? 100 : pick == 4 ? 1 + c.draw(3000) + 1 : 100000;
            const size_t cap = c.one<size_t>({32, 0, 1, 5}); c.note("%d: new pool, width %zu, capacity %zu", k, x.width, cap);
            Armed a(k); x.pool = pick == 0 && cap == 32 ? new (x.room) P() : construct<P>(x.room, x.width, cap); x.width = std::min(x.width, Traits<P>::widest);
            x.live.clear(); x.freed.clear(); x.size = x.align = 0; x.fresh = x.mixed = false;
        };
        make(0); make(1);
        auto intact = [&](const Live& l) { for (size_t i = 0; i < l.size; ++i) { if (static_cast<unsigned char>(l.p[i]) != l.fill) { c.fail("contents", "byte %zu of a block of %zu changed while it was in use", i, l.size); } } };
        auto all_intact = [&](int k) { for (auto& l : s[k].live) { intact(l); } };
        auto ok = [&] { CHECK(ledger::error[0] == 0, "system", "%s", ledger::error); };
        auto in_object = [&](int k, const char* p, size_t n) { auto b = reinterpret_cast<const char*>(s[k].room); return p >= b && p + n <= b + sizeof(P); };
        auto owned = [&](int k) { size_t n = 0; for (size_t i = 0; i < ledger::count; ++i) { n += ledger::blocks[i].owner == k; } return n; };
        auto request = [&](int k, size_t size, size_t align, bool must_fail) {
            Side<P>& x = s[k]; char* p = nullptr; bool failed = false; size_t fails, takes;
            const bool armed_fault = faults && c.chance(1, 3); if (armed_fault) { ledger::fail_at = static_cast<long>(c.draw(3)); ledger::fail_for = c.chance(1, 4) ? 1000 : 1; }
            c.note("%d: allocate %zu aligned %zu%s", k, size, align, armed_fault ? pbt::fmt(", the system fails after %ld requests", ledger::fail_at).c_str() : "");
            { Armed a(k); try { p = static_cast<char*>(x.pool->allocate(size, align)); } catch (const std::bad_alloc&) { failed = true; } fails = ledger::fails; takes = ledger::block_takes; }
            ok();
            if (failed) { CHECK(fails > 0 || must_fail, "refused", "a request for %zu bytes fails although the system gave all it was asked for", size); ++faulted; all_intact(k); return; }
            if (fails > 0) { ++faulted; all_intact(k); }
            CHECK(!must_fail, "granted", "a request for %zu bytes, which the system cannot give, is granted", size);
            CHECK(p != nullptr, "null", "null is returned for %zu bytes", size);
            CHECK(reinterpret_cast<uintptr_t>(p) % align == 0, "alignment", "a block of %zu bytes aligned to %zu is at %zu mod %zu", size, align, static_cast<size_t>(reinterpret_cast<uintptr_t>(p) % align), align);
            const bool on_stack = in_object(k, p, size);
            if (!on_stack) { bool found = false; for (size_t i = 0; i < ledger::count && !found; ++i) { const auto& b = ledger::blocks[i]; found = b.owner == k && p >= b.p && p + size <= b.p + b.size; } CHECK(found, "ownership", "a block of %zu bytes does not lie in memory of the pool", size); }
            for (int o = 0; o < 2; ++o) { for (auto& l : s[o].live) { CHECK(p + size <= l.p || l.p + l.size <= p, "overlap", "a block of %zu bytes overlaps one of %zu bytes at offset %td", size, l.size, p - l.p); } }
            if (kind == HET && takes > 0) { for (auto& f : x.freed) { CHECK(f.size < size || reinterpret_cast<uintptr_t>(f.p) % align != 0, "recycling", "the pool grows for %zu bytes although a freed block of %zu fits", size, f.size); } }
            if (kind == HOM && takes > 0) { CHECK(x.freed.empty(), "recycling", "the pool grows although %zu freed blocks are left", x.freed.size()); }
            if (kind != MONO && takes > 0 && x.fresh) { for (size_t i = 0; i < ledger::count; ++i) { const auto& b = ledger::blocks[i]; if (b.owner == k && !(p >= b.p && p < b.p + b.size) && b.size >= size && reinterpret_cast<uintptr_t>(b.p) % align == 0) { c.fail("recycling-of-reset", "the first request after a reset grows the pool for %zu bytes although it holds a block of %zu", size, b.size); } } }
            c.note("   -> %zu mod 256%s", static_cast<size_t>(reinterpret_cast<uintptr_t>(p) % 256), on_stack ? ", in the object" : ""); x.fresh = false; const auto was = x.freed.size();
            x.freed.erase(std::remove_if(x.freed.begin(), x.freed.end(), [&](const Live& f) { return !(p + size <= f.p || f.p + f.size <= p); }), x.freed.end()); reused += was != x.freed.size();
            if (kind == HET) { if (x.size == 0) { x.size = size; x.align = align; } x.mixed |= x.size != size || x.align != align; if (x.mixed) { x.freed.clear(); } }   // what else it was cut for may use it up
            Live l{p, size, align, static_cast<unsigned char>(++stamp * 37 + 1), on_stack}; memset(p, l.fill, size); x.live.push_back(l); ++got; grown += takes > 0;
        };
        const unsigned narrow = static_cast<unsigned>(c.draw(3)), frees = c.one<unsigned>({8, 2, 18});
        auto a_size = [&]() -> size_t { switch (narrow) { case 0: return 1 + c.draw(64); case 1: { const auto w = c.draw(8); return w == 0 ? 1 + c.draw(6000) : w < 3 ? 1 + c.draw(700) : 1 + c.draw(80); } default: return size_t{1} << c.draw(11); } };
        auto an_align = [&]() -> size_t { const auto w = c.draw(8); return w < 4 ? size_t{8} : w < 7 ? size_t{1} << c.draw(5) : size_t{1} << c.draw(8); };
        const size_t constant = kind == HET && c.chance(1, 4) ? a_size() : 0, constant_align = an_align();
        auto forget = [&](int k) { s[k].live.clear(); s[k].freed.clear(); s[k].size = s[k].align = 0; s[k].mixed = false; };
        auto drop_stack = [&](Side<P>& x) { auto f = [](const Live& l) { return l.on_stack; }; x.live.erase(std::remove_if(x.live.begin(), x.live.end(), f), x.live.end()); x.freed.erase(std::remove_if(x.freed.begin(), x.freed.end(), f), x.freed.end()); };
        const size_t steps = 1 + c.draw(c.chance(1, 4) ? 300 : 60);
        for (size_t t = 0; t < steps; ++t) {
            const int k = static_cast<int>(c.draw(2) && c.draw(2)), o = 1 - k; Side<P>& x = s[k];
            switch (c.pick({24, frees, 2, 1, 2, 1, 1})) {
                case 0: {
                    if (kind == HOM) {
                        if (x.size == 0) { x.size = c.chance(1, 3) ? x.width - c.draw(std::min<size_t>(x.width, 4)) : std::min(x.width, a_size()); if (x.align == 0) { x.align = an_align(); } c.label("epoch of %s blocks", x.size % x.align ? "unaligned" : "aligned"); }
                        for (size_t many = c.chance(1, 6) ? 1 + c.draw(40) : 1; many > 0; --many) { request(k, x.size, x.align, false); }
                    }
                    else if (faults && c.chance(1, 12)) { const size_t huge = (size_t{1} << (40 + c.draw(24))) - c.draw(3); request(k, huge, an_align(), true); }
                    else { const size_t n = constant ? constant : a_size(), a = constant ? constant_align : an_align(); for (size_t many = c.chance(1, 6) ? 1 + c.draw(30) : 1; many > 0; --many) { request(k, n, a, false); } }
                    break; }
                case 1: {
                    for (size_t many = c.chance(1, 6) ? 1 + c.draw(40) : 1; many > 0 && !x.live.empty(); --many) {
                        const size_t i = x.live.size() - 1 - c.draw(x.live.size()); Live l = x.live[i]; x.live.erase(x.live.begin() + static_cast<long>(i)); intact(l); ++returned; size_t fails;
                        if (faults && c.chance(1, 4)) { ledger::fail_at = 0; ledger::fail_for = 1; }
                        c.note("%d: free one of %zu aligned %zu", k, l.size, l.align); memset(l.p, 0xEE, l.size);
                        { Armed a(k); x.pool->deallocate(l.p, l.size, l.align); fails = ledger::fails; } ok(); faulted += fails > 0;
                        if (kind == MONO) { x.live.push_back({l.p, l.size, l.align, 0xEE, l.on_stack}); many = 1; }   // stays taken until reset
                        else if (fails > 0) { x.freed.clear(); }   // what it was merged with may be out of use with it
                        else if (kind == HOM || !l.on_stack) { x.freed.push_back(l); }
                    }
                    break; }
                case 2: { c.note("%d: reset", k); all_intact(k); const auto align = x.align; const auto had = owned(k); size_t fails;
                    if (faults && c.chance(1, 2)) { ledger::fail_at = static_cast<long>(c.draw(3)); ledger::fail_for = 1; }
                    { Armed a(k); x.pool->reset(); fails = ledger::fails; } ok(); faulted += fails > 0; forget(k); x.align = align; ++epochs;
                    if (fails == 0) { if (kind != MONO) { CHECK(owned(k) == had, "reset", "a reset changes the number of blocks held from %zu to %zu", had, owned(k)); x.fresh = true; } } else if (kind == HOM && owned(k) == 0) { x.align = align; } break; }
                case 3: { c.note("%d: release", k); all_intact(k); { Armed a(k); x.pool->release(); } ok(); forget(k); x.fresh = false; ++epochs; CHECK(owned(k) == 0, "release", "%zu blocks are held after a release", owned(k)); break; }
                case 4: { if (c.chance(1, 8)) { c.note("%d: assigned to itself", k); { Armed a(k); auto& y = *x.pool; *x.pool = std::move(y); } ok(); all_intact(k); break; }
                    c.note("%d: assigned by move from %d", k, o); all_intact(0); all_intact(1);
                    { Armed a(k); *x.pool = std::move(*s[o].pool); }
                    ok(); CHECK(owned(k) == 0, "assignment", "%zu blocks are left of the pool assigned to", owned(k)); for (size_t i = 0; i < ledger::count; ++i) { if (ledger::blocks[i].owner == o) { ledger::blocks[i].owner = k; } }
                    x.live = std::move(s[o].live); x.freed = std::move(s[o].freed); x.size = s[o].size; x.align = s[o].align; x.width = s[o].width; x.fresh = s[o].fresh; x.mixed = s[o].mixed; drop_stack(x); forget(o); s[o].fresh = false; all_intact(k);
                    if (c.chance(1, 2)) { c.note("%d: release", o); Armed a(o); s[o].pool->release(); } else if (kind == HOM) { s[o].align = x.align; }
                    ++epochs; break; }
                case 5: { c.note("%d: replaced by one constructed by move from %d", k, o); all_intact(0); all_intact(1);
                    { Armed a(k); x.pool->~P(); x.pool = nullptr; } ok(); CHECK(owned(k) == 0, "leak", "%zu blocks are left of a pool destroyed", owned(k));
                    { Armed a(k); x.pool = new (x.room) P(std::move(*s[o].pool)); } ok(); for (size_t i = 0; i < ledger::count; ++i) { if (ledger::blocks[i].owner == o) { ledger::blocks[i].owner = k; } }
                    x.live = std::move(s[o].live); x.freed = std::move(s[o].freed); x.size = s[o].size; x.align = s[o].align; x.width = s[o].width; x.fresh = s[o].fresh; x.mixed = s[o].mixed; drop_stack(x); forget(o); s[o].fresh = false; all_intact(k);
                    if (kind == HOM) { s[o].align = x.align; } ++epochs; break; }
                default: { c.note("%d: replaced", k); all_intact(k); { Armed a(k); x.pool->~P(); x.pool = nullptr; } ok(); CHECK(owned(k) == 0, "leak", "%zu blocks are left of a pool destroyed", owned(k)); make(k); }
            }
            CHECK(s[0].pool->is_equal(*s[0].pool) && !s[0].pool->is_equal(*s[1].pool), "equality", "a pool is not equal to itself only");
        }
        all_intact(0); all_intact(1);
        for (int k = 0; k < 2; ++k) { Armed a(k); s[k].pool->~P(); s[k].pool = nullptr; }
        ok();
    }
    CHECK(ledger::count == 0 && ledger::plain == 0, "leak", "%zu blocks and %ld further pieces of memory are left when the pools are destroyed", ledger::count, ledger::plain);
    if (faults ? faulted > 0 && got > 4 : got > 8 && grown > 0 && (kind == MONO || returned > 1)) { c.nontrivial(); }
    c.label("%s%s%s", grown ? "grows" : "stays small", epochs ? ", several epochs" : "", reused ? ", memory reused" : ""); if (faults) { c.label("%s", faulted ? "the system failed" : "the system never failed"); }
}
// Many blocks of one pool: tens of thousands of them, large amounts of memory.
template <class P> static void large(Ctx& c) {
    constexpr Kind kind = Traits<P>::kind; ledger::reset(); size_t got = 0, returned = 0, peak = 0, recycled = 0;
    uint64_t q = c.draw(1U << 30); auto rnd = [&](uint64_t k) { q += 0x9E3779B97F4A7C15ULL; uint64_t z = q; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; return (z ^ (z >> 31)) % k; };
    struct Piece { size_t size, align; unsigned char fill; };
    {
        alignas(P) static unsigned char room[sizeof(P)]; const size_t width = c.one<size_t>({4096, 64, 1000, 100000}); P* pool; { Armed a(0); pool = new (room) P(width); }
        struct Guard { P*& p; ~Guard() { Armed a(0); p->~P(); } } guard{pool};
        std::map<char*, Piece> live; std::vector<char*> order; size_t freed = 0; const auto sizes = c.draw(3); const size_t least = std::min(width, Traits<P>::widest);
        size_t constant = kind == HOM ? 1 + c.draw(std::min<size_t>(least, 64)) : sizes == 0 ? 8 + c.draw(60) : 0; const size_t constant_align = size_t{1} << c.draw(5); if (kind == HOM && c.chance(1, 4)) { constant = least; }
        auto take = [&] {
            const size_t n = constant ? constant : sizes == 1 ? 1 + rnd(80) : rnd(50) == 0 ? 1 + rnd(70000) : 1 + rnd(200), al = constant ? constant_align : size_t{1} << rnd(5); char* p; size_t takes;
            { Armed a(0); p = static_cast<char*>(pool->allocate(n, al)); takes = ledger::block_takes; }
            CHECK(p != nullptr && reinterpret_cast<uintptr_t>(p) % al == 0, "alignment", "a block of %zu bytes aligned to %zu is not aligned", n, al);
            bool found = reinterpret_cast<unsigned char*>(p) >= room && reinterpret_cast<unsigned char*>(p) + n <= room + sizeof room; for (size_t i = ledger::count; i-- > 0 && !found;) { const auto& b = ledger::blocks[i]; found = b.owner == 0 && p >= b.p && p + n <= b.p + b.size; } CHECK(found, "ownership", "a block of %zu bytes does not lie in memory of the pool", n);
            auto f = live.lower_bound(p); CHECK(f == live.end() || p + n <= f->first, "overlap", "a block of %zu bytes overlaps one of %zu bytes among %zu", n, f->second.size, live.size());
            if (f != live.begin()) { --f; CHECK(f->first + f->second.size <= p, "overlap", "a block of %zu bytes overlaps one of %zu bytes among %zu", n, f->second.size, live.size()); }
            if (kind == HOM || (kind == HET && constant)) { CHECK(takes == 0 || freed == 0, "recycling", "the pool grows although %zu freed blocks of the same size are left", freed); if (freed) { --freed; ++recycled; } }
            const auto fill = static_cast<unsigned char>(rnd(256)); memset(p, fill, n); live[p] = {n, al, fill}; order.push_back(p); ++got; peak = std::max(peak, live.size());
        };
        auto intact = [&](char* p, const Piece& l) { for (size_t i = 0; i < l.size; ++i) { if (static_cast<unsigned char>(p[i]) != l.fill) { c.fail("contents", "byte %zu of a block of %zu changed while it was in use, among %zu", i, l.size, live.size()); } } };
        auto give = [&](size_t i) { char* p = order[i]; auto f = live.find(p); intact(p, f->second); const auto l = f->second; memset(p, 0xEE, l.size); live.erase(f); order[i] = order.back(); order.pop_back(); { Armed a(0); pool->deallocate(p, l.size, l.align); } ++returned; if (reinterpret_cast<unsigned char*>(p) < room || reinterpret_cast<unsigned char*>(p) >= room + sizeof room || kind == HOM) { ++freed; } };
        const size_t most = std::min<size_t>(c.one<size_t>({300, 3000, 30000}), constant > 64 ? 3000 : 30000);
        auto start = [&] { live.clear(); order.clear(); freed = 0; };
        for (size_t t = 0, steps = 1 + c.draw(8); t < steps; ++t) {
            switch (c.pick({6, kind == MONO ? 0U : 5U, 2, 1})) {
                case 0: { const size_t n = 1 + c.draw(most); c.note("allocate %zu blocks", n); for (size_t i = 0; i < n; ++i) { take(); } break; }
                case 1: { const size_t n = 1 + c.draw(most); const auto how = c.draw(3); c.note("free %zu blocks and take some", n); for (size_t i = 0; i < n && !order.empty(); ++i) { give(how == 0 ? order.size() - 1 : how == 1 ? 0 : rnd(order.size())); if (rnd(4) == 0) { take(); } } break; }
                case 2: { c.note("reset"); for (auto& [p, l] : live) { intact(p, l); } { Armed a(0); pool->reset(); } start(); break; }
                default: { c.note("release"); for (auto& [p, l] : live) { intact(p, l); } { Armed a(0); pool->release(); } start(); CHECK(ledger::count == 0 || [&] { for (size_t i = 0; i < ledger::count; ++i) { if (ledger::blocks[i].owner == 0) { return false; } } return true; }(), "release", "blocks are held after a release"); break; }
            }
            CHECK(ledger::error[0] == 0, "system", "%s", ledger::error);
        }
        for (auto& [p, l] : live) { intact(p, l); }
    }
    CHECK(ledger::error[0] == 0, "system", "%s", ledger::error); CHECK(ledger::count == 0 && ledger::plain == 0, "leak", "%zu blocks and %ld further pieces of memory are left when the pool is destroyed", ledger::count, ledger::plain);
    if (peak > 300 && (kind == MONO || returned > 100)) { c.nontrivial(); } c.label("large: up to %s blocks at once%s", peak > 10000 ? "more than 10000" : peak > 256 ? "10000" : "256", recycled ? ", recycled" : "");
}
// Standard containers on a pool against the same containers on the default resource.
template <class P> static void containers(Ctx& c) {
    ledger::reset();
    { P pool(2 + c.draw(600));
        for (size_t round = 0, rounds = 1 + c.draw(3); round < rounds; ++round) {
            {
                std::pmr::vector<int> v(&pool); std::vector<int> mv; std::pmr::map<int, std::pmr::string> m(&pool); std::map<int, std::string> mm; std::pmr::list<double> l(&pool); std::list<double> ml; int n = 0; size_t erased = 0;
                for (size_t t = 0, steps = 1 + c.draw(80); t < steps; ++t) {
                    ++n;
                    switch (c.draw(7)) {
                        case 0: { for (size_t i = 1 + c.draw(20); i > 0; --i) { v.push_back(n); mv.push_back(n); } break; }
                        case 1: { v.resize(v.size() / 2); v.shrink_to_fit(); mv.resize(mv.size() / 2); ++erased; break; }
                        case 2: case 3: { const int key = static_cast<int>(c.draw(12)); const std::string x(c.draw(70), static_cast<char>('a' + n % 26)); m[key] = x.c_str(); mm[key] = x; break; }
                        case 4: { const int key = static_cast<int>(c.draw(12)); m.erase(key); erased += mm.erase(key); break; }
                        case 5: { l.push_front(n); ml.push_front(n); break; }
                        default: { if (!ml.empty()) { l.pop_back(); ml.pop_back(); ++erased; } }
                    }
                    CHECK(std::equal(v.begin(), v.end(), mv.begin(), mv.end()), "vector", "a vector on the pool differs from a vector");
                    CHECK(std::equal(m.begin(), m.end(), mm.begin(), mm.end(), [](auto& a, auto& b) { return a.first == b.first && std::string_view(a.second) == b.second; }), "map", "a map on the pool differs from a map");
                    CHECK(std::equal(l.begin(), l.end(), ml.begin(), ml.end()), "list", "a list on the pool differs from a list");
                }
                if (erased > 2 && mv.size() + mm.size() + ml.size() > 8) { c.nontrivial(); }
            }
            if (c.chance(1, 2)) { pool.reset(); } else { pool.release(); }
        }
    }
}
template <size_t S, size_t A = SIZE_MAX, size_t H = 65536> using Mono = chdr::monotonic_pool<S, A, H>;
template <size_t S, size_t A = SIZE_MAX, size_t H = 65536, bool C = true> using Het = chdr::heterogeneous_pool<S, A, H, C>;
template <size_t S, size_t A = SIZE_MAX, size_t H = 65536> using Hom = chdr::homogeneous_pool<S, A, H>;
template <class P> static void plain(Ctx& c) { one<P>(c, false); }
template <class P> static void faulty(Ctx& c) { one<P>(c, true); }
namespace pbt {
const char* harness_rule() { return PROP == 4
    ? "A case is a history of up to 300 operations (allocate, free, reset, release, move, self-move, destroy) over two pools of one kind and block-size setting, with system requests made to fail at drawn positions; every block is filled and compared, and checked against a ledger of system memory. Non-trivial: at least one system request failed and more than four blocks were handed out."
    : "A case is a history of up to 300 operations (allocate, free, reset, release, move, self-move, destroy) over two pools of one kind and block-size setting; every block is filled and compared, and checked against a ledger of system memory. Non-trivial: more than eight blocks handed out, the pool grew and (unless monotonic) blocks were freed; for containers on a pool: more than two elements removed and more than eight kept; in the large- targets (up to eight bursts of up to 30000 blocks): more than 300 blocks at once and 100 freed."; }
#define L(N, ...) {N, large<__VA_ARGS__>, 40, 3000},
constexpr uint64_t quick_cases = PROP >= 3 ? 6000 : 20000;
#define T(F, N, ...) {N, F<__VA_ARGS__>, quick_cases, 500000},
std::vector<Target> harness_targets() {
    return {
#if PROP == 1
        T(plain, "default", Mono<4096>) T(plain, "small", Mono<256, 128, 2048>) T(plain, "no-stack", Mono<1>) T(plain, "tiny-blocks", Mono<64, SIZE_MAX, 64>) T(plain, "small-on-stack", Mono<1024, 33>) L("large-default", Mono<4096>) L("large-narrow", Mono<256, 128, 2048>) T(plain, "large", Mono<8192, SIZE_MAX, 1048576>)
#elif PROP == 2
        T(plain, "default", Het<4096>) T(plain, "small", Het<256, 128, 2048>) T(plain, "no-stack", Het<1>) T(plain, "tiny-blocks", Het<64, SIZE_MAX, 64>) T(plain, "no-coalescing", Het<128, SIZE_MAX, 4096, false>) T(plain, "small-on-stack", Het<1024, 33>) L("large-default", Het<4096>) L("large-narrow", Het<256, 128, 2048>) L("large-no-coalescing", Het<128, SIZE_MAX, 4096, false>)
        T(containers, "containers", Het<512, SIZE_MAX, 4096>) T(containers, "containers-no-coalescing", Het<1, SIZE_MAX, 65536, false>)
#elif PROP == 3
        T(plain, "default", Hom<4096>) T(plain, "small", Hom<256, 128, 2048>) T(plain, "no-stack", Hom<1>) T(plain, "tiny-blocks", Hom<64, SIZE_MAX, 64>) T(plain, "small-on-stack", Hom<1024, 33>) L("large-default", Hom<4096>) L("large-narrow", Hom<256, 128, 2048>) T(plain, "large", Hom<8192, SIZE_MAX, 1048576>)
#else
        T(faulty, "monotonic", Mono<4096>) T(faulty, "monotonic-small", Mono<256, 128, 2048>) T(faulty, "monotonic-no-stack", Mono<1>)
        T(faulty, "heterogeneous", Het<4096>) T(faulty, "heterogeneous-small", Het<256, 128, 2048>) T(faulty, "heterogeneous-no-coalescing", Het<1, SIZE_MAX, 65536, false>)
        T(faulty, "homogeneous", Hom<4096>) T(faulty, "homogeneous-small", Hom<256, 128, 2048>) T(faulty, "homogeneous-no-stack", Hom<1>)
#endif
    };
}
std::vector<std::string> harness_assumptions() { return {"a pool is constructed while the system has memory", "requests are for at least one byte", "blocks inside of the pool object do not survive its being moved", "a homogeneous pool keeps its alignment until released, and its requests do not exceed the width it was made with"}; }
}
