// Memory resources for searches: the library's pools (default and small blocks) and an auditing resource.
#pragma once
#include <chdr.hpp>
#include "pbt.hpp"
#include <cstdlib>
#include <cstring>
#include <map>
#include <memory>
#include <unordered_map>

namespace sv {

struct refusal { unsigned serial; };                                            // failures of kinds of their own
struct reset_failure : std::exception { const void* who; explicit reset_failure(const void* w) : who(w) {} };
// Hands out individually malloc'ed (so sanitizer-guarded) blocks and keeps a ledger of them. Freed blocks are really freed.
class audit_resource final : public std::pmr::memory_resource {
public:
    struct Blk { size_t bytes, align; };
    const char* name = "?";
    std::unordered_map<void*, Blk> live;
    std::string error;                      // first breach of contract
    uint64_t    allocs = 0, frees = 0, resets = 0;
    uint64_t    fail_at = ~0ULL;            // index of the allocation that throws ...
    bool        fail_forever = false;       // ... and all after it
    uint64_t    thrown = 0;
    unsigned    fail_kind = 0;              // 0: std::bad_alloc, 1: refusal, 2: unsigned
    bool        reset_fails = false;        // reset() throws, after having done its work
    size_t      live_peak = 0;
    struct Sum { size_t live = 0, peak = 0; };
    std::shared_ptr<Sum> sum;               // blocks of several resources held at once

    audit_resource() = default;
    ~audit_resource() override { drop(); }
    void reset()   { ++resets; drop(); if (reset_fails) { throw reset_failure(this); } }
    void release() { ++resets; drop(); }
    void drop() { if (sum) { sum->live -= live.size(); } for (auto& [p, b] : live) { std::free(p); } live.clear(); }
protected:
    void* do_allocate(size_t bytes, size_t align) override {
        const auto i = allocs++;
        if (i == fail_at || (fail_forever && i > fail_at)) { ++thrown; if (fail_kind == 1) { throw refusal{static_cast<unsigned>(i)}; } if (fail_kind == 2) { throw static_cast<unsigned>(i); } throw std::bad_alloc(); }
        if (align == 0 || (align & (align - 1)) != 0) { note("allocation with an alignment that is no power of two"); align = 16; }
        void* p = nullptr;
        if (posix_memalign(&p, std::max(align, sizeof(void*)), std::max<size_t>(bytes, 1)) != 0) { throw std::bad_alloc(); }
        memset(p, 0xA5, bytes);
        live[p] = {bytes, align};
        live_peak = std::max(live_peak, live.size());
        if (sum) { sum->peak = std::max(sum->peak, ++sum->live); }
        return p;
    }
    void do_deallocate(void* p, size_t bytes, size_t align) override {
        ++frees;
        if (p == nullptr && bytes == 0) { return; }
        auto it = live.find(p);
        if (it == live.end()) { note("deallocation of a block this resource does not own (foreign, freed twice, or freed after reset)"); return; }
        if (it->second.bytes != bytes || it->second.align != align) {
            note(pbt::fmt("deallocation of a block of %zu bytes, alignment %zu, as %zu bytes, alignment %zu", it->second.bytes, it->second.align, bytes, align).c_str());
        }
        live.erase(it); std::free(p); if (sum) { --sum->live; }
    }
    bool do_is_equal(const memory_resource& o) const noexcept override { return this == &o; }
private:
    void note(const char* m) { if (error.empty()) { error = m; } }
};

using mono_d  = chdr::monotonic_pool<>;
using het_d   = chdr::heterogeneous_pool<>;
using homo_d  = chdr::homogeneous_pool<>;
using mono_s  = chdr::monotonic_pool<256U, 128U, 2048U>;
using het_s   = chdr::heterogeneous_pool<256U, 128U, 2048U>;
using homo_s  = chdr::homogeneous_pool<256U, 128U, 2048U>;

template <class A, class B, class C> struct PoolSet { A mono; B het; C homo; void reset() { mono.reset(); het.reset(); homo.reset(); } void release() { mono.release(); het.release(); homo.release(); } };

struct SmallSet { mono_s mono{512U}; het_s het{512U}; homo_s homo{512U}; void reset() { mono.reset(); het.reset(); homo.reset(); } void release() { mono.release(); het.release(); homo.release(); } };

struct Pools {
    std::unique_ptr<PoolSet<mono_d, het_d, homo_d>> def;
    std::unique_ptr<SmallSet> small;
    std::unique_ptr<PoolSet<audit_resource, audit_resource, audit_resource>> audit;
    PoolSet<mono_d, het_d, homo_d>& d() { if (!def) { def = std::make_unique<PoolSet<mono_d, het_d, homo_d>>(); } return *def; }
    SmallSet& s() { if (!small) { small = std::make_unique<SmallSet>(); } return *small; }
    PoolSet<audit_resource, audit_resource, audit_resource>& a() {
        if (!audit) { audit = std::make_unique<PoolSet<audit_resource, audit_resource, audit_resource>>(); audit->mono.name = "monotonic"; audit->het.name = "heterogeneous"; audit->homo.name = "homogeneous"; audit->het.sum = audit->homo.sum = std::make_shared<audit_resource::Sum>(); }
        return *audit;
    }
    void reset_all() { if (def) { def->reset(); } if (small) { small->reset(); } if (audit) { audit->reset(); } }
};

} // namespace sv
