#include "pbt.hpp"

#include <algorithm>
#include <atomic>
#include <chrono>
#include <csignal>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <filesystem>
#include <fstream>
#include <iostream>
#include <memory>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>
#include <unordered_set>

// ---- sanitizer coverage (present only if the harness is compiled with inline-8bit-counters) ----
namespace { struct Range { uint8_t* b; uint8_t* e; }; std::vector<Range>& cov() { static std::vector<Range> v; return v; } }
extern "C" void __sanitizer_cov_8bit_counters_init(uint8_t* b, uint8_t* e) {
    for (auto& r : cov()) { if (r.b == b) { return; } }
    if (b != e) { cov().push_back({b, e}); }
}
extern "C" void __sanitizer_cov_pcs_init(const uintptr_t*, const uintptr_t*) {}
extern "C" __attribute__((weak)) int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*));
extern "C" __attribute__((weak)) size_t __sanitizer_get_allocated_size(const volatile void*);

namespace pbt {

std::string vfmt(const char* f, va_list ap) {
    va_list aq; va_copy(aq, ap);
    const int n = vsnprintf(nullptr, 0, f, aq); va_end(aq);
    std::string s(static_cast<size_t>(n), ' ');
    vsnprintf(s.data(), static_cast<size_t>(n) + 1U, f, ap);
    return s;
}
std::string fmt(const char* f, ...) { va_list ap; va_start(ap, f); auto s = vfmt(f, ap); va_end(ap); return s; }

static uint64_t mix(uint64_t z) {
    z += 0x9e3779b97f4a7c15ULL; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31);
}
uint64_t Ctx::next_random() { rng += 0x9e3779b97f4a7c15ULL; return mix(rng); }

uint64_t Ctx::draw(uint64_t n) {
    if (n == 0U) { n = 1U; }
    uint64_t v = 0;
    if (pos < in.size())  { v = in[pos] % n; }
    else if (fresh)       { v = n == ~0ULL ? next_random() : static_cast<uint64_t>((static_cast<unsigned __int128>(next_random()) * n) >> 64); }
    ++pos;
    if (out) {
        if (*out_len >= out_cap) { throw Discard{}; }
        out[*out_len] = v; ++*out_len;
    }
    return v;
}
uint64_t Ctx::bits() {
    switch (draw(6)) {
        case 0:  return draw(16);
        case 1:  return draw(1U << 16);
        case 2:  return draw(~0ULL);
        case 3:  { const auto s = draw(64); const auto d = draw(3); return (1ULL << s) + d - 1U; }
        case 4:  { const auto d = draw(4); return ~0ULL - d; }
        default: { const auto s = draw(64); return draw(~0ULL) >> s; }
    }
}
size_t Ctx::pick(std::initializer_list<unsigned> w) {
    unsigned t = 0; for (auto x : w) { t += x; }
    auto r = draw(t); size_t i = 0;
    for (auto x : w) { if (r < x) { return i; } r -= x; ++i; }
    return 0;
}
void Ctx::fail(const char* key, const char* f, ...) { va_list ap; va_start(ap, f); auto s = vfmt(f, ap); va_end(ap); throw Failure{key, s}; }
void Ctx::note(const char* f, ...) { if (!describing) { return; } va_list ap; va_start(ap, f); auto t = vfmt(f, ap) + '\n'; va_end(ap); text += t;
    if (sink && sink_len + t.size() < sink_cap) { memcpy(sink + sink_len, t.data(), t.size()); sink_len += t.size(); sink[sink_len] = 0; } }
void Ctx::label(const char* f, ...) { if (!labels) { return; } va_list ap; va_start(ap, f); ++(*labels)[vfmt(f, ap)]; va_end(ap); }

// ---- heap accounting ----
static std::atomic<size_t> g_live{0}, g_blocks{0}, g_peak_limit{3ULL << 30};
static void hang_exit(int code, const char* what);
static void on_malloc(const volatile void* p, size_t n) {
    if (!p) { return; }
    g_blocks.fetch_add(1, std::memory_order_relaxed);
    if (static_cast<int64_t>(g_live.fetch_add(n, std::memory_order_relaxed) + n) > static_cast<int64_t>(g_peak_limit.load(std::memory_order_relaxed))) {   // signed: blocks from before the hooks are freed too
        hang_exit(78, "memory blow-up (3 GiB live)\n"); }
}
static void on_free(const volatile void* p) {
    if (!p) { return; }
    g_blocks.fetch_sub(1, std::memory_order_relaxed);
    g_live.fetch_sub(__sanitizer_get_allocated_size(p), std::memory_order_relaxed);
}
size_t live_bytes()  { return g_live.load(); }
size_t live_blocks() { return g_blocks.load(); }
thread_local bool count_allocs = true;

static void hang_exit(int code, const char* what) {
    [[maybe_unused]] auto r = write(2, what, strlen(what));
    _exit(code);
}
static void on_timer(int) { hang_exit(77, "case did not end within its limit\n"); }
static void arm(unsigned seconds) {
    itimerval tv{}; tv.it_value.tv_sec = seconds;
    setitimer(ITIMER_PROF, &tv, nullptr);
    tv.it_value.tv_sec = seconds * 4L;              // threads that wait for each other use no CPU time
    setitimer(ITIMER_REAL, &tv, nullptr);
}

// ---- shared state of one worker ----
constexpr size_t TAPE_CAP = 1U << 16;
struct Slot {
    std::atomic<uint64_t> evaluations, discards, nontrivial, busy, finished, failed;
    uint64_t target, index;
    size_t   len;
    char     key[128];
    char     msg[2048];
    uint64_t tape[TAPE_CAP];
};

struct Options {
    std::string property = "X00", tier = "quick", evidence, replay_dir = ".", replay, known;
    uint64_t seed = 1; unsigned workers = 8; double budget = 600; bool survey = false; std::string only; double scale = 1.0;
    unsigned reproduce = 3, tries = 12;
    bool races = false;        // a race report counts without being reproduced
    bool skip_hangs = false;   // a case that exceeds its CPU limit says nothing about this property
} opt;

static std::vector<Target> targets;
using Tape = std::vector<uint64_t>;

enum Outcome { PASS = 0, FAIL = 1, DISCARDED = 2, CRASH = 3, HANG = 4 };

struct CaseResult { Outcome o = PASS; std::string key, msg, text; bool nontriv = false; Tape tape; };

static CaseResult run_inproc(const Target& t, Ctx& c) {
    CaseResult r;
    arm(default_cpu_limit);
    try { t.fn(c); }
    catch (const Failure& f) { r.o = FAIL; r.key = f.key; r.msg = f.msg; }
    catch (const Discard&)   { r.o = DISCARDED; }
    catch (const std::exception& e) { r.o = FAIL; r.key = "unexpected-exception"; r.msg = std::string("unexpected exception: ") + e.what(); }
    arm(0);
    r.text = std::move(c.text); r.nontriv = c.nontriv;
    return r;
}

// Runs one tape in a child process; everything the child reports comes back through `shm`.
struct Shm { size_t len; int outcome; bool nontriv; char key[128]; char msg[4096]; char text[1 << 20]; uint64_t tape[TAPE_CAP]; };
static Shm* shm = nullptr;
static Shm* get_shm() {
    if (!shm) { shm = static_cast<Shm*>(mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0)); }
    return shm;
}

// Cases run before a failing one in the same process, when it fails only after them: target and random seed of each.
static std::vector<std::pair<size_t, uint64_t>> prelude;
static void run_prelude() {
    static uint64_t scratch[TAPE_CAP]; static size_t len;
    for (auto [ti, rng] : prelude) { len = 0; Ctx c; c.rng = rng; c.out = scratch; c.out_len = &len; c.out_cap = TAPE_CAP; run_inproc(targets[ti], c); }
}

static CaseResult run_forked(size_t ti, const Tape& tape, bool describe, const std::string& errfile, unsigned cpu = 0) {
    auto* s = get_shm();
    s->len = 0; s->outcome = CRASH; s->key[0] = s->msg[0] = s->text[0] = 0; s->nontriv = false;
    fflush(nullptr);
    const pid_t pid = fork();
    if (pid == 0) {
        const int fd = open(errfile.empty() ? "/dev/null" : errfile.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
        dup2(fd, 2); dup2(fd, 1);
        if (cpu) { default_cpu_limit = cpu; }
        run_prelude();
        Ctx c; c.in = tape; c.fresh = false; c.describing = describe;
        c.out = s->tape; c.out_len = &s->len; c.out_cap = TAPE_CAP; c.sink = s->text; c.sink_cap = sizeof s->text;
        auto r = run_inproc(targets[ti], c);
        s->nontriv = r.nontriv;
        snprintf(s->key, sizeof s->key, "%s", r.key.c_str());
        snprintf(s->msg, sizeof s->msg, "%s", r.msg.c_str());
        snprintf(s->text, sizeof s->text, "%s", r.text.c_str());
        s->outcome = r.o;
        _exit(0);
    }
    int st = 0; waitpid(pid, &st, 0);
    CaseResult r;
    r.tape.assign(s->tape, s->tape + s->len);
    r.text = s->text;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { r.o = static_cast<Outcome>(s->outcome); r.key = s->key; r.msg = s->msg; r.text = s->text; r.nontriv = s->nontriv; }
    else if (WIFEXITED(st) && WEXITSTATUS(st) == 77) { r.o = HANG;  r.key = "endless"; r.msg = "the case did not end within its CPU limit"; }
    else if (WIFEXITED(st) && WEXITSTATUS(st) == 78) { r.o = HANG;  r.key = "memory-blow-up"; r.msg = "the case allocated more than 3 GiB"; }
    else {
        r.o = CRASH; r.key = "crash";
        r.msg = WIFSIGNALED(st) ? fmt("killed by signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st))) : fmt("exited with status %d (sanitizer report or abort)", WEXITSTATUS(st));
    }
    return r;
}
static bool bad(Outcome o) { return o == FAIL || o == CRASH || o == HANG; }

// ---- known findings: lines "KNOWN-FINDING: property=<id> <name>: <what fails>"; the harness provides a case of that name ----
static void known_findings() {
    std::ifstream f(opt.known); std::string l; const std::string head = "KNOWN-FINDING: property=" + opt.property + " ";
    while (std::getline(f, l)) {
        if (l.compare(0, head.size(), head) != 0) { continue; }
        const auto name = l.substr(head.size(), l.find(':', head.size()) - head.size()); bool found = false;
        for (auto& k : harness_known ? harness_known() : std::vector<Target>{}) {
            if (name != k.name) { continue; }
            found = true; targets.push_back(k); const auto r = run_forked(targets.size() - 1, {}, false, ""); targets.pop_back();
            if (bad(r.o)) { printf("%s\n", l.c_str()); } else { printf("note: the listed finding %s does not fail any more\n", name.c_str()); }
        }
        if (!found) { printf("note: no case for the listed finding %s\n", name.c_str()); }
    }
    fflush(stdout);
}

static Tape shrink(size_t ti, Tape best, const std::string& key, Outcome o, double seconds) {
    const auto t0 = std::chrono::steady_clock::now();
    auto left = [&] { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() < seconds; };
    const unsigned cpu = o == HANG ? std::min(default_cpu_limit, 4U) : 0U;
    auto attempt = [&](const Tape& cand) {
        if (!left()) { return false; }
        auto r = run_forked(ti, cand, false, "", cpu);
        if (!bad(r.o) || r.key != key) { return false; }
        // accept only if simpler (shorter, or lexicographically smaller)
        Tape n = r.tape.empty() ? cand : r.tape;
        if (r.o != FAIL) { n = r.tape; }
        while (!n.empty() && n.back() == 0U) { n.pop_back(); }
        if (n.size() < best.size() || (n.size() == best.size() && n < best)) { best = n; return true; }
        return false;
    };
    while (!best.empty() && best.back() == 0U) { best.pop_back(); }
    bool progress = true;
    while (progress && left()) {
        progress = false;
        for (size_t blk : {size_t(64), size_t(32), size_t(16), size_t(8), size_t(4), size_t(3), size_t(2), size_t(1)}) {        // delete blocks
            for (size_t i = best.size(); i-- > 0 && left();) {
                if (i + blk > best.size()) { continue; }
                Tape c(best); c.erase(c.begin() + static_cast<long>(i), c.begin() + static_cast<long>(i + blk));
                if (attempt(c)) { progress = true; if (i > best.size()) { i = best.size(); } }
            }
        }
        for (size_t blk : {size_t(16), size_t(4), size_t(1)}) {        // zero blocks
            for (size_t i = 0; i + blk <= best.size() && left(); i += blk) {
                Tape c(best); bool any = false;
                for (size_t j = i; j < i + blk; ++j) { any |= c[j] != 0U; c[j] = 0; }
                if (any && attempt(c)) { progress = true; }
            }
        }
        for (size_t i = 0; i < best.size() && left(); ++i) {          // minimise values
            uint64_t lo = 0; 
            while (i < best.size() && best[i] > lo && left()) {
                const uint64_t m = lo + (best[i] - lo) / 2U;
                Tape c(best); c[i] = m;
                if (attempt(c)) { progress = true; } else { lo = m + 1U; }
            }
        }
        for (size_t i = 0; i + 1 < best.size() && left(); ++i) {      // delete one, lower an earlier (length-like) one
            for (size_t d = 1; d <= 4 && i + d < best.size(); ++d) {
                if (best[i] == 0U) { break; }
                Tape c(best); --c[i]; c.erase(c.begin() + static_cast<long>(i + d));
                if (attempt(c)) { progress = true; }
            }
        }
    }
    return best;
}

static void write_replay(const std::string& path, size_t ti, const Tape& t, const CaseResult& r, const std::string& err) {
    std::ofstream f(path);
    f << "property " << opt.property << "\ntarget " << targets[ti].name;
    for (auto [k, v] : prelude) { f << "\nafter " << targets[k].name << ' ' << v; }
    f << "\ntape";
    for (auto v : t) { f << ' ' << v; }
    f << "\n---\nfailure: " << r.key << ": " << r.msg << "\n" << r.text;
    if (!err.empty()) { std::ifstream e(err); std::string l; size_t n = 0; f << "--- stderr of the case\n"; while (std::getline(e, l) && ++n < 80) { f << l << '\n'; } }
}

static bool load_replay(const std::string& path, size_t& ti, Tape& t) {
    std::ifstream f(path); std::string l; ti = 0; bool ok = false;
    while (std::getline(f, l)) {
        if (l == "---") { break; }
        std::istringstream s(l); std::string k; s >> k;
        if (k == "target") { std::string n; s >> n; for (size_t i = 0; i < targets.size(); ++i) { if (n == targets[i].name) { ti = i; ok = true; } } }
        else if (k == "after") { std::string n; uint64_t v; while (s >> n >> v) { for (size_t i = 0; i < targets.size(); ++i) { if (n == targets[i].name) { prelude.emplace_back(i, v); } } } }
        else if (k == "tape") { uint64_t v; while (s >> v) { t.push_back(v); } }
    }
    return ok;
}

struct WorkerStats {
    std::unordered_set<uint64_t> hashes;
    std::map<std::string, uint64_t> labels;
    std::vector<std::string> samples;
};

static void mutate(Tape& t, Ctx& r, const std::vector<Tape>& corpus) {
    const auto ops = 1U + r.next_random() % 4U;
    for (uint64_t k = 0; k < ops && !t.empty(); ++k) {
        const auto i = r.next_random() % t.size();
        switch (r.next_random() % 8U) {
            case 0: t[i] = r.next_random(); break;
            case 1: t[i] = r.next_random() % 4U; break;
            case 2: t[i] ^= 1ULL << (r.next_random() % 5U); break;
            case 3: t.erase(t.begin() + static_cast<long>(i)); break;
            case 4: t.insert(t.begin() + static_cast<long>(i), r.next_random()); break;
            case 5: { const auto n = std::min<uint64_t>(1U + r.next_random() % 16U, t.size() - i);                   // duplicate a block
                      Tape b(t.begin() + static_cast<long>(i), t.begin() + static_cast<long>(i + n)); t.insert(t.begin() + static_cast<long>(i), b.begin(), b.end()); break; }
            case 6: t.resize(i); break;                                                                           // fresh tail
            default: { const auto& o = corpus[r.next_random() % corpus.size()];                                      // splice
                      if (!o.empty()) { t.resize(i); const auto j = r.next_random() % o.size(); t.insert(t.end(), o.begin() + static_cast<long>(j), o.end()); } break; }
        }
        if (t.size() > TAPE_CAP / 2U) { t.resize(TAPE_CAP / 2U); }
    }
}

// Interleaves the targets in proportion to their case counts.
struct Schedule {
    std::vector<uint64_t> want; uint64_t total = 0; std::vector<double> credit;
    Schedule() : want(targets.size()), credit(targets.size(), 0.0) {
        for (size_t i = 0; i < targets.size(); ++i) {
            auto n = static_cast<double>(opt.tier == "thorough" ? targets[i].thorough : targets[i].quick) * opt.scale;
            if (!opt.only.empty() && opt.only != targets[i].name) { n = 0; }
            want[i] = n == 0 ? 0 : std::max<uint64_t>(1U, static_cast<uint64_t>(n) / opt.workers); total += want[i];
        }
    }
    size_t next() {
        size_t ti = 0; double bestc = -1;
        for (size_t k = 0; k < targets.size(); ++k) { credit[k] += static_cast<double>(want[k]) / static_cast<double>(total); if (credit[k] > bestc) { bestc = credit[k]; ti = k; } }
        credit[ti] -= 1.0; return ti;
    }
    static uint64_t seed(unsigned w, uint64_t i, size_t ti) { return mix(mix(opt.seed * 1000003ULL + w) ^ mix(i * 7919ULL + ti)); }
};

static void worker(unsigned w, Slot& s, const std::string& tmp, uint64_t skip_until, double deadline_s) {
    const auto t0 = std::chrono::steady_clock::now();
    WorkerStats st;
    size_t covn = 0; for (auto& r : cov()) { covn += static_cast<size_t>(r.e - r.b); }
    std::vector<uint8_t> seen(covn, 0);
    std::map<size_t, std::vector<Tape>> corpora;

    auto flush = [&] {
        std::ofstream f(tmp + "/w" + std::to_string(w) + "." + std::to_string(getpid()));
        f << "L " << st.labels.size() << '\n'; for (auto& [k, v] : st.labels) { f << v << ' ' << k << '\n'; }
        f << "H " << st.hashes.size() << '\n'; for (auto h : st.hashes) { f << h << '\n'; }
        f << "S " << st.samples.size() << '\n'; for (auto& x : st.samples) { std::string y = x; for (auto& ch : y) { if (ch == '\n') { ch = '\1'; } } f << y << '\n'; }
        size_t corpus = 0; for (auto& [k, v] : corpora) { corpus += v.size(); }
        size_t hit = 0; for (auto x : seen) { hit += x != 0; }
        f << "C " << corpus << ' ' << hit << ' ' << covn << '\n';
    };

    Schedule plan; const auto total = plan.total;
    for (uint64_t i = 0; i < total; ++i) {
        const size_t ti = plan.next();
        s.index = i;
        if (i < skip_until) { continue; }
        if (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > deadline_s) { break; }

        Ctx c;
        c.rng = Schedule::seed(w, i, ti);
        auto& corpus = corpora[ti];
        const bool mut = covn && !corpus.empty() && c.next_random() % 2U == 0U;
        if (mut) { c.in = corpus[c.next_random() % corpus.size()]; mutate(c.in, c, corpus); }
        s.target = ti; s.len = 0;
        c.out = s.tape; c.out_len = &s.len; c.out_cap = TAPE_CAP; c.labels = &st.labels;
        const auto n_eval = s.evaluations.load();
        c.describing = st.samples.size() < 6 && (n_eval % 37U) == (w % 8U);
        for (auto& r : cov()) { memset(r.b, 0, static_cast<size_t>(r.e - r.b)); }
        s.busy = 1;
        auto r = run_inproc(targets[ti], c);
        s.busy = 0;
        ++s.evaluations;
        if (r.o == DISCARDED) { ++s.discards; continue; }
        if (r.o == FAIL) {
            snprintf(s.key, sizeof s.key, "%s", r.key.c_str()); snprintf(s.msg, sizeof s.msg, "%s", r.msg.c_str());
            s.failed = 1; flush(); _exit(3);
        }
        if (r.nontriv) {
            ++s.nontrivial;
            uint64_t h = ti; for (size_t k = 0; k < s.len; ++k) { h = mix(h ^ s.tape[k]); }
            st.hashes.insert(h);
            if (c.describing) { st.samples.push_back(std::string(targets[ti].name) + ": " + r.text); }
        }
        if (covn) {
            bool novel = false; size_t o = 0;
            for (auto& rg : cov()) {
                for (uint8_t* p = rg.b; p < rg.e; ++p, ++o) {
                    if (*p) { const uint8_t b = *p >= 128 ? 128 : *p >= 32 ? 64 : *p >= 16 ? 32 : *p >= 8 ? 16 : *p >= 4 ? 8 : *p >= 3 ? 4 : *p; if ((seen[o] & b) == 0) { seen[o] |= b; novel = true; } }
                }
            }
            if (novel && corpus.size() < 4000U) { corpus.emplace_back(s.tape, s.tape + s.len); }
        }
    }
    flush();
    s.finished = 1;
    _exit(0);
}

static std::string jstr(const std::string& s) {
    std::string r = "\"";
    for (unsigned char ch : s) {
        if (ch == '"' || ch == '\\') { r += '\\'; r += static_cast<char>(ch); }
        else if (ch == '\n') { r += "\\n"; } else if (ch < 32 || ch > 126) { r += fmt("\\u%04x", ch); } else { r += static_cast<char>(ch); }
    }
    return r + '"';
}

static int drive() {
    const auto t0 = std::chrono::steady_clock::now();
    auto elapsed = [&] { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); };
    char tmpl[] = "/tmp/pbt.XXXXXX"; const std::string tmp = mkdtemp(tmpl);
    const bool covered = !cov().empty();
    auto* slots = static_cast<Slot*>(mmap(nullptr, sizeof(Slot) * opt.workers, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    std::vector<pid_t> pid(opt.workers, 0);
    std::vector<uint64_t> skip(opt.workers, 0);
    auto spawn = [&](unsigned w) {
        fflush(nullptr);
        const pid_t p = fork();
        if (p == 0) {
            const int fd = open((tmp + "/err." + std::to_string(w)).c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644); dup2(fd, 2); dup2(fd, 1);
            worker(w, slots[w], tmp, skip[w], opt.budget - elapsed());
        }
        pid[w] = p;
    };
    for (unsigned w = 0; w < opt.workers; ++w) { spawn(w); }

    int rc = 0; unsigned running = opt.workers; uint64_t violations = 0, unreproducible = 0, skipped_hangs = 0;
    std::map<std::string, uint64_t> survey; std::map<std::string, std::string> survey_ex;
    std::string vmsg;
    while (running > 0) {
        int st = 0; const pid_t p = wait(&st);
        if (p < 0) { break; }
        unsigned w = 0; for (; w < opt.workers; ++w) { if (pid[w] == p) { break; } }
        if (w == opt.workers) { continue; }
        auto& s = slots[w];
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && s.finished) { --running; continue; }
        // failure or crash: the tape of the current case is in the slot
        const size_t ti = s.target; Tape tape(s.tape, s.tape + s.len);
        if (!s.failed) { ++s.evaluations; }
        s.failed = 0; s.busy = 0;
        if (opt.skip_hangs && WIFEXITED(st) && (WEXITSTATUS(st) == 77 || WEXITSTATUS(st) == 78)) {
            ++skipped_hangs; skip[w] = s.index + 1; spawn(w); continue;
        }
        std::string key;
        if (opt.survey) {
            auto r0 = run_forked(ti, tape, true, tmp + "/survey.err");
            key = std::string(targets[ti].name) + "/" + (bad(r0.o) ? r0.key : "unreproducible");
            if (r0.o == CRASH) { std::ifstream e(tmp + "/survey.err"); std::string l; while (std::getline(e, l)) { if (l.find("runtime error") != std::string::npos || l.find("ERROR: Add") != std::string::npos || l.find("ssertion") != std::string::npos) { std::string n; bool hex = false; for (size_t q = 0; q < l.size() && n.size() < 150; ++q) { if (l[q] == '0' && q + 1 < l.size() && l[q + 1] == 'x') { hex = true; } else if (hex && !isxdigit(static_cast<unsigned char>(l[q])) && l[q] != 'x') { hex = false; } if (!hex && !(l[0] == '=' && isdigit(static_cast<unsigned char>(l[q])))) { n += l[q]; } } key += " " + n; break; } } }
            if (++survey[key] == 1) {
                auto sh = shrink(ti, tape, r0.key, r0.o, 4);
                auto r = run_forked(ti, sh, true, tmp + "/survey.err");
                survey_ex[key] = r.msg + "\n" + r.text;
                write_replay(opt.replay_dir + "/survey-" + std::to_string(survey.size()) + ".txt", ti, sh, r, tmp + "/survey.err");
                printf("[survey-%zu] %s: %s\n%s\n", survey.size(), key.c_str(), r.msg.c_str(), r.text.c_str()); fflush(stdout);
            }
            skip[w] = s.index + 1; spawn(w); continue;
        }
        // Confirm before anything is reported.
        CaseResult first; unsigned reproduced = 0;
        for (unsigned k = 0; k < opt.tries && reproduced < opt.reproduce; ++k) {
            auto r = run_forked(ti, tape, false, "");
            if (bad(r.o)) { ++reproduced; first = r; }
        }
        const auto race = [&] {                            // a report of the race detector is evidence by itself
            std::ifstream e(tmp + "/err." + std::to_string(w)); std::string l;
            while (std::getline(e, l)) { if (l.find("WARNING: ThreadSanitizer: data race") != std::string::npos) { return true; } }
            return false;
        };
        if (reproduced < opt.reproduce && opt.races && race()) {
            reproduced = opt.reproduce; if (!bad(first.o)) { first.o = CRASH; first.key = "crash"; first.msg = "data race reported by ThreadSanitizer"; }
            std::ifstream e(tmp + "/err." + std::to_string(w)); std::string l; size_t n = 0; while (std::getline(e, l) && ++n < 60) { printf("  %s\n", l.c_str()); }
        }
        if (reproduced < opt.reproduce && WIFEXITED(st) && WEXITSTATUS(st) != 77 && WEXITSTATUS(st) != 78 && !covered) {
            // Does it fail after the cases that came before it in its process?
            const auto until = elapsed() + 60.0; std::vector<std::pair<size_t, uint64_t>> before; Schedule plan;
            for (uint64_t i = 0; i < s.index; ++i) { const auto t = plan.next(); if (i >= skip[w]) { before.emplace_back(t, Schedule::seed(w, i, t)); } }
            auto fails = [&](const std::vector<std::pair<size_t, uint64_t>>& l) { if (elapsed() > until) { return false; } prelude = l; const auto r = run_forked(ti, tape, false, ""); if (r.o != FAIL && r.o != CRASH) { return false; } first = r; return true; };
            for (size_t k = 1; k / 4U < before.size(); k *= 4U) {
                std::vector<std::pair<size_t, uint64_t>> l(before.end() - static_cast<long>(std::min(k, before.size())), before.end());
                if (!fails(l)) { if (k >= before.size()) { break; } continue; }
                for (size_t blk = l.size(); blk > 0; blk /= 2U) { for (size_t i = l.size(); i-- > 0;) { if (i + blk > l.size()) { continue; } auto m = l; m.erase(m.begin() + static_cast<long>(i), m.begin() + static_cast<long>(i + blk)); if (fails(m)) { l = m; } else if (blk > 1) { i -= std::min(i, blk - 1); } } }
                reproduced = 0; prelude = l; for (unsigned n = 0; n < opt.reproduce; ++n) { const auto r = run_forked(ti, tape, false, ""); if (r.o == FAIL || r.o == CRASH) { ++reproduced; first = r; } }
                break;
            }
            if (reproduced < opt.reproduce) { prelude.clear(); }
        }
        if (reproduced < opt.reproduce) {
            ++unreproducible;
            fprintf(stderr, "note: a failure of worker %u (target %s) did not reproduce from its tape; search continues\n", w, targets[ti].name);
            std::ifstream e(tmp + "/err." + std::to_string(w)); std::string l; size_t n = 0; while (std::getline(e, l) && ++n < 30) { fprintf(stderr, "  %s\n", l.c_str()); }
            skip[w] = s.index + 1; spawn(w); continue;
        }
        for (unsigned k = 0; k < opt.workers; ++k) { if (k != w && pid[k] > 0) { kill(pid[k], SIGKILL); } }
        while (wait(nullptr) > 0) {}
        running = 0; ++violations;
        const auto sh = shrink(ti, tape, first.key, first.o, std::max(10.0, std::min(90.0, 820.0 - elapsed())));
        const auto err = tmp + "/final.err";
        auto r = run_forked(ti, sh, true, err);
        auto final_tape = sh;
        if (!bad(r.o)) { final_tape = tape; r = run_forked(ti, tape, true, err); }
        if (!bad(r.o)) { r.o = first.o; r.key = first.key; r.msg = first.msg; }
        if (r.o == CRASH || r.o == HANG) {     // the child died: its description is lost, so ask for it in a run that stops before
            std::ifstream e(err); std::string l; while (std::getline(e, l)) { if (l.find("runtime error") != std::string::npos || l.find("ERROR: ") != std::string::npos || l.find("ssertion") != std::string::npos) { r.msg += ": " + l; break; } }
        }
        uint64_t h = ti; for (auto v : final_tape) { h = mix(h ^ v); }
        mkdir(opt.replay_dir.c_str(), 0755);
        const auto path = opt.replay_dir + "/" + opt.property + "-" + targets[ti].name + fmt("-%08llx.txt", static_cast<unsigned long long>(h & 0xffffffffULL));
        write_replay(path, ti, final_tape, r, err);
        vmsg = fmt("target %s: %s: %s", targets[ti].name, r.key.c_str(), r.msg.c_str());
        printf("%s\n%.20000s", vmsg.c_str(), r.text.c_str());
        printf("VIOLATION property=%s replay=%s\n", opt.property.c_str(), path.c_str());
        fflush(stdout);
        rc = 1;
    }

    // merge statistics
    uint64_t ev = 0, dis = 0, nt = 0; for (unsigned w = 0; w < opt.workers; ++w) { ev += slots[w].evaluations; dis += slots[w].discards; nt += slots[w].nontrivial; }
    std::unordered_set<uint64_t> hashes; std::map<std::string, uint64_t> labels; std::vector<std::string> samples; uint64_t corpus = 0, hit = 0, covn = 0;
    {
        FILE* ls = popen(("ls " + tmp).c_str(), "r"); char name[256];
        while (ls && fgets(name, sizeof name, ls)) {
            std::string n = name; n.pop_back(); if (n[0] != 'w') { continue; }
            std::ifstream f(tmp + "/" + n); std::string l; char tag = 0; size_t cnt = 0;
            while (f >> tag) {
                if (tag == 'C') { uint64_t a, b, cc; f >> a >> b >> cc; corpus += a; hit = std::max(hit, b); covn = cc; continue; }
                f >> cnt; std::getline(f, l);
                for (size_t i = 0; i < cnt && std::getline(f, l); ++i) {
                    if (tag == 'L') { const auto sp = l.find(' '); labels[l.substr(sp + 1)] += std::stoull(l.substr(0, sp)); }
                    else if (tag == 'H') { hashes.insert(std::stoull(l)); }
                    else { for (auto& ch : l) { if (ch == '\1') { ch = '\n'; } } samples.push_back(l); }
                }
            }
        }
        if (ls) { pclose(ls); }
    }
    { std::error_code ec; std::filesystem::remove_all(tmp, ec); }

    if (opt.survey) { printf("== survey ==\n"); for (auto& [k, v] : survey) { printf("%8llu  %s\n", static_cast<unsigned long long>(v), k.c_str()); } }
    printf("%s %s seed=%llu: %llu cases, %llu discarded, %llu non-trivial (%zu distinct), %.1f s\n", opt.property.c_str(), opt.tier.c_str(), static_cast<unsigned long long>(opt.seed),
        static_cast<unsigned long long>(ev), static_cast<unsigned long long>(dis), static_cast<unsigned long long>(nt), hashes.size(), elapsed());
    if (!opt.evidence.empty()) {
        std::sort(samples.begin(), samples.end()); samples.erase(std::unique(samples.begin(), samples.end()), samples.end());
        std::vector<std::string> few; for (size_t i = 0; i < samples.size() && few.size() < 12; i += std::max<size_t>(1, samples.size() / 12)) { few.push_back(samples[i].substr(0, 1500)); }
        if (few.empty()) { few.push_back(vmsg.empty() ? "no sample was taken in this run" : vmsg); }
        std::ofstream f(opt.evidence);
        f << "{\n \"property\": " << jstr(opt.property) << ",\n \"tier\": " << jstr(opt.tier) << ",\n \"seed\": " << opt.seed << ",\n \"level\": \"exploration\",\n \"coverage\": {\n"
          << "  \"evaluations\": " << ev << ",\n  \"discarded\": " << dis << ",\n  \"nontrivial\": " << nt << ",\n  \"distinct_nontrivial\": " << hashes.size() << ",\n  \"unreproducible\": " << unreproducible << ",\n  \"cut_short\": " << skipped_hangs << ",\n";
        if (covn) { f << "  \"coverage_guided\": {\"corpus\": " << corpus << ", \"counters_hit\": " << hit << ", \"counters\": " << covn << "},\n"; }
        f << "  \"rule\": " << jstr(harness_rule()) << ",\n  \"distribution\": {";
        bool firstl = true; for (auto& [k, v] : labels) { f << (firstl ? "" : ", ") << jstr(k) << ": " << v; firstl = false; }
        f << "},\n  \"samples\": ["; for (size_t i = 0; i < few.size(); ++i) { f << (i ? ",\n   " : "\n   ") << jstr(few[i]); }
        f << "]\n },\n \"assumptions\": ["; bool fa = true; for (auto& a : harness_assumptions()) { f << (fa ? "" : ", ") << jstr(a); fa = false; }
        f << "],\n \"violations\": " << violations << ",\n \"wall_s\": " << fmt("%.2f", elapsed()) << "\n}\n";
    }
    if (getenv("PBT_LABELS")) { for (auto& [k, v] : labels) { printf("  %8llu %s\n", static_cast<unsigned long long>(v), k.c_str()); } }
    return rc;
}

} // namespace pbt

int main(int argc, char** argv) {
    using namespace pbt;
    targets = harness_targets();
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i]; auto val = [&] { return std::string(++i < argc ? argv[i] : ""); };
        if      (a == "--property") { opt.property = val(); }
        else if (a == "--tier")     { opt.tier = val(); }
        else if (a == "--seed")     { opt.seed = strtoull(val().c_str(), nullptr, 10); }
        else if (a == "--evidence") { opt.evidence = val(); }
        else if (a == "--replays")  { opt.replay_dir = val(); }
        else if (a == "--replay")   { opt.replay = val(); }
        else if (a == "--workers")  { opt.workers = static_cast<unsigned>(atoi(val().c_str())); }
        else if (a == "--budget")   { opt.budget = atof(val().c_str()); }
        else if (a == "--only")     { opt.only = val(); }
        else if (a == "--scale")    { opt.scale = atof(val().c_str()); }
        else if (a == "--cpu")      { default_cpu_limit = static_cast<unsigned>(atoi(val().c_str())); }
        else if (a == "--reproduce"){ opt.reproduce = static_cast<unsigned>(atoi(val().c_str())); }
        else if (a == "--tries")    { opt.tries = static_cast<unsigned>(atoi(val().c_str())); }
        else if (a == "--races")    { opt.races = true; }
        else if (a == "--known")    { opt.known = val(); }
        else if (a == "--hang")     { opt.skip_hangs = val() == "skip"; }
        else if (a == "--survey")   { opt.survey = true; }
        else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 2; }
    }
    signal(SIGPROF, on_timer); signal(SIGALRM, on_timer);
    if (__sanitizer_install_malloc_and_free_hooks && __sanitizer_get_allocated_size) { __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free); }
    if (!opt.replay.empty()) {
        size_t ti; Tape t;
        if (!load_replay(opt.replay, ti, t)) { fprintf(stderr, "cannot read %s\n", opt.replay.c_str()); return 2; }
        Ctx c; c.in = t; c.fresh = false; c.describing = true;
        // run in this process, so that sanitizer reports are visible
        run_prelude();
        auto r = run_inproc(targets[ti], c);
        printf("%s", r.text.c_str());
        printf("%s %s %s\n", r.o == FAIL ? "FAIL" : r.o == PASS ? "PASS" : "DISCARD", r.key.c_str(), r.msg.c_str());
        return r.o == FAIL ? 1 : 0;
    }
    known_findings();
    return drive();
}
