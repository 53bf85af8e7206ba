// Native runtime for the vc_* intrinsics: replay of verifier counterexamples and bounded random runs on the real code.
#include "vc.h"
#include <algorithm>
#include <cinttypes>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <fstream>
#include <map>
#include <random>
#include <set>
#include <signal.h>
#include <sstream>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <vector>
#include <chrono>
#include <condition_variable>
#include <mutex>
#include <pthread.h>
#include <thread>
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define VC_ASAN 1
#endif
#endif
#ifdef VC_ASAN
#include <sanitizer/asan_interface.h>
#else
#define ASAN_POISON_MEMORY_REGION(a, b) ((void)0)
#define ASAN_UNPOISON_MEMORY_REGION(a, b) ((void)0)
#endif
static std::vector<std::pair<std::string, std::string>> gIn; static size_t gPos = 0; static bool gRandom = false;
static std::mt19937_64 gRng; static std::map<void*, size_t> gObjs; static std::set<void*> gDead;
static std::vector<std::string> gLog;
static void rec(const char* n, const std::string& v) { gLog.push_back(std::string(n) + " " + v); }
static void dump() { if (const char* f = getenv("VC_TRACE_OUT")) { std::ofstream o(f); for (auto& l : gLog) o << l << "\n"; } }
[[noreturn]] static void fail(const char* l) { fprintf(stdout, "VC-FAIL %s\n", l); fflush(stdout); dump(); _exit(42); }
static bool gDiverged = false;
static std::string next(const char* n, bool& have)
{
    have = false;
    if (gRandom) return "";
    if (gPos < gIn.size()) {
        if (gIn[gPos].first != n) { gDiverged = true; fprintf(stdout, "VC-DIVERGED want %s have %s\n", n, gIn[gPos].first.c_str()); }
        have = true; return gIn[gPos++].second;
    }
    return "";
}
static uint64_t rnd(unsigned w)
{
    uint64_t m = w == 64 ? ~0ull : (1ull << w) - 1;
    switch (gRng() % 8) {
        case 0: case 1: case 2: return gRng() % 5 & m;
        case 3: return (m - gRng() % 3) & m;
        case 4: { unsigned b = gRng() % w; return ((1ull << b) + gRng() % 3 - 1) & m; }
        case 5: return gRng() % 300 & m;
        case 6: return gRng() % 70000 & m;
        default: return gRng() & m;
    }
}
static uint64_t num(const char* n, unsigned w)
{
    bool have; auto s = next(n, have);
    uint64_t v = have ? strtoull(s.c_str(), nullptr, 0) : gRandom ? rnd(w) : 0;
    rec(n, std::to_string(v));
    return v;
}
extern "C" {
uint64_t vc_u64(const char* n) { return num(n, 64); } uint32_t vc_u32(const char* n) { return num(n, 32); }
uint16_t vc_u16(const char* n) { return num(n, 16); } uint8_t vc_u8(const char* n) { return num(n, 8); }
int32_t vc_i32(const char* n) { return (int32_t)num(n, 32); } int64_t vc_i64(const char* n) { return (int64_t)num(n, 64); }
bool vc_bool(const char* n) { bool h; auto s = next(n, h); bool v = h ? strtoull(s.c_str(), nullptr, 0) & 1 : gRandom ? gRng() & 1 : false; rec(n, v ? "1" : "0"); return v; }
double vc_f64(const char* n) {
    uint64_t b; 
    if (gRandom) { double d; switch (gRng() % 6) { case 0: d = 0.0001 * (gRng() % 100000); break; case 1: d = gRng() % 100; break; case 2: d = gRng() % 1000000000; break; case 3: d = 1.0 / (1 + gRng() % 1000); break; case 4: d = (double)gRng(); break; default: d = 0.5; } memcpy(&b, &d, 8); rec(n, std::to_string(b)); }
    else b = num(n, 64);
    double d; memcpy(&d, &b, 8); return d; }
void* vc_opaque(const char* n) { return (void*)num(n, 64); }
uint32_t vc_choice(const char* n, uint32_t k) { bool h; auto s = next(n, h); uint32_t v = h ? strtoul(s.c_str(), nullptr, 0) : gRandom ? gRng() % k : 0; rec(n, std::to_string(v)); return v < k ? v : k - 1; }
void vc_assume(bool c) { if (!c) { dump(); _exit(77); } }
uint64_t vc_in(const char* n, uint64_t lo, uint64_t hi)
{
    bool have; auto s = next(n, have); uint64_t v, d = hi - lo;
    if (have) v = strtoull(s.c_str(), nullptr, 0);
    else if (gRandom) { switch (gRng() % 6) { case 0: v = lo + std::min<uint64_t>(gRng() % 3, d); break; case 1: v = hi - std::min<uint64_t>(gRng() % 3, d); break; case 2: case 3: v = lo + (d == ~0ull ? gRng() : gRng() % (std::min<uint64_t>(d, 40) + 1)); break; case 4: { uint64_t x = 1ull << (gRng() % 64); v = lo + (x > d ? d : x); break; } default: v = d == ~0ull ? gRng() : lo + gRng() % (d + 1); } }
    else v = lo;
    rec(n, std::to_string(v)); vc_assume(v >= lo && v <= hi); return v;
}
void vc_assert(bool c, const char* l) { if (!c) fail(l); }
void vc_cover(const char*) {}
void vc_unreachable(const char* l) { fail(l); }
static void* place(size_t n, uint64_t low, uint64_t lowmask)
{
    size_t pad = 1 << 21, tot = n + 2 * pad + lowmask + 1;
    char* m = (char*)mmap(nullptr, tot, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (m == MAP_FAILED) { fprintf(stdout, "VC-NOMEM\n"); _exit(77); }
    char* p = m + pad; p += (low - (uint64_t)p) & lowmask;
    ASAN_POISON_MEMORY_REGION(p - 65536, 65536); ASAN_POISON_MEMORY_REGION(p + n, 65536);
    gObjs[p] = n; return p;
}
void* vc_alloc(size_t n, size_t al)
{
    bool h; auto s = next("addr", h); uint64_t a = h ? strtoull(s.c_str(), nullptr, 0) : gRandom ? gRng() : 0;
    if (!h && al > 1) a &= ~(uint64_t)(al - 1);
    rec("addr", std::to_string(a));
    if (n > (1ull << 40)) { fprintf(stdout, "VC-NOMEM\n"); _exit(77); }
    char* p = (char*)place(n, a, (1 << 20) - 1);
    if (gRandom) for (size_t i = 0; i < n && i < 4096; ++i) p[i] = gRng();
    return p;
}
void* vc_malloc(size_t n) { void* p = malloc(n ? n : 1); gObjs[p] = n; if (gRandom) for (size_t i = 0; i < n && i < 4096; ++i) ((char*)p)[i] = gRng(); return p; }
void* vc_zalloc(size_t n) { void* p = calloc(1, n ? n : 1); gObjs[p] = n; return p; }
void vc_kill(void* p) { gDead.insert(p); if (gObjs.count(p)) ASAN_POISON_MEMORY_REGION(p, std::min<size_t>(gObjs[p], 1 << 20)); }
bool vc_is_dead(void* p) {
#ifdef VC_ASAN
    if (gObjs.count(p) && __asan_address_is_poisoned(p)) return true;
#endif
    return gDead.count(p); }
void vc_havoc(void* p, size_t n) { size_t k = 0; char* c = (char*)p; while (k < n) { size_t s = n - k >= 8 ? 8 : n - k >= 4 ? 4 : n - k >= 2 ? 2 : 1; uint64_t v = num("havoc", 8 * s); memcpy(c + k, &v, s); k += s; } }
void vc_inv(bool (*)(), const char*) {} void vc_inv_clear() {}
uint64_t vc_heap_live() { return 0; }
bool vc_same_object(const void* a, const void* b) {
    for (auto& [p, n] : gObjs) { const char* c = (const char*)p; if ((const char*)a >= c && (const char*)a <= c + n) return (const char*)b >= c && (const char*)b <= c + n; }
    return a == b; }
bool vc_symbolic() { return false; }
void vc_exit_path() { dump(); _exit(0); }
void vc_log(const char* s, uint64_t v) { fprintf(stderr, "VCLOG %s %" PRIu64 "\n", s, v); }
void vc_guarded_by(void*, size_t, void*) {} void vc_shared_atomic(void*, size_t, bool (*)(uint64_t, uint64_t), void*) {} void vc_unshare(void*) {}
void vc_ghost_begin() {} void vc_ghost_end() {}
static const char* kWords[] = {"", "a", "b", "ab", "/", ".", ",", ";", ":", "0", "1", "7", "x", "data", "tcp://localhost:5555", "ipc:///tmp/x", "inproc://y", "name", "chans.", "fmq_", "true", "false", "-1"};
void vc_string(std::string* s, const char* n)
{
    bool h; auto v = next(n, h);
    if (h) { std::string r; for (size_t i = 0; i + 1 < v.size(); i += 2) r += (char)strtoul(v.substr(i, 2).c_str(), nullptr, 16); *s = r; }
    else if (gRandom) { s->clear(); for (int k = gRng() % 4; k > 0; --k) *s += kWords[gRng() % (sizeof(kWords) / sizeof(*kWords))]; }
    std::string hex; char b[3]; for (unsigned char c : *s) { snprintf(b, 3, "%02x", c); hex += b; }
    rec(n, "s" + hex);
}
bool vc_str_prefix(const std::string* a, const std::string* b) { return a->compare(0, b->size(), *b) == 0; }
bool vc_str_suffix(const std::string* a, const std::string* b) { return a->size() >= b->size() && a->compare(a->size() - b->size(), b->size(), *b) == 0; }
bool vc_str_contains(const std::string* a, const std::string* b) { return a->find(*b) != std::string::npos; }
const char* __asan_default_options() { return "exitcode=43:detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=4096:handle_abort=0"; }
const char* __ubsan_default_options() { return "exitcode=43:print_stacktrace=0:halt_on_error=1"; }
}
// ---- threads, locks, clocks: sequential semantics with explicit environment steps (same contract as in the verifier)
static bool gActive = false, gInEnv = false; static std::map<const void*, int> gHeld, gNotify; static std::map<const void*, void (*)()> gOnLock; static void (*gOnWait)() = nullptr;
static uint64_t gThreads = 0, gJoined = 0, gWaits = 0, gClock = 0;
extern "C" {
void vc_on_lock(const void* m, void (*f)()) { if (f) gOnLock[m] = f; else gOnLock.erase(m); }
void vc_on_wait(void (*f)()) { gOnWait = f; }
uint64_t vc_notified(const void* c) { return gNotify[c]; } uint64_t vc_waits() { return gWaits; } uint64_t vc_threads_started() { return gThreads; } uint64_t vc_threads_joined() { return gJoined; }
bool vc_lock_held(const void* m) { return gHeld[m] > 0; } void vc_lock(void* m) { gHeld[m]++; } void vc_unlock(void* m) { gHeld[m]--; }
int pthread_mutex_lock(pthread_mutex_t* m)
{
    static int (*real)(pthread_mutex_t*) = (int (*)(pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_mutex_lock");
    if (!gActive) return real(m);
    if (gHeld[m] > 0 && m->__data.__kind == 0) fail("no-deadlock");
    gHeld[m]++;
    auto it = gOnLock.find(m);
    if (it != gOnLock.end() && !gInEnv) { gInEnv = true; it->second(); gInEnv = false; }
    return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m)
{
    static int (*real)(pthread_mutex_t*) = (int (*)(pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_mutex_unlock");
    if (!gActive) return real(m);
    if (gHeld[m] <= 0) fail("lock-discipline");
    gHeld[m]--; return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m)
{
    static int (*real)(pthread_mutex_t*) = (int (*)(pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_mutex_trylock");
    if (!gActive) return real(m);
    if (gHeld[m] > 0) return EBUSY;
    if (!vc_bool("trylock")) return EBUSY;
    gHeld[m]++; return 0;
}
static void cvwait(pthread_mutex_t* m)
{
    if (gHeld[m] <= 0) fail("lock-discipline");
    if (++gWaits > 200000) { dump(); _exit(77); }
    if (gOnWait && !gInEnv) { gHeld[m]--; gInEnv = true; gOnWait(); gInEnv = false; gHeld[m]++; }
}
int pthread_cond_clockwait(pthread_cond_t*, pthread_mutex_t* m, clockid_t, const timespec*) { cvwait(m); return vc_bool("cv_timeout") ? ETIMEDOUT : 0; }
int pthread_cond_timedwait(pthread_cond_t*, pthread_mutex_t* m, const timespec*) { cvwait(m); return vc_bool("cv_timeout") ? ETIMEDOUT : 0; }
}
void std::condition_variable::wait(std::unique_lock<std::mutex>& l) { cvwait(l.mutex()->native_handle()); }
void std::condition_variable::notify_one() noexcept { gNotify[this] += 1; }
void std::condition_variable::notify_all() noexcept { gNotify[this] += 1000; }
void std::thread::_M_start_thread(_State_ptr, void (*)()) { *(uint64_t*)this = 0x7000 + ++gThreads; }
void std::thread::join() { if (!*(uint64_t*)this) fail("no-abort"); ++gJoined; *(uint64_t*)this = 0; }
static int64_t clk()
{
    bool h; auto s = next("now", h); uint64_t v = h ? strtoull(s.c_str(), nullptr, 0) : gRandom ? gClock + gRng() % (gRng() % 3 ? 1000 : 100000000000ull) : gClock + 1;
    rec("now", std::to_string(v)); gClock = v; return v;
}
namespace std { namespace chrono { inline namespace _V2 {
__attribute__((weak)) steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(clk())); }
__attribute__((weak)) system_clock::time_point system_clock::now() noexcept { return time_point(duration(clk())); }
} } }
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
int main(int argc, char** argv)
{
    if (argc < 3) return 2;
    auto fn = (void (*)())dlsym(nullptr, argv[1]);
    if (!fn) { printf("VC-NOHARNESS %s\n", argv[1]); return 2; }
    std::string mode = argv[2];
    if (mode == "replay") {
        std::ifstream in(argv[3]); std::string line;
        while (std::getline(in, line)) { if (line.empty() || line[0] == '#') continue; auto p = line.find(' '); auto v = line.substr(p + 1); if (!v.empty() && v[0] == 's') v = v.substr(1); gIn.emplace_back(line.substr(0, p), v); }
        alarm(60); gActive = true;
        fn(); gActive = false;
        printf("VC-PASS%s\n", gDiverged ? " (diverged)" : ""); return 0;
    }
    if (mode == "rerun") { gRandom = true; gRng.seed(strtoull(argv[3], nullptr, 0) * 1000003 + atol(argv[4])); alarm(60); gActive = true; fn(); gActive = false; printf("VC-PASS\n"); return 0; }
    // random SEED N SECONDS OUT
    uint64_t seed = strtoull(argv[3], nullptr, 0); long n = atol(argv[4]); double secs = atof(argv[5]); const char* out = argv[6];
    double t0 = now(); long ok = 0, skip = 0, i = 0; gRandom = true;
    for (i = 0; i < n && now() - t0 < secs; ++i) {
        fflush(stdout);
        pid_t c = fork();
        if (c == 0) { setenv("VC_TRACE_OUT", out, 1); gRng.seed(seed * 1000003 + i); alarm(10); 
            struct sigaction sa{}; (void)sa;
            try { gActive = true; fn(); gActive = false; } catch (...) { fail("no-uncaught-exception"); }
            fflush(stdout); _exit(0); }
        int st = 0; waitpid(c, &st, 0);
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) ++ok;
        else if ((WIFEXITED(st) && WEXITSTATUS(st) == 77) || (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM)) ++skip;
        else { printf("VC-RANDOM-FAIL run=%ld seed=%" PRIu64 " status=%d\n", i, seed, WIFEXITED(st) ? WEXITSTATUS(st) : -WTERMSIG(st)); return 42; }
    }
    printf("VC-RANDOM-OK runs=%ld completed=%ld skipped=%ld\n", i, ok, skip);
    return 0;
}
