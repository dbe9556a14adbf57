// Replay runtime: runs one contract natively on the real code, feeding the values of a counterexample (or random values).
// Atomic accesses reach us through the thread-sanitizer instrumentation hooks, so the same interference hooks the verifier
// used are applied between the instructions of the real code.
#include "vc.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <ctime>
#include <exception>
#include <string>
#include <vector>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <dlfcn.h>

namespace
{
struct Val { std::string name; unsigned bits; std::uint64_t v; };
struct Mem { std::string name; std::string bytes; };
std::vector<Val> g_vals;
std::vector<Mem> g_mems;
std::size_t g_vi = 0, g_mi = 0;
bool g_random = false;
std::uint64_t g_seed = 1;
bool g_termok = false;
bool g_in_hook = false;
const char* g_out = nullptr;
std::vector<Val> g_log;
std::vector<Mem> g_mlog;
std::vector<std::pair<std::string, std::pair<void*, std::size_t>>> g_blocks;
struct Region { const char* p; std::uint64_t n; std::uint64_t (*load)(void*, std::uint64_t); void (*store)(void*, std::uint64_t, std::uint64_t, std::uint64_t); };
std::vector<Region> g_regions;
struct LockH { const void* m; void (*l)(void*); void (*u)(void*); };
std::vector<LockH> g_locks;

std::uint64_t rnd()
{
    g_seed ^= g_seed << 13; g_seed ^= g_seed >> 7; g_seed ^= g_seed << 17;
    return g_seed * 0x2545F4914F6CDD1DULL;
}
std::uint64_t pick(unsigned bits)
{
    const std::uint64_t m = bits >= 64 ? ~0ULL : ((1ULL << bits) - 1);
    switch (rnd() >> 60)
    {
        case 0: case 1: case 2: case 3: case 4: return (rnd() >> 40) % 4 & m;
        case 5: case 6: case 7: return (rnd() >> 40) % 12 & m;
        case 8: return m - (rnd() >> 40) % 3;
        case 9: return ((m >> 1) + (rnd() >> 40) % 3) & m;
        case 10: return (0xFFFFFFFFULL + (rnd() >> 40) % 2) & m;
        case 11: return (((rnd() >> 40) % 6) << 32 | (rnd() >> 40) % 4) & m;
        case 12: return (0xFFFFULL + (rnd() >> 40) % 2) & m;
        default: return rnd() & m;
    }
}
void dump()
{
    if (g_out == nullptr) return;
    FILE* f = fopen(g_out, "w");
    if (!f) return;
    for (auto& v : g_log) fprintf(f, "H %s %u %llu\n", v.name.c_str(), v.bits, (unsigned long long)v.v);
    for (auto& m : g_mlog)
    {
        fprintf(f, "M %s ", m.name.c_str());
        for (unsigned char c : m.bytes) fprintf(f, "%02x", c);
        fprintf(f, "\n");
    }
    fclose(f);
}
[[noreturn]] void violation(const char* label)
{
    printf("REPLAY-VIOLATION %s\n", label);
    dump();
    fflush(stdout);
    _exit(42);
}
[[noreturn]] void quit(int code, const char* why)
{
    if (!g_random) { printf("REPLAY-END %s\n", why); fflush(stdout); }
    _exit(code);
}
void on_terminate() { if (g_termok) quit(0, "terminated as permitted"); violation("no unexpected process termination"); }
void on_sig(int s)
{
    if (s == SIGABRT) on_terminate();
    if (s == SIGALRM) quit(4, "time limit");
    violation(s == SIGSEGV || s == SIGBUS ? "memory-safety (signal)" : s == SIGILL || s == SIGTRAP ? "undefined behaviour (trap)" : "signal");
}
void access(const void* p, std::size_t n)
{
    const char* c = static_cast<const char*>(p);
    for (auto& b : g_blocks)
    {
        const char* lo = static_cast<const char*>(b.second.first);
        if (c >= lo - 65536 && c < lo + b.second.second + 65536)
            if (c < lo || c + n > lo + b.second.second)
                violation(("memory-safety: access in bounds of " + b.first).c_str());
    }
}
Region* region(const void* p)
{
    const char* c = static_cast<const char*>(p);
    for (auto& r : g_regions) if (c >= r.p && c < r.p + r.n) return &r;
    return nullptr;
}
}  // namespace

extern "C" {
std::uint64_t __vc_havoc(const char* name, unsigned bits)
{
    const unsigned w = bits == 1 ? 64 : bits;
    std::uint64_t v = 0;
    if (g_random) v = bits == 1 ? rnd() >> 63 : pick(bits);
    else
    {
        if (g_vi >= g_vals.size()) quit(3, "values exhausted");
        if (g_vals[g_vi].name != name) { printf("REPLAY-MISMATCH %s vs %s\n", name, g_vals[g_vi].name.c_str()); quit(3, "mismatch"); }
        v = g_vals[g_vi++].v;
    }
    g_log.push_back({name, w, v});
    return v;
}
void __vc_assume(bool c) { if (!c) quit(3, "precondition false"); }
void __vc_assert(bool c, const char* label) { if (!c) violation(label); }
void __vc_cover(const char*) {}
void __vc_term_ok(bool ok) { g_termok = ok; }
void* __vc_alloc(std::uint64_t size, const char* name, unsigned, unsigned align)
{
    if (size > (64ULL << 20)) quit(3, "allocation too large for replay");
    if (align < 16) align = 16;
    const std::size_t total = ((size + 65536 * 2 + align + 4095) / 4096) * 4096;
    char* m = static_cast<char*>(mmap(nullptr, total, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
    std::uint64_t a = reinterpret_cast<std::uint64_t>(m) + 65536;
    a = (a + align - 1) / align * align;
    char* p = reinterpret_cast<char*>(a);
    if (g_random)
    {
        for (std::uint64_t i = 0; i + 8 <= size; i += 8) { std::uint64_t v = pick(64); memcpy(p + i, &v, 8); }
        for (std::uint64_t i = size & ~7ULL; i < size; ++i) p[i] = static_cast<char>(pick(8));
    }
    else if (g_mi < g_mems.size()) { auto& b = g_mems[g_mi++].bytes; memcpy(p, b.data(), b.size() < size ? b.size() : size); }
    g_mlog.push_back({name, std::string(p, size < 65536 ? size : 65536)});
    g_blocks.push_back({name, {p, size}});
    return p;
}
void __vc_region(const void* p, std::uint64_t n, std::uint64_t (*l)(void*, std::uint64_t), void (*s)(void*, std::uint64_t, std::uint64_t, std::uint64_t))
{ g_regions.push_back({static_cast<const char*>(p), n, l, s}); }
void __vc_region_off() { g_regions.clear(); }
void __vc_hint_index(std::uint64_t, const char*) {}
void __vc_hint_bound(std::uint64_t, const char*) {}
void __vc_hint_value(std::uint64_t, const char*) {}
void __vc_hint_prophecy(std::uint64_t, const char*) {}
void __vc_hint_bool(bool, const char*) {}
void __vc_watch(const void*, unsigned, const char*) {}
void __vc_hint_array(const void*, unsigned, const char*) {}
std::uint64_t __vc_function(const char*, std::uint64_t, std::uint64_t) { std::abort(); }
std::uint64_t __vc_base(const void* p) { return reinterpret_cast<std::uint64_t>(p); }
void __vc_lockhooks(const void* m, void (*l)(void*), void (*u)(void*)) { g_locks.push_back({m, l, u}); }
bool __vc_symbolic() { return false; }

// ---- lock hooks (calls made by the program under replay are bound to these by the linker)
int __real_pthread_mutex_lock(void*);
int __wrap_pthread_mutex_lock(void* m) { for (auto& h : g_locks) if (h.m == m) h.l(m); return 0; }
int __wrap_pthread_mutex_unlock(void* m) { for (auto& h : g_locks) if (h.m == m) h.u(m); return 0; }
int __wrap_pthread_rwlock_rdlock(void* m) { for (auto& h : g_locks) if (h.m == m) h.l(m); return 0; }
int __wrap_pthread_rwlock_wrlock(void* m) { for (auto& h : g_locks) if (h.m == m) h.l(m); return 0; }
int __wrap_pthread_rwlock_unlock(void* m) { for (auto& h : g_locks) if (h.m == m) h.u(m); return 0; }

// ---- instrumentation hooks
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
void __tsan_vptr_read(void**) {}
void __tsan_vptr_update(void**, void*) {}
#define RW(N) void __tsan_read##N(void* p) { access(p, N); } void __tsan_write##N(void* p) { access(p, N); } \
    void __tsan_unaligned_read##N(void* p) { access(p, N); } void __tsan_unaligned_write##N(void* p) { access(p, N); } \
    void __tsan_read_write##N(void* p) { access(p, N); } void __tsan_unaligned_read_write##N(void* p) { access(p, N); } \
    void __tsan_volatile_read##N(void* p) { access(p, N); } void __tsan_volatile_write##N(void* p) { access(p, N); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, unsigned long n) { access(p, n); }
void __tsan_write_range(void* p, unsigned long n) { access(p, n); }
void* __tsan_memcpy(void* d, const void* s, unsigned long n) { if (n) { access(d, n); access(s, n); } return memmove(d, s, n); }
void* __tsan_memmove(void* d, const void* s, unsigned long n) { if (n) { access(d, n); access(s, n); } return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, unsigned long n) { if (n) access(d, n); return memset(d, c, n); }
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
#define ATOM(BITS, T) \
static T ld##BITS(const volatile T* p) { access((const void*)p, sizeof(T)); Region* r = region((const void*)p); \
    if (r) return (T)r->load((void*)p, sizeof(T)); return *p; } \
static void st##BITS(volatile T* p, T old, T v, bool rmw) { Region* r = region((const void*)p); \
    if (r) r->store((void*)p, (std::uint64_t)old, (std::uint64_t)v, rmw); else *p = v; } \
T __tsan_atomic##BITS##_load(const volatile T* p, int) { return ld##BITS(p); } \
void __tsan_atomic##BITS##_store(volatile T* p, T v, int) { T o = ld##BITS(p); st##BITS(p, o, v, false); } \
T __tsan_atomic##BITS##_exchange(volatile T* p, T v, int) { T o = ld##BITS(p); st##BITS(p, o, v, true); return o; } \
T __tsan_atomic##BITS##_fetch_add(volatile T* p, T v, int) { T o = ld##BITS(p); st##BITS(p, o, (T)(o + v), true); return o; } \
T __tsan_atomic##BITS##_fetch_sub(volatile T* p, T v, int) { T o = ld##BITS(p); st##BITS(p, o, (T)(o - v), true); return o; } \
T __tsan_atomic##BITS##_fetch_and(volatile T* p, T v, int) { T o = ld##BITS(p); st##BITS(p, o, (T)(o & v), true); return o; } \
T __tsan_atomic##BITS##_fetch_or(volatile T* p, T v, int) { T o = ld##BITS(p); st##BITS(p, o, (T)(o | v), true); return o; } \
T __tsan_atomic##BITS##_fetch_xor(volatile T* p, T v, int) { T o = ld##BITS(p); st##BITS(p, o, (T)(o ^ v), true); return o; } \
T __tsan_atomic##BITS##_fetch_nand(volatile T* p, T v, int) { T o = ld##BITS(p); st##BITS(p, o, (T)~(o & v), true); return o; } \
T __tsan_atomic##BITS##_compare_exchange_val(volatile T* p, T c, T v, int, int) { T o = ld##BITS(p); if (o == c) st##BITS(p, o, v, true); return o; } \
int __tsan_atomic##BITS##_compare_exchange_strong(volatile T* p, T* c, T v, int, int) { T o = ld##BITS(p); if (o == *c) { st##BITS(p, o, v, true); return 1; } *c = o; return 0; } \
int __tsan_atomic##BITS##_compare_exchange_weak(volatile T* p, T* c, T v, int, int) { T o = ld##BITS(p); if (o == *c) { st##BITS(p, o, v, true); return 1; } *c = o; return 0; }
ATOM(8, unsigned char)
ATOM(16, unsigned short)
ATOM(32, unsigned int)
ATOM(64, unsigned long)
}

// functions replaced by their contracts
static void patch()
{
    const char* e = getenv("VC_PATCH");
    if (e == nullptr) return;
    std::string s{e};
    for (std::size_t i = 0; i < s.size();)
    {
        std::size_t j = s.find(',', i);
        if (j == std::string::npos) j = s.size();
        const std::string item = s.substr(i, j - i);
        i = j + 1;
        const std::size_t c = item.find(':');
        if (c == std::string::npos) continue;
        unsigned char* at = reinterpret_cast<unsigned char*>(strtoull(item.substr(0, c).c_str(), nullptr, 16));
        struct Contract { const char* regex; void (*stub)(); };
        const auto* k = static_cast<const Contract*>(dlsym(RTLD_DEFAULT, ("__vc_contract_" + item.substr(c + 1)).c_str()));
        if (k == nullptr || reinterpret_cast<void*>(k->stub) == at) continue;
        const std::uint64_t page = reinterpret_cast<std::uint64_t>(at) & ~4095ULL;
        mprotect(reinterpret_cast<void*>(page), 8192, PROT_READ | PROT_WRITE | PROT_EXEC);
        const std::uint64_t to = reinterpret_cast<std::uint64_t>(k->stub);
        at[0] = 0x49; at[1] = 0xBB; memcpy(at + 2, &to, 8); at[10] = 0x41; at[11] = 0xFF; at[12] = 0xE3;
    }
}

int main(int argc, char** argv)
{
    patch();
    // run <harness> file <path> | run <harness> random <seed> <seconds> <out>
    if (argc < 4) return 2;
    void (*h)() = reinterpret_cast<void (*)()>(dlsym(RTLD_DEFAULT, argv[1]));
    if (h == nullptr) { fprintf(stderr, "no harness %s\n", argv[1]); return 2; }
    static char alt[65536];
    stack_t ss{}; ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr);
    for (int s : {SIGSEGV, SIGBUS, SIGILL, SIGTRAP, SIGFPE, SIGABRT, SIGALRM})
    {
        struct sigaction sa{}; sa.sa_handler = on_sig; sa.sa_flags = SA_ONSTACK | SA_NODEFER; sigaction(s, &sa, nullptr);
    }
    std::set_terminate(on_terminate);
    if (std::string(argv[2]) == "file")
    {
        FILE* f = fopen(argv[3], "r");
        if (!f) return 2;
        static char line[1 << 18];
        while (fgets(line, sizeof line, f))
        {
            char name[256]; unsigned bits; unsigned long long v;
            if (line[0] == 'H' && sscanf(line, "H %255s %u %llu", name, &bits, &v) == 3) g_vals.push_back({name, bits, v});
            if (line[0] == 'M')
            {
                Mem m; char* p = strtok(line + 2, " \n"); m.name = p ? p : "";
                p = strtok(nullptr, " \n");
                for (; p && p[0] && p[1]; p += 2) { unsigned x = 0; sscanf(p, "%2x", &x); m.bytes.push_back(static_cast<char>(x)); }
                g_mems.push_back(m);
            }
        }
        fclose(f);
        alarm(20);
        h();
        quit(0, "postconditions hold");
    }
    const std::uint64_t seed0 = strtoull(argv[3], nullptr, 10);
    const int secs = atoi(argv[4]);
    g_out = argv[5];
    g_random = true;
    const time_t t0 = time(nullptr);
    for (std::uint64_t i = 1;; ++i)
    {
        if (time(nullptr) - t0 >= secs) { printf("REPLAY-END nothing found in %llu runs\n", (unsigned long long)i); return 0; }
        fflush(stdout);
        const pid_t c = fork();
        if (c == 0)
        {
            g_seed = (seed0 * 0x9E3779B97F4A7C15ULL) ^ (i * 0xD1B54A32D192ED03ULL) ^ 0x1234567;
            for (int k = 0; k < 4; ++k) rnd();
            alarm(2);
            h();
            _exit(0);
        }
        int st = 0;
        waitpid(c, &st, 0);
        if (WIFEXITED(st) && WEXITSTATUS(st) == 42) return 42;
    }
}
