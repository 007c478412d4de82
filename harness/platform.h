// The parts of the platform a harness owns: the clock, the storage arena, and the failure of heap allocations.
// Included by exactly one translation unit per harness binary; the definitions below take precedence over
// the ones in the C and C++ run-time libraries.
#pragma once
#include <chrono>
#include <cstdint>
#include <cstdlib>
#include <new>
#include <ctime>
#include <cerrno>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/syscall.h>

namespace plat {

// ---------------------------------------------------------------- clock
static bool     clock_owned = false;      // while false the real clocks are visible
static int64_t  clock_ns = 0;             // current fake time
static int64_t  tick_after = -1;          // >= 0: number of clock readings after which the clock jumps
static int64_t  tick_ns = 0;              // size of that jump
static uint64_t clock_reads = 0;

static inline void clock_read_hook() {
    ++clock_reads;
    if (tick_after >= 0) { if (tick_after == 0) { clock_ns += tick_ns; } --tick_after; }
}
static inline void advance_ms(uint64_t ms) { if (ms > 200000000000ull) ms = 200000000000ull; if (clock_ns + int64_t(ms) * 1000000ll < 3000000000000000000ll) clock_ns += int64_t(ms) * 1000000ll; } // within 95 years: a 32-bit number of seconds
static inline int64_t clock_sec() { return clock_ns / 1000000000ll; }

// ---------------------------------------------------------------- heap allocation failures
static bool     alloc_fail = false;       // while true, operator new fails
static size_t   alloc_max = ~size_t(0);   // bigger requests to operator new fail
static bool     arena_refuse = false;     // while true, no arena can be had
static uint64_t alloc_failed = 0;

} // namespace plat

namespace std { namespace chrono { inline namespace _V2 {
    steady_clock::time_point steady_clock::now() noexcept {
        if (!plat::clock_owned) { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts); return time_point(duration(int64_t(ts.tv_sec) * 1000000000ll + ts.tv_nsec)); }
        plat::clock_read_hook();
        return time_point(duration(plat::clock_ns));
    }
}}}

#if !defined(__SANITIZE_ADDRESS__)
extern "C" int clock_gettime(clockid_t id, struct timespec * ts) noexcept {
    if (plat::clock_owned && (id == CLOCK_MONOTONIC || id == CLOCK_MONOTONIC_RAW || id == CLOCK_MONOTONIC_COARSE || id == CLOCK_BOOTTIME)) {
        plat::clock_read_hook();
        ts->tv_sec = plat::clock_ns / 1000000000ll; ts->tv_nsec = plat::clock_ns % 1000000000ll; return 0;
    }
    long r = syscall(SYS_clock_gettime, id, ts); if (r < 0) { return -1; } return 0;
}

// ---------------------------------------------------------------- arena with guard pages
namespace plat {
struct Arena { char * map; size_t maplen; char * base; size_t size; bool live; };
static Arena arenas[64];
static Arena * last_arena = nullptr;
static bool    arena_guard = true;
static const size_t guard_min = 256; // smaller requests are not arenas

static void * guarded_alloc(size_t align, size_t size) {
    const size_t pg = 4096;
    size_t al = align > pg ? align : pg;
    size_t body = (size + pg - 1) / pg * pg;
    size_t len = body + al + 2 * pg;
    char * m = (char *)mmap(nullptr, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (m == MAP_FAILED) return nullptr;
    uintptr_t b = (uintptr_t(m) + pg + al - 1) / al * al;          // leaves at least one page in front
    char * body_begin = (char *)b; char * body_end = body_begin + body;
    char * base = body_end - size;                                  // the end of the arena touches the guard page
    if (uintptr_t(base) % align) base = body_begin;
    mprotect(body_begin - pg, pg, PROT_NONE);
    mprotect(body_end, pg, PROT_NONE);
    for (char * p = body_begin; p < base; ++p) *p = char(0xA5);
    for (auto & a : arenas) if (!a.live) { a = Arena{m, len, base, size, true}; last_arena = &a; return base; }
    munmap(m, len); return nullptr;
}
// bytes in front of a small arena (on the same hardware page) must be untouched
static bool arena_front_intact(const Arena & a) {
    const size_t pg = 4096; char * begin = (char *)(uintptr_t(a.base) / pg * pg);
    for (char * p = begin; p < a.base; ++p) if (*p != char(0xA5)) return false;
    return true;
}
static Arena * arena_of(const void * p) { for (auto & a : arenas) if (a.live && (char *)p >= a.base && (char *)p < a.base + a.size) return &a; return nullptr; }
} // namespace plat

extern "C" void __libc_free(void *);
extern "C" void * __libc_memalign(size_t, size_t);
extern "C" void * aligned_alloc(size_t align, size_t size) noexcept {
    if (plat::arena_refuse && size >= plat::guard_min) { errno = ENOMEM; return nullptr; }
    if (plat::arena_guard && align >= plat::guard_min && size / 4 >= align) return plat::guarded_alloc(align, size);
    return __libc_memalign(align, size);
}
extern "C" int posix_memalign(void ** out, size_t align, size_t size) noexcept {
    void * p = aligned_alloc(align, size); if (!p) return ENOMEM; *out = p; return 0;
}
extern "C" void free(void * p) noexcept {
    if (p) for (auto & a : plat::arenas) if (a.live && a.base == p) { a.live = false; if (plat::last_arena == &a) plat::last_arena = nullptr; int e = errno; munmap(a.map, a.maplen); errno = e; return; }
    __libc_free(p);
}

static inline void * plat_new(size_t n) { if (plat::alloc_fail || n > plat::alloc_max) { ++plat::alloc_failed; return nullptr; } return malloc(n ? n : 1); }
void * operator new(size_t n) { void * p = plat_new(n); if (!p) throw std::bad_alloc(); return p; }
void * operator new[](size_t n) { void * p = plat_new(n); if (!p) throw std::bad_alloc(); return p; }
void * operator new(size_t n, const std::nothrow_t &) noexcept { return plat_new(n); }
void * operator new[](size_t n, const std::nothrow_t &) noexcept { return plat_new(n); }
void operator delete(void * p) noexcept { free(p); }
void operator delete[](void * p) noexcept { free(p); }
void operator delete(void * p, size_t) noexcept { free(p); }
void operator delete[](void * p, size_t) noexcept { free(p); }
void operator delete(void * p, const std::nothrow_t &) noexcept { free(p); }
void operator delete[](void * p, const std::nothrow_t &) noexcept { free(p); }
#else
namespace plat {
struct Arena { char * map; size_t maplen; char * base; size_t size; bool live; };
static Arena * last_arena = nullptr;
static bool arena_front_intact(const Arena &) { return true; }
}
#endif
