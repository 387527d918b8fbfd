// Native replays of single-threaded witnesses (address/undefined sanitizer builds): virtual time, no scheduler.
#include <cerrno>
#include <cstdint>
#include <cstdio>
#include <cstddef>
#include <pthread.h>
#include <time.h>
#include <unistd.h>
#include "native_sched.h"
static uint64_t gClock = 1000000000; static int gIdle = 0, gMaxIdle = 150;
void lps_sched_choice(int) {} void lps_sched_config(int, int, int idle, int, int) { gMaxIdle = idle; } void lps_sched_progress() { gIdle = 0; } bool lps_sched_leftover() { return false; }
extern "C" {
long lps_clock_now() { return (long)++gClock; }
static int tw(const struct timespec* t) { uint64_t d = (uint64_t)t->tv_sec * 1000000000ull + t->tv_nsec; if (++gIdle > gMaxIdle) { fprintf(stderr, "LPS-VIOLATION hang\n"); fflush(nullptr); _exit(88); } if (d > gClock) gClock = d; return ETIMEDOUT; }
int pthread_cond_timedwait(pthread_cond_t*, pthread_mutex_t*, const struct timespec* t) { return tw(t); }
int pthread_cond_clockwait(pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec* t) { return tw(t); }
int pthread_cond_wait(pthread_cond_t*, pthread_mutex_t*) { fprintf(stderr, "LPS-VIOLATION deadlock\n"); fflush(nullptr); _exit(92); }
int nanosleep(const struct timespec* t, struct timespec*) { gClock += (uint64_t)t->tv_sec * 1000000000ull + t->tv_nsec; return 0; }
int usleep(useconds_t u) { gClock += u * 1000ull; return 0; }
unsigned sleep(unsigned s) { gClock += s * 1000000000ull; return 0; }
}
// ---- live heap blocks ----
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define LPS_ASAN 1
#endif
#endif
#include <atomic>
static std::atomic<long> gLive(0);
#ifdef LPS_ASAN
#include <sanitizer/allocator_interface.h>
static int gHooked = __sanitizer_install_malloc_and_free_hooks([](const volatile void*, size_t) { gLive++; }, [](const volatile void* p) { if (p) gLive--; });
#else
extern "C" { void* __libc_malloc(size_t); void __libc_free(void*); void* __libc_calloc(size_t, size_t); void* __libc_realloc(void*, size_t);
void* malloc(size_t n) noexcept { void* p = __libc_malloc(n); if (p) gLive++; return p; }
void* calloc(size_t a, size_t b) noexcept { void* p = __libc_calloc(a, b); if (p) gLive++; return p; }
void* realloc(void* o, size_t n) noexcept { void* p = __libc_realloc(o, n); if (!o && p) gLive++; else if (o && !n && !p) gLive--; return p; }
void free(void* p) noexcept { if (p) gLive--; __libc_free(p); } }
#endif
uint64_t lps_live_blocks() { return (uint64_t)gLive.load(); }
