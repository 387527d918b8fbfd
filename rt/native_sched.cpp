// Deterministic scheduler for native replays of multi-threaded witnesses. It takes the place of the pthread library and of
// the thread sanitizer's run-time hooks: one thread runs at a time, and the recorded choices decide which one at the same
// points, with the same options in the same order, as in the symbolic executor. Memory hooks report data races (vector
// clocks), accesses to released memory and to dead stack frames. Compiled with -fsanitize=thread sources, linked without it.
#include <cerrno>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <link.h>
#include <pthread.h>
#include <semaphore.h>
#include <time.h>
#include <unistd.h>
#include <map>
#include <new>
#include <unordered_map>
#include <utility>
#include <vector>
#include "native_sched.h"
namespace {
const int MAXT = 8;
template <class T> struct MA { typedef T value_type; MA() {} template <class U> MA(const MA<U>&) {} T* allocate(size_t n) { return (T*)malloc(n * sizeof(T)); } void deallocate(T* p, size_t) { free(p); } template <class U> bool operator==(const MA<U>&) const { return true; } template <class U> bool operator!=(const MA<U>&) const { return false; } };
template <class T> using Vec = std::vector<T, MA<T>>;
template <class K, class V> using Map = std::map<K, V, std::less<K>, MA<std::pair<const K, V>>>;
template <class K, class V> using HMap = std::unordered_map<K, V, std::hash<K>, std::equal_to<K>, MA<std::pair<const K, V>>>;
struct Clk { uint32_t t[MAXT] = {0}; void join(const Clk& o) { for (int i = 0; i < MAXT; i++) if (o.t[i] > t[i]) t[i] = o.t[i]; } };
enum TStat { TRun, TCondWait, TSleep, TDone };
struct Thr { TStat stat = TRun; void *waitC = 0, *waitM = 0, *wantMutex = 0; uint64_t deadline = 0; bool timed = false, timedOut = false, woken = false, wantW = false, joined = false; int wantJoin = -1; Clk clk; sem_t sem; pthread_t real; char *lo = 0, *hi = 0, *sp = 0; void* (*fn)(void*) = 0; void* arg = 0; };
struct Mtx { int owner = -1, count = 0, readers = 0; };
struct Cell { uint32_t wc = 0; uint8_t wt = 0, wa = 0; uint32_t r[MAXT] = {0}; };
struct Blk { size_t n; bool freed; };
struct G { Thr th[MAXT]; int n = 1, cur = 0, preempts = 0, timeouts = 0, spurious = 0, idle = 0; bool mt = false, granted = false; int maxPre = 2, maxTo = 1, maxSpur = 0, maxIdle = 150; uint64_t clock = 1000000000;
  Map<void*, Mtx> mtx; Map<uintptr_t, Clk> sync; HMap<uintptr_t, Cell> sh; Map<uintptr_t, Blk> heap; Vec<int> choices; size_t pos = 0; bool races = true; };
G* g() { static G* x = nullptr; if (!x) { void* m = malloc(sizeof(G)); x = new (m) G; } return x; }
bool inRt = false;
[[noreturn]] void die(int code, const char* m) { inRt = true; fprintf(stderr, "LPS-VIOLATION %s\n", m); fflush(nullptr); _exit(code); }
[[noreturn]] void dieS(int code, const char* m) { inRt = true; fprintf(stderr, "%s\n", m); fflush(nullptr); _exit(code); }
int choose(int n) { if (n <= 1) return 0; G& x = *g(); if (x.pos >= x.choices.size()) dieS(95, "REPLAY-END in scheduler"); int c = x.choices[x.pos++]; if (c >= n) dieS(98, "REPLAY-MISMATCH in scheduler"); return c; }
bool enabledT(int i) { G& x = *g(); Thr& t = x.th[i]; if (t.stat == TDone || t.stat == TSleep || (t.stat == TCondWait && !t.woken)) return false;
  if (t.wantMutex) { auto it = x.mtx.find(t.wantMutex); if (it != x.mtx.end()) { if (it->second.owner >= 0) return false; if (t.wantW && it->second.readers > 0) return false; } }
  if (t.wantJoin >= 0 && x.th[t.wantJoin].stat != TDone) return false; return true; }
bool timeoutable(int i) { Thr& t = g()->th[i]; return t.stat == TSleep || (t.stat == TCondWait && t.timed && !t.woken); }
void fire(int i) { G& x = *g(); Thr& t = x.th[i]; if (t.deadline > x.clock) x.clock = t.deadline; if (t.stat == TSleep) { t.stat = TRun; t.timedOut = true; } else { t.woken = true; t.timedOut = true; t.wantMutex = t.waitM; } }
// hands the processor to the thread the witness chose; returns when this thread is chosen again
void pick(bool curCan, bool yieldNow) {
  G& x = *g(); int me = x.cur; x.granted = false;
  for (;;) {
    std::pair<int, int> o[3 * MAXT + 2]; int k = 0; bool pre = x.preempts < x.maxPre;
    if (curCan && !yieldNow) o[k++] = {x.cur, 0};
    for (int i = 0; i < x.n; i++) if (i != x.cur && enabledT(i) && (!curCan || yieldNow || pre)) o[k++] = {i, 0};
    if (!curCan && enabledT(x.cur)) o[k++] = {x.cur, 0};
    if (x.timeouts < x.maxTo && k) for (int i = 0; i < x.n; i++) if (timeoutable(i) && (pre || !curCan || yieldNow)) o[k++] = {i, 1};
    if (x.spurious < x.maxSpur && k) for (int i = 0; i < x.n; i++) if (x.th[i].stat == TCondWait && !x.th[i].woken && (pre || !curCan || yieldNow)) o[k++] = {i, 2};
    if (!k && curCan) o[k++] = {x.cur, 0};
    if (!k) { int b = -1; for (int i = 0; i < x.n; i++) if (timeoutable(i) && (b < 0 || x.th[i].deadline < x.th[b].deadline)) b = i;
      if (b < 0) die(92, "deadlock"); if (++x.idle > x.maxIdle) die(88, "hang"); fire(b); continue; }
    auto c = o[choose(k)];
    if (c.second) { if (c.second == 2) { Thr& t = x.th[c.first]; t.woken = true; t.wantMutex = t.waitM; x.spurious++; } else { fire(c.first); x.timeouts++; } if (!enabledT(c.first)) continue; }
    if (c.first != x.cur && curCan && !yieldNow) x.preempts++;
    x.cur = c.first; x.granted = true; break;
  }
  if (x.cur != me) { x.th[me].sp = (char*)__builtin_frame_address(0); sem_post(&x.th[x.cur].sem); while (sem_wait(&x.th[me].sem)) {} }
}
void schedPoint() { G& x = *g(); if (!x.mt || x.granted) return; pick(enabledT(x.cur), false); }
void done() { g()->granted = false; }
void acq(uintptr_t a) { G& x = *g(); if (x.mt) { auto it = x.sync.find(a); if (it != x.sync.end()) x.th[x.cur].clk.join(it->second); } }
void rel(uintptr_t a) { G& x = *g(); if (x.mt) { x.sync[a].join(x.th[x.cur].clk); x.th[x.cur].clk.t[x.cur]++; } }
void bounds(Thr& t) { pthread_attr_t a; void* s; size_t n; if (pthread_getattr_np(pthread_self(), &a) == 0) { pthread_attr_getstack(&a, &s, &n); t.lo = (char*)s; t.hi = (char*)s + n; pthread_attr_destroy(&a); } }
void access(uintptr_t p, size_t n, bool write, bool atomic) {
  G& x = *g(); if (inRt) return;
  if (!x.heap.empty()) { auto it = x.heap.upper_bound(p); if (it != x.heap.begin()) { --it; if (p < it->first + it->second.n && it->second.freed) die(90, write ? "use after free (write)" : "use after free (read)"); } }
  for (int i = 0; i < x.n; i++) { Thr& t = x.th[i]; if (t.lo && p >= (uintptr_t)t.lo && p < (uintptr_t)t.hi) { uintptr_t sp = i == x.cur ? (uintptr_t)__builtin_frame_address(0) : (uintptr_t)t.sp; if (sp && p + 256 < sp) die(90, "use after return"); } }
  if (!x.mt || !x.races) return;
  inRt = true; int me = x.cur; Clk& k = x.th[me].clk;
  for (uintptr_t a = p; a < p + n; a++) { Cell& c = x.sh[a];
    if (c.wc && c.wt != me && c.wc > k.t[c.wt] && !(atomic && c.wa)) die(91, "data race");
    if (write) { for (int j = 0; j < MAXT; j++) if (j != me && c.r[j] > k.t[j] && !atomic) die(91, "data race"); c.wc = k.t[me]; c.wt = me; c.wa = atomic; }
    else if (!atomic) c.r[me] = k.t[me]; }
  inRt = false;
}
void* tmain(void* p) { G& x = *g(); int id = (int)(intptr_t)p; Thr& t = x.th[id]; while (sem_wait(&t.sem)) {} inRt = true; bounds(t); inRt = false; t.fn(t.arg);
  t.stat = TDone; t.clk.t[id]++; x.granted = false; /* pick another thread; this one never runs again */
  inRt = true; t.lo = t.hi = nullptr; inRt = false; pick(false, false); return nullptr; }
bool visible(void* ra) { static Map<void*, bool>* m = nullptr; if (!m) m = new (malloc(sizeof(*m))) Map<void*, bool>; auto it = m->find(ra); if (it != m->end()) return it->second;
  Dl_info i; ElfW(Sym)* s = nullptr; bool v = false; if (dladdr1(ra, &i, (void**)&s, RTLD_DL_SYMENT) && i.dli_sname && s && (char*)ra <= (char*)i.dli_saddr + s->st_size) v = strstr(i.dli_sname, "St6atomic") || strstr(i.dli_sname, "__atomic_base") || strstr(i.dli_sname, "atomic_flag"); (*m)[ra] = v; return v; }
}
void lps_sched_choice(int c) { g()->choices.push_back(c); }
void lps_sched_config(int pre, int to, int idle, int races, int spur) { G& x = *g(); x.maxPre = pre; x.maxTo = to; x.maxIdle = idle; x.races = races; x.maxSpur = spur; bounds(x.th[0]); sem_init(&x.th[0].sem, 0, 0); }
void lps_sched_progress() { g()->idle = 0; }
bool lps_sched_leftover() { return g()->pos != g()->choices.size(); }
extern "C" {
int pthread_create(pthread_t* out, const pthread_attr_t*, void* (*fn)(void*), void* arg) {
  G& x = *g(); schedPoint(); if (x.n >= MAXT) dieS(98, "too many threads"); if (!x.mt) { x.mt = true; x.th[0].clk.t[0] = 1; }
  int id = x.n++; Thr& n = x.th[id]; Thr& me = x.th[x.cur]; n.fn = fn; n.arg = arg; n.clk = me.clk; n.clk.t[id] = 1; me.clk.t[x.cur]++; sem_init(&n.sem, 0, 0);
  typedef int (*F)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*); static F real = (F)dlsym(RTLD_NEXT, "pthread_create");
  inRt = true; real(&n.real, nullptr, tmain, (void*)(intptr_t)id); inRt = false; *out = n.real; x.idle = 0; done(); return 0; }
int pthread_join(pthread_t p, void**) { G& x = *g(); int id = -1; for (int i = 1; i < x.n; i++) if (x.th[i].real == p && !x.th[i].joined) id = i; if (id < 0) { if (pthread_equal(p, pthread_self())) return EDEADLK; die(87, "join of an invalid thread"); } if (id == x.cur) return EDEADLK;
  x.th[x.cur].wantJoin = id; schedPoint(); while (x.th[id].stat != TDone) pick(false, false); x.th[x.cur].wantJoin = -1; x.th[x.cur].clk.join(x.th[id].clk); x.th[id].joined = true; done(); return 0; }
int pthread_detach(pthread_t) { return 0; }
int sched_yield() { G& x = *g(); if (!x.mt) return 0; pick(enabledT(x.cur), true); done(); return 0; }
static int kindOf(pthread_mutex_t* m) { return m->__data.__kind & 3; }
static void touch(void* p, size_t n) { access((uintptr_t)p, n, false, true); }
int pthread_mutex_lock(pthread_mutex_t* m) {
  G& x = *g(); if (inRt) return 0; touch(m, 4); Mtx& q = x.mtx[m];
  if (q.owner == x.cur && kindOf(m) == 1) { q.count++; return 0; } if (q.owner == x.cur && kindOf(m) == 2) return EDEADLK;
  if (!x.mt) { if (q.owner == x.cur) die(92, "deadlock"); q.owner = x.cur; q.count = 1; return 0; }
  Thr& t = x.th[x.cur]; t.wantMutex = m; t.wantW = true; schedPoint(); while (q.owner >= 0 || q.readers) pick(false, false);
  t.wantMutex = 0; t.wantW = false; q.owner = x.cur; q.count = 1; acq((uintptr_t)m); done(); return 0; }
int pthread_mutex_trylock(pthread_mutex_t* m) { G& x = *g(); if (inRt) return 0; touch(m, 4); schedPoint(); Mtx& q = x.mtx[m]; done(); if (q.owner == x.cur && kindOf(m) == 1) { q.count++; return 0; } if (q.owner >= 0 || q.readers) return EBUSY; q.owner = x.cur; q.count = 1; acq((uintptr_t)m); return 0; }
int pthread_mutex_unlock(pthread_mutex_t* m) { G& x = *g(); if (inRt) return 0; touch(m, 4); Mtx& q = x.mtx[m]; if (q.readers && q.owner < 0) { q.readers--; rel((uintptr_t)m); return 0; } if (q.owner != x.cur) die(87, "mutex unlocked by a thread that does not hold it"); if (--q.count == 0) { q.owner = -1; rel((uintptr_t)m); } return 0; }
int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t*) { memset(m, 0, sizeof *m); return 0; }
int pthread_mutex_destroy(pthread_mutex_t*) { return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t* m) { G& x = *g(); Mtx& q = x.mtx[m]; if (!x.mt) { q.readers++; return 0; } Thr& t = x.th[x.cur]; t.wantMutex = m; t.wantW = false; schedPoint(); while (q.owner >= 0) pick(false, false); t.wantMutex = 0; q.readers++; acq((uintptr_t)m); done(); return 0; }
int pthread_rwlock_wrlock(pthread_rwlock_t* m) { G& x = *g(); Mtx& q = x.mtx[m]; if (!x.mt) { q.owner = x.cur; q.count = 1; return 0; } Thr& t = x.th[x.cur]; t.wantMutex = m; t.wantW = true; schedPoint(); while (q.owner >= 0 || q.readers) pick(false, false); t.wantMutex = 0; t.wantW = false; q.owner = x.cur; q.count = 1; acq((uintptr_t)m); done(); return 0; }
int pthread_rwlock_unlock(pthread_rwlock_t* m) { return pthread_mutex_unlock((pthread_mutex_t*)m); }
static int cwait(pthread_cond_t* c, pthread_mutex_t* m, bool timed, uint64_t deadline) {
  G& x = *g(); touch(m, 4); touch(c, 4); schedPoint(); Mtx& q = x.mtx[m]; if (q.owner != x.cur) die(87, "condition wait without holding the mutex");
  if (!x.mt) { if (!timed) die(92, "deadlock"); if (++x.idle > x.maxIdle) die(88, "hang"); if (deadline > x.clock) x.clock = deadline; return ETIMEDOUT; }
  q.owner = -1; q.count = 0; rel((uintptr_t)m); Thr& t = x.th[x.cur]; t.stat = TCondWait; t.waitC = c; t.waitM = m; t.timed = timed; t.deadline = deadline; t.woken = t.timedOut = false; t.wantW = true;
  pick(false, false); while (q.owner >= 0) pick(false, false);
  q.owner = x.cur; q.count = 1; acq((uintptr_t)m); t.stat = TRun; t.wantMutex = 0; bool to = t.timedOut; t.timedOut = t.woken = false; done(); if (!to) acq((uintptr_t)c); return to ? ETIMEDOUT : 0; }
static uint64_t ns(const struct timespec* t) { return (uint64_t)t->tv_sec * 1000000000ull + t->tv_nsec; }
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return cwait(c, m, false, 0); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t) { return cwait(c, m, true, ns(t)); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const struct timespec* t) { return cwait(c, m, true, ns(t)); }
static int notify(pthread_cond_t* c, bool all) { G& x = *g(); if (inRt) return 0; touch(c, 4); schedPoint(); int w[MAXT], k = 0; for (int i = 0; i < x.n; i++) if (x.th[i].stat == TCondWait && !x.th[i].woken && x.th[i].waitC == c) w[k++] = i; if (x.mt) rel((uintptr_t)c);
  if (k) { x.idle = 0; int lo = 0, hi = k; if (!all && k > 1) { lo = choose(k); hi = lo + 1; } for (int i = lo; i < hi; i++) { x.th[w[i]].woken = true; x.th[w[i]].wantMutex = x.th[w[i]].waitM; } } done(); return 0; }
int pthread_cond_signal(pthread_cond_t* c) { return notify(c, false); }
int pthread_cond_broadcast(pthread_cond_t* c) { return notify(c, true); }
int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*) { memset(c, 0, sizeof *c); return 0; }
int pthread_cond_destroy(pthread_cond_t*) { return 0; }
static int sleepNs(uint64_t n) { G& x = *g(); if (!x.mt) { x.clock += n; return 0; } Thr& t = x.th[x.cur]; t.stat = TSleep; t.deadline = x.clock + n; t.timedOut = false; pick(false, false); t.timedOut = false; done(); return 0; }
int nanosleep(const struct timespec* t, struct timespec*) { return sleepNs(ns(t)); }
int clock_nanosleep(clockid_t, int, const struct timespec* t, struct timespec*) { return sleepNs(ns(t)); }
int usleep(useconds_t u) { return sleepNs(u * 1000ull); }
unsigned sleep(unsigned s) { sleepNs(s * 1000000000ull); return 0; }
long lps_clock_now() { return (long)++g()->clock; }
// memory: never reused, so that addresses order as they are allocated and stale accesses are seen
// hooks the instrumented code calls
void __tsan_init() {} void __tsan_func_entry(void*) {} void __tsan_func_exit() {} void __tsan_ignore_thread_begin() {} void __tsan_ignore_thread_end() {}
#define RW(n) void __tsan_read##n(void* p) { access((uintptr_t)p, n, false, false); } void __tsan_write##n(void* p) { access((uintptr_t)p, n, true, false); } void __tsan_unaligned_read##n(void* p) { access((uintptr_t)p, n, false, false); } void __tsan_unaligned_write##n(void* p) { access((uintptr_t)p, n, true, false); } void __tsan_read_write##n(void* p) { access((uintptr_t)p, n, false, false); access((uintptr_t)p, n, true, false); } void __tsan_unaligned_read_write##n(void* p) { access((uintptr_t)p, n, false, false); access((uintptr_t)p, n, true, false); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_read(void** p) { access((uintptr_t)p, 8, false, false); }
void __tsan_vptr_update(void** p, void* v) { if (*p != v) access((uintptr_t)p, 8, true, false); }
void __tsan_read_range(void* p, size_t n) { access((uintptr_t)p, n, false, false); } void __tsan_write_range(void* p, size_t n) { access((uintptr_t)p, n, true, false); }
void* __tsan_memcpy(void* d, const void* s, size_t n) { if (n) { access((uintptr_t)s, n, false, false); access((uintptr_t)d, n, true, false); } return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { if (n) { access((uintptr_t)s, n, false, false); access((uintptr_t)d, n, true, false); } return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { if (n) access((uintptr_t)d, n, true, false); return memset(d, c, n); }
// library functions that access memory for the code under test
static void* real(const char* n) { bool o = inRt; inRt = true; void* p = dlsym(RTLD_NEXT, n); inRt = o; return p; }
int vsnprintf(char* d, size_t n, const char* f, va_list l) { typedef int (*F)(char*, size_t, const char*, va_list); static F q = (F)real("vsnprintf"); int r = q(d, n, f, l); if (r >= 0 && n) access((uintptr_t)d, (size_t)r < n ? r + 1 : n, true, false); return r; }
int snprintf(char* d, size_t n, const char* f, ...) { va_list l; va_start(l, f); int r = vsnprintf(d, n, f, l); va_end(l); return r; }
int vsprintf(char* d, const char* f, va_list l) { typedef int (*F)(char*, const char*, va_list); static F q = (F)real("vsprintf"); int r = q(d, f, l); if (r >= 0) access((uintptr_t)d, r + 1, true, false); return r; }
int sprintf(char* d, const char* f, ...) { va_list l; va_start(l, f); int r = vsprintf(d, f, l); va_end(l); return r; }
char* strcpy(char* d, const char* s) { typedef char* (*F)(char*, const char*); static F q = (F)real("strcpy"); q(d, s); size_t n = 0; while (((volatile const char*)s)[n]) n++; access((uintptr_t)s, n + 1, false, false); access((uintptr_t)d, n + 1, true, false); return d; }
char* strncpy(char* d, const char* s, size_t n) { typedef char* (*F)(char*, const char*, size_t); static F q = (F)real("strncpy"); q(d, s, n); if (n) access((uintptr_t)d, n, true, false); return d; }
#define ATOM(B, T) \
T __tsan_atomic##B##_load(const volatile T* a, int) { bool v = g()->mt && visible(__builtin_return_address(0)); if (v) schedPoint(); acq((uintptr_t)a); access((uintptr_t)a, sizeof(T), false, true); T r = *a; if (v) done(); return r; } \
void __tsan_atomic##B##_store(volatile T* a, T x, int) { bool v = g()->mt && visible(__builtin_return_address(0)); if (v) schedPoint(); acq((uintptr_t)a); access((uintptr_t)a, sizeof(T), true, true); *a = x; rel((uintptr_t)a); if (v) done(); } \
static T rmw##B(volatile T* a, T x, int k, void* ra) { bool v = g()->mt && visible(ra); if (v) schedPoint(); acq((uintptr_t)a); access((uintptr_t)a, sizeof(T), false, true); access((uintptr_t)a, sizeof(T), true, true); T o = *a; switch (k) { case 0: *a = x; break; case 1: *a = o + x; break; case 2: *a = o - x; break; case 3: *a = o & x; break; case 4: *a = o | x; break; case 5: *a = o ^ x; break; } rel((uintptr_t)a); if (v) done(); return o; } \
T __tsan_atomic##B##_exchange(volatile T* a, T x, int) { return rmw##B(a, x, 0, __builtin_return_address(0)); } T __tsan_atomic##B##_fetch_add(volatile T* a, T x, int) { return rmw##B(a, x, 1, __builtin_return_address(0)); } \
T __tsan_atomic##B##_fetch_sub(volatile T* a, T x, int) { return rmw##B(a, x, 2, __builtin_return_address(0)); } T __tsan_atomic##B##_fetch_and(volatile T* a, T x, int) { return rmw##B(a, x, 3, __builtin_return_address(0)); } \
T __tsan_atomic##B##_fetch_or(volatile T* a, T x, int) { return rmw##B(a, x, 4, __builtin_return_address(0)); } T __tsan_atomic##B##_fetch_xor(volatile T* a, T x, int) { return rmw##B(a, x, 5, __builtin_return_address(0)); } \
static int cas##B(volatile T* a, T* e, T x, void* ra) { bool v = g()->mt && visible(ra); if (v) schedPoint(); acq((uintptr_t)a); access((uintptr_t)a, sizeof(T), false, true); T o = *a; bool eq = o == *e; if (eq) { access((uintptr_t)a, sizeof(T), true, true); *a = x; } else *e = o; rel((uintptr_t)a); if (v) done(); return eq; } \
int __tsan_atomic##B##_compare_exchange_strong(volatile T* a, T* e, T x, int, int) { return cas##B(a, e, x, __builtin_return_address(0)); } int __tsan_atomic##B##_compare_exchange_weak(volatile T* a, T* e, T x, int, int) { return cas##B(a, e, x, __builtin_return_address(0)); } \
T __tsan_atomic##B##_compare_exchange_val(volatile T* a, T e, T x, int, int) { cas##B(a, &e, x, __builtin_return_address(0)); return e; }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)
void __tsan_atomic_thread_fence(int) {} void __tsan_atomic_signal_fence(int) {}
}
static uint64_t gLive = 0;
uint64_t lps_live_blocks() { return gLive; }
static void* lpsNew(size_t n) { gLive++; G& x = *g(); static char *cur = nullptr, *end = nullptr; size_t k = (n + 31) & ~(size_t)15; if (!cur || cur + k > end) { size_t s = k > (64u << 20) ? k : (64u << 20); cur = (char*)malloc(s); end = cur + s; } void* p = cur; cur += k; memset(p, 0xa5, n); bool o = inRt; inRt = true; x.heap[(uintptr_t)p] = Blk{n ? n : 1, false}; inRt = o; return p; }
static void lpsDel(void* p) { if (!p) return; G& x = *g(); auto it = x.heap.find((uintptr_t)p); if (it == x.heap.end()) die(89, "invalid delete"); if (it->second.freed) die(89, "double delete"); access((uintptr_t)p, it->second.n, true, false); it->second.freed = true; gLive--; }
void* operator new(size_t n) { return lpsNew(n); } void* operator new[](size_t n) { return lpsNew(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return lpsNew(n); } void* operator new[](size_t n, const std::nothrow_t&) noexcept { return lpsNew(n); }
void operator delete(void* p) noexcept { lpsDel(p); } void operator delete(void* p, size_t) noexcept { lpsDel(p); } void operator delete[](void* p) noexcept { lpsDel(p); } void operator delete[](void* p, size_t) noexcept { lpsDel(p); }
