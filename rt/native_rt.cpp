// Native side of the harness interface: replays a recorded witness against the real, natively compiled code.
#include "lps.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include <sstream>
#include <string>
#include <vector>
#include <unistd.h>
#include "native_sched.h"

namespace {
struct In { std::string name; std::vector<unsigned char> b; };
struct Store { std::vector<In> in; size_t pos = 0; std::map<std::string, long long> params; FILE* obs = nullptr; bool loaded = false; };
Store& st() { static Store* s = new Store; if (!s->loaded) { s->loaded = true;
    if (const char* f = getenv("LPS_REPLAY")) { std::ifstream i(f); std::string l; while (std::getline(i, l)) { size_t p = l.rfind(' '); In x; x.name = l.substr(0, p); std::string h = l.substr(p + 1); for (size_t k = 0; k + 1 < h.size(); k += 2) x.b.push_back((unsigned char)strtoul(h.substr(k, 2).c_str(), nullptr, 16)); if (x.name == "!sched") lps_sched_choice(x.b.empty() ? 0 : x.b[0]); else s->in.push_back(x); } }
    if (const char* p = getenv("LPS_PARAMS")) { std::istringstream i(p); std::string kv; while (i >> kv) { size_t e = kv.find('='); s->params[kv.substr(0, e)] = atoll(kv.substr(e + 1).c_str()); } }
    if (const char* o = getenv("LPS_OBS")) s->obs = fopen(o, "w"); }
  return *s; }
[[noreturn]] void quit(int c) { if (st().obs) fflush(st().obs); fflush(nullptr); _exit(c); }
In& next(const char* name) { Store& s = st(); if (s.pos >= s.in.size()) { fprintf(stderr, "REPLAY-END at %s\n", name); quit(95); } In& i = s.in[s.pos++]; if (i.name != name) { fprintf(stderr, "REPLAY-MISMATCH expected %s got %s\n", i.name.c_str(), name); quit(98); } return i; }
uint64_t u64(const In& i) { uint64_t v = 0; for (size_t k = 0; k < i.b.size() && k < 8; k++) v |= (uint64_t)i.b[k] << (8 * k); return v; }
}
extern "C" {
void lps_sym(void* p, size_t n, const char* name) { In& i = next(name); for (size_t k = 0; k < n; k++) ((unsigned char*)p)[k] = k < i.b.size() ? i.b[k] : 0; }
uint64_t lps_val(const char* name) { return u64(next(name)); }
uint64_t lps_range(const char* name, uint64_t, uint64_t) { return u64(next(name)); }
uint64_t lps_choose(const char* name, uint64_t) { return u64(next(name)); }
void lps_assume(bool c) { if (!c) { fprintf(stderr, "REPLAY-ASSUME\n"); quit(96); } }
void lps_assert_(bool c, const char* m) { lps_sched_progress(); if (!c) { fprintf(stderr, "LPS-ASSERT %s\n", m); quit(97); } }
void lps_fail(const char* m) { fprintf(stderr, "LPS-ASSERT %s\n", m); quit(97); }
uint64_t lps_concretize(uint64_t v) { return v; }
void lps_cover(const char*) {}
void lps_obs(const char* n, uint64_t v) { if (st().obs) { fprintf(st().obs, "%s %llx\n", n, (unsigned long long)v); fflush(st().obs); } }
void lps_obs_bytes(const char* n, const void* p, size_t k) { if (st().obs) { fprintf(st().obs, "%s ", n); for (size_t i = 0; i < k; i++) fprintf(st().obs, k == 1 ? "%x" : "%02x", ((const unsigned char*)p)[i]); fprintf(st().obs, "\n"); fflush(st().obs); } }
int64_t lps_param(const char* n, int64_t d) { auto it = st().params.find(n); return it == st().params.end() ? d : it->second; }
void lps_progress(void) { lps_sched_progress(); }
uint64_t lps_live_heap(void) { return lps_live_blocks(); }
int lps_symbolic(void) { return 0; }
void lps_print(const char* s, uint64_t v) { if (getenv("LPS_PRINT")) fprintf(stderr, "[%s] %llx\n", s, (unsigned long long)v); }
// the generator's outputs come from the witness
}
asm(".globl _ZNSt23mersenne_twister_engineImLm32ELm624ELm397ELm31ELm2567483615ELm11ELm4294967295ELm7ELm2636928640ELm15ELm4022730752ELm18ELm1812433253EEclEv\n"
    ".set _ZNSt23mersenne_twister_engineImLm32ELm624ELm397ELm31ELm2567483615ELm11ELm4294967295ELm7ELm2636928640ELm15ELm4022730752ELm18ELm1812433253EEclEv, lps_mt_next\n");
extern "C" __attribute__((used)) uint64_t lps_mt_next(void*) { return u64(next("random")) & 0xffffffffu; }
// dynamic loading is redirected to the harness (compile-time renaming); a harness that loads libraries defines these
extern "C" { __attribute__((weak)) void* lps_dlopen(const char*, int) { return nullptr; } __attribute__((weak)) void* lps_dlsym(void*, const char*) { return nullptr; } __attribute__((weak)) int lps_dlclose(void*) { return -1; } __attribute__((weak)) char* lps_dlerror() { static char e[] = "error"; return e; } }
// captured standard output, as in the symbolic executor
namespace { std::stringbuf* gCap() { static std::stringbuf* b = new std::stringbuf; return b; } std::string* gStr() { static std::string* s = new std::string; return s; } }
extern "C" const char* lps_cout_data() { *gStr() = gCap()->str(); return gStr()->data(); }
extern "C" size_t lps_cout_size() { return gCap()->str().size(); }
extern "C" void lps_cout_reset() { gCap()->str(""); }
extern "C" long lps_clock_now();
asm(".globl _ZNSt6chrono3_V212steady_clock3nowEv\n.set _ZNSt6chrono3_V212steady_clock3nowEv, lps_clock_now2\n.globl _ZNSt6chrono3_V212system_clock3nowEv\n.set _ZNSt6chrono3_V212system_clock3nowEv, lps_clock_now2\n");
extern "C" __attribute__((used)) long lps_clock_now2() { return lps_clock_now(); }
int main() {
  st(); lps_sched_config((int)lps_param("!preempt", 2), (int)lps_param("!timeouts", 1), (int)lps_param("!idle", 150), (int)lps_param("!races", 1), (int)lps_param("!spurious", 0)); std::cout.rdbuf(gCap());
  try { lps_main(); } catch (...) { fprintf(stderr, "LPS-UNCAUGHT exception\n"); quit(94); }
  if (st().pos != st().in.size() || lps_sched_leftover()) { fprintf(stderr, "REPLAY-LEFTOVER\n"); quit(93); }
  fprintf(stderr, "REPLAY-DONE\n"); quit(0);
}
