// R03: interrupt and termination signals request a stop, whenever they arrive; other signals delivered to the handler do nothing.
#ifdef LPS_MAIN
#include "plug.h"
#include "jsondoc.h"
#include "file.h"
#include <lamppost/LampPost.h>
int lamppost_main(int, char**);
#else
#include "common.h"
#endif
#include <cerrno>
#include <csignal>
#include <iostream>
#include <thread>
struct Hook { bool set = false; struct sigaction act; };
static Hook gHook[65]; static bool gFail = false; static void (*gOnHook)() = nullptr;
extern "C" {
int sigfillset(sigset_t* s) noexcept { memset(s, 255, sizeof *s); return 0; }
int sigemptyset(sigset_t* s) noexcept { memset(s, 0, sizeof *s); return 0; }
int sigaddset(sigset_t* s, int n) noexcept { if (n < 1 || n > 64) return -1; s->__val[(n - 1) / 64] |= 1ul << ((n - 1) % 64); return 0; }
int sigaction(int n, const struct sigaction* a, struct sigaction* o) noexcept { if (n < 1 || n > 64) { errno = EINVAL; return -1; } if (o) *o = gHook[n].act; if (a) { gHook[n].act = *a; gHook[n].set = a->sa_handler != SIG_DFL; if (gOnHook) gOnHook(); } return 0; }
sighandler_t signal(int n, sighandler_t h) noexcept { if (n < 1 || n > 64) return SIG_ERR; sighandler_t o = gHook[n].act.sa_handler; memset(&gHook[n].act, 0, sizeof gHook[n].act); gHook[n].act.sa_handler = h; gHook[n].set = h != SIG_DFL; if (gOnHook) gOnHook(); return o; }
}
static void run(const struct sigaction& a, int n) { if (a.sa_flags & SA_SIGINFO) { siginfo_t i; memset(&i, 0, sizeof i); i.si_signo = n; a.sa_sigaction(n, &i, nullptr); } else a.sa_handler(n); }
// delivers a signal: the installed handler runs, or the process would be terminated
static void deliver(int n) { Hook& h = gHook[n]; if (!h.set) { lps_fail("R03: an interrupt or termination signal requests a stop instead of ending the process"); return; } if (h.act.sa_handler == SIG_IGN) { lps_fail("R03: an interrupt or termination signal is not ignored"); return; } if (h.act.sa_flags & SA_RESETHAND) h.set = false; run(h.act, n); }
#ifndef LPS_MAIN
void HookSystemSignals(); static unsigned gStops = 0;
void HandleShutdownSignal() { gStops++; }
extern "C" void lps_main(void) {
  HookSystemSignals(); lps_assert(gStops == 0, "R03: installing the hooks requests no stop");
  lps_assert(gHook[SIGINT].set && gHook[SIGTERM].set, "R03: interrupt and termination signals are hooked"); if (!gHook[SIGINT].set || !gHook[SIGTERM].set) return;
  for (int i = 0; i < 2; i++) { int via = lps_choose("via", 2) ? SIGINT : SIGTERM; bool same = lps_choose("same", 2); unsigned before = gStops;   // whatever signal is delivered to either handler
    if (same) { deliver(via); lps_assert(gStops == before + 1, "R03: the signal requests exactly one stop"); lps_cover("stop"); }
    else { int n = (int)(uint32_t)lps_val("signal"); lps_assume(n != SIGINT && n != SIGTERM); run(gHook[via].act, n); lps_assert(gStops == before, "R03: other signals do nothing"); lps_cover("other"); } }
  for (int n = 1; n < 65; n++) if (n != SIGINT && n != SIGTERM && gHook[n].set && gHook[n].act.sa_handler != SIG_IGN) { unsigned before = gStops; run(gHook[n].act, n); lps_assert(gStops == before, "R03: other signals do nothing"); }
  lps_obs("stops", gStops);
}
#else
// the whole program: a signal arrives at some moment after the hooks were installed
static unsigned gAt = 0, gSignal = SIGTERM; static std::atomic<unsigned> gSeen(0), gDelivered(0); static std::atomic<bool> gArmed(false), gBusy(false);
static void moment() { if (!gArmed || gBusy || !gHook[SIGINT].set || !gHook[SIGTERM].set) return; if (gSeen++ == gAt) { gBusy = true; gDelivered++; deliver(gSignal); gBusy = false; } }
struct Watch : std::streambuf { std::streamsize xsputn(const char*, std::streamsize n) override { moment(); return n; } int_type overflow(int_type c) override { moment(); return c == traits_type::eof() ? 0 : c; } };
extern "C" void lps_main(void) {
  defaultOs(); VDir& d = addDir("/x"); d.entries.reserve(8); unsigned np = 1; addLib(d, "A"); gRunMs = 50; gSync = true; gKeepBus = false; bool worker = lps_param("worker", 0); gSignal = lps_choose("signal", 2) ? SIGINT : SIGTERM;
  M m; if (np) { M& l = m.at("plugins"); l.k = KList; l.items.push_back(M()); l.items.back().at("type").k = KStr; l.items.back().at("type").s = "A"; } Str path = makeFile(jsonDoc(m));
  if (worker) { gOnRun = [&](int) { gDelivered++; deliver(gSignal); }; gOnHook = nullptr; }
  else { gAt = lps_choose("moment", lps_param("moments", 80)); gArmed = true; gOnHook = moment; gOnRun = [&](int) { std::this_thread::sleep_for(std::chrono::seconds(1)); if (!gDelivered) { gArmed = false; gDelivered++; deliver(gSignal); lps_cover("late signal"); } }; }
  static Watch w; std::streambuf* old = std::cout.rdbuf(&w); char a0[] = "lamppost"; char a1[64]; strcpy(a1, path.c_str()); char* argv[] = {a0, a1, nullptr};
  int r = lamppost_main(2, argv); gArmed = false; std::cout.rdbuf(old); lps_assert(r == 0, "R03: the program ends normally after the signal"); lps_assert(gDelivered == 1, "R03: one signal was enough"); for (auto* l : lives()) lps_assert(l->destroyed == 1 && l->deinits == 1 && !l->running, "R03: the plugins were shut down"); for (auto& v : vlibs()) lps_assert(v.opens == v.closes, "R03: the libraries were closed"); lps_cover(worker ? "signal in a worker" : "signal"); lps_obs("seen", gAt); removeFiles();
}
#endif
