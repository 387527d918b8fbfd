// P05: a started plugin instance's worker runs until it is asked to stop; stopping returns when it has ended; it can be started again.
#include "common.h"
#include <lamppost/plugin/PluginInstance.h>
#include <atomic>
#include <chrono>
#include <thread>
typedef std::chrono::milliseconds ms;
struct Worker : public lp::PluginInstance {
  std::atomic<int> running{0}, runs{0}; std::atomic<bool> asked{false}; int mode = 0; Worker(lp::PluginConfiguration c) : lp::PluginInstance(c) {} 
  void Initialize() override {} void Deinitialize() override {}
  void Run() override { int before = running++; lps_assert(before == 0, "P05: an instance has one worker at a time"); bool flag = mShouldRun; bool a = asked; lps_assert(flag || a, "P05: the worker finds itself asked to run until a stop is requested"); runs++;
    if (mode == 0) { while (mShouldRun) Sleep(ms(50)); bool a2 = asked; lps_assert(a2, "P05: the worker finds itself asked to run until a stop is requested"); }
    else if (mode == 2) { mShouldRun = false; }
    running--; }
};
extern "C" void lps_main(void) {
  auto root = std::make_shared<lp::bus::Bus>("root"); lp::PluginConfiguration c; c.mIdentifier = "W0"; c.mBus = root->CreateChildBus("W0"); auto* w = new Worker(c); bool started = false; int starts = 0; w->mode = (int)lps_choose("mode", 3);
  for (unsigned i = 0; i < (unsigned)lps_param("ops", 4); i++) switch (lps_choose("op", 4)) {
    case 0: if (started && w->mode == 0) { lps_assume(false); } if (started) { while (w->runs != starts || w->running != 0) std::this_thread::sleep_for(ms(10)); lps_cover("started again after it ended"); } else if (starts) lps_cover("started again"); w->asked = false; w->Start(); started = true; starts++; break;
    case 1: w->asked = true; w->Stop(); lps_assert(w->running == 0, "P05: stopping returns when the worker has ended"); lps_assert(w->runs == starts, "P05: every start runs the worker once"); if (!started) lps_cover("stopped without being started"); started = false; break;
    case 2: std::this_thread::sleep_for(ms(120)); if (lps_param("slow", 0)) break; lps_assert(w->runs == starts, "P05: every start runs the worker once"); if (started && w->mode == 0) lps_assert(w->running == 1, "P05: the worker runs until a stop is requested"); lps_progress(); break;
    case 3: i = 1000; break; }
  w->asked = true; w->Stop(); lps_assert(w->running == 0, "P05: stopping returns when the worker has ended"); lps_assert(w->runs == starts, "P05: every start runs the worker once"); lps_obs("starts", starts); delete w; lps_progress();
}
