// R02: an instance is reported stopped exactly after an orderly shutdown; a stop request at any point is neither lost nor harmful.
#include "plug.h"
#include "jsondoc.h"
#include "file.h"
#include <thread>
#include <lamppost/LampPost.h>
extern "C" void lps_main(void) {
  defaultOs(); VDir& d = addDir("/x"); d.entries.reserve(8); unsigned np = lps_param("plugins", 1), stops = lps_param("stops", 1), mode = lps_param("mode", 0); if (np) addLib(d, "A"); gRunMs = 50; gSync = true;
  lp::LampPostConfiguration cfg; M m; if (np) { M& l = m.at("plugins"); l.k = KList; for (unsigned i = 0; i < np; i++) { l.items.push_back(M()); l.items.back().at("type").k = KStr; l.items.back().at("type").s = "A"; } cfg.mConfigurationFiles.push_back(makeFile(jsonDoc(m))); }
  gOnDeinit = [&](int i) { lives()[i]->bus = nullptr; };
  if (lps_param("publish", 0)) gOnRun = [&](int i) { auto p = lives()[i]->bus->CreatePublisher("t"); Datagram x; x["i"] = i; p->Publish(x); lives()[i]->bus->DeletePublisher(p); };
  auto* lamp = new lp::LampPost(cfg); lps_assert(!lamp->IsStopped(), "R02: an instance that has not run is not reported stopped");
  auto finished = [&] { lps_assert(lamp->IsStopped(), "R02: an instance is reported stopped once running has returned"); for (auto* l : lives()) lps_assert(l->destroyed == 1 && l->deinits == 1 && !l->running, "R02: running returns after the plugins were shut down"); for (auto& v : vlibs()) lps_assert(v.opens == v.closes, "R02: running returns after the libraries were closed"); };
  if (mode == 0) { std::atomic<int> begun(0);   // the stop requests come from another thread, at any point
    std::thread t([&] { for (unsigned i = 0; i < stops; i++) { if (i || lps_param("delay", 0)) std::this_thread::sleep_for(std::chrono::milliseconds(lps_choose("delay", 2) ? 250 : 10)); lamp->Stop(); begun++; } });
    lamp->Start(); finished(); t.join(); lps_assert(lamp->IsStopped(), "R02: a late stop request changes nothing"); lps_cover("stopped from outside"); }
  else if (mode == 1) { // the stop request comes from a plugin: at its initialisation, in its worker, or while it is shut down
    unsigned where = lps_choose("where", 3); auto stop = [&](int) { lps_assert(!lamp->IsStopped(), "R02: an instance that runs is not reported stopped"); lamp->Stop(); };
    if (where == 0) gOnInit = stop; else if (where == 1) gOnRun = stop; else gOnDeinit = [&](int i) { stop(i); lives()[i]->bus = nullptr; };
    std::thread t([&] { if (where == 2) { std::this_thread::sleep_for(std::chrono::milliseconds(150)); lamp->Stop(); } }); lamp->Start(); finished(); t.join(); lps_assert(lamp->IsStopped(), "R02: a late stop request changes nothing"); lps_cover("stopped by a plugin"); }
  else { // an observer asks all the time
    std::atomic<bool> done(false); std::thread s([&] { std::this_thread::sleep_for(std::chrono::milliseconds(250)); lps_assert(!lamp->IsStopped(), "R02: an instance that runs is not reported stopped"); lamp->Stop(); });
    std::thread o([&] { for (int i = 0; i < 3; i++) { bool st = lamp->IsStopped(); if (st) { gTick++; for (auto* l : lives()) lps_assert(l->destroyed == 1, "R02: an instance is reported stopped only after the shutdown"); lps_assert(vlibs()[0].opens == vlibs()[0].closes, "R02: an instance is reported stopped only after the shutdown"); lps_cover("seen stopped"); } else lps_cover("seen running"); std::this_thread::sleep_for(std::chrono::milliseconds(200)); } });
    lamp->Start(); finished(); o.join(); s.join(); }
  lamp->Stop(); lps_assert(lamp->IsStopped(), "R02: a stop request after the shutdown is harmless"); delete lamp; lps_obs("n", lives().size()); removeFiles();
}
