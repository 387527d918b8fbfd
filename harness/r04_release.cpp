// R04: an instance releases everything it took, however it was used.
#include "plug.h"
#include "jsondoc.h"
#include "file.h"
#include <thread>
#include <lamppost/LampPost.h>
using namespace lp::bus;
struct Use { unsigned runs, kinds; bool late; };
static unsigned gWant[2], gPubs;
static void forget() { for (auto* l : lives()) delete l; lives().clear(); order().clear(); for (auto* h : vos().handles) { lps_assert(!h->open, "R04: every directory is closed"); delete h; } vos().handles.clear(); }
static void use(const lp::LampPostConfiguration& cfg, Use u) {
  { lp::LampPost lamp(cfg);
    for (unsigned r = 0; r < u.runs; r++) { size_t first = lives().size();
      std::thread stopper([&] { std::this_thread::sleep_for(std::chrono::milliseconds(250)); gTick++; lps_assert(lives().size() == first + gWant[0] + gWant[1], "R04: an instance created later starts its plugins like the first"); lamp.Stop(); });
      lamp.Start(); stopper.join(); lps_assert(lamp.IsStopped(), "R04: an instance created later is reported stopped like the first");
      for (auto* l : lives()) lps_assert(l->destroyed == 1 && l->deinits == 1 && l->inits == 1 && !l->running, "R04: every plugin instance is released when running ends"); for (auto& v : vlibs()) lps_assert(v.opens == v.closes, "R04: every library is released when running ends"); }
    if (u.late) lamp.Stop(); }
  for (auto& v : vlibs()) lps_assert(v.opens == v.closes, "R04: every library is released"); forget();
}
extern "C" void lps_main(void) {
  defaultOs(); VDir& d = addDir("/x"); d.entries.reserve(8); d.types = !lps_param("simple", 0) && lps_choose("types", 2); addLib(d, "A"); addLib(d, "B", lps_choose("state", lps_param("states", 2)) ? (int)lps_choose("broken", 4) + 1 : (int)LibOk); gSync = true; lives().reserve(16); order().reserve(64); jdocs().reserve(8); vos().handles.reserve(16); bool okB = vlibs()[1].state == LibOk;
  M m; M& l = m.at("plugins"); l.k = KList; unsigned n = lps_choose("entries", lps_param("entries", 2) + 1);
  for (unsigned i = 0; i < n; i++) { l.items.push_back(M()); M& e = l.items.back(); unsigned t = lps_choose("type", 3); e.at("type").k = KStr; e.at("type").s = t == 2 ? "C" : t ? "B" : "A"; if (lps_choose("config", 2)) { e.at("configuration").at("n").k = KInt; e.at("configuration").at("n").i = 5; } if (t == 0) gWant[0]++; if (t == 1 && okB) gWant[1]++; if (t == 2 || (t == 1 && !okB)) lps_cover("unavailable"); }
  lp::LampPostConfiguration cfg; unsigned files = lps_param("simple", 0) ? 1 : lps_choose("files", 3); if (!files) gWant[0] = gWant[1] = 0; if (files) cfg.mConfigurationFiles.push_back(makeFile(jsonDoc(m))); if (files == 2) { cfg.mConfigurationFiles.push_back(noFile()); cfg.mPluginManagerConfiguration.mTemplateSearchPaths.push_back("/none"); addDir("/empty"); cfg.mPluginManagerConfiguration.mTemplateSearchPaths.push_back("/empty"); lps_cover("empty directory"); }
  gRunMode = (int)lps_choose("worker", 2); gRunMs = 50; Use u; u.runs = lps_choose("runs", 2); u.late = lps_param("simple", 0) ? 1 : lps_choose("late", 2);

  auto token = std::make_shared<int>(0); bool talk = lps_choose("talk", 2); gOnDeinit = [](int i) { lives()[i]->bus = nullptr; };
  if (talk) gOnInit = [token](int i) { auto b = lives()[i]->bus; b->CreateSubscriber("t", DatagramCallbackType([token](Datagram) { (void)*token; })); auto p = b->CreatePublisher("t"); Datagram x; x["i"] = i; p->Publish(x); auto c = b->CreateActionConsumer("act"); c->RequestAsync(x, [token](Datagram) { (void)*token; }); b->CreateActionProvider("none", [token](std::shared_ptr<ActionProvider>, Str, Datagram) { (void)*token; }); };
  int holders = (int)token.use_count();
  use(cfg, u); uint64_t before = lps_live_heap(); use(cfg, u); lps_assert(lps_live_heap() == before, "R04: a destroyed instance has released all memory it took"); lps_assert(token.use_count() == holders, "R04: a destroyed instance has released what its plugins left behind");
  if (u.runs && gWant[0] + gWant[1]) lps_cover("run"); if (!u.runs) lps_cover("never run"); lps_obs("want", gWant[0] + gWant[1]); removeFiles();
}
