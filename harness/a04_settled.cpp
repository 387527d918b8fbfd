// A04: a request that was answered or has timed out leaves nothing behind.
#include "common.h"
#include <lamppost/bus/Bus.h>
#include <atomic>
#include <chrono>
#include <thread>
using namespace lp::bus; typedef std::chrono::milliseconds ms;
extern "C" void lps_main(void) {
  auto root = std::make_shared<Bus>("r"); auto consumer = root->CreateActionConsumer("act"); int sentinels = 0, seen = 0; std::vector<Str> ids; ids.reserve(8); bool atOnce = false, provided = lps_choose("provider", 2), threaded = lps_param("threaded", 0); std::shared_ptr<int> token = std::make_shared<int>(0); std::shared_ptr<ActionProvider> provider;
  auto stop = root->CreateSubscriber("/stop", [&](Datagram) { if (++seen == sentinels) root->Stop(); }); auto drain = [&] { for (int k = 0; k < 2; k++) { sentinels++; root->Publish(Message("x", "/stop", Datagram())); root->Start(); } };
  if (provided) provider = root->CreateActionProvider("act", std::function<void(std::shared_ptr<ActionProvider>, std::string, Datagram)>([&](std::shared_ptr<ActionProvider> p, std::string id, Datagram) { Datagram a; a["v"] = 7; if (atOnce) p->Respond(id, a); else ids.push_back(id); }));
  auto blocking = [&] { Datagram q; q["n"] = 1; Datagram a = consumer->Request(q, 200); lps_assert(threaded || a.IsEmpty(), "A04: a request that is not answered in time returns nothing"); if (!a.IsEmpty()) lps_cover("answered"); else lps_cover("timed out"); };
  auto async = [&] { Datagram q; q["n"] = 2; consumer->RequestAsync(q, [token](Datagram a) { lps_assert(a.Get<int>("v", 0) == 7, "A04: the response is the provider's"); }); };
  auto answerAll = [&] { for (auto& i : ids) { Datagram a; a["v"] = 7; provider->Respond(i, a); } ids.clear(); drain(); };
  auto round = [&](unsigned kind) {
    switch (kind) {
      case 0: blocking(); drain(); if (provided && lps_choose("late", 2)) { answerAll(); lps_cover("late response"); } else { ids.clear(); ids.reserve(8); } break;
      case 1: lps_assume(provided); atOnce = true; async(); drain(); atOnce = false; lps_assert(token.use_count() == 1, "A04: the callback of an answered request is released"); lps_cover("callback"); break;
      case 2: lps_assume(provided); async(); async(); drain(); lps_assert(token.use_count() == 3, "A04: the callback of an open request is kept"); answerAll(); lps_assert(token.use_count() == 1, "A04: the callback of an answered request is released"); break;
      case 3: { std::thread t([&] { root->Start(); }); atOnce = lps_choose("at-once", 2); blocking(); if (lps_choose("twice", 2)) blocking(); root->Stop(); t.join(); drain(); ids.clear(); atOnce = false; break; } } };
  if (provided) round(1); { Datagram q; consumer->Request(q, 200); drain(); ids.clear(); } if (threaded) { std::thread t([&] { root->Start(); }); root->Stop(); t.join(); drain(); }
  uint64_t before = lps_live_heap();
  for (unsigned i = 0; i < (unsigned)lps_param("rounds", 2); i++) { round(threaded ? 3 : (unsigned)lps_choose("round", 3)); lps_assert(lps_live_heap() == before, "A04: a settled request leaves nothing behind"); }
  lps_progress(); lps_obs("done", 1);
}
