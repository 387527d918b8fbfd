// B04: a stop request ends the run loop within a bounded number of wait periods; nothing is delivered afterwards, and no further message before.
#include "common.h"
#include <lamppost/bus/Bus.h>
#include <atomic>
#include <chrono>
#include <thread>
using namespace lp::bus;
extern "C" void lps_main(void) {
  auto root = std::make_shared<Bus>("r"), child = root->CreateChildBus("c"); unsigned n = lps_param("msgs", 1); bool returned = false; int got = 0, runs = 0; unsigned from = lps_param("from", 0);
  std::atomic<bool> stopped(false); int lastId = -1;   // once a stop request has been made, at most the message being delivered then is delivered
  auto recv = [&](Datagram d, unsigned who) { lps_assert(!returned, "B04: nothing is delivered once the run loop has returned"); got++; int id = d.Get<int>("i", -1);
    if (stopped) { lps_assert(lastId < 0 || lastId == id, "B04: a stop request takes effect before the next message"); lastId = id; } else if (from == who) { lastId = id; root->Stop(); stopped = true; } };
  auto s0 = root->CreateSubscriber("t", [&](Datagram d) { recv(d, 1); }), s1 = child->CreateSubscriber("t", [&](Datagram d) { recv(d, 2); });
  auto pub = child->CreatePublisher("t"); 
  for (unsigned k = 0; k < (unsigned)lps_param("early", 0); k++) { Datagram d; d["i"] = 100 + (int)k; pub->Publish(d); }
  std::thread a([&] { for (unsigned i = 0; i < n; i++) { Datagram d; d["i"] = (int)i; pub->Publish(d); } }), b([&] { if (from == 0) { if (lps_param("sleep", 0)) { unsigned ms = lps_range("ms", 0, 250); std::this_thread::sleep_for(std::chrono::milliseconds(lps_concretize(ms / 50) * 50)); } root->Stop(); stopped = true; } });
  root->Start(); returned = true; int before = got; lps_obs("got", got);
  a.join(); b.join();
  { Datagram d; pub->Publish(d); } lps_assert(got == before, "B04: nothing is delivered once the run loop has returned");
  if (lps_param("again", 0)) { // the bus can be run again, and stopped again
    returned = false; stopped = false; lastId = -1; from = 1; for (int k = 0; k < 2; k++) { Datagram d; d["i"] = 200 + k; pub->Publish(d); } root->Start(); returned = true; lps_cover("again"); }
  lps_cover("stopped");
}
