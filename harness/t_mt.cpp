#include "lps.h"
#include <lamppost/bus/Bus.h>
#include <thread>
using namespace lp::bus; using namespace lp::messages;
extern "C" void lps_main(void) {
  auto bus = std::make_shared<Bus>("b");
  int got = 0, n = (int)lps_param("n", 1); int last[2] = {-1, -1};
  auto sub = bus->CreateSubscriber("t", [&](Datagram d) { int v = d["i"].Get<int>(), t = d["t"].Get<int>(); lps_assert(v == last[t] + 1, "order"); last[t] = v; got++; lps_obs("msg", t * 16 + v); if (got == 2 * n) bus->Stop(); });
  std::shared_ptr<Publisher> pub[2]; for (auto& p : pub) p = bus->CreatePublisher("t");
  auto body = [&](int t) { for (int i = 0; i < n; i++) { Datagram d; d["t"] = t; d["i"] = i; pub[t]->Publish(d); } };
  std::thread a(body, 0), b(body, 1);
  bus->Start(); a.join(); b.join();
  lps_assert(got == 2 * n, "all");
}
