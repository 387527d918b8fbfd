// B07: publishing through a detached or destroyed bus is a harmless no-op.
#include "common.h"
#include <lamppost/bus/Bus.h>
#include <atomic>
#include <thread>
#include <chrono>
using namespace lp::bus;
static void concurrent() {   // a client publishes while another thread detaches a bus above it
  auto root = std::make_shared<Bus>("root"), child = root->CreateChildBus("c"), grand = child->CreateChildBus("g"); std::shared_ptr<Bus> b[3] = {root, child, grand}; unsigned at = lps_choose("publisher-at", 3), cut = lps_choose("cut", 3), n = lps_param("msgs", 2); bool late[4] = {false}; std::atomic<bool> gone(false); std::vector<int> got; bool direct = lps_choose("direct", 2);
  auto sub = root->CreateSubscriber("t", [&](Datagram d) { got.push_back(d.Get<int>("n", -1)); }); auto p = b[at]->CreatePublisher("t");
  std::thread t([&] { for (unsigned i = 0; i < n; i++) { late[i] = gone; Datagram d; d["n"] = (int)i; if (direct) b[at]->Publish("t", d); else p->Publish(d); } });
  b[cut]->Detach(); gone = true; t.join(); std::thread s([&] { std::this_thread::sleep_for(std::chrono::milliseconds(1000)); root->Stop(); }); root->Start(); s.join(); int next = 0;
  for (int v : got) { lps_assert(v == next && v < (int)n, "B07: messages published while detaching are delivered once and in order"); if (v >= 0 && v < (int)n) lps_assert(at < cut || !late[v], "B07: nothing published after detaching is delivered"); next = v + 1; }
  if (at < cut) lps_assert(next == (int)n, "B07: detaching a bus leaves the buses above it alone"); lps_cover(next == (int)n ? "all delivered" : next ? "some delivered" : "none delivered"); lps_obs("next", next); }
extern "C" void lps_main(void) {
  if (lps_param("concurrent", 0)) { concurrent(); return; }
  auto root = std::make_shared<Bus>("root"), child = root->CreateChildBus("c"), grand = child->CreateChildBus("g"); std::shared_ptr<Bus> b[3] = {root, child, grand};
  std::shared_ptr<Publisher> p[3]; for (int i = 0; i < 3; i++) p[i] = b[i]->CreatePublisher("t"); bool cut[3] = {false, false, false}; bool destroyed = false, rootGone = false; int n = 0, got = 0, last = -1, want[8]; 
  auto consumer = lps_param("actions", 0) ? child->CreateActionConsumer("act") : nullptr;
  auto sub = root->CreateSubscriber("t", [&](Datagram d) { int v = d.Get<int>("n", -1); lps_assert(!rootGone, "B07: nothing is delivered by a bus that is gone"); lps_assert(got < n && want[got] == v, "B07: only messages published while the bus was attached are delivered"); got++; });
  root.reset(); child.reset(); grand.reset(); int seq = 0; unsigned ops = lps_param("ops", 3);
  for (unsigned o = 0; o < ops; o++) {
    unsigned i = lps_choose("which", 3);
    switch (lps_choose("op", lps_param("actions", 0) ? 6 : 5)) {
      case 0: { Datagram d; d["n"] = seq; if (!cut[i]) want[n++] = seq; seq++; p[i]->Publish(d); if (cut[i]) lps_cover(rootGone ? "published after destruction" : "published after detaching"); break; }
      case 1: lps_assume(b[i] != nullptr); { Datagram d; d["n"] = seq; if (!cut[i]) want[n++] = seq; seq++; b[i]->Publish(Message("x", "t", d)); if (cut[i]) lps_cover("published on a detached bus"); } break;
      case 2: lps_assume(b[i] != nullptr); b[i]->Detach(); for (int k = i; k < 3; k++) cut[k] = true; break;
      case 3: lps_assume(b[i] != nullptr && (i == 0 || lps_param("drop-children", 1))); b[i].reset(); if (i == 0) { rootGone = true; for (auto& c : cut) c = true; } break;
      case 4: lps_assume(b[i] != nullptr); try { auto k = b[i]->CreateChildBus("n" + std::to_string(o)); auto q = k->CreatePublisher("t"); Datagram d; d["n"] = seq; if (!cut[i]) want[n++] = seq; seq++; q->Publish(d); } catch (ex::Exception&) { lps_assert(cut[i], "B07: child buses can be created below an attached bus"); } break;
      case 5: { Datagram d; consumer->RequestAsync(d, [](Datagram) { lps_fail("B07: nothing answers"); }); break; } } }
  if (b[0]) { std::thread t([&] { std::this_thread::sleep_for(std::chrono::milliseconds(1000)); b[0]->Stop(); }); b[0]->Start(); t.join(); lps_assert(got == n, "B07: messages published before detaching are delivered"); lps_cover("ran"); }
  lps_obs("n", n); lps_obs("got", got);
}
