// B08: a destroyed bus releases what was created on it, and a deleted participant is released, with everything their callbacks captured.
#include "common.h"
#include <lamppost/bus/Bus.h>
using namespace lp::bus;
typedef std::shared_ptr<int> Token;
struct Made { std::weak_ptr<void> w; std::shared_ptr<void> held; int kind, bus; bool deleted; };
static void scope(unsigned ops, bool fixed, bool actions) {
  Token token = std::make_shared<int>(0); unsigned nb = 1 + (fixed ? 1 : lps_choose("child", 2)); std::shared_ptr<Bus> b[2]; b[0] = std::make_shared<Bus>("r"); if (nb > 1) b[1] = b[0]->CreateChildBus("c");
  std::vector<Made> made; made.reserve(16); auto choose = [&](const char* n, unsigned k, unsigned f) { return fixed ? f % k : (unsigned)lps_choose(n, k); };
  auto add = [&](std::shared_ptr<void> p, int kind, int bus, bool hold) { made.push_back(Made{p, hold ? p : nullptr, kind, bus, false}); };
  auto run = [&] { Bus* r = b[0].get(); auto s = r->CreateSubscriber("/stop", [r](Datagram) { r->Stop(); }); for (int i = 0; i < 3; i++) { r->Publish(Message("x", "/stop", Datagram())); r->Start(); } r->DeleteSubscriber(s); };
  std::shared_ptr<ActionConsumer> lastC; (void)lastC; bool ran = false;
  for (unsigned o = 0; o < ops; o++) {
    unsigned bus = nb > 1 ? choose("bus", nb, o) : 0; unsigned op = choose("op", actions ? 7 : 4, o); std::shared_ptr<Bus> q = b[bus];
    switch (op) {
      case 0: add(q->CreateSubscriber("t", DatagramCallbackType([token](Datagram d) { (void)token; (void)d; })), 0, bus, choose("hold", 2, o)); break;
      case 1: add(q->CreatePublisher("t"), 1, bus, choose("hold", 2, o)); break;
      case 2: { std::vector<int> c; for (unsigned i = 0; i < made.size(); i++) if (made[i].kind != 3 && made[i].kind != 4 && made[i].held && !made[i].deleted) c.push_back(i); if (fixed && c.empty()) break; lps_assume(!c.empty()); Made& m = made[c[choose("which", c.size(), 0)]]; Bus* p = b[m.bus].get();
          if (m.kind == 0) p->DeleteSubscriber(std::static_pointer_cast<Subscriber>(m.held)); else if (m.kind == 1) p->DeletePublisher(std::static_pointer_cast<Publisher>(m.held)); else p->DeleteActionProvider(std::static_pointer_cast<ActionProvider>(m.held));
          m.deleted = true; m.held.reset(); lps_assert(m.w.expired(), "B08: a deleted participant that no client holds is released"); lps_cover("deleted"); break; }
      case 3: { Datagram d; d["n"] = 1; b[0]->Publish(Message("x", "t", d)); if (choose("run", 2, 1)) { run(); ran = true; } break; }
      case 4: add(q->CreateActionProvider("act", std::function<void(std::shared_ptr<ActionProvider>, std::string, Datagram)>([token](std::shared_ptr<ActionProvider> p, std::string id, Datagram d) { if (*token == 0) p->Respond(id, d); })), 2, bus, choose("hold", 2, o)); break;
      case 5: { auto c = q->CreateActionConsumer("act"); add(c, 3, bus, choose("hold", 2, o)); unsigned rq = choose("request", 3, 1); if (rq) { Datagram d; c->RequestAsync(d, [token](Datagram) {}); lps_cover("open request"); } if (rq == 2) { run(); lps_cover("served"); } break; }
      case 6: { auto k = q->CreateChildBus("n" + std::to_string(o)); add(k, 4, bus, choose("hold", 2, o)); auto s = k->CreateSubscriber("t", DatagramCallbackType([token](Datagram) {})); add(s, 5, bus, false); break; } } }
  if (nb > 1 && choose("child-first", 2, 0)) b[1].reset();
  b[0].reset();
  bool childKept = nb > 1 && b[1]; std::vector<int> keepers; for (auto& m : made) if (m.held) { lps_assert(!m.w.expired(), "B08: what a client holds stays alive"); }
  if (!childKept) { for (auto& m : made) if (!m.held && m.kind != 5) lps_assert(m.w.expired(), "B08: what was created on a destroyed bus and no client holds is released"); } else { for (auto& m : made) if (!m.held && m.bus == 0 && m.kind != 5) lps_assert(m.w.expired(), "B08: what was created on a destroyed bus and no client holds is released"); lps_cover("child outlives root"); }
  for (auto& m : made) if (m.held && (m.kind == 1)) { Datagram d; std::static_pointer_cast<Publisher>(m.held)->Publish(d); }
  if (choose("participants-first", 2, 0)) { for (auto& m : made) m.held.reset(); b[1].reset(); } else { b[1].reset(); for (auto& m : made) m.held.reset(); }
  for (auto& m : made) lps_assert(m.w.expired(), "B08: what was created on a destroyed bus and no client holds is released");
  lps_assert(token.use_count() == 1, "B08: what the callbacks captured is released"); (void)ran; if (!fixed && made.size() > 1) lps_cover("several");
}
extern "C" void lps_main(void) {
  bool actions = lps_param("actions", 1); scope(5, true, actions); uint64_t before = lps_live_heap(); scope(lps_param("ops", 3), false, actions); lps_assert(lps_live_heap() == before, "B08: everything a bus allocated is released with it"); lps_obs("done", 1);
}
