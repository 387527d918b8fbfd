// A03: malformed action traffic is ignored and later traffic is served.
#include "common.h"
#include <lamppost/bus/Bus.h>
using namespace lp::bus;
extern "C" void lps_main(void) {
  auto root = std::make_shared<Bus>("r"), child = root->CreateChildBus("c"); int sentinels = 0, seen = 0, handled = 0, called = 0, wantHandled = 0; Str lastId, firstId; bool strict = true; (void)strict;
  auto stop = root->CreateSubscriber("/stop", [&](Datagram) { if (++seen == sentinels) root->Stop(); }); auto run = [&] { for (int k = 0; k < 2; k++) { sentinels++; root->Publish(Message("x", "/stop", Datagram())); try { root->Start(); } catch (...) { lps_fail("A03: no exception escapes from the bus"); return; } } };
  int phase = 0; Str wellFormed;
  auto provider = (lps_param("child", 0) ? child : root)->CreateActionProvider("act", std::function<void(std::shared_ptr<ActionProvider>, std::string, Datagram)>([&](std::shared_ptr<ActionProvider> p, std::string id, Datagram w) { handled++; lastId = id; if (phase == 1) lps_assert(id == wellFormed, "A03: no handler is invoked for a malformed request"); if (phase == 2) { Datagram a; a["ok"] = 1; p->Respond(id, a); } }));
  auto consumer = root->CreateActionConsumer("act"); consumer->RequestAsync(Datagram(), [&](Datagram a) { called++; lps_assert(phase == 3, "A03: no request callback is invoked for a malformed response"); lps_assert(a.Get<int>("late", 0) == 1, "A03: the open request is served afterwards"); });
  run(); lps_assert(handled == 1, "A03: a well-formed request is served"); firstId = lastId; phase = 1;
  for (unsigned k = 0; k < lps_param("messages", 1); k++) {
    bool response = lps_choose("response", 2); Datagram d; M m; Gen g; g.budget = lps_param("tree", 2); g.leaves = lps_param("leaves", 31); bool id = lps_choose("with-id", 2);
    if (id) { Datagram v = d["invocationId"]; anyTree(v, m, g, 2); if (m.k == KStr) { lps_assume(!m.s.empty()); lps_cover("unknown id"); if (!response) { wellFormed = m.s; wantHandled++; } } if (lps_choose("with-body", 2)) d[response ? "response" : "request"] = 5; } else { anyTree(d, m, g, 2); lps_cover("no id"); }
    root->Publish(Message("x", response ? "act/response" : "act/request", d)); int before = handled; bool text = id && m.k == KStr && !response; run(); lps_assert(handled - before == (text ? 1 : 0), "A03: handlers are invoked for requests with a textual id, and no other"); lps_assert(called == 0, "A03: no request callback is invoked for a malformed response"); }
  phase = 2; int answer = 0; consumer->RequestAsync(Datagram(), [&](Datagram a) { answer += a.Get<int>("ok", 0); }); run(); lps_assert(answer == 1, "A03: later requests and responses are served");
  phase = 3; { Datagram a; a["late"] = 1; provider->Respond(firstId, a); } run(); lps_assert(called == 1, "A03: the open request is served afterwards"); lps_obs("handled", handled);
}
