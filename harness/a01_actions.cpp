// A01: each action request gets its own response, at most once; the provider sees each request once with its payload.
#include "common.h"
#include <lamppost/bus/Bus.h>
using namespace lp::bus;
struct Req { M payload; int called = 0; M answer; bool answered = false; int seen = 0; Str id; int consumer = 0, bare = 0; };
extern "C" void lps_main(void) {
  auto root = std::make_shared<Bus>("r"), child = root->CreateChildBus("c"); unsigned nreq = lps_param("requests", 2), nresp = lps_param("responses", 3); std::vector<Req> reqs(8); std::vector<M> sentPayload(8); unsigned made = 0; int sentinels = 0, seen = 0; bool forgedAny = false; (void)forgedAny;
  Gen g; g.budget = lps_param("tree", 1); g.leaves = lps_param("leaves", 6); g.strLen = 1;
  sentPayload[0].k = KStr; sentPayload[0].s = "at once";
  auto stop = root->CreateSubscriber("/stop", [&](Datagram) { if (++seen == sentinels) root->Stop(); }); auto run = [&] { for (int k = 0; k < 3; k++) { sentinels++; root->Publish(Message("x", "/stop", Datagram())); root->Start(); } };
  unsigned ncons = lps_param("consumers", 1); std::shared_ptr<ActionConsumer> cons[2]; std::vector<Str> ids; std::vector<int> idOf; bool bare = lps_param("bare", 0), immediate = !bare && lps_choose("answer-at-once", 2); std::shared_ptr<ActionProvider> provider, keepP; unsigned chained = lps_param("chain", 0) ? lps_choose("chain", 2) : 0; bool didChain = false;
  provider = child->CreateActionProvider("act", std::function<void(std::shared_ptr<ActionProvider>, std::string, Datagram)>([&](std::shared_ptr<ActionProvider> p, std::string id, Datagram wrapped) {
    Datagram body = wrapped["request"]; int tag = body.Get<int>("tag", -1); lps_assert(tag >= 0 && tag < (int)made, "A01: the provider sees only requests that were made"); Req& r = reqs[tag]; r.seen++; lps_assert(r.seen == 1, "A01: the provider sees each request once");
    Datagram pl = body["payload"]; checkSame(pl, r.payload, "A01: the provider sees the payload the consumer sent"); for (auto& o : ids) lps_assume(!(o == id)); r.id = id; ids.push_back(id); idOf.push_back(tag); lps_assert(wrapped.Get<Str>("invocationId", "") == id, "A01: the provider is given the request's id");
    if (immediate) { Datagram a; a["tag"] = tag; a["serial"] = 0; a["v"] = sentPayload[0].s; r.answered = true; p->Respond(id, a); } }));
  cons[0] = root->CreateActionConsumer("act"); if (ncons > 1) cons[1] = child->CreateActionConsumer("act");
  std::vector<std::vector<int>> serials(8);
  std::function<void(unsigned)> ask = [&](unsigned c) { int t = (int)made++; Req& r = reqs[t]; r.consumer = (int)c; Datagram body; body["tag"] = t; Datagram pl = body["payload"]; Gen h = g; if (t) { h.budget = 1; h.containers = false; h.leaves = 4; } anyTree(pl, r.payload, h, 2);
    cons[c]->RequestAsync(body, [&, t](Datagram a) { Req& q = reqs[t]; q.called++; lps_assert(q.called == 1, "A01: the callback of a request is invoked at most once"); lps_assert(q.answered, "A01: a callback is invoked only for a response to its request"); if (bare) { lps_assert(q.bare > 0, "A01: a request gets the response to that very request"); checkSame(a, sentPayload[q.bare], "A01: a response carries the payload the provider gave"); lps_obs("bare", q.bare); return; } lps_assert(a.Get<int>("tag", -1) == t, "A01: a request gets the response to that very request"); int sn = a.Get<int>("serial", -1); bool sent = immediate && sn == 0; for (int x : serials[t]) sent = sent || x == sn; lps_assert(sent, "A01: a response arrives as the provider gave it"); if (sent) { lps_assert(a.GetCount() == 3, "A01: a response arrives as the provider gave it"); Datagram v = a["v"]; checkSame(v, sentPayload[sn], "A01: a response carries the payload the provider gave"); } lps_obs("serial", sn); if (chained && !didChain) { didChain = true; ask(0); lps_cover("chained"); } }); };
  for (unsigned i = 0; i < nreq; i++) ask(ncons > 1 ? lps_choose("consumer", 2) : 0);
  run();
  for (unsigned i = 0; i < nreq; i++) lps_assert(reqs[i].seen == 1, "A01: the provider sees each request once");
  for (unsigned k = 0; k < nresp; k++) { Datagram a; Str id; unsigned n = (unsigned)ids.size(), j = lps_choose("respond-to", n + 1);
    if (j < n) { id = ids[j]; Req& r = reqs[idOf[j]]; if (r.answered) lps_cover("duplicate"); if (bare) { if (!r.answered) r.bare = (int)k + 1; r.answered = true; Gen h = g; anyTree(a, sentPayload[k + 1], h, 2); provider->Respond(id, a); if (sentPayload[k + 1].k == KEmpty) lps_cover("empty response"); continue; }
      r.answered = true; a["tag"] = idOf[j]; a["serial"] = (int)k + 1; { Datagram v = a["v"]; Gen h = g; if (k) { h.budget = 1; h.containers = false; h.leaves = 4; } anyTree(v, sentPayload[k + 1], h, 2); } serials[idOf[j]].push_back((int)k + 1); }
    else { id = anyStr("forged", 1, 1); if (n && lps_choose("near-miss", 2)) { id = ids[0]; id[35] = id[35] == 'a' ? 'b' : 'a'; for (auto& o : ids) lps_assume(!(o == id)); } a["tag"] = 0; a["serial"] = 99; lps_cover("forged"); }
    provider->Respond(id, a); if (k + 1 == nresp || lps_choose("run", 2)) run(); }
  run();
  for (unsigned i = 0; i < made; i++) { lps_assert(reqs[i].called == (reqs[i].answered ? 1 : 0), "A01: every request that was answered has its callback invoked, and no other"); lps_assert(reqs[i].seen == 1, "A01: the provider sees each request once"); }
}
