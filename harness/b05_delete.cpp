// B05: deleting subscribers and publishers takes effect at once and only for the deleted one.
#include "common.h"
#include <lamppost/bus/Bus.h>
#include <thread>
using namespace lp::bus;
struct S { std::shared_ptr<Subscriber> s; int bus, topic; bool live; std::vector<int> got, want; };
struct P { std::shared_ptr<Publisher> p; int bus, topic; bool live; };
static const char* const T[2] = {"t", "u"};
static void histories() {
  unsigned nb = 1 + lps_param("child", 0); std::shared_ptr<Bus> b[2]; b[0] = std::make_shared<Bus>("r"); if (nb > 1) b[1] = b[0]->CreateChildBus("c");
  std::vector<S> subs; std::vector<P> pubs; subs.reserve(8); int seq = 0, sentinels = 0, seen = 0; unsigned ops = lps_param("ops", 4), topics = lps_param("topics", 1);
  auto stop = b[0]->CreateSubscriber("/stop", [&](Datagram) { if (++seen == sentinels) b[0]->Stop(); });
  auto addS = [&](int bus, int topic) { subs.push_back(S{nullptr, bus, topic, true, {}, {}}); size_t k = subs.size() - 1; subs[k].s = b[bus]->CreateSubscriber(T[topic], [&subs, k](Datagram d) { lps_assert(subs[k].live, "B05: the callback of a deleted subscriber is not invoked"); subs[k].got.push_back(d.Get<int>("n", -1)); }); };
  auto addP = [&](int bus, int topic) { pubs.push_back(P{b[bus]->CreatePublisher(T[topic]), bus, topic, true}); };
  std::vector<std::pair<int, int>> queue;
  auto run = [&] { sentinels++; b[0]->Publish(Message("x", "/stop", Datagram())); b[0]->Start(); for (auto& q : queue) for (auto& s : subs) if (s.live && s.topic == q.second) s.want.push_back(q.first); queue.clear();
    for (auto& s : subs) { bool same = s.got.size() == s.want.size(); lps_assert(same, "B05: exactly the live subscribers receive each message of their topic"); for (size_t i = 0; same && i < s.got.size(); i++) lps_assert(s.got[i] == s.want[i], "B05: live subscribers receive the messages of their topic in order"); } };
  addS(0, 0); addP(0, 0); if (lps_param("more", 1)) { addS(nb - 1, topics - 1); addP(nb - 1, topics - 1); }
  for (unsigned o = 0; o < ops; o++) {
    switch (lps_choose("op", 6)) {
      case 0: addS(lps_choose("bus", nb), lps_choose("topic", topics)); break;
      case 1: addP(lps_choose("bus", nb), lps_choose("topic", topics)); break;
      case 2: { S& s = subs[lps_choose("which", subs.size())]; if (!s.live) lps_cover("deleted twice"); s.live = false; b[s.bus]->DeleteSubscriber(s.s); lps_cover("subscriber deleted"); break; }
      case 3: { P& p = pubs[lps_choose("which", pubs.size())]; p.live = false; b[p.bus]->DeletePublisher(p.p); lps_cover("publisher deleted"); break; }
      case 4: { P& p = pubs[lps_choose("which", pubs.size())]; Datagram d; d["n"] = seq; if (p.live) queue.push_back({seq, p.topic}); seq++; p.p->Publish(d); break; }
      case 5: run(); lps_cover("ran between"); break; }
    for (auto& s : subs) for (unsigned k = 0; k < nb; k++) lps_assert(b[k]->ContainsSubscriber(s.s) == (s.live && s.bus == (int)k), "B05: a bus contains exactly the subscribers created on it and not deleted");
    for (auto& p : pubs) for (unsigned k = 0; k < nb; k++) lps_assert(b[k]->ContainsPublisher(p.p) == (p.live && p.bus == (int)k), "B05: a bus contains exactly the publishers created on it and not deleted"); }
  for (auto& p : pubs) { Datagram d; d["n"] = seq; if (p.live) queue.push_back({seq, p.topic}); seq++; p.p->Publish(d); }
  run(); lps_obs("n", subs[0].got.size());
}
static void running() { // a subscriber is deleted by another thread while the bus delivers
  auto root = std::make_shared<Bus>("r"), child = root->CreateChildBus("c"); unsigned n = lps_param("msgs", 1); bool onChild = lps_choose("on-child", 2), what = lps_param("publisher", 0); std::atomic<bool> gone(false); int got = 0, gotGone = 0, other = 0; const int want = (int)n + 1;
  auto victim = (onChild ? child : root)->CreateSubscriber("t", [&](Datagram) { lps_assert(!gone, "B05: the callback of a deleted subscriber is not invoked"); gotGone++; });
  auto keep = (onChild ? child : root)->CreateSubscriber("t", [&](Datagram) { if (++got == want && other == want) root->Stop(); }), keep2 = (onChild ? root : child)->CreateSubscriber("t", [&](Datagram) { if (++other == want && got == want) root->Stop(); });
  auto pub = root->CreatePublisher("t"), spare = root->CreatePublisher("t"); { Datagram d; pub->Publish(d); }
  std::thread a([&] { for (unsigned i = 0; i < n; i++) { Datagram d; d["i"] = (int)i; pub->Publish(d); } }), b([&] { if (what) { root->DeletePublisher(spare); Datagram d; spare->Publish(d); } else { (onChild ? child : root)->DeleteSubscriber(victim); gone = true; lps_assert(!(onChild ? child : root)->ContainsSubscriber(victim), "B05: a deleted subscriber no longer belongs to its bus"); } });
  root->Start(); a.join(); b.join(); lps_assert(got == want && other == want, "B05: all other subscribers keep receiving every message once"); lps_cover("running"); lps_obs("got", got); lps_obs("v", gotGone);
}
extern "C" void lps_main(void) { if (lps_param("running", 0)) running(); else histories(); }
