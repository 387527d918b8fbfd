// P06: what a plugin instance creates and deletes through its helpers belongs to its own bus.
#include "common.h"
#include <lamppost/plugin/PluginInstance.h>
using namespace lp::bus;
struct Inst : public lp::PluginInstance { Inst(lp::PluginConfiguration c) : lp::PluginInstance(c) {} void Initialize() override {} void Run() override {} void Deinitialize() override {} };
struct Sub { std::shared_ptr<Subscriber> s; int got = 0, want = 0; bool deleted = false; int topic = 0; };
extern "C" void lps_main(void) {
  auto root = std::make_shared<Bus>("root"); lp::PluginConfiguration c; c.mIdentifier = "W0"; c.mBus = root->CreateChildBus("w"); auto sibling = root->CreateChildBus("x"); c.mCustomConfiguration["v"] = (int)lps_val("v"); Datagram cfg = c.mCustomConfiguration; auto* w = new Inst(c);
  lps_assert(w->GetBus() == c.mBus && w->GetIdentifier() == "W0", "P06: an instance has the bus and the name it was given"); static const char* topics[2] = {"a", "b"}; Str lastSender; int seenAll = 0, published = 0, sentinels = 0, seen = 0;
  auto all = sibling->CreateSubscriber("/**/*"); all->SetMessageCallback([&](Message m) { if (m.GetTopic() == "a" || m.GetTopic() == "b") { seenAll++; lps_assert(m.GetSender() == "w", "P06: what an instance publishes comes from its own bus"); } });
  auto stop = root->CreateSubscriber("/stop", [&](Datagram) { if (++seen == sentinels) root->Stop(); }); auto run = [&] { for (int k = 0; k < 3; k++) { sentinels++; root->Publish(Message("x", "/stop", Datagram())); root->Start(); } };
  std::vector<Sub> subs; subs.reserve(8); std::vector<std::pair<std::shared_ptr<Publisher>, int>> pubs; std::vector<bool> pubGone; std::shared_ptr<ActionProvider> prov; bool provGone = false; auto cons = sibling->CreateActionConsumer("act"); int served = 0, answered = 0; auto other = sibling->CreateSubscriber("a", [&](Datagram) {});
  for (unsigned i = 0; i < (unsigned)lps_param("ops", 3); i++) switch (lps_choose("op", 6)) {
    case 0: { subs.push_back(Sub()); Sub* s = &subs.back(); s->topic = (int)lps_choose("topic", 2); s->s = w->GetSubscriber(topics[s->topic], DatagramCallbackType([s](Datagram) { s->got++; })); lps_assert(c.mBus->ContainsSubscriber(s->s) && !sibling->ContainsSubscriber(s->s) && !root->ContainsSubscriber(s->s), "P06: a subscriber an instance creates is one of its own bus"); break; }
    case 1: { int t = (int)lps_choose("topic", 2); pubs.push_back({w->GetPublisher(topics[t]), t}); pubGone.push_back(false); lps_assert(c.mBus->ContainsPublisher(pubs.back().first) && !sibling->ContainsPublisher(pubs.back().first), "P06: a publisher an instance creates is one of its own bus"); break; }
    case 2: { lps_assume(!subs.empty()); Sub& s = subs[lps_choose("which", subs.size())]; lps_assume(!s.deleted); w->DeleteSubscriber(s.s); s.deleted = true; lps_assert(!c.mBus->ContainsSubscriber(s.s), "P06: deleting through the instance takes effect on its bus"); lps_cover("subscriber deleted"); break; }
    case 3: { lps_assume(!pubs.empty()); size_t k = lps_choose("which", pubs.size()); lps_assume(!pubGone[k]); w->DeletePublisher(pubs[k].first); pubGone[k] = true; lps_assert(!c.mBus->ContainsPublisher(pubs[k].first), "P06: deleting through the instance takes effect on its bus"); lps_cover("publisher deleted"); break; }
    case 4: { if (!prov) prov = w->GetActionProvider("act", std::function<void(std::shared_ptr<ActionProvider>, std::string, Datagram)>([&](std::shared_ptr<ActionProvider> p, std::string id, Datagram) { served++; p->Respond(id, Datagram(5)); })); else { lps_assume(!provGone); w->DeleteActionProvider(prov); provGone = true; lps_cover("provider deleted"); } break; }
    case 5: { auto mine = w->GetActionConsumer("act"); Datagram q; q["n"] = 1; int before = answered; mine->RequestAsync(q, [&](Datagram d) { lps_assert(d.Get<int>() == 5, "P06: an instance's consumer gets the response"); answered++; }); run(); lps_assert(answered == before + (prov && !provGone ? 1 : 0), "P06: an instance's consumer gets the response"); lps_cover("consumer"); break; } }
  for (size_t k = 0; k < pubs.size(); k++) { Datagram d; d["k"] = (int)k; pubs[k].first->Publish(d); if (!pubGone[k]) { published++; for (auto& s : subs) if (!s.deleted && s.topic == pubs[k].second) s.want++; } }
  run(); for (auto& s : subs) lps_assert(s.got == s.want, "P06: an instance's subscribers receive what they subscribed to until they are deleted"); lps_assert(seenAll == published, "P06: an instance's publishers publish until they are deleted");
  { int before = served; Datagram q; bool got = false; cons->RequestAsync(q, [&](Datagram) { got = true; }); run(); bool on = prov && !provGone; lps_assert(served == before + (on ? 1 : 0) && got == on, "P06: an instance's action providers answer until they are deleted"); if (on) lps_cover("provided"); }
  lps_assert(sibling->ContainsSubscriber(all) && sibling->ContainsSubscriber(other), "P06: deleting through the instance leaves everything else alone"); lps_obs("served", served); delete w; run(); lps_assert(root->GetChildBus("w") == c.mBus, "P06: an instance's bus stays with whoever created it"); 
}
