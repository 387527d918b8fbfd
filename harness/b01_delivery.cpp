// B01: every published message reaches every matching subscriber once, in order.
#include "common.h"
#include <lamppost/bus/Bus.h>
using namespace lp::bus;
typedef std::shared_ptr<Bus> BusP;
struct Pub { Str sender, topic; int id; };
struct Sub { Str topic; std::vector<int> got; std::vector<Str> senders; };
static const char* const kAll = "/**/*";
static Str anyTopic() { if (lps_choose("wildcard", 3) == 0) return kAll; return anyText("topic", 1, 1); }
extern "C" void lps_main(void) {
  unsigned nSub = 1 + lps_choose("subscribers", lps_param("subs", 2)), nMsg = lps_param("burst", 0) ? lps_param("burst", 0) : 1 + lps_choose("messages", lps_param("msgs", 2)); bool same = lps_param("same", 0), burst = lps_param("burst", 0);
  std::vector<BusP> bus; BusP root = std::make_shared<Bus>("root"); bus.push_back(root); unsigned shape = lps_param("tree", -1) >= 0 ? lps_param("tree", 0) : lps_choose("tree", 4);
  if (shape >= 1) bus.push_back(root->CreateChildBus("a")); if (shape == 2) bus.push_back(root->CreateChildBus("b")); if (shape == 3) bus.push_back(bus[1]->CreateChildBus("a"));
  static const char* names[4][3] = {{"root"}, {"root", "a"}, {"root", "a", "b"}, {"root", "a", "a"}};
  std::vector<Pub> log; std::vector<Sub> subs(nSub); int sentinels = 0, seen = 0; bool again = lps_param("callbacks", 0); unsigned againSub = again ? lps_choose("by", nSub) : 0; bool done = false;
  unsigned nPub = lps_param("pubs", 2); std::vector<std::shared_ptr<Publisher>> pubs; std::vector<unsigned> pubBus; std::vector<Str> pubTopic;
  for (unsigned i = 0; i < nPub; i++) { unsigned b = lps_choose("publisher-bus", bus.size()); Str t = anyText("publish-topic", 1, 1); pubBus.push_back(b); pubTopic.push_back(t); pubs.push_back(bus[b]->CreatePublisher(t)); }
  auto stopper = root->CreateSubscriber("/stop", [&](Datagram) { seen++; if (seen == sentinels) root->Stop(); });
  auto sentinel = [&] { sentinels++; root->Publish(Message("me", "/stop", Datagram())); };
  auto publish = [&](bool direct) { unsigned p = burst ? log.size() % nPub : lps_choose("publisher", nPub); Pub r; r.topic = pubTopic[p]; r.sender = names[shape][pubBus[p]]; r.id = same ? 7 : (int)log.size(); log.push_back(r); Datagram d; d["id"] = r.id; if (direct) bus[pubBus[p]]->Publish(Message(r.sender, r.topic, d)); else pubs[p]->Publish(d); };
  std::vector<std::shared_ptr<Subscriber>> keep;
  for (unsigned i = 0; i < nSub; i++) { subs[i].topic = anyTopic(); unsigned b = lps_choose("subscriber-bus", bus.size());
    auto s = bus[b]->CreateSubscriber(subs[i].topic); keep.push_back(s);
    s->SetMessageCallback([&, i](Message m) { if (m.GetTopic() == "/stop") return; Datagram d = m.GetDatagram(); subs[i].got.push_back(d.Get<int>("id", -1)); subs[i].senders.push_back(m.GetSender()); if (again && i == againSub && !done) { done = true; publish(false); sentinel(); lps_cover("from a callback"); } }); }
  for (unsigned k = 0; k < nMsg; k++) publish(k == 0 && !burst && lps_choose("direct", 2)); sentinel();
  root->Start();
  for (unsigned i = 0; i < nSub; i++) { std::vector<int> want; std::vector<Str> from; for (auto& r : log) if (subs[i].topic == r.topic || subs[i].topic == kAll) { want.push_back(r.id); from.push_back(r.sender); }
    lps_assert(subs[i].got.size() == want.size(), "B01: every matching message is delivered exactly once, and no other"); for (size_t k = 0; k < want.size(); k++) { lps_assert(subs[i].got[k] == want[k], "B01: messages arrive in the order in which they were published"); lps_assert(subs[i].senders[k] == from[k], "B01: a delivered message is the published one"); }
    if (want.size() > 1) lps_cover("several"); lps_obs("n", want.size()); }
}
