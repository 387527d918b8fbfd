// L04: two instances joined by a link share their messages, once and without echo; requests are answered across it.
#include "zmqsim.h"
#include <lamppost/bus/ActionConsumer.h>
using namespace lp::bus;
struct Out { Str sender, topic; M data; }; struct In { Str sender, topic; Datagram data; };
struct End { Fixture f; std::vector<Out> sent; std::vector<In> seen; std::shared_ptr<Subscriber> all; explicit End(Str n) : f(n) {} };
static void both(End& a, End& b, int t) { std::thread x([&] { a.f.root->Start(); }), y([&] { b.f.root->Start(); }); std::this_thread::sleep_for(std::chrono::microseconds(1000 * t + (lps_param("ties", 0) ? 0 : 300))); a.f.root->Stop(); b.f.root->Stop(); x.join(); y.join(); lps_progress(); }
static void arrives(End& from, End& to, const Str& mark, bool reaches) { size_t k = 0; const char* m = mark.empty() ? "L04: a message is seen once at the end it was published at, and does not come back" : "L04: a message published at one end arrives once at the other, marked with the link";
  for (auto& s : to.seen) { bool marked = s.sender.compare(0, 6, "Link0/") == 0 || s.sender.compare(0, 6, "Link1/") == 0; if (marked != !mark.empty()) continue;
    lps_assert(reaches && k < from.sent.size(), m); if (!reaches || k >= from.sent.size()) return; auto& o = from.sent[k++]; lps_assert(s.sender == mark + o.sender && s.topic == o.topic, m); gSignedZeroSame = true; checkSame(s.data, o.data, "L04: the payload arrives intact"); }
  lps_assert(k == (reaches ? from.sent.size() : 0), m); if (k && !mark.empty()) lps_cover("arrived"); }
extern "C" void lps_main(void) {
  gNet = true; gNetLock(); zsocks().reserve(8); bool mixed = lps_choose("names", lps_param("names", 2)); End a("Link0"), b(mixed ? "Link1" : "Link0"); bool aServer = lps_choose("server", 2); End &s = aServer ? a : b, &c = aServer ? b : a;
  s.f.enable(true, false); c.f.enable(false, true); bool down = true, up = true; unsigned np = lps_param("ports", 3), pd = lps_choose("ports-down", np), pu = lps_choose("ports-up", np);   // each direction: default, agreeing or disagreeing ports
  Datagram& sc = s.f.c.mCustomConfiguration; Datagram& cc = c.f.c.mCustomConfiguration; if (pd) { sc["server-role"]["port-pub"] = 7001; cc["client-role"]["port-sub"] = pd == 1 ? 7001 : 7003; down = pd == 1; } if (pu) { sc["server-role"]["port-sub"] = 7002; cc["client-role"]["port-pub"] = pu == 1 ? 7002 : 7004; up = pu == 1; } if (pd && pu) cc["client-role"]["server-host"] = Str("peer");
  for (End* e : {&a, &b}) { e->f.create(); e->f.link->Initialize(); e->f.link->Start(); if (!lps_param("ties", 0)) std::this_thread::sleep_for(std::chrono::microseconds(600)); }   // the workers poll at different times
  if (lps_param("actions", 0)) { End &p = lps_choose("asks", 2) ? a : b, &q = &p == &a ? b : a; bool blocking = lps_choose("blocking", 2); M ask, answer; Datagram d, r; Gen g; g.budget = lps_param("tree", 1); g.leaves = lps_param("leaves", 31); g.containers = lps_param("tree", 1) > 1; anyTree(d, ask, g, 2); if (blocking) { answer.k = KInt; answer.i = (int)lps_val("answer"); r = answer.i; } else { Gen h; h.budget = lps_param("tree", 1); h.leaves = lps_param("leaves", 31); h.containers = lps_param("tree", 1) > 1; anyTree(r, answer, h, 2); } unsigned asked = 0, answered = 0;
    auto provider = q.f.root->CreateActionProvider("act", [&](std::shared_ptr<ActionProvider> self, Str id, Datagram x) { asked++; gSignedZeroSame = true; Datagram in = x["request"]; checkSame(in, ask, "L04: a request reaches the provider at the other end intact"); self->Respond(id, r); }); auto consumer = p.f.root->CreateActionConsumer("act");
    std::thread t([&] { if (blocking) { Datagram x = consumer->Request(d, 1000); answered++; gSignedZeroSame = true; checkSame(x, answer, "L04: a request made at one end is answered by a provider at the other"); } });
    if (!blocking) consumer->RequestAsync(d, [&](Datagram x) { answered++; gSignedZeroSame = true; checkSame(x, answer, "L04: a request made at one end is answered by a provider at the other"); });
    both(a, b, 30); t.join(); lps_assert(asked == 1, "L04: the provider is asked once"); lps_assert(answered == 1, "L04: a request is answered once"); lps_cover(blocking ? "blocking" : "asynchronous"); }
  else { for (End* e : {&a, &b}) { e->all = e->f.root->CreateSubscriber("/**/*"); e->all->SetMessageCallback([e](Message x) { In i; i.sender = x.GetSender(); i.topic = x.GetTopic(); i.data = x.GetDatagram(); e->seen.push_back(i); }); }
    unsigned n = lps_param("messages", 2); for (unsigned i = 0; i < n; i++) { End& e = lps_choose("from", 2) ? a : b; Out o; Datagram d; Gen g; g.budget = i ? 1 : lps_param("tree", 1); g.leaves = i ? 4 : lps_param("leaves", 31); g.containers = !i && !lps_param("flat", 0); anyTree(d, o.data, g, 2); o.topic = i ? "/t" : anyText("topic", lps_param("topiclen", 1)); if (i || !lps_param("origin", 1) || lps_choose("origin", 2)) { o.sender = "root"; e.f.root->CreatePublisher(o.topic)->Publish(d); } else { o.sender = anyText("sender", lps_param("senderlen", 1)); e.f.root->Publish(Message(o.sender, o.topic, d)); } e.sent.push_back(o); if (lps_param("rounds", 0) && lps_choose("run", 2)) both(a, b, 8); }
    both(a, b, 12); arrives(a, a, "", true); arrives(b, b, "", true); arrives(a, b, b.f.name + "/", aServer ? down : up); arrives(b, a, a.f.name + "/", aServer ? up : down); if (!down || !up) lps_cover("not joined"); lps_obs("seen", a.seen.size() + 8 * b.seen.size()); }
  a.f.finish(); b.f.finish(); a.f.released("L04: everything is released"); b.f.released("L04: everything is released");
}
