// B02: a delivered message carries the publisher's bus, topic and payload; later changes are not visible to anyone else.
#include "ops.h"
#include <lamppost/bus/Bus.h>
using namespace lp::bus;
extern "C" void lps_main(void) {
  auto root = std::make_shared<Bus>("root"); bool plain = lps_param("plain", 0); Str child = plain ? Str("b") : anyStr("bus", 2, 1), topic = plain ? Str("t") : anyText("topic", 2, 1); auto kid = !plain && lps_choose("nested", 2) ? root->CreateChildBus("mid")->CreateChildBus(child) : root->CreateChildBus(child); bool fromRoot = lps_choose("from-root", 2);
  Gen g; g.budget = lps_param("tree", 2); g.leaves = lps_param("leaves", 31); Gen go = g; Datagram d; M m; anyTree(d, m, g); M m2 = m; unsigned got[3] = {0, 0, 0}; M sent[2]; bool fresh = lps_param("fresh", 0), twice = fresh || (!lps_param("once", 0) && lps_choose("twice", 2)); unsigned who = fresh ? 4 : lps_choose("mutator", 4);
  // two subscribers anywhere in the tree look at the message; one of them changes what it received
  auto look = [&](int i, Datagram x) { if (got[i] < 2) { M w = sent[got[i]]; got[i]++; checkSame(x, w, "B02: the datagram received equals the one published"); if ((int)who == i) anyOp(x, w, 1, go); } else got[i]++; };
  auto check = [&](int i, Message x) { lps_assert(x.GetSender() == (fromRoot ? Str("root") : child), "B02: the sender is the bus the message was published on"); lps_assert(x.GetTopic() == topic, "B02: the topic is the publisher's"); look(i, x.GetDatagram()); if ((int)who == i) { x.PrependSender("zz"); } };
  auto s0 = root->CreateSubscriber("/**/*"); s0->SetMessageCallback([&](Message x) { check(0, x); });
  auto s1 = root->CreateSubscriber(topic, [&](Datagram x) { look(1, x); });
  auto s2 = kid->CreateSubscriber(topic); s2->SetMessageCallback([&](Message x) { check(2, x); if (got[2] == (twice ? 2u : 1u)) root->Stop(); });
  auto p = (fromRoot ? root : kid)->CreatePublisher(topic); sent[0] = m; p->Publish(d);
  if (who == 3) { anyOp(d, m, 1, go); lps_cover("publisher changes"); }   // after publishing
  if (fresh) { Datagram e; M me; Gen ge = go; anyTree(e, me, ge); sent[1] = me; p->Publish(e); lps_cover("another"); }
  else if (twice) { sent[1] = m; p->Publish(d); } else checkSame(d, m, "B02: publishing does not change the datagram");
  root->Start();
  unsigned n = twice ? 2 : 1; lps_assert(got[0] == n && got[1] == n && got[2] == n, "B02: everyone receives every message"); if (who < 3) lps_cover("subscriber changes"); obsM(m);
}
