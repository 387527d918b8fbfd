// B03: concurrent publishing loses, duplicates and reorders nothing; subscribers and publishers come and go meanwhile.
#include "common.h"
#include <lamppost/bus/Bus.h>
#include <thread>
using namespace lp::bus;
extern "C" void lps_main(void) {
  auto root = std::make_shared<Bus>("r"), child = root->CreateChildBus("c"); unsigned n = lps_param("msgs", 2), churn = lps_param("churn", 0); bool sym = lps_param("symbolic", 0);
  const unsigned P = churn ? 1 : 2; int got[2] = {0, 0}, last[2][2] = {{-1, -1}, {-1, -1}}, sent[2] = {0, 0}, want = (int)(P * n), tag = sym ? (int)lps_val("tag") : 7;
  unsigned fromChild = churn ? 0 : lps_choose("publishers-at", 3); unsigned fin = 0;
  auto recv = [&](int s, Datagram d) { int t = d.Get<int>("t", -1), i = d.Get<int>("i", -1), g = d.Get<int>("g", 0); lps_assert(t >= 0 && t < (int)P && g == tag, "B03: a delivered message is one that was published, intact"); lps_assert(i == last[s][t] + 1, "B03: messages of one thread arrive once and in that thread's order"); last[s][t] = i; got[s]++; if (got[0] == want && got[1] == want) root->Stop(); };
  auto s0 = root->CreateSubscriber("t", [&](Datagram d) { recv(0, d); }), s1 = child->CreateSubscriber(churn ? "t" : "/**/*", [&](Datagram d) { recv(1, d); });
  std::shared_ptr<Publisher> pub[2]; for (unsigned k = 0; k < P; k++) pub[k] = ((fromChild >> k) & 1 ? child : root)->CreatePublisher("t");
  auto body = [&](int t) { for (unsigned i = 0; i < n; i++) { Datagram d; d["t"] = t; d["i"] = (int)i; d["g"] = tag; pub[t]->Publish(d); } };
  int extra = 0; bool deleted = false;
  std::thread a(body, 0), b([&] {
    if (!churn) { body(1); return; }
    int mine = 0;
    if (churn == 1) { auto s = root->CreateSubscriber("t", [&](Datagram d) { lps_assert(!deleted, "B03: a deleted subscriber receives nothing"); int i = d.Get<int>("i", -1); lps_assert(i >= extra, "B03: messages arrive in order at a subscriber created meanwhile"); extra = i + 1; mine++; }); lps_assert(root->ContainsSubscriber(s), "B03: a created subscriber belongs to its bus"); root->DeleteSubscriber(s); deleted = true; lps_assert(!root->ContainsSubscriber(s), "B03: a deleted subscriber no longer belongs to its bus"); }
    else if (churn == 2) { auto p = child->CreatePublisher("u"); Datagram d; p->Publish(d); child->DeletePublisher(p); p->Publish(d); }
    else { auto k = root->CreateChildBus("k"); auto s = k->CreateSubscriber("t", [&](Datagram d) { int i = d.Get<int>("i", -1); lps_assert(i >= extra, "B03: messages arrive in order on a bus created meanwhile"); extra = i + 1; }); }
    });
  root->Start(); a.join(); b.join();
  for (int s = 0; s < 2; s++) for (unsigned t = 0; t < P; t++) lps_assert(last[s][t] == (int)n - 1 && got[s] == want, "B03: every published message is delivered");
  lps_cover(churn ? "churn" : "both"); lps_obs("got", got[0] * 16 + got[1]);
}
