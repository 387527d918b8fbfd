// B09: participants may be created, changed and deleted by any thread while the bus runs in another and delivers messages.
#include "common.h"
#include <atomic>
#include <chrono>
#include <thread>
#include <lamppost/bus/Bus.h>
using namespace lp::bus; typedef std::chrono::milliseconds ms;
static Datagram num(int n) { Datagram d; d["n"] = n; return d; }
static Datagram request(const char* id) { Datagram d; d["invocationId"] = Str(id); d["request"] = num(0); return d; }
static int get(Datagram& d) { return d.Get<int>("n", -1); }
struct Count { std::atomic<int> n[8]; std::atomic<bool> gone; Count() : gone(false) { for (auto& x : n) x = 0; } void saw(Datagram d) { int i = get(d); if (i >= 0 && i < 8) n[i]++; } };
extern "C" void lps_main(void) {
  auto root = std::make_shared<Bus>("r"); auto kid = root->CreateChildBus("kid"); bool below = lps_choose("child", lps_param("child", 2)); std::shared_ptr<Bus> b = below ? kid : root; unsigned nops = lps_param("ops", 1);
  Count old, fixed, mine, fresh[3], changed; std::atomic<int> asked(0), answered[3]; for (auto& x : answered) x = 0; std::vector<int> kinds; std::vector<std::shared_ptr<void>> keep; keep.reserve(16);
  auto watcher = root->CreateSubscriber("t", DatagramCallbackType([&](Datagram d) { fixed.saw(d); }));                                                              // unaffected by all that goes on
  auto sub = b->CreateSubscriber("t", DatagramCallbackType([&](Datagram d) { lps_assert(!old.gone, "B09: a deleted subscriber receives nothing more"); old.saw(d); }));
  auto provider = b->CreateActionProvider("pact", std::function<void(std::shared_ptr<ActionProvider>, Str, Datagram)>([&](std::shared_ptr<ActionProvider> p, Str id, Datagram) { asked++; p->Respond(id, num(1)); })); auto consumer = b->CreateActionConsumer("act"); auto pub = root->CreatePublisher("t"); auto spare = b->CreatePublisher("t"); std::atomic<bool> cut(false); std::shared_ptr<Subscriber> own; std::shared_ptr<Publisher> p, q; bool after = false, deleted = false, replaced = false, unpublished = false;
  std::thread runner([&] { root->Start(); });
  auto ops = [&] { for (unsigned o = 0; o < nops; o++) { unsigned k = lps_choose("op", 11); kinds.push_back(k); Count& f = fresh[o]; int mark = 3 + (int)o; auto cb = DatagramCallbackType([&f](Datagram d) { f.saw(d); });
      switch (k) {
        case 0: keep.push_back(b->CreateSubscriber("t", cb)); break;
        case 1: { auto s = b->CreateSubscriber("t"); s->SetDatagramCallback(cb); keep.push_back(s); break; }
        case 2: { auto s = b->CreateSubscriber("t"); s->SetMessageCallback([&f](Message m) { f.saw(m.GetDatagram()); }); keep.push_back(s); break; }
        case 3: { auto p = b->CreateActionProvider("act", std::function<void(std::shared_ptr<ActionProvider>, Str, Datagram)>([](std::shared_ptr<ActionProvider> p, Str id, Datagram) { p->Respond(id, num(2)); })); keep.push_back(p); consumer->RequestAsync(num(0), [&, o](Datagram) { answered[o]++; }); break; }
        case 4: { auto c = b->CreateActionConsumer("pact"); keep.push_back(c); c->RequestAsync(num(0), [&, o](Datagram) { answered[o]++; }); break; }
        case 5: { auto q = b->CreateChildBus("n" + std::to_string(o)); q->CreateSubscriber("t", cb); keep.push_back(q); break; }
        case 6: if (!deleted) { b->DeleteSubscriber(sub); old.gone = true; deleted = true; } break;
        case 7: { auto p = b->CreatePublisher("t"); p->Publish(num(7)); b->DeletePublisher(p); break; }
        case 8: if (!deleted && !replaced) { sub->SetDatagramCallback([&](Datagram d) { changed.saw(d); }); replaced = true; } break;
        case 10: if (!unpublished) { b->DeletePublisher(spare); cut = true; unpublished = true; } break;                                                            // in use by another thread
        case 9: { auto s = b->CreateSubscriber("t", cb); f.gone = true; b->DeleteSubscriber(s); lps_assert(!b->ContainsSubscriber(s) && b->ContainsSubscriber(sub) != deleted, "B09: the bus knows its subscribers"); break; } }
      pub->Publish(num(mark)); } };
  auto uses = [&] { p = root->CreatePublisher("t"); p->Publish(num(1)); own = b->CreateSubscriber("t", DatagramCallbackType([&](Datagram d) { mine.saw(d); })); q = root->CreatePublisher(lps_choose("reply", lps_param("reply", 2)) ? "act/response" : "act/request"); q->Publish(request("x")); p->Publish(num(2)); bool late = cut; spare->Publish(num(6)); if (late) after = true; };
  std::function<void()> first = ops, second = uses; if (lps_param("exchanged", 0)) std::swap(first, second); std::thread worker(first); second(); worker.join(); lps_assert(b->ContainsSubscriber(own) && root->ContainsPublisher(p) && root->ContainsPublisher(q) && b->ContainsSubscriber(sub) != deleted && b->ContainsPublisher(spare) != unpublished, "B09: the bus knows its participants"); p->Publish(num(5)); std::this_thread::sleep_for(ms(350)); lps_progress(); root->Stop(); runner.join();
  int sevens = 0; for (unsigned k : kinds) sevens += k == 7;
  auto once = [&](Count& c, int i, int least, int most) { int x = c.n[i]; lps_assert(x >= least && x <= most, "B09: every message reaches every subscriber once"); };
  for (int i = 1; i < 3 + (int)nops; i++) once(fixed, i, 1, 1); once(mine, 2, 1, 1); once(mine, 5, 1, 1); once(fixed, 5, 1, 1); once(fixed, 7, sevens, sevens); once(fixed, 6, unpublished ? 0 : 1, after ? 0 : 1);
  if (!deleted) for (int i = 1; i < 3 + (int)nops; i++) { int x = old.n[i] + changed.n[i]; lps_assert(x == 1, "B09: every message reaches either the old or the new callback"); }
  for (unsigned o = 0; o < nops; o++) { unsigned k = kinds[o]; bool sees = k <= 2 || k == 5; for (int i = 1; i < 3 + (int)nops; i++) once(fresh[o], i, sees && i >= 3 + (int)o ? 1 : 0, sees || k == 9 ? 1 : 0); if (k == 3 || k == 4) { lps_assert(answered[o] == 1, "B09: a request made after the provider was created is answered once"); lps_cover("answered"); } if (sees) lps_cover("subscribed"); if (k == 10) lps_cover("unpublished"); }
  if (replaced && !deleted) { once(changed, 3 + (int)nops - 1, 1, 1); lps_cover("replaced"); } if (deleted) lps_cover("deleted"); lps_obs("first", fixed.n[1]);
}
