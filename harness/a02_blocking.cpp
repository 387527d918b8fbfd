// A02: a blocking request returns its response or, after the timeout, nothing; late responses have no effect.
#include "common.h"
#include <lamppost/bus/Bus.h>
#include <atomic>
#include <chrono>
#include <mutex>
#include <thread>
using namespace lp::bus; typedef std::chrono::milliseconds ms;
extern "C" void lps_main(void) {
  auto root = std::make_shared<Bus>("r"); unsigned mode = lps_param("mode", 0), nreq = lps_param("requests", 1), T = 300; bool prompt = lps_param("prompt", 0), blank = lps_param("blank", 0); int secret = (int)lps_val("answer"); std::mutex m; std::vector<Str> ids; std::atomic<bool> got(false); unsigned delay = mode == 2 ? 150 * (unsigned)lps_choose("delay", 5) : 0;
  auto consumer = root->CreateActionConsumer("act"); std::shared_ptr<ActionProvider> provider;
  if (mode) provider = root->CreateActionProvider("act", std::function<void(std::shared_ptr<ActionProvider>, std::string, Datagram)>([&](std::shared_ptr<ActionProvider> p, std::string id, Datagram w) {
    Datagram q = w["request"]; int n = q.Get<int>("n", -1); Datagram a; if (!blank) { a["n"] = n; a["v"] = secret; }
    if (mode == 1 || n > 0) { p->Respond(id, a); if (lps_param("twice", 0)) p->Respond(id, a); } else { std::lock_guard<std::mutex> l(m); ids.push_back(id); got = true; } }));
  std::thread runner([&] { root->Start(); });
  std::thread late; if (mode == 2) late = std::thread([&] { while (!got) std::this_thread::sleep_for(ms(50)); if (delay) std::this_thread::sleep_for(ms(delay)); Str id; { std::lock_guard<std::mutex> l(m); id = ids[0]; } Datagram a; a["n"] = 0; a["v"] = secret; provider->Respond(id, a); });
  auto ask = [&](int n) { Datagram q; q["n"] = n; auto before = std::chrono::steady_clock::now(); Datagram a = consumer->Request(q, (int)T); auto took = std::chrono::steady_clock::now() - before; bool empty = a.IsEmpty(); lps_obs("empty", empty); if (prompt && mode == 1) lps_assert(took < ms(T), "A02: a request returns when its response arrives"); if (mode == 0) lps_assert(took >= ms(T), "A02: a request waits for its timeout");
    if (mode == 0) lps_assert(empty, "A02: without a response the result is empty"); else if (blank) lps_assert(empty, "A02: the result is the provider's response to this request"); else { if (!empty) lps_assert(a.Get<int>("n", -1) == n && a.Get<int>("v", 0) == secret, "A02: the result is the provider's response to this request"); if (prompt && (mode == 1 || n > 0)) lps_assert(!empty, "A02: a response given in time is returned"); if (mode == 2 && n == 0) { if (prompt && delay == 0) lps_assert(!empty, "A02: a response given in time is returned"); if (prompt && delay == 600) lps_assert(empty, "A02: a response given after the timeout is not returned"); lps_cover(empty ? "timed out" : "answered"); } } };
  if (lps_param("threads", 0)) { std::thread other(ask, 1); ask(0); other.join(); lps_cover("two requesters"); } else for (unsigned n = 0; n < nreq; n++) ask((int)n);
  if (mode == 2) { lps_progress(); late.join(); }
  lps_progress(); std::this_thread::sleep_for(ms(400)); lps_progress(); root->Stop(); runner.join(); lps_cover("done");
}
