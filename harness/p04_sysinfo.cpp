// P04: the system-information plugin serves its action and publishes as configured; deinitialised, it does neither.
#include "common.h"
#include <chrono>
#include <thread>
#include <lamppost/bus/Bus.h>
#include <lamppost/plugin/PluginInstance.h>
#include <lamppost/plugin/PluginTemplateInfo.h>
using namespace lp::bus; typedef std::chrono::milliseconds ms;
extern "C" lp::PluginInstance* CreateInstance(lp::PluginConfiguration c); extern "C" lp::PluginTemplateInfo* CreateInfo();
extern "C" void lps_main(void) {
  auto root = std::make_shared<Bus>("root"); lp::PluginConfiguration c; c.mIdentifier = "SysInfo0"; c.mBus = root->CreateChildBus("SysInfo0"); unsigned nreq = lps_param("requests", 1), mode = lps_param("mode", 0);
  { lp::PluginTemplateInfo* i = CreateInfo(); lps_assert(i && i->mIdentifier == "SysInfo", "P04: the plugin's identifier"); delete i; }
  M cfg; bool enabled = false; if (mode == 1) { c.mCustomConfiguration["send-datagram"] = enabled = true; } else if (nreq == 0) {} else switch (lps_choose("config", 4)) { case 0: break; case 1: { Datagram v = c.mCustomConfiguration["send-datagram"]; Gen g; g.budget = lps_param("tree", 1); anyTree(v, cfg, g, 2); if (cfg.k == KBool && cfg.b) enabled = true; break; } case 2: { Gen g; g.budget = 2; anyTree(c.mCustomConfiguration, cfg, g, 2); break; } case 3: { bool b = lps_range("enabled", 0, 1); enabled = b; c.mCustomConfiguration["send-datagram"] = b; c.mCustomConfiguration["other"] = 1; break; } }
  int hello = 0, answers[4] = {0, 0, 0, 0}; bool gone = false, stray = false;
  auto sub = root->CreateSubscriber("/sysinfo", [&](Datagram d) { if (stray) return; hello++; lps_assert(enabled, "P04: nothing is published unless the configuration enables it"); bool text = d.GetType() == RawDatagramType::Value; Str s; try { s = d.Get<Str>(); } catch (ex::Exception&) { text = false; } lps_assert(text && s == "Hello Bus!", "P04: the greeting is published"); });
  int own = 0; auto all = root->CreateSubscriber("/**/*"); all->SetMessageCallback([&](lp::messages::Message m) { if (m.GetSender() == "SysInfo0") own++; });
  auto consumer = root->CreateActionConsumer("/sysinfoaction"); auto stranger = root->CreatePublisher("/sysinfo");
  auto ask = [&](int i) { Datagram q; M m; if (mode == 0) { Gen g; g.budget = 1; g.leaves = lps_param("requestleaves", 7); g.containers = false; anyTree(q, m, g, 1); if (m.k == KInt) lps_assume(m.i > -lps_param("intmax", 20) && m.i < lps_param("intmax", 20)); } consumer->RequestAsync(q, [&, i](Datagram a) { answers[i]++; lps_assert(!gone, "P04: nothing is answered after deinitialisation"); Str s; try { s = a.Get<Str>(); } catch (ex::Exception&) {} lps_assert(s == "This is the response message.", "P04: the response text"); }); };
  auto run = [&](int t) { std::thread s([&] { std::this_thread::sleep_for(ms(t)); root->Stop(); }); root->Start(); s.join(); lps_progress(); };
  lp::PluginInstance* p = CreateInstance(c); lps_assert(p != nullptr && p->GetIdentifier() == "SysInfo0", "P04: an instance is created");
  p->Initialize();
  if (mode == 1) { // everything at once: the bus runs while the plugin is started, asked, stopped and removed
    std::thread r([&] { root->Start(); }); p->Start(); ask(0); p->Stop(); p->Deinitialize(); delete p; ask(1); std::this_thread::sleep_for(ms(250)); lps_progress(); root->Stop(); r.join(); lps_assert(answers[0] <= 1 && answers[1] == 0, "P04: a request is answered once, and only while the plugin is active"); if (hello) lps_cover("greeting while running"); lps_cover("concurrent"); return; }
  p->Start(); for (unsigned i = 0; i < nreq; i++) ask((int)i); if (nreq) run(500); p->Stop();
  for (unsigned i = 0; i < nreq; i++) lps_assert(answers[i] == 1, "P04: every request is answered exactly once"); if (nreq) run(300); lps_assert((hello > 0) == enabled, "P04: the greeting is published if and only if the configuration enables it"); if (nreq) lps_assert(own == hello + (int)nreq, "P04: every request is answered exactly once, and nothing but answers and greetings is published"); if (enabled) lps_cover("greeting"); else lps_cover("silent");
  if (!lps_param("requests", 1)) { hello = 0; stray = true; Datagram d; M m; Gen g; g.budget = lps_param("tree", 1); anyTree(d, m, g, 2); stranger->Publish(d); run(300); stray = false; ask(0); run(300); lps_assert(answers[0] == 1, "P04: the plugin keeps answering whatever it receives"); lps_assert(own == 1, "P04: every request is answered exactly once, and nothing but answers and greetings is published"); lps_cover("stray message"); }
  int before = hello; p->Deinitialize(); if (lps_choose("destroy", 2)) { delete p; p = nullptr; } 
  ask(3); gone = true; run(500); lps_assert(answers[3] == 0, "P04: nothing is answered after deinitialisation"); lps_assert(hello == before, "P04: nothing is published after deinitialisation"); { enabled = true; Datagram d; d = Str("Hello Bus!"); stranger->Publish(d); run(500); lps_assert(hello == before + 1, "P04: the bus keeps working after deinitialisation"); } if (p) delete p; lps_obs("hello", hello);
}
