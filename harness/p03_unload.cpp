// P03: on unloading, workers end before instances are deinitialised, instances are destroyed before their library is closed, and no plugin code runs afterwards.
#include "plug.h"
using lp::bus::Bus;
extern "C" void lps_main(void) {
  defaultOs(); VDir& d = addDir("/e"); unsigned nlib = lps_param("libs", 1), ninst = lps_param("instances", 2); for (unsigned i = 0; i < nlib; i++) addLib(d, i ? "Q" : "P"); gRunMode = lps_param("mode", 0); gRunMs = lps_param("ms", 50);
  lp::PluginManagerConfiguration c; c.mTemplateSearchPaths.push_back("/e"); auto root = std::make_shared<Bus>("root"); bool publish = lps_param("publish", 0); std::shared_ptr<lp::bus::Publisher> pub[4]; 
  if (publish) { gOnInit = [&](int i) { pub[i] = lives()[i]->bus->CreatePublisher("t"); }; gOnRun = [&](int i) { Datagram x; x["i"] = i; pub[i]->Publish(x); }; gOnDeinit = [&](int i) { if (pub[i]) lives()[i]->bus->DeletePublisher(pub[i]); pub[i] = nullptr; }; }
  if (lps_param("taken", 0)) { unsigned t = lps_choose("taken", 8); for (int k = 0; k < 3; k++) if (t & (1u << k)) root->CreateChildBus("P" + std::to_string(k)); if (t) lps_cover("names taken"); }
  unsigned how = lps_choose("end", 3); bool initialise[4], start[4]; { lp::PluginManager pm(c); pm.SetBus(root); pm.LoadTemplates();
    for (unsigned i = 0; i < ninst; i++) { auto inst = pm.InstantiateTemplate(nlib > 1 && lps_choose("plugin", 2) ? "Q" : "P", lp::PluginConfiguration()); lps_assert(inst != nullptr, "P03: a known plugin can be instantiated"); if (!inst) return; start[i] = i == 0 || lps_choose("start", 2); initialise[i] = start[i] || lps_choose("initialise", 2); if (initialise[i]) inst->Initialize(); if (start[i]) inst->Start(); if (start[i] && lps_param("stopped", 0) && lps_choose("stop", 2)) { inst->Stop(); lps_assert(!lives()[i]->running, "P03: stopping an instance ends its worker"); lps_cover("stopped"); } }
    if (how == 0) pm.UnloadTemplates(); else if (how == 1) { if (lps_param("detach", 0)) root->Detach(); pm.UnloadTemplates(); pm.UnloadTemplates(); lps_cover("unloaded twice"); }
    if (how < 2) for (auto* l : lives()) { lps_assert(l->destroyed == 1 && l->deinits == 1, "P03: unloading deinitialises and destroys every instance once"); lps_assert(vlibs()[l->lib].closes == 1, "P03: unloading closes every library once"); lps_assert(!l->running, "P03: no worker runs after unloading"); } }
  for (unsigned i = 0; i < lives().size(); i++) { Life* l = lives()[i]; lps_assert(l->destroyed == 1 && l->deinits == 1, "P03: unloading deinitialises and destroys every instance once"); lps_assert(!l->running, "P03: no worker runs after unloading"); lps_assert(l->runs <= (start[i] ? 1 : 0), "P03: only started instances run"); }
  for (auto& v : vlibs()) lps_assert(v.opens == 1 && v.closes == 1, "P03: unloading closes every library once"); lps_assert(lives().size() == ninst, "P03: every instantiation created one instance"); lps_cover("done"); lps_obs("n", lives().size());
}
