// P02: every instantiation yields a new instance with its own name, bus and configuration.
#include "plug.h"
using lp::bus::Bus;
extern "C" void lps_main(void) {
  defaultOs(); VDir& d = addDir("/e"); unsigned ops = lps_param("ops", 3); bool clash = lps_param("clash", 0); gRunMode = 1;
  Str ids[2]; if (clash) { ids[0] = "P"; ids[1] = "P1"; } else { ids[0] = anyText("id", 1, 1); ids[1] = lps_choose("longer", 2) ? ids[0] + "0" : anyText("id", 1, 1); lps_assume(!(ids[0] == ids[1])); }
  addLib(d, ids[0]); addLib(d, ids[1]); lp::PluginManagerConfiguration c; c.mTemplateSearchPaths.push_back("/e"); auto root = std::make_shared<Bus>("root"), other = std::make_shared<Bus>("other"); std::shared_ptr<Bus> parents[2] = {root, other}; std::vector<Str> mine[2], there[2]; bool taken = lps_param("taken", 0); std::vector<std::shared_ptr<lp::PluginInstance>> made; std::vector<Str> names; std::vector<int> where; std::vector<M> models;
  { lp::PluginManager pm(c); pm.SetBus(root); pm.LoadTemplates(); unsigned n = clash ? 12 : ops;
    auto block = [&](int k, const Str& x) { parents[k]->CreateChildBus(x); there[k].push_back(x); };
    if (clash) { block(1, "P0"); block(0, "P3"); }
    if (taken) { block(1, ids[0] + "0"); if (lps_choose("more", 2)) block(1, ids[0] + "2"); }
    for (unsigned o = 0; o < n; o++) {
      unsigned which = clash ? (o == 11 ? 1 : 0) : taken ? 0 : lps_choose("plugin", 3); unsigned on = clash ? 0 : lps_choose("bus", 2); Str id = which < 2 ? ids[which] : anyText("unknown", 2); if (which == 2) lps_assume(!(id == ids[0]) & !(id == ids[1]));
      lp::PluginConfiguration pc; M m; Gen g; g.budget = lps_param("tree", 2); g.leaves = lps_param("leaves", 6); if (clash) { m.k = KInt; m.i = (int)o; pc.mCustomConfiguration = m.i; } else if (o == 0 && !taken) anyTree(pc.mCustomConfiguration, m, g, 2); else { m.k = KInt; m.i = (int)lps_val("i"); pc.mCustomConfiguration = m.i; }
      if (on) pc.mBus = other; else if (lps_param("explicit", 0)) pc.mBus = root; pc.mIdentifier = "x"; size_t before = lives().size(); std::shared_ptr<lp::PluginInstance> inst;
      try { inst = pm.InstantiateTemplate(id, pc); } catch (ex::Exception&) { lps_fail("P02: instantiating a known plugin succeeds"); return; }
      if (which == 2) { lps_assert(inst == nullptr && lives().size() == before, "P02: instantiating an unknown plugin yields nothing"); lps_cover("unknown"); continue; }
      lps_assert(inst != nullptr && lives().size() == before + 1, "P02: instantiating a known plugin yields an instance"); if (!inst) return; for (auto& p : made) lps_assert(p != inst, "P02: each instantiation yields a new instance");
      Str name; for (int k = 0;; k++) { name = id + std::to_string(k); bool free = true; for (auto& x : mine[which]) if (x == name) free = false; for (auto& x : there[on]) if (x == name) free = false; if (free) break; } mine[which].push_back(name); there[on].push_back(name); Life* l = lives().back(); lps_assert(l->lib == (int)which, "P02: the instance is one of the plugin asked for"); lps_assert(inst->GetIdentifier() == name, "P02: an instance is named after the plugin followed by the smallest unused number"); auto b = inst->GetBus(); lps_assert(b != nullptr, "P02: an instance has a bus"); if (!b) return; lps_assert(b->GetIdentifier() == name, "P02: an instance's bus bears its name"); std::shared_ptr<Bus> found; try { found = parents[on]->GetChildBus(name); } catch (ex::Exception&) {} lps_assert(found == b, "P02: an instance's bus is a child of the given or default bus");
      for (auto& p : made) lps_assert(p->GetBus() != b, "P02: each instance has its own bus"); checkSame(l->config, m, "P02: an instance has the configuration given"); checkSame(pc.mCustomConfiguration, m, "P02: instantiating leaves the given configuration alone"); made.push_back(inst); names.push_back(name); where.push_back((int)on); models.push_back(m); if (which == 1) lps_cover("second"); }
    for (size_t i = 0; i < made.size(); i++) lps_assert(made[i]->GetIdentifier() == names[i] && parents[where[i]]->GetChildBus(names[i]) == made[i]->GetBus(), "P02: later instantiations do not affect earlier instances");
    for (const char* x : {"P9z", "zz"}) { bool none = false; try { root->GetChildBus(x); } catch (ex::KeyNotFoundException&) { none = true; } lps_assert(none, "P02: no other buses are created"); }
    for (int w = 0; w < 2; w++) for (int k = 0; k < 2; k++) for (unsigned i = 0; i < 4; i++) { Str x = ids[w] + std::to_string(i); bool is = true, want = false; try { parents[k]->GetChildBus(x); } catch (ex::KeyNotFoundException&) { is = false; } for (auto& y : there[k]) if (y == x) want = true; lps_assert(is == want, "P02: no other buses are created"); }
    made.clear(); for (auto* l : lives()) l->bus = nullptr; } 
  for (auto* l : lives()) lps_assert(l->destroyed == 1, "P02: instances are destroyed with the manager"); lps_obs("n", lives().size()); lps_cover("done");
}
