// R01: the configuration files decide exactly which plugins are started, in which order and with which configuration.
#include "plug.h"
#include "jsondoc.h"
#include "file.h"
#include <thread>
#include <lamppost/LampPost.h>
struct Want { Str type; const M* config; };
static void anyNode(M& m, int& budget, int depth) {   // an arbitrary JSON value
  budget--; Gen g; g.leaves = lps_param("leaves", 31); m.reset(); m.k = anyKind(g, depth > 0 && budget > 0);
  switch (m.k) { case KStr: m.s = anyText("s", 1); break; case KInt: m.i = (int)lps_val("i"); break; case KBool: m.b = lps_range("b", 0, 1); break; case KDbl: m.d = 0.5; break;
    case KList: case KDict: { unsigned n = lps_choose("count", (budget < 2 ? budget : 2) + 1); budget -= n; for (unsigned i = 0; i < n; i++) { budget++; M c; anyNode(c, budget, depth - 1); if (m.k == KList) m.items.push_back(c); else m.at(i ? "type" : "x") = c; } break; }
    default: break; } }
static void anyEntry(M& e, unsigned kinds) {   // an entry of the plugin list: well-formed or not
  switch (lps_choose("entry", kinds)) {
    case 0: e.at("type").k = KStr; e.at("type").s = lps_choose("plugin", 2) ? "B" : "A"; e.at("configuration").at("n").k = KInt; e.at("configuration").at("n").i = (int)lps_val("n"); break;
    case 1: e.at("type").k = KStr; e.at("type").s = "A"; break;                                                          // no configuration
    case 2: e.at("type").k = KStr; e.at("type").s = anyText("type", lps_param("typelen", 1)); { int b = 1; anyNode(e.at("configuration"), b, 1); } break;   // any name, any configuration
    case 3: { int b = 1; anyNode(e.at("type"), b, 1); break; }                                                            // any kind of type
    case 4: { int b = lps_param("tree", 2); anyNode(e, b, 2); break; }                                                    // anything at all
    case 5: e.at("configuration").at("n").k = KInt; break;                                                                // no type
  } }
extern "C" void lps_main(void) {
  defaultOs(); unsigned place = lps_param("paths", 0) ? lps_choose("place", 4) : 0; { static const char* const places[] = {"/x", "/w", "/w/lib", "/own"}; VDir& d = addDir("/x"); d.entries.reserve(8); if (place) { VDir& e = addDir(places[place]); e.entries.reserve(8); lps_cover("another path"); addLib(e, "B"); addLib(e, "A", LibOk, "libplugin_A.so"); } else { addLib(d, "A"); addLib(d, "B"); } } unsigned mode = lps_param("mode", 0), nfiles = lps_param("files", 1); gRunMs = 150; gSync = true;
  std::vector<M>* docs = new std::vector<M>(nfiles); lp::LampPostConfiguration cfg; if (place == 3) cfg.mPluginManagerConfiguration.mTemplateSearchPaths.push_back("/own"); std::vector<Want> want;
  for (unsigned f = 0; f < nfiles; f++) { M& m = (*docs)[f]; m.k = KDict;
    if (nfiles > 1) { unsigned c = lps_choose("file", 3); if (c == 1) { cfg.mConfigurationFiles.push_back(noFile()); continue; } if (c == 2) { cfg.mConfigurationFiles.push_back(makeFile(badJson())); continue; } }
    if (mode == 0) { unsigned n = lps_choose("entries", lps_param("entries", 2) + 1); M& l = m.at("plugins"); l.k = KList; for (unsigned i = 0; i < n; i++) { l.items.push_back(M()); anyEntry(l.items.back(), i == 0 ? (unsigned)lps_param("first", 6) : (unsigned)lps_param("kinds", 2)); } if (lps_choose("general", 2)) m.at("general").k = KDict; }
    else { int b = lps_param("nodes", 3); if (lps_choose("any", 2)) { m.reset(); anyNode(m, b, 3); } else { M& l = m.at("plugins"); anyNode(l, b, 3); } }
    cfg.mConfigurationFiles.push_back(makeFile(jsonDoc(m))); int p = m.find("plugins"); if (p < 0 || m.items[p].k != KList) continue;
    static const M* none = new M;
    for (auto& e : m.items[p].items) { int t = e.find("type"); if (t < 0 || e.items[t].k != KStr) continue; const Str& s = e.items[t].s; int c = e.find("configuration"); bool a = s == "A", b = s == "B"; if (a || b) { Want w; w.type = a ? "A" : "B"; w.config = c < 0 ? none : &e.items[c]; want.push_back(w); } } }
  gNeedInit = true; lives().reserve(8); order().reserve(32);
  { auto* lamp = new lp::LampPost(cfg); gOnDeinit = [&](int i) { lives()[i]->bus = nullptr; };
    std::thread stopper([&] { std::this_thread::sleep_for(std::chrono::milliseconds(400)); gTick++;
      lps_assert(lives().size() == want.size(), "R01: exactly the listed available plugins are started"); unsigned na = 0, nb = 0;
      for (size_t i = 0; i < want.size() && i < lives().size(); i++) { Life& l = *lives()[i]; Str name = want[i].type + std::to_string(want[i].type == "A" ? na++ : nb++); lps_assert(l.name == name, "R01: the plugins are started in the listed order"); lps_assert(l.inits == 1 && l.runs == 1, "R01: every listed plugin is initialised and started"); lps_assert(l.running, "R01: the plugins are running"); gSignedZeroSame = true; checkSame(l.config, *want[i].config, "R01: every plugin gets its own configuration"); }
      for (size_t i = 0, pos = 0; i < lives().size(); i++) { size_t c = pos; while (c < order().size() && order()[c] != (int)i) c++; lps_assert(c + 1 < order().size() && order()[c + 1] == 100 + (int)i, "R01: a plugin is initialised before the next one is created"); pos = c; }
      lamp->Stop(); });
    lamp->Start(); stopper.join(); delete lamp; }
  for (auto* l : lives()) lps_assert(l->destroyed == 1 && l->deinits == 1, "R01: every started plugin is deinitialised and destroyed"); for (auto& v : vlibs()) lps_assert(v.opens == v.closes, "R01: the libraries are closed");
  lps_obs("started", lives().size()); if (want.size() > 1) lps_cover("two plugins"); if (want.empty()) lps_cover("none"); removeFiles();
}
