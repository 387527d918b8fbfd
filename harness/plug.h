// Stand-ins for plugin libraries: what dlopen/dlsym/dlclose hand out, and fake plugins whose life cycle is recorded.
#pragma once
#include "os.h"
#include <atomic>
#include <dlfcn.h>
#include <lamppost/bus/Bus.h>
#include <lamppost/plugin/PluginManager.h>
#include <lamppost/plugin/PluginInstance.h>
#include <lamppost/plugin/PluginTemplateInfo.h>
enum { LibOk, LibNoInfo, LibEmptyId, LibNoInstance, LibUnopenable };
struct VLib { Str path, id; int state = LibOk; int opens = 0, closes = 0; bool user = false; };
struct Life { int lib = 0; Str name; Datagram config; std::shared_ptr<lp::bus::Bus> bus; std::atomic<int> phase; std::atomic<bool> running; int inits = 0, deinits = 0, destroyed = 0, runs = 0; Life() : phase(0), running(false) {} };
static std::vector<VLib>& vlibs() { static std::vector<VLib>* v = new std::vector<VLib>; return *v; }
static std::vector<Life*>& lives() { static std::vector<Life*>* v = new std::vector<Life*>; return *v; }
static std::vector<int>& order() { static std::vector<int>* v = new std::vector<int>; return *v; }   // instances in order of creation, initialisation (+100) and start (+200)
static bool libOpen(int k) { return vlibs()[k].opens > vlibs()[k].closes; }
static bool gSync = false; static std::atomic<int> gTick(0); static void tick() { if (gSync) gTick++; }   // orders what the plugins record before a thread that reads gTick
static int gRunMode = 0; static unsigned gRunMs = 500; static bool gKeepBus = true, gNeedInit = false; static std::function<void(int)> gOnRun, gOnInit, gOnDeinit;
struct FakePlugin : public lp::PluginInstance {
  Life* l;
  void code(const char* m) { if (!libOpen(l->lib)) lps_fail(m); }
  FakePlugin(lp::PluginConfiguration c, int lib) : lp::PluginInstance(c) { l = new Life; l->lib = lib; l->name = GetIdentifier(); l->config = GetCustomConfiguration(); if (gKeepBus) l->bus = GetBus(); order().push_back((int)lives().size()); lives().push_back(l); tick(); code("plugin code runs only while its library is loaded"); }
  int self() { for (size_t i = 0; i < lives().size(); i++) if (lives()[i] == l) return (int)i; return -1; }
  ~FakePlugin() override { code("a plugin instance is destroyed before its library is unloaded"); Stop(); l->destroyed++; lps_assert(l->destroyed == 1, "an instance is destroyed once"); lps_assert(!l->running, "an instance is destroyed after its worker has ended"); l->bus = nullptr; }
  void Initialize() override { code("plugin code runs only while its library is loaded"); l->inits++; order().push_back(100 + self()); if (gOnInit) gOnInit(self()); tick(); }
  void Run() override { l->running = true; l->runs++; if (gNeedInit) lps_assert(l->inits == 1, "an instance is initialised before its worker runs"); code("plugin code runs only while its library is loaded"); lps_assert(l->deinits == 0, "an instance is deinitialised after its worker has ended"); if (gOnRun) gOnRun(self()); tick();
    switch (gRunMode) { case 0: while (mShouldRun) { Sleep(std::chrono::milliseconds(gRunMs)); code("plugin code runs only while its library is loaded"); } break; case 1: break; case 2: mShouldRun = false; break; }
    lps_assert(l->deinits == 0 && l->destroyed == 0, "an instance is deinitialised after its worker has ended"); l->running = false; }
  void Deinitialize() override { code("plugin code runs only while its library is loaded"); lps_assert(!l->running, "an instance is deinitialised after its worker has ended"); l->deinits++; lps_assert(l->deinits == 1, "an instance is deinitialised once"); if (gOnDeinit) gOnDeinit(self()); }
};
template <int K> static lp::PluginTemplateInfo* infoOf() { lps_assert(libOpen(K), "plugin code runs only while its library is loaded"); auto* i = new lp::PluginTemplateInfo(); i->mIdentifier = vlibs()[K].state == LibEmptyId ? Str() : vlibs()[K].id; i->mVersion = lp::Version(0, 1, 0, 0); return i; }
template <int K> static lp::PluginInstance* instanceOf(lp::PluginConfiguration c) { lps_assert(libOpen(K), "plugin code runs only while its library is loaded"); return new FakePlugin(c, K); }
extern "C" {
void* dlopen(const char* path, int) noexcept { Str p(path); for (size_t k = 0; k < vlibs().size(); k++) if (vlibs()[k].path == p) { if (vlibs()[k].state == LibUnopenable) return nullptr; vlibs()[k].opens++; return &vlibs()[k]; } lps_fail("only plugin libraries in the search paths are opened"); return nullptr; }
static int libIndex(void* h) { for (size_t k = 0; k < vlibs().size(); k++) if (&vlibs()[k] == h) return (int)k; return -1; }
void* dlsym(void* h, const char* name) noexcept { int k = libIndex(h); if (k < 0 || !libOpen(k)) { lps_fail("a library is used only while it is open"); return nullptr; } VLib& v = vlibs()[k]; Str n(name);
  static void* const infos[] = {(void*)infoOf<0>, (void*)infoOf<1>, (void*)infoOf<2>}; static void* const insts[] = {(void*)instanceOf<0>, (void*)instanceOf<1>, (void*)instanceOf<2>};
  if (n == "CreateInfo" && v.state != LibNoInfo) return infos[k]; if (n == "CreateInstance" && v.state != LibNoInstance) return insts[k]; return nullptr; }
int dlclose(void* h) noexcept { int k = libIndex(h); if (k < 0 || !libOpen(k)) { lps_fail("every opened library is closed exactly once"); return -1; } vlibs()[k].closes++;
  for (auto* l : lives()) if (l->lib == k) { lps_assert(l->destroyed == 1, "every instance is destroyed before its library is closed"); lps_assert(l->deinits == 1, "every instance is deinitialised before its library is closed"); } return 0; }
char* dlerror(void) noexcept { static char e[] = "error"; return e; }
}
// a plugin manager's own search paths: the executable's directory, the working directory and its lib directory
static void defaultOs() { vos().dirs.reserve(8); vos().link = "/x/lamppost"; vos().linkLen = 11; vos().cwd = "/w"; vos().cwdLen = 2; }
static VDir& addDir(const Str& path) { VDir d; d.path = path; vos().dirs.push_back(d); return vos().dirs.back(); }
static void addLib(VDir& d, const Str& id, int state = LibOk, const Str& file = "") { if (vlibs().empty()) vlibs().reserve(4); VLib v; v.id = id; v.state = state; Str f = file.empty() ? "libplugin_" + std::to_string(vlibs().size()) + ".so" : file; v.path = d.path + "/" + f; VEntry e; e.name = f; e.kind = VFile; d.entries.push_back(e); vlibs().push_back(v); }
