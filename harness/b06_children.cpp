// B06: child buses are uniquely named and found again by name.
#include "common.h"
#include <lamppost/bus/Bus.h>
using namespace lp::bus;
extern "C" void lps_main(void) {
  struct Node { std::shared_ptr<Bus> bus; std::vector<Str> names; std::vector<std::shared_ptr<Bus>> kids; }; unsigned L = lps_param("len", 2), ops = lps_param("ops", 3);
  Node n[2]; bool nested = lps_choose("nested", 2); n[0].bus = std::make_shared<Bus>("root"); n[1].bus = nested ? n[0].bus->CreateChildBus("q") : std::make_shared<Bus>("other"); if (nested) { n[0].names.push_back("q"); n[0].kids.push_back(n[1].bus); }
  for (unsigned o = 0; o < ops; o++) {
    Node& x = n[o && lps_choose("on", 2)]; Str s = anyStr("name", L); bool taken = false; std::shared_ptr<Bus> where; for (size_t i = 0; i < x.names.size(); i++) if (x.names[i] == s) { taken = true; where = x.kids[i]; }
    switch (lps_choose("op", 3)) {
      case 0: { int r = 0; std::shared_ptr<Bus> b; try { b = x.bus->CreateChildBus(s); r = 1; } catch (ex::ArgumentNullException& e) { r = e.GetParameterName() == "name" ? 2 : 9; } catch (ex::DuplicateKeyException& e) { r = e.GetKey() == s ? 3 : 9; }
        if (s.empty()) { lps_assert(r == 2, "B06: an empty name is rejected"); lps_cover("empty"); } else if (taken) { lps_assert(r == 3, "B06: a name already taken is rejected, naming it"); lps_cover("taken"); } else { lps_assert(r == 1 && b != nullptr, "B06: creating a child bus under a free name succeeds"); if (b) { lps_assert(b->GetIdentifier() == s, "B06: a child bus has the name it was created under"); for (auto& k : x.kids) lps_assert(k != b, "B06: a created child bus is a new one"); x.names.push_back(s); x.kids.push_back(b); } lps_cover("created"); } break; }
      case 1: { int r = 0; std::shared_ptr<Bus> b; try { b = x.bus->GetChildBus(s); r = 1; } catch (ex::KeyNotFoundException& e) { r = e.GetKey() == s ? 2 : 9; }
        if (taken) { lps_assert(r == 1 && b == where, "B06: looking up a name returns the bus created under it"); lps_cover("found"); } else { lps_assert(r == 2, "B06: looking up an unknown name is rejected, naming it"); lps_cover("unknown"); } break; }
      case 2: { int r = 0; try { Bus b(s); r = 1; if (!s.empty()) lps_assert(b.GetIdentifier() == s, "B06: a bus has the name given"); } catch (ex::ArgumentNullException&) { r = 2; } lps_assert(r == (s.empty() ? 2 : 1), "B06: a bus needs a name"); break; } } }
  for (auto& x : n) for (size_t i = 0; i < x.names.size(); i++) { bool same = false; try { same = x.bus->GetChildBus(x.names[i]) == x.kids[i]; } catch (ex::Exception&) {} lps_assert(same, "B06: rejected calls leave the set of child buses unchanged"); }
  lps_obs("n", n[0].names.size() * 16 + n[1].names.size());
}
