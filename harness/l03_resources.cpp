// L03: whatever fails, every socket and context is closed exactly once and none is used afterwards.
#include "zmqsim.h"
extern "C" void lps_main(void) {
  Fixture f; bool server = lps_param("mode", 0) == 1 || lps_choose("server", 2), client = lps_param("mode", 0) == 1 || (lps_param("mode", 0) == 2 ? !server : lps_choose("client", 2)); unsigned mode = lps_param("mode", 0); bool want = server || client; if (mode == 1) { Gen g; g.budget = lps_param("tree", 2); M m; unsigned where = lps_choose("where", 3); Datagram t = where == 0 ? Datagram(f.c.mCustomConfiguration) : f.c.mCustomConfiguration["server-role"]; if (where == 2) { Datagram e = t["enabled"]; anyTree(e, m, g, 3); } else anyTree(t, m, g, 3); if (where == 0) f.c.mCustomConfiguration = t; want = where == 2 && m.k == KBool && m.b; }
  else if (mode == 2) { const char* role = server ? "server-role" : "client-role"; Datagram r = f.c.mCustomConfiguration[role]; r["enabled"] = true; const char* keys[] = {"port-pub", "port-sub", server ? "interface" : "server-host"}; for (int i = 0; i < 3; i++) { unsigned how = lps_choose("value", 3); if (how == 0) continue; Datagram v = r[Str(keys[i])]; if ((how == 1) == (i < 2)) v = (int)lps_choose("port", 2) * 70000 - 1; else v = anyText("host", 1); } }
  else f.enable(server, client);
  gFaults = lps_param("faults", 0); gTermEintr = lps_param("eintr", 0) && lps_choose("eintr", 2); Datagram d; d["x"] = 1; auto p = f.root->CreatePublisher("/t");
  f.create(); f.link->Initialize(); if (!gFailed) lps_assert((zsocks().size() > 0) == want, "L03: sockets are opened if and only if a role is enabled"); lps_cover("initialised");
  if (lps_param("concurrent", 0)) { std::thread r([&] { f.root->Start(); }); f.link->Start(); p->Publish(d); f.finish(); p->Publish(d); f.released("L03: everything is released on deinitialisation"); f.root->Stop(); r.join(); lps_cover("concurrent"); return; }
  if (lps_choose("start", 2)) { f.link->Start(); p->Publish(d); f.run(30); }
  unsigned sockets = zsocks().size(), ctxs = zctxs().size(); f.finish(); f.released("L03: every socket, context and message is released exactly once"); p->Publish(d); f.run(10); lps_assert(zsocks().size() == sockets && zctxs().size() == ctxs, "L03: nothing is opened afterwards"); if (gFailed) lps_cover("failed"); lps_obs("sockets", zsocks().size());
}
