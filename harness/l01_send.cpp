// L01: a link transmits every local message exactly once per enabled role, and never what came in over it.
#include "zmqsim.h"
struct Local { Str sender, topic; M data; bool forwarded; };
extern "C" void lps_main(void) {
  Fixture f; bool server = lps_param("mode", 0) == 2 || lps_choose("server", 2), client = lps_choose("client", 2); f.enable(server, client); unsigned n = lps_param("messages", 1), mode = lps_param("mode", 0); std::vector<Local> all;
  gFaults = 0; f.create(); f.link->Initialize(); f.link->Start(); gFaults = lps_param("faults", 0);
  ZSock* ps = zfind(ZMQ_PUB, true); ZSock* pc = zfind(ZMQ_PUB, false); lps_assert((ps != nullptr) == server && (pc != nullptr) == client, "L01: exactly the enabled roles are set up"); 
  for (unsigned i = 0; i < n; i++) { Local l; Datagram d; Gen g; g.budget = lps_param("tree", 1); g.leaves = lps_param("leaves", 31); anyTree(d, l.data, g, 2); l.topic = lps_param("topiclen", 1) ? anyText("topic", lps_param("topiclen", 1)) : "/t" + std::to_string(i);
    switch (lps_choose("origin", lps_param("origins", 4))) { case 0: { l.sender = "root"; auto p = f.root->CreatePublisher(l.topic); p->Publish(d); break; }                                        // published locally
      case 1: { l.sender = anyText("sender", lps_param("senderlen", 1)) + (lps_choose("slash", 2) ? "/x" : ""); f.root->Publish(Message(l.sender, l.topic, d)); break; }                           // came in over some other link
      case 2: { const char* pre[] = {"Link0/", "Link0/Link1/", "Link1/Link0/", "Link00/"}; l.sender = pre[lps_choose("prefix", 4)] + Str("x"); f.root->Publish(Message(l.sender, l.topic, d)); break; }
      case 3: { l.sender = "Link0"; auto p = f.c.mBus->CreatePublisher(l.topic); p->Publish(d); break; } }                                                                                         // published on the link's own bus
    l.forwarded = l.sender.compare(0, 6, "Link0/") != 0; all.push_back(l); if (mode == 1) f.run(20); }
  if (mode == 2) { std::thread t([&] { Datagram d; d["late"] = 1; auto p = f.root->CreatePublisher("/late"); p->Publish(d); }); f.run(30); t.join(); f.run(30); Local l; l.sender = "root"; l.topic = "/late"; l.data.at("late").k = KInt; l.data.at("late").i = 1; l.forwarded = true; all.push_back(l); }
  else f.run(30);
  f.finish(); 
  for (int r = 0; r < 2; r++) { ZSock* s = r ? pc : ps; if (!s) continue; size_t k = 0; unsigned lost = s->interrupts + s->broken; if (lps_param("faults", 0)) { lps_assert(s->pending.empty() || s->broken, "L01: a message is transmitted completely"); lost = s->broken ? 1000 : gFailed; }
    for (auto& l : all) { if (!l.forwarded) continue; Message m; bool here = k < s->sent.size(); if (here) { Frames& fr = s->sent[k]; lps_assert(fr.size() == 2 && fr[0] == "A", "L01: a transmitted message consists of the topic frame and the payload"); here = fr.size() == 2 && decode(fr[1], m) && m.GetTopic() == l.topic && m.GetSender() == l.sender; if (here) { Datagram d = m.GetDatagram(); M empty; gSignedZeroSame = true; if (lost) { here = d.GetType() == typeOf(l.data.k); } if (here) { checkSame(d, l.data, "L01: the transmitted bytes decode to the message"); k++; } } }
      if (!here) { lps_assert(lost > 0, "L01: every local message is transmitted exactly once per enabled role"); if (lost) lost--; } }
    lps_assert(k == s->sent.size(), "L01: nothing else is transmitted"); lps_cover(k ? "transmitted" : "nothing to transmit"); lps_obs("sent", k); }
  if (!server && !client) { for (auto* s : zsocks()) lps_assert(s->sent.empty(), "L01: a link without a role transmits nothing"); lps_cover("no role"); }
}
