// L02: complete messages from the network are republished once, intact and marked; anything else is dropped and reception goes on.
#include "zmqsim.h"
struct Seen { Str sender, topic; Datagram data; };
static Str anyMessage(M& m, Str& sender, Str& topic) { Datagram d; Gen g; g.budget = lps_param("tree", 1); g.leaves = lps_param("leaves", 31); anyTree(d, m, g, 2); sender = anyText("sender", lps_param("senderlen", 1)); topic = anyText("topic", lps_param("topiclen", 1)); return encode(Message(sender, topic, d)); }
extern "C" void lps_main(void) {
  Fixture f; bool both = lps_param("both", 0), server = !both && lps_choose("role", 2); f.enable(both || server, both || !server); unsigned which = both ? lps_choose("which", 2) : 0, made = 0; unsigned third = 0; unsigned mode = lps_param("mode", 0); std::vector<Seen> seen; M m; Str sender, topic, bytes; bool want = true; Frames fr; int failAt = -1; fr.push_back("A"); unsigned copies = 1;
  if (mode == 0) { bytes = anyMessage(m, sender, topic); fr.push_back(bytes); }                                                                                                     // a message in one part
  else { if (mode != 3) { sender = "peer"; topic = "/t"; m.k = KInt; m.i = (int)lps_val("value"); Datagram d; d = m.i; bytes = encode(Message(sender, topic, d)); }
    if (mode == 1) { unsigned cuts = lps_param("cuts", 1); size_t from = 0; for (unsigned i = 0; i < cuts; i++) { size_t c = from + lps_choose("cut", bytes.size() - from + 1); fr.push_back(bytes.substr(from, c - from)); from = c; } fr.push_back(bytes.substr(from)); lps_cover("segments"); }   // split into parts anywhere
    else if (mode == 2) { switch (lps_choose("damage", 5)) { case 0: { Message x; fr.push_back(bytes.substr(0, lps_choose("length", bytes.size()))); want = decode(fr[1], x); break; }                        // truncated
        case 1: want = false; break;                                                                                                                                                // no payload
        case 2: fr.push_back(""); if (lps_choose("rest", 2)) fr.push_back(bytes); else want = false; break;                                                                         // an empty part
        case 3: failAt = 1 + lps_choose("fail", 2); fr.push_back(bytes.substr(0, 8)); fr.push_back(bytes.substr(8)); want = false; lps_cover("interrupted"); break;                 // reception interrupted in the middle
        case 4: fr[0] = lps_choose("frame", 2) ? "B" : ""; fr.push_back(bytes); want = false; break; } }                                                                            // not addressed to a link
    else { size_t n = lps_choose("size", lps_param("max", 12) + 1); Str b(n, 0); if (n) lps_sym(&b[0], n, "garbage"); fr.push_back(b); Message x; want = decode(b, x); if (want) { sender = x.GetSender(); topic = x.GetTopic(); } } }
  Datagram vd; vd["second"] = 2; Frames second; second.push_back("A"); second.push_back(encode(Message("peer", "/second", vd)));
  Frames other; other.push_back("A"); other.push_back(encode(Message("other", "/third", vd)));   // with both roles, the other socket has a message as well
  gOnSub = [&](ZSock* s) { if (both && made++ != which) { s->in.push_back(other); return; } s->in.push_back(fr); s->in.push_back(second); s->failRecvAt = failAt; };
  auto sub = f.root->CreateSubscriber("/**/*"); sub->SetMessageCallback([&](Message x) { if (both && x.GetTopic() == "/third") { third++; lps_assert(third == 1 && x.GetSender() == "Link0/other", "L02: every complete message is republished exactly once, anything else is dropped"); return; } Seen s; s.sender = x.GetSender(); s.topic = x.GetTopic(); s.data = x.GetDatagram(); seen.push_back(s); });
  f.create(); f.link->Initialize(); f.link->Start(); f.run(60); f.finish(); size_t k = 0;
  if (want) { lps_assert(seen.size() > 0 && seen[0].sender == "Link0/" + sender && seen[0].topic == topic, "L02: a complete message is republished with its topic and the link's name before its sender"); if (seen.empty()) return; gSignedZeroSame = true; if (mode != 3) checkSame(seen[0].data, m, "L02: the payload arrives intact"); k = 1; lps_cover("republished"); } else lps_cover("dropped");
  if (failAt < 0) { lps_assert(seen.size() == k + 1, "L02: every complete message is republished exactly once, anything else is dropped"); if (seen.size() == k + 1) { lps_assert(seen[k].sender == "Link0/peer" && seen[k].topic == "/second", "L02: reception continues"); } }
  else { lps_assert(seen.size() == 1 && seen[0].topic == "/second", "L02: reception continues after an interruption"); }
  if (both) { lps_assert(third == 1, "L02: every complete message is republished exactly once, anything else is dropped"); lps_cover("both roles"); }
  for (auto* s : zsocks()) lps_assert(s->sent.empty(), "L02: a received message is not sent back"); lps_obs("seen", seen.size());
}
