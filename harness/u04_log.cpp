// U04: log lines are complete, prefixed and never interleaved.
#include "common.h"
#include <iostream>
#include <mutex>
#include <thread>
#include <lamppost/log/Log.h>
namespace { struct Out : std::streambuf { std::mutex m; Str s;   // one unit of output per call, any thread may be scheduled in between
  void put(const char* p, size_t n) { std::lock_guard<std::mutex> l(m); s.append(p, n); }
  std::streamsize xsputn(const char* p, std::streamsize n) override { put(p, n); return n; }
  int_type overflow(int_type c) override { char ch = (char)c; if (c != traits_type::eof()) put(&ch, 1); return c == traits_type::eof() ? 0 : c; } }; }
static Str line(const Str& p, const Str& m, int ind) { Str r = "[" + p + "] "; for (int i = 0; i < ind; i++) r += "  "; return r + m + "\n"; }
static void say(lp::log::Log& l, int how, const Str& m, int ind, bool dflt) { if (dflt) { if (how == 0) l.Info(m); else if (how == 1) l.Warning(m); else l.Error(m); } else { if (how == 0) l.Info(m, ind); else if (how == 1) l.Warning(m, ind); else l.Error(m, ind); } }
extern "C" void lps_main(void) {
  static Out out; auto* old = std::cout.rdbuf(&out);
  if (!lps_param("mt", 0)) {
    Str p = anyStr("prefix", lps_param("len", 3)), want; lp::log::Log l(p); unsigned n = lps_param("lines", 2);
    for (unsigned k = 0; k < n; k++) { Str m = anyStr("message", lps_param("len", 3)); static const int is[] = {-1, 0, 1, 2, 3, 4, 7, 12}; int ind = is[k == 0 ? lps_choose("indent", 8) : 1 + lps_choose("indent", 4)], how = lps_choose("how", 3); bool dflt = ind == 0 && lps_choose("default", 2); say(l, how, m, ind, dflt); want += line(p, m, ind); lps_assert(out.s.size() == want.size(), "U04: each message is one complete line"); }
    lps_assert(out.s == want, "U04: lines consist of prefix, indentation and message"); lps_obs_bytes("out", out.s.data(), out.s.size()); lps_cover("lines");
  } else {
    int n = lps_param("lines", 1); int h[2] = {(int)lps_choose("how", 3), (int)lps_choose("how", 3)}; bool shared = lps_choose("shared", 2); lp::log::Log l0("a"), l1("bb"); Str want[2][2];
    auto body = [&](int t) { for (int i = 0; i < n; i++) say(t && !shared ? l1 : l0, h[t], Str(1 + t, 'x' + i), t + i, false); };
    for (int t = 0; t < 2; t++) for (int i = 0; i < n; i++) want[t][i] = line(t && !shared ? "bb" : "a", Str(1 + t, 'x' + i), t + i);
    std::thread a(body, 0), b(body, 1); a.join(); b.join();
    size_t pos = 0; int next[2] = {0, 0}; bool ok = true;   // the output splits into the lines of both threads, each thread's in order
    while (ok && pos < out.s.size()) { ok = false; for (int t = 0; t < 2; t++) if (next[t] < n && out.s.compare(pos, want[t][next[t]].size(), want[t][next[t]]) == 0) { pos += want[t][next[t]++].size(); ok = true; break; } }
    lps_assert(ok && next[0] == n && next[1] == n, "U04: lines of different threads are never mixed"); lps_obs("first", out.s.size() > 1 ? out.s[1] : 0); lps_obs_bytes("out", out.s.data(), out.s.size()); lps_cover("concurrent");
  }
  std::cout.rdbuf(old);
}
