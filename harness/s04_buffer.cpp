// S04: byte buffers.
#include "common.h"
#include <lamppost/data/RawBytes.h>
using lp::data::RawBytes;
extern "C" void lps_main(void) {
  unsigned L = lps_param("len", 3), K = lps_param("appends", 3); Str want; std::shared_ptr<RawBytes> b; char src[64];
  if (lps_choose("from", 2)) { unsigned n = lps_choose("len", L + 1); lps_sym(src, n, "bytes"); want.assign(src, n); b = std::make_shared<RawBytes>((void*)src, (size_t)n); memset(src, 0x5a, n); lps_cover("filled"); } else { b = std::make_shared<RawBytes>(); lps_assert(b->GetSize() == 0, "S04: a new buffer is empty"); }
  bool null = false; try { RawBytes z(nullptr, (size_t)lps_choose("nullsize", 2)); } catch (lp::exceptions::ArgumentNullException&) { null = true; } lps_assert(null, "S04: creating a buffer from a null pointer is rejected");
  unsigned k = lps_choose("appends", K + 1);
  for (unsigned i = 0; i < k; i++) { unsigned n = lps_choose("len", L + 1); lps_sym(src, n, "bytes"); want += Str(src, n); b->Append(src, n); memset(src, 0xa5, n); lps_assert(b->GetSize() == want.size(), "S04: the size is the total number of bytes"); if (want.size()) lps_assert(memcmp(b->GetContent(), want.data(), want.size()) == 0, "S04: the content is the concatenation"); lps_cover("appended"); }
  lps_assert(b->GetSize() == want.size(), "S04: the size is the total number of bytes");
  lps_assert(want.empty() || memcmp(b->GetContent(), want.data(), want.size()) == 0, "S04: the content is the concatenation");
  if (unsigned big = lps_param("big", 0)) { Str l; for (unsigned i = 0; i < big; i++) { lps_sym(src, 32, "bytes"); l += Str(src, 32); } b->Append(l.data(), l.size()); want += l; b->Append(b->GetContent(), b->GetSize()); want += want; lps_assert(b->GetSize() == want.size() && memcmp(b->GetContent(), want.data(), want.size()) == 0, "S04: the content is the concatenation"); }
  if (unsigned how = lps_choose("copy", 4)) { const char* msg = "S04: a copied buffer holds the same bytes and is independent"; Str more("xy", lps_choose("more", 3)); bool toCopy = lps_choose("change", 2); auto same = [&](RawBytes& r, const Str& w) { bool n = r.GetSize() == w.size(); lps_assert(n, msg); if (n) lps_assert(w.empty() || memcmp(r.GetContent(), w.data(), w.size()) == 0, msg); };
    RawBytes* c; if (how == 1) c = new RawBytes(*b); else { c = new RawBytes(); if (how == 3) c->Append("old", 3); *c = *b; RawBytes& self = *c; *c = self; } lps_cover("copied");
    same(*c, want); if (toCopy) { c->Append(more.data(), more.size()); same(*c, want + more); same(*b, want); delete c; same(*b, want); }
    else { Str w = want + more; b->Append(more.data(), more.size()); same(*b, w); same(*c, want); b = std::make_shared<RawBytes>(*c); delete c; same(*b, want); } }
  lps_obs_bytes("content", b->GetContent(), b->GetSize());
}
