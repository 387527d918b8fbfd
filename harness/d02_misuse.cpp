// D02: one rejected operation on an arbitrary tree raises the right exception and changes nothing.
#include "common.h"
template <class T> static bool wrongGet(Datagram& d) { try { d.Get<T>(); } catch (ex::InvalidOperationException&) { return true; } catch (...) { } return false; }
static void misuse(Datagram& d, M& m) {
  enum { RIdx, RKey, Count, Clear, Absent, PastEnd, RPastEnd, GStr, GInt, GDbl, GBool, Conv };
  int ok = 0; // 1 = rejected as required
  switch (lps_choose("misuse", 12)) {
    case RIdx: { lps_assume(m.k != KList); unsigned i = (unsigned)lps_val("index"); try { d.Remove(i); } catch (ex::InvalidOperationException&) { ok = 1; } catch (...) {} lps_assert(ok, "D02: removing by index from a non-list is an invalid operation"); lps_cover("remove-index"); break; }
    case RKey: { lps_assume(m.k != KDict); Str k = anyStr("key", 1); try { d.Remove(k); } catch (ex::InvalidOperationException&) { ok = 1; } catch (...) {} lps_assert(ok, "D02: removing by key from a non-dictionary is an invalid operation"); lps_cover("remove-key"); break; }
    case Count: { lps_assume(m.k != KDict && m.k != KList); try { d.GetCount(); } catch (ex::InvalidOperationException&) { ok = 1; } catch (...) {} lps_assert(ok, "D02: counting a non-container is an invalid operation"); lps_cover("count"); break; }
    case Clear: { lps_assume(m.k != KDict && m.k != KList); try { d.Clear(); } catch (ex::InvalidOperationException&) { ok = 1; } catch (...) {} lps_assert(ok, "D02: clearing a non-container is an invalid operation"); lps_cover("clear"); break; }
    case Absent: { lps_assume(m.k == KDict); Str k = anyStr("key", 2); lps_assume(m.find(k) < 0); try { d.Remove(k); } catch (ex::KeyNotFoundException& e) { ok = e.GetKey() == k; } catch (...) {} lps_assert(ok, "D02: removing an absent key raises key-not-found naming it"); lps_cover("absent"); break; }
    case PastEnd: { lps_assume(m.k == KList); unsigned i = (unsigned)lps_val("index"); lps_assume(i >= m.items.size()); try { Datagram c = d[i]; } catch (ex::IndexOutOfBoundsException& e) { ok = e.GetIndex() == (int)i; } catch (...) {} lps_assert(ok, "D02: indexing past the end raises index-out-of-bounds naming the index"); lps_cover("past-end"); break; }
    case RPastEnd: { lps_assume(m.k == KList); unsigned i = (unsigned)lps_val("index"); lps_assume(i >= m.items.size()); try { d.Remove(i); } catch (ex::IndexOutOfBoundsException& e) { ok = e.GetIndex() == (int)i; } catch (...) {} lps_assert(ok, "D02: removing past the end raises index-out-of-bounds naming the index"); lps_cover("remove-past-end"); break; }
    case GStr: lps_assume(m.k != KStr); lps_assert(wrongGet<Str>(d), "D02: reading a value as a type it does not hold is an invalid operation"); break;
    case GInt: lps_assume(m.k != KInt); lps_assert(wrongGet<int>(d), "D02: reading a value as a type it does not hold is an invalid operation"); break;
    case GDbl: lps_assume(m.k != KDbl); lps_assert(wrongGet<double>(d), "D02: reading a value as a type it does not hold is an invalid operation"); break;
    case GBool: lps_assume(m.k != KBool); lps_assert(wrongGet<bool>(d), "D02: reading a value as a type it does not hold is an invalid operation"); break;
    case Conv: lps_assume(m.k != KStr); try { Str s = d; } catch (ex::InvalidOperationException&) { ok = 1; } catch (...) {} lps_assert(ok, "D02: reading a value as a type it does not hold is an invalid operation"); lps_cover("wrong-type"); break;
  }
}
extern "C" void lps_main(void) {
  Gen g; g.budget = lps_param("tree", 3); g.leaves = lps_param("leaves", 31); Datagram d; M m; anyInput(d, m, g);
  Datagram t = d; M* tm = &m; // the operand: the tree itself or one of its items
  if ((m.k == KList || m.k == KDict) && !m.items.empty() && lps_choose("item", 2)) { unsigned i = pickItem("which", m.items.size()); tm = &m.items[i]; Datagram c = m.k == KList ? d[i] : d[m.keys[i]]; misuse(c, *tm); }
  else misuse(d, m);
  checkSame(d, m, "D02: a rejected operation changes nothing");
  if (lps_param("then", 1)) { // and the rejected operation leaves a usable datagram behind
    M n = m; if (m.k == KList) { d.Add(std::make_shared<RawDatagram>(7)); M x; x.k = KInt; x.i = 7; m.items.push_back(x); } else { Datagram c = d[Str("n")]; m.at("n"); }
    checkSame(d, m, "D02: the datagram stays usable after a rejected operation"); }
  obsD(d, m);
}
