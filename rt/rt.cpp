// Executable models of what libstdc++.so itself provides (everything else is compiled from its headers).
// Compiled to bitcode and linked with the code under test.
#include <cstdlib>
#include <cstring>
#include <exception>
#include <stdexcept>
#include <new>
#include <string>
#include <list>
#include <map>
#include <memory>
#include <thread>
#include <condition_variable>
#include <random>
#include <iostream>
#include <sstream>
#include <locale>
#include <typeinfo>
#include <functional>
#include <pthread.h>
#include <stdio.h>

// ---- exceptions ----
namespace std {
exception::~exception() noexcept {}
const char* exception::what() const noexcept { return "std::exception"; }
bad_exception::~bad_exception() noexcept {}
const char* bad_exception::what() const noexcept { return "std::bad_exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_cast::~bad_cast() noexcept {}
const char* bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_typeid::~bad_typeid() noexcept {}
const char* bad_typeid::what() const noexcept { return "std::bad_typeid"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char* bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_weak_ptr::~bad_weak_ptr() noexcept {}
const char* bad_weak_ptr::what() const noexcept { return "bad_weak_ptr"; }
bad_function_call::~bad_function_call() noexcept {}
const char* bad_function_call::what() const noexcept { return "bad_function_call"; }
// __cow_string holds one pointer; here it owns a malloc'ed copy
static const char* dupStr(const char* s) { size_t n = strlen(s); char* p = (char*)malloc(n + 1); memcpy(p, s, n + 1); return p; }
__cow_string::__cow_string() { _M_p = dupStr(""); }
__cow_string::__cow_string(const std::string& s) { _M_p = dupStr(s.c_str()); }
__cow_string::__cow_string(const char* s, size_t n) { char* p = (char*)malloc(n + 1); memcpy(p, s, n); p[n] = 0; _M_p = p; }
__cow_string::__cow_string(const __cow_string& o) noexcept { _M_p = dupStr(o._M_p); }
__cow_string& __cow_string::operator=(const __cow_string& o) noexcept { if (this != &o) { free((void*)_M_p); _M_p = dupStr(o._M_p); } return *this; }
__cow_string::~__cow_string() { free((void*)_M_p); }
__cow_string::__cow_string(__cow_string&& o) noexcept { _M_p = dupStr(o._M_p); }
__cow_string& __cow_string::operator=(__cow_string&& o) noexcept { if (this != &o) { free((void*)_M_p); _M_p = dupStr(o._M_p); } return *this; }
#define LOGIC(T, B) T::T(const std::string& s) : B(s) {} T::T(const char* s) : B(s) {} T::~T() noexcept {}
logic_error::logic_error(const std::string& s) : _M_msg(s) {}
logic_error::logic_error(const char* s) : _M_msg(s, strlen(s)) {}
logic_error::logic_error(const logic_error& o) noexcept : exception(o), _M_msg(o._M_msg) {}
logic_error& logic_error::operator=(const logic_error& o) noexcept { _M_msg = o._M_msg; return *this; }
logic_error::~logic_error() noexcept {}
const char* logic_error::what() const noexcept { return _M_msg._M_p; }
runtime_error::runtime_error(const std::string& s) : _M_msg(s) {}
runtime_error::runtime_error(const char* s) : _M_msg(s, strlen(s)) {}
runtime_error::runtime_error(const runtime_error& o) noexcept : exception(o), _M_msg(o._M_msg) {}
runtime_error& runtime_error::operator=(const runtime_error& o) noexcept { _M_msg = o._M_msg; return *this; }
runtime_error::~runtime_error() noexcept {}
const char* runtime_error::what() const noexcept { return _M_msg._M_p; }
LOGIC(domain_error, logic_error)
LOGIC(invalid_argument, logic_error)
LOGIC(length_error, logic_error)
LOGIC(out_of_range, logic_error)
LOGIC(range_error, runtime_error)
LOGIC(overflow_error, runtime_error)
LOGIC(underflow_error, runtime_error)
void __throw_bad_exception() { throw bad_exception(); }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_bad_typeid() { throw bad_typeid(); }
void __throw_logic_error(const char* s) { throw logic_error(s); }
void __throw_domain_error(const char* s) { throw domain_error(s); }
void __throw_invalid_argument(const char* s) { throw invalid_argument(s); }
void __throw_length_error(const char* s) { throw length_error(s); }
void __throw_out_of_range(const char* s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char* s, ...) { throw out_of_range(s); }
void __throw_runtime_error(const char* s) { throw runtime_error(s); }
void __throw_range_error(const char* s) { throw range_error(s); }
void __throw_overflow_error(const char* s) { throw overflow_error(s); }
void __throw_underflow_error(const char* s) { throw underflow_error(s); }
void __throw_bad_function_call() { throw bad_function_call(); }
void __throw_ios_failure(const char*) { throw runtime_error("ios failure"); }
void __throw_ios_failure(const char*, int) { throw runtime_error("ios failure"); }

// ---- std::list / std::map node operations ----
namespace __detail {
void _List_node_base::_M_hook(_List_node_base* const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _List_node_base* const n = _M_next; _List_node_base* const p = _M_prev; p->_M_next = n; n->_M_prev = p; }
void _List_node_base::_M_transfer(_List_node_base* const f, _List_node_base* const l) noexcept {
  if (this != l) { l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; _M_prev->_M_next = f; _List_node_base* const t = _M_prev; _M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t; } }
void _List_node_base::_M_reverse() noexcept { _List_node_base* t = this; do { std::swap(t->_M_next, t->_M_prev); t = t->_M_prev; } while (t != this); }
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept {
  if (x._M_next != &x) { if (y._M_next != &y) { std::swap(x._M_next, y._M_next); std::swap(x._M_prev, y._M_prev); x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y; }
    else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; } }
  else if (y._M_next != &y) { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; } }
}
// An unbalanced search tree with the same interface: order and iteration are what the callers rely on, not depth.
typedef _Rb_tree_node_base* RB;
static RB rbNext(RB x) { if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; } RB y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; return x; }
static RB rbPrev(RB x) { if (x->_M_color == _S_red && x->_M_parent && x->_M_parent->_M_parent == x) return x->_M_right; if (x->_M_left) { RB y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; } RB y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } return y; }
RB _Rb_tree_increment(RB x) throw() { return rbNext(x); }
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return rbNext(const_cast<RB>(x)); }
RB _Rb_tree_decrement(RB x) throw() { return rbPrev(x); }
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return rbPrev(const_cast<RB>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, RB x, RB p, _Rb_tree_node_base& h) throw() {
  x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_black;
  if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
  else { p->_M_right = x; if (p == h._M_right) h._M_right = x; } }
RB _Rb_tree_rebalance_for_erase(RB const z, _Rb_tree_node_base& h) throw() {
  RB& root = h._M_parent; RB& lm = h._M_left; RB& rm = h._M_right; RB y = z, x = 0, xp = 0;
  if (y->_M_left == 0) x = y->_M_right; else if (y->_M_right == 0) x = y->_M_left; else { y = y->_M_right; while (y->_M_left) y = y->_M_left; x = y->_M_right; }
  if (y != z) { z->_M_left->_M_parent = y; y->_M_left = z->_M_left; if (y != z->_M_right) { xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent; y->_M_parent->_M_left = x; y->_M_right = z->_M_right; z->_M_right->_M_parent = y; } else xp = y;
    if (root == z) root = y; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y; else z->_M_parent->_M_right = y; y->_M_parent = z->_M_parent; y = z; }
  else { xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent; if (root == z) root = x; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x; else z->_M_parent->_M_right = x;
    if (lm == z) { if (z->_M_right == 0) lm = z->_M_parent; else { RB m = x; while (m->_M_left) m = m->_M_left; lm = m; } }
    if (rm == z) { if (z->_M_left == 0) rm = z->_M_parent; else { RB m = x; while (m->_M_right) m = m->_M_right; rm = m; } } }
  return y; }

// ---- hashing of byte sequences (unordered containers) ----
size_t _Hash_bytes(const void* p, size_t n, size_t seed) { const unsigned char* c = (const unsigned char*)p; size_t h = seed ^ n; for (size_t i = 0; i < n; i++) h = h * 31 + c[i]; return h; }
namespace __detail {
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { static const size_t P[] = {2, 5, 11, 23, 47, 97, 199, 409, 823, 1741, 3469, 6949, 14033}; for (size_t p : P) if (p >= n) { _M_next_resize = p; return p; } return n | 1; }
std::pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const { if (ne + ni > _M_next_resize || nb == 1) { if (ne + ni >= nb) return {true, _M_next_bkt(ne + ni + nb)}; _M_next_resize = nb; } return {false, 0}; }
}

// ---- threads ----
thread::_State::~_State() = default;
static void* lps_thread_entry(void* p) { thread::_State_ptr s((thread::_State*)p); s->_M_run(); return nullptr; }
void thread::_M_start_thread(_State_ptr s, void (*)()) { pthread_t t; if (pthread_create(&t, nullptr, lps_thread_entry, s.get()) != 0) __throw_system_error(11); s.release(); _M_id._M_thread = t; }
void thread::join() { if (!joinable()) __throw_system_error(22); pthread_join(_M_id._M_thread, nullptr); _M_id = id(); }
void thread::detach() { if (!joinable()) __throw_system_error(22); pthread_detach(_M_id._M_thread); _M_id = id(); }
unsigned thread::hardware_concurrency() noexcept { return 4; }
condition_variable::condition_variable() noexcept {}
condition_variable::~condition_variable() noexcept {}
void condition_variable::notify_one() noexcept { _M_cond.notify_one(); }
void condition_variable::notify_all() noexcept { _M_cond.notify_all(); }
void condition_variable::wait(unique_lock<mutex>& l) { _M_cond.wait(*l.mutex()); }
namespace this_thread { void __sleep_for(chrono::seconds s, chrono::nanoseconds n) { struct timespec t = {(time_t)s.count(), (long)n.count()}; nanosleep(&t, &t); } }

// ---- random seeds: the generator's outputs are arbitrary, so the seed does not matter ----
void random_device::_M_init(const std::string&) {}
void random_device::_M_init_pretr1(const std::string&) {}
void random_device::_M_fini() {}
random_device::result_type random_device::_M_getval() { return 42; }
double random_device::_M_getentropy() const noexcept { return 0; }

// ---- streams and locales: only the "C" locale; characters map to themselves ----
locale::locale() noexcept : _M_impl(nullptr) {}
locale::locale(const locale&) noexcept : _M_impl(nullptr) {}
locale::~locale() noexcept {}
const locale& locale::operator=(const locale&) noexcept { return *this; }
bool locale::operator==(const locale&) const noexcept { return true; }
const locale& locale::classic() { static locale* l = new locale; return *l; }
size_t locale::id::_M_id() const noexcept { return 0; }
ios_base::ios_base() noexcept : _M_precision(6), _M_width(0), _M_flags(ios_base::skipws | ios_base::dec), _M_exception(goodbit), _M_streambuf_state(goodbit), _M_callbacks(0), _M_word_zero(), _M_word_size(0), _M_word(0) {}
ios_base::~ios_base() {}
void ios_base::_M_init() noexcept { _M_precision = 6; _M_width = 0; _M_flags = skipws | dec; }
ios_base::Init::Init() {}
ios_base::Init::~Init() {}
void __ios_base_library_init_dummy() {}
locale ios_base::imbue(const locale& l) noexcept { return l; }
template <> void basic_ios<char>::_M_cache_locale(const locale&) { _M_ctype = 0; _M_num_put = 0; _M_num_get = 0; }
template <> void basic_ios<char>::init(basic_streambuf<char>* sb) { ios_base::_M_init(); _M_ctype = 0; _M_num_put = 0; _M_num_get = 0; _M_fill = ' '; _M_fill_init = true; _M_tie = 0; _M_exception = goodbit; _M_streambuf = sb; _M_streambuf_state = sb ? goodbit : badbit; }
template <> char basic_ios<char>::widen(char c) const { return c; }
template <> char basic_ios<char>::fill() const { return ' '; }
template <> locale basic_ios<char>::imbue(const locale& l) { return l; }
// integer and floating-point output without the num_put facet
static void putUnsigned(ostream& o, unsigned long long v, bool neg) {
  char b[80]; char* e = b + sizeof b; char* p = e; ios_base::fmtflags f = o.flags(); unsigned base = (f & ios_base::hex) ? 16 : (f & ios_base::oct) ? 8 : 10; const char* dg = (f & ios_base::uppercase) ? "0123456789ABCDEF" : "0123456789abcdef";
  if (base == 16) { do { *--p = dg[v & 15]; v >>= 4; } while (v); } else if (base == 8) { do { *--p = dg[v & 7]; v >>= 3; } while (v); } else { do { *--p = (char)('0' + v % 10); v /= 10; } while (v); }
  if ((f & ios_base::showbase) && base == 16) { *--p = 'x'; *--p = '0'; }
  if (neg) *--p = '-'; else if ((f & ios_base::showpos) && base == 10) *--p = '+';
  __ostream_insert(o, p, e - p); }
template <> template <> ostream& ostream::_M_insert<long>(long v) { if ((flags() & (ios_base::hex | ios_base::oct)) || v >= 0) putUnsigned(*this, (unsigned long)v, false); else putUnsigned(*this, 0ull - (unsigned long)v, true); return *this; }
template <> template <> ostream& ostream::_M_insert<unsigned long>(unsigned long v) { putUnsigned(*this, v, false); return *this; }
template <> template <> ostream& ostream::_M_insert<long long>(long long v) { if ((flags() & (ios_base::hex | ios_base::oct)) || v >= 0) putUnsigned(*this, (unsigned long long)v, false); else putUnsigned(*this, 0ull - (unsigned long long)v, true); return *this; }
template <> template <> ostream& ostream::_M_insert<unsigned long long>(unsigned long long v) { putUnsigned(*this, v, false); return *this; }
template <> template <> ostream& ostream::_M_insert<bool>(bool v) { if (flags() & ios_base::boolalpha) { if (v) __ostream_insert(*this, "true", 4); else __ostream_insert(*this, "false", 5); } else putUnsigned(*this, v, false); return *this; }
static void putDouble(ostream& o, double v) {
  char b[400]; ios_base::fmtflags ff = o.flags() & ios_base::floatfield; const char* f = ff == ios_base::fixed ? "%.*f" : ff == ios_base::scientific ? "%.*e" : "%.*g"; int n = snprintf(b, sizeof b, f, (int)o.precision(), v); __ostream_insert(o, b, n); }
template <> template <> ostream& ostream::_M_insert<double>(double v) { putDouble(*this, v); return *this; }
template <> template <> ostream& ostream::_M_insert<const void*>(const void* v) { __ostream_insert(*this, "0x", 2); putUnsigned(*this, (unsigned long long)v, false); return *this; }
}
// ---- file streams: read-only files out of a table the harness fills (lps_file_put) ----
struct LpsFile { char* path; char* data; size_t n; };
static LpsFile gFiles[8]; static int gFileCount = 0;
extern "C" void lps_file_put(const char* path, const char* data, size_t n) { LpsFile& f = gFiles[gFileCount++]; size_t k = strlen(path) + 1; f.path = (char*)malloc(k); memcpy(f.path, path, k); f.data = (char*)malloc(n + 1); if (n) memcpy(f.data, data, n); f.data[n] = 0; f.n = n; }
namespace std {
typedef basic_filebuf<char> FB;
__basic_file<char>::__basic_file(__c_lock*) throw() : _M_cfile(nullptr), _M_cfile_created(false) {}
__basic_file<char>::~__basic_file() {}
bool __basic_file<char>::is_open() const throw() { return _M_cfile_created; }
template <> FB::basic_filebuf() : __streambuf_type(), _M_lock(), _M_file(&_M_lock), _M_mode(ios_base::openmode(0)), _M_state_beg(), _M_state_cur(), _M_state_last(), _M_buf(0), _M_buf_size(0), _M_buf_allocated(false), _M_reading(false), _M_writing(false), _M_pback(), _M_pback_cur_save(0), _M_pback_end_save(0), _M_pback_init(false), _M_codecvt(0), _M_ext_buf(0), _M_ext_buf_size(0), _M_ext_next(0), _M_ext_end(0) {}
template <> FB* FB::open(const char* path, ios_base::openmode m) {
  if (is_open() || (m & ios_base::out)) return nullptr;
  for (int i = 0; i < gFileCount; i++) if (!strcmp(gFiles[i].path, path)) { _M_file._M_cfile_created = true; _M_mode = m; char* d = gFiles[i].data; setg(d, (m & ios_base::ate) ? d + gFiles[i].n : d, d + gFiles[i].n); return this; }
  return nullptr; }
template <> FB* FB::close() { if (!is_open()) return nullptr; _M_file._M_cfile_created = false; setg(0, 0, 0); return this; }
template <> FB::int_type FB::underflow() { return gptr() < egptr() ? traits_type::to_int_type(*gptr()) : traits_type::eof(); }
template <> FB::int_type FB::pbackfail(int_type) { return traits_type::eof(); }
template <> FB::int_type FB::overflow(int_type) { return traits_type::eof(); }
template <> streamsize FB::showmanyc() { return is_open() ? egptr() - gptr() : -1; }
template <> streamsize FB::xsgetn(char* s, streamsize n) { return __streambuf_type::xsgetn(s, n); }
template <> streamsize FB::xsputn(const char*, streamsize) { return 0; }
template <> basic_streambuf<char>* FB::setbuf(char*, streamsize) { return this; }
template <> int FB::sync() { return 0; }
template <> void FB::imbue(const locale&) {}
template <> FB::pos_type FB::seekoff(off_type o, ios_base::seekdir w, ios_base::openmode) { if (!is_open()) return pos_type(off_type(-1)); off_type p = o + (w == ios_base::beg ? 0 : w == ios_base::cur ? gptr() - eback() : egptr() - eback()); if (p < 0 || p > egptr() - eback()) return pos_type(off_type(-1)); setg(eback(), eback() + p, egptr()); return pos_type(p); }
template <> streamsize __copy_streambufs_eof(streambuf* in, streambuf* out, bool& eof) { streamsize n = 0; eof = true; for (int c = in->sgetc(); c != char_traits<char>::eof(); c = in->snextc()) { if (out->sputc((char)c) == char_traits<char>::eof()) { eof = false; break; } n++; } return n; }
template <> istream& getline(istream& in, string& s, char d) { s.clear(); ios_base::iostate e = ios_base::goodbit; bool any = false; if (in.good()) for (;;) { int c = in.rdbuf()->sbumpc(); if (c == char_traits<char>::eof()) { e |= ios_base::eofbit; break; } any = true; if ((char)c == d) break; s += (char)c; } if (!any) e |= ios_base::failbit; if (e) in.setstate(e); return in; }
template <> FB::pos_type FB::seekpos(pos_type p, ios_base::openmode m) { return seekoff(off_type(p), ios_base::beg, m); }
}
extern "C" void lps_rt_throw_bad_alloc() { throw std::bad_alloc(); }
// std::cout / std::cerr: a stream into a buffer the harness can read (lps_cout_data / lps_cout_size)
namespace {
struct LpsBuf : std::streambuf {
  char* d; size_t n, cap;
  LpsBuf() : d(nullptr), n(0), cap(0) {}
  void put(char c) { if (n == cap) { size_t k = cap ? cap * 2 : 256; char* e = (char*)malloc(k); if (n) memcpy(e, d, n); free(d); d = e; cap = k; } d[n++] = c; }
  std::streamsize xsputn(const char* s, std::streamsize k) override { for (std::streamsize i = 0; i < k; i++) put(s[i]); return k; }
  int_type overflow(int_type c) override { if (c != traits_type::eof()) put((char)c); return c == traits_type::eof() ? 0 : c; }
};
alignas(LpsBuf) char gBufMem[3][sizeof(LpsBuf)];
}
namespace lpsrt {
alignas(std::ostream) char coutMem[sizeof(std::ostream)] asm("_ZSt4cout");
alignas(std::ostream) char cerrMem[sizeof(std::ostream)] asm("_ZSt4cerr");
alignas(std::ostream) char clogMem[sizeof(std::ostream)] asm("_ZSt4clog");
}
__attribute__((constructor(101))) static void lps_rt_init_streams() { new (lpsrt::coutMem) std::ostream(new (gBufMem[0]) LpsBuf); new (lpsrt::cerrMem) std::ostream(new (gBufMem[1]) LpsBuf); new (lpsrt::clogMem) std::ostream(new (gBufMem[2]) LpsBuf); }
extern "C" const char* lps_cout_data() { return ((LpsBuf*)gBufMem[0])->d; }
extern "C" size_t lps_cout_size() { return ((LpsBuf*)gBufMem[0])->n; }
extern "C" void lps_cout_reset() { ((LpsBuf*)gBufMem[0])->n = 0; }
extern "C" { char __libc_single_threaded = 0; }
