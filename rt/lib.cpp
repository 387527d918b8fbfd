// Models of C and C++ library functions that the code under test may come to use. Weak: a harness's stand-in wins.
#include <cstring>
#include <cstdlib>
#include <exception>
#include <istream>
#include <locale>
#include <mutex>
#include <random>
#include <stdexcept>
#include <string>
#include <system_error>
#include <typeinfo>
#include <cerrno>
#define W extern "C" __attribute__((weak))
#define FN(name) asm(#name)
typedef const char* CS; typedef size_t Z;
// ---- strings ----
W char* l_strncpy(char* d, CS s, Z n) FN(strncpy); char* l_strncpy(char* d, CS s, Z n) { Z i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
W char* l_strcat(char* d, CS s) FN(strcat); char* l_strcat(char* d, CS s) { strcpy(d + strlen(d), s); return d; }
W char* l_strncat(char* d, CS s, Z n) FN(strncat); char* l_strncat(char* d, CS s, Z n) { char* p = d + strlen(d); Z i = 0; for (; i < n && s[i]; i++) p[i] = s[i]; p[i] = 0; return d; }
W char* l_stpcpy(char* d, CS s) FN(stpcpy); char* l_stpcpy(char* d, CS s) { strcpy(d, s); return d + strlen(s); }
W Z l_strnlen(CS s, Z n) FN(strnlen); Z l_strnlen(CS s, Z n) { Z i = 0; while (i < n && s[i]) i++; return i; }
W char* l_strdup(CS s) FN(strdup); char* l_strdup(CS s) { Z n = strlen(s) + 1; char* p = (char*)malloc(n); memcpy(p, s, n); return p; }
W char* l_strndup(CS s, Z n) FN(strndup); char* l_strndup(CS s, Z n) { Z k = 0; while (k < n && s[k]) k++; char* p = (char*)malloc(k + 1); memcpy(p, s, k); p[k] = 0; return p; }
W CS l_strstr(CS h, CS n) FN(strstr); CS l_strstr(CS h, CS n) { for (;; h++) { Z i = 0; while (n[i] && h[i] == n[i]) i++; if (!n[i]) return h; if (!*h) return 0; } }
static bool in(CS s, char c) { for (; *s; s++) if (*s == c) return true; return false; }
W Z l_strspn(CS s, CS a) FN(strspn); Z l_strspn(CS s, CS a) { Z i = 0; while (s[i] && in(a, s[i])) i++; return i; }
W Z l_strcspn(CS s, CS a) FN(strcspn); Z l_strcspn(CS s, CS a) { Z i = 0; while (s[i] && !in(a, s[i])) i++; return i; }
W CS l_strpbrk(CS s, CS a) FN(strpbrk); CS l_strpbrk(CS s, CS a) { for (; *s; s++) if (in(a, *s)) return s; return 0; }
W char* l_strtok_r(char* s, CS d, char** st) FN(strtok_r); char* l_strtok_r(char* s, CS d, char** st) { if (!s) s = *st; while (*s && in(d, *s)) s++; if (!*s) { *st = s; return 0; } char* r = s; while (*s && !in(d, *s)) s++; if (*s) *s++ = 0; *st = s; return r; }
static char* gTok; W char* l_strtok(char* s, CS d) FN(strtok); char* l_strtok(char* s, CS d) { return l_strtok_r(s, d, &gTok); }
W char* l_strsep(char** sp, CS d) FN(strsep); char* l_strsep(char** sp, CS d) { char* s = *sp; if (!s) return 0; char* r = s; while (*s && !in(d, *s)) s++; if (*s) { *s = 0; *sp = s + 1; } else *sp = 0; return r; }
W const void* l_memrchr(const void* p, int c, Z n) FN(memrchr); const void* l_memrchr(const void* p, int c, Z n) { CS s = (CS)p; while (n--) if (s[n] == (char)c) return s + n; return 0; }
W const void* l_memmem(const void* h, Z n, const void* q, Z m) FN(memmem); const void* l_memmem(const void* h, Z n, const void* q, Z m) { for (Z i = 0; i + m <= n; i++) if (!memcmp((CS)h + i, q, m)) return (CS)h + i; return 0; }
W void* l_mempcpy(void* d, const void* s, Z n) FN(mempcpy); void* l_mempcpy(void* d, const void* s, Z n) { memcpy(d, s, n); return (char*)d + n; }
W void* l_memccpy(void* d, const void* s, int c, Z n) FN(memccpy); void* l_memccpy(void* d, const void* s, int c, Z n) { for (Z i = 0; i < n; i++) if ((((char*)d)[i] = ((CS)s)[i]) == (char)c) return (char*)d + i + 1; return 0; }
W void* l_rawmemchr(const void* s, int c) FN(rawmemchr); void* l_rawmemchr(const void* s, int c) { CS p = (CS)s; while (*p != (char)c) p++; return (void*)p; }
W CS l_strchrnul(CS s, int c) FN(strchrnul); CS l_strchrnul(CS s, int c) { while (*s && *s != (char)c) s++; return s; }
W void l_bzero(void* d, Z n) FN(bzero); void l_bzero(void* d, Z n) { memset(d, 0, n); }
W int l_strcoll(CS a, CS b) FN(strcoll); int l_strcoll(CS a, CS b) { return strcmp(a, b); }
W CS l_strerror(int e) FN(strerror); CS l_strerror(int e) { return e == 2 ? "No such file or directory" : e == 0 ? "Success" : "Error"; }
W CS l_strerror_r(int e, char* b, Z n) FN(strerror_r); CS l_strerror_r(int e, char*, Z) { return l_strerror(e); }
W Z l_wcslen(const wchar_t* s) FN(wcslen); Z l_wcslen(const wchar_t* s) { Z n = 0; while (s[n]) n++; return n; }
W wchar_t* l_wmemcpy(wchar_t* d, const wchar_t* s, Z n) FN(wmemcpy); wchar_t* l_wmemcpy(wchar_t* d, const wchar_t* s, Z n) { memcpy(d, s, n * sizeof(wchar_t)); return d; }
W wchar_t* l_wmemmove(wchar_t* d, const wchar_t* s, Z n) FN(wmemmove); wchar_t* l_wmemmove(wchar_t* d, const wchar_t* s, Z n) { memmove(d, s, n * sizeof(wchar_t)); return d; }
W wchar_t* l_wmemset(wchar_t* d, wchar_t c, Z n) FN(wmemset); wchar_t* l_wmemset(wchar_t* d, wchar_t c, Z n) { for (Z i = 0; i < n; i++) d[i] = c; return d; }
// ---- characters ("C" locale; without branches, so that symbolic characters stay on one path) ----
static int rg(int c, int a, int b) { return (unsigned)(c - a) <= (unsigned)(b - a); }
#define CT(n, e) W int l_##n(int c) FN(n); int l_##n(int c) { return (e); } W int l_##n##_l(int c, void*) FN(n##_l); int l_##n##_l(int c, void*) { return (e); }
CT(isdigit, rg(c, '0', '9')) CT(isalpha, rg(c | 32, 'a', 'z')) CT(isalnum, rg(c, '0', '9') | rg(c | 32, 'a', 'z')) CT(isupper, rg(c, 'A', 'Z')) CT(islower, rg(c, 'a', 'z')) CT(isspace, (c == ' ') | rg(c, 9, 13)) CT(isxdigit, rg(c, '0', '9') | rg(c | 32, 'a', 'f'))
CT(isprint, rg(c, 32, 126)) CT(isgraph, rg(c, 33, 126)) CT(iscntrl, rg(c, 0, 31) | (c == 127)) CT(isblank, (c == ' ') | (c == 9)) CT(ispunct, rg(c, 33, 47) | rg(c, 58, 64) | rg(c, 91, 96) | rg(c, 123, 126)) CT(toupper, c - 32 * rg(c, 'a', 'z')) CT(tolower, c + 32 * rg(c, 'A', 'Z'))
W int l_isascii(int c) FN(isascii); int l_isascii(int c) { return rg(c, 0, 127); }
W int l_strncasecmp(CS a, CS b, Z n) FN(strncasecmp); int l_strncasecmp(CS a, CS b, Z n) { for (Z i = 0; i < n; i++) { int x = l_tolower((unsigned char)a[i]), y = l_tolower((unsigned char)b[i]); if (x != y) return x - y; if (!x) break; } return 0; }
W int l_strcasecmp(CS a, CS b) FN(strcasecmp); int l_strcasecmp(CS a, CS b) { return l_strncasecmp(a, b, ~(Z)0); }
// ---- numbers ----
static unsigned long parse(CS s, char** e, int base, bool sg) {
  CS p = s; while (*p == ' ' || (*p >= 9 && *p <= 13)) p++; bool neg = false; if (*p == '-') { neg = true; p++; } else if (*p == '+') p++;
  if ((base == 0 || base == 16) && p[0] == '0' && (p[1] | 32) == 'x' && l_isxdigit((unsigned char)p[2])) { p += 2; base = 16; } else if (base == 0) base = *p == '0' ? 8 : 10;
  unsigned long v = 0, lim = sg ? (neg ? 1ul << 63 : ~0ul >> 1) : ~0ul; bool any = false, over = false;
  for (;; p++) { int c = (unsigned char)*p, d; if (c >= '0' && c <= '9') d = c - '0'; else if ((c | 32) >= 'a' && (c | 32) <= 'z') d = (c | 32) - 'a' + 10; else break; if (d >= base) break; any = true; if (over || v > (lim - d) / base) over = true; else v = v * base + d; }
  if (e) *e = (char*)(any ? p : s); if (over) { errno = ERANGE; return sg && neg ? 1ul << 63 : lim; } return neg ? 0ul - v : v; }
#define NUM(n, T, sg) W T l_##n(CS s, char** e, int b) FN(n); T l_##n(CS s, char** e, int b) { return (T)parse(s, e, b, sg); }
NUM(strtol, long, true) NUM(strtoll, long, true) NUM(strtoul, unsigned long, false) NUM(strtoull, unsigned long, false) NUM(__isoc23_strtol, long, true) NUM(__isoc23_strtoll, long, true) NUM(__isoc23_strtoul, unsigned long, false) NUM(__isoc23_strtoull, unsigned long, false)
W int l_atoi(CS s) FN(atoi); int l_atoi(CS s) { return (int)parse(s, 0, 10, true); }
W long l_atol(CS s) FN(atol); long l_atol(CS s) { return (long)parse(s, 0, 10, true); }
W long l_atoll(CS s) FN(atoll); long l_atoll(CS s) { return (long)parse(s, 0, 10, true); }
W float l_strtof(CS s, char** e) FN(strtof); float l_strtof(CS s, char** e) { return (float)strtod(s, e); }
W double l_atof(CS s) FN(atof); double l_atof(CS s) { return strtod(s, 0); }
W int l_abs(int v) FN(abs); int l_abs(int v) { return v < 0 ? -v : v; }
W long l_labs(long v) FN(labs); long l_labs(long v) { return v < 0 ? -v : v; }
W div_t l_div(int a, int b) FN(div); div_t l_div(int a, int b) { div_t d = {a / b, a % b}; return d; }
W void l_qsort(void* p, Z n, Z w, int (*cmp)(const void*, const void*)) FN(qsort); void l_qsort(void* p, Z n, Z w, int (*cmp)(const void*, const void*)) { char* b = (char*)p; for (Z i = 1; i < n; i++) for (Z j = i; j > 0 && cmp(b + (j - 1) * w, b + j * w) > 0; j--) for (Z k = 0; k < w; k++) { char t = b[(j - 1) * w + k]; b[(j - 1) * w + k] = b[j * w + k]; b[j * w + k] = t; } }
W void* l_bsearch(const void* k, const void* p, Z n, Z w, int (*cmp)(const void*, const void*)) FN(bsearch); void* l_bsearch(const void* k, const void* p, Z n, Z w, int (*cmp)(const void*, const void*)) { for (Z i = 0; i < n; i++) if (cmp(k, (CS)p + i * w) == 0) return (char*)p + i * w; return 0; }
static unsigned gRand = 1; W int l_rand() FN(rand); int l_rand() { gRand = gRand * 1103515245u + 12345u; return (int)(gRand >> 1); }
W void l_srand(unsigned s) FN(srand); void l_srand(unsigned s) { gRand = s; }
extern "C" { __attribute__((weak)) void* l_stdin asm("stdin") = &gRand; __attribute__((weak)) void* l_stdout asm("stdout") = &gRand; __attribute__((weak)) void* l_stderr asm("stderr") = &gRand; } // the functions that take one ignore it
// ---- environment ----
W char* l_getenv(CS) FN(getenv); char* l_getenv(CS) { return 0; }
W char* l_secure_getenv(CS) FN(secure_getenv); char* l_secure_getenv(CS) { return 0; }
W long l_sysconf(int) FN(sysconf); long l_sysconf(int) { return 4096; }
W int l_getpid() FN(getpid); int l_getpid() { return 4242; }
// ---- system errors ----
namespace std { inline namespace _V2 {
error_category::~error_category() noexcept {}
error_condition error_category::default_error_condition(int v) const noexcept { return error_condition(v, *this); }
bool error_category::equivalent(int v, const error_condition& c) const noexcept { return default_error_condition(v) == c; }
bool error_category::equivalent(const error_code& e, int v) const noexcept { return e.category() == *this && e.value() == v; }
__cow_string error_category::_M_message(int) const { return __cow_string("Error", 5); }
} }
namespace { struct LpsCategory : std::error_category { const char* n; LpsCategory(const char* s) : n(s) {} const char* name() const noexcept override { return n; } std::string message(int v) const override { return l_strerror(v); } }; }
namespace std { inline namespace _V2 { const error_category& generic_category() noexcept { static LpsCategory* c = new LpsCategory("generic"); return *c; } const error_category& system_category() noexcept { static LpsCategory* c = new LpsCategory("system"); return *c; } }
error_condition error_code::default_error_condition() const noexcept { return category().default_error_condition(value()); }
system_error::~system_error() noexcept {}
void __throw_system_error(int e) { throw system_error(error_code(e, generic_category())); } }
// ---- exceptions ----
extern "C" void __cxa_bad_cast() { throw std::bad_cast(); }
extern "C" void __cxa_bad_typeid() { throw std::bad_typeid(); }
extern "C" void __cxa_throw_bad_array_new_length() { throw std::bad_array_new_length(); }
extern "C" { void* lps_exn_current(); void lps_exn_ref(void*); void lps_exn_unref(void*); [[noreturn]] void lps_exn_rethrow(void*); }
namespace std { namespace __exception_ptr {
exception_ptr::exception_ptr(void* o) noexcept : _M_exception_object(o) { if (o) _M_addref(); }
void exception_ptr::_M_addref() noexcept { if (_M_exception_object) lps_exn_ref(_M_exception_object); }
void exception_ptr::_M_release() noexcept { if (_M_exception_object) { void* o = _M_exception_object; _M_exception_object = nullptr; lps_exn_unref(o); } }
void* exception_ptr::_M_get() const noexcept { return _M_exception_object; }
const type_info* exception_ptr::__cxa_exception_type() const noexcept { return nullptr; }
}
exception_ptr current_exception() noexcept { void* o = lps_exn_current(); return o ? __exception_ptr::exception_ptr(o) : exception_ptr(); }
void rethrow_exception(exception_ptr p) { lps_exn_rethrow(p._M_exception_object); }
nested_exception::~nested_exception() noexcept {} }
// ---- std::call_once ----
namespace std { __thread void* __once_callable; __thread void (*__once_call)(); extern "C" void __once_proxy(void) { __once_call(); } }
// ---- input streams (the facets of the "C" locale are not modelled; these replace their callers) ----
namespace std {
static bool skip(istream& in) { if (!in.good()) { in.setstate(ios_base::failbit); return false; } if (in.flags() & ios_base::skipws) for (;;) { int c = in.rdbuf()->sgetc(); if (c == char_traits<char>::eof()) { in.setstate(ios_base::eofbit | ios_base::failbit); return false; } if (!l_isspace(c)) break; in.rdbuf()->sbumpc(); } return true; }
template <> istream& operator>>(istream& in, string& s) { if (!skip(in)) return in; s.clear(); streamsize w = in.width() > 0 ? in.width() : ~0ul >> 1; int c = 0; while (w-- > 0) { c = in.rdbuf()->sgetc(); if (c == char_traits<char>::eof()) { in.setstate(ios_base::eofbit); break; } if (l_isspace(c)) break; s += (char)c; in.rdbuf()->sbumpc(); } in.width(0); if (s.empty()) in.setstate(ios_base::failbit); return in; }
template <> istream& operator>>(istream& in, char& o) { if (!skip(in)) return in; int c = in.rdbuf()->sbumpc(); if (c == char_traits<char>::eof()) in.setstate(ios_base::eofbit | ios_base::failbit); else o = (char)c; return in; }
template <> istream& istream::ignore(streamsize n, int d) { _M_gcount = 0; if (!good()) { setstate(failbit); return *this; } while (_M_gcount < n) { int c = rdbuf()->sbumpc(); if (c == char_traits<char>::eof()) { setstate(eofbit); break; } _M_gcount++; if (c == d) break; } return *this; }
template <> istream& istream::ignore(streamsize n) { return ignore(n, char_traits<char>::eof()); }
template <> istream& istream::ignore() { return ignore(1, char_traits<char>::eof()); }
static bool word(istream& in, char* b, int cap, bool fl) { // the characters of a number
  if (!skip(in)) return false; int n = 0, base = (in.flags() & ios_base::hex) ? 16 : (in.flags() & ios_base::oct) ? 8 : 10; bool eof = false;
  for (;;) { int c = in.rdbuf()->sgetc(); if (c == char_traits<char>::eof()) { eof = true; break; } bool ok = c == '+' || c == '-' ? n == 0 || (fl && (b[n - 1] | 32) == 'e') : base == 16 ? l_isxdigit(c) || ((c | 32) == 'x' && n > 0 && b[n - 1] == '0') : l_isdigit(c) || (fl && (c == '.' || (c | 32) == 'e')); if (!ok || n + 1 >= cap) break; b[n++] = (char)c; in.rdbuf()->sbumpc(); }
  b[n] = 0; if (eof) in.setstate(ios_base::eofbit); return true; }
template <class T> static istream& integer(istream& in, T& v, long lo, long hi) { char b[40]; if (!word(in, b, 40, false)) return in; char* e; errno = 0; long x = strtol(b, &e, (in.flags() & ios_base::hex) ? 16 : (in.flags() & ios_base::oct) ? 8 : 10); if (e == b) { v = 0; in.setstate(ios_base::failbit); } else if (errno == ERANGE || x < lo || x > hi) { v = x < 0 ? (T)lo : (T)hi; in.setstate(ios_base::failbit); } else v = (T)x; return in; }
template <class T> static istream& natural(istream& in, T& v) { char b[40]; if (!word(in, b, 40, false)) return in; char* e; errno = 0; unsigned long x = strtoul(b, &e, (in.flags() & ios_base::hex) ? 16 : (in.flags() & ios_base::oct) ? 8 : 10); if (e == b) { v = 0; in.setstate(ios_base::failbit); } else if (errno == ERANGE || (x > (unsigned long)(T)~(T)0)) { v = (T)~(T)0; in.setstate(ios_base::failbit); } else v = (T)x; return in; }
template <> istream& istream::operator>>(int& v) { return integer(*this, v, -2147483648l, 2147483647l); }
template <> istream& istream::operator>>(short& v) { return integer(*this, v, -32768, 32767); }
template <> template <> istream& istream::_M_extract(long& v) { return integer(*this, v, -0x7fffffffffffffffl - 1, 0x7fffffffffffffffl); }
template <> template <> istream& istream::_M_extract(long long& v) { return integer(*this, v, -0x7fffffffffffffffl - 1, 0x7fffffffffffffffl); }
template <> template <> istream& istream::_M_extract(unsigned& v) { return natural(*this, v); }
template <> template <> istream& istream::_M_extract(unsigned short& v) { return natural(*this, v); }
template <> template <> istream& istream::_M_extract(unsigned long& v) { return natural(*this, v); }
template <> template <> istream& istream::_M_extract(unsigned long long& v) { return natural(*this, v); }
template <> template <> istream& istream::_M_extract(double& v) { char b[80]; if (!word(*this, b, 80, true)) return *this; char* e; v = strtod(b, &e); if (e == b) { v = 0; setstate(failbit); } return *this; }
template <> template <> istream& istream::_M_extract(float& v) { double d; _M_extract(d); v = (float)d; return *this; }
template <> template <> istream& istream::_M_extract(bool& v) { if (flags() & boolalpha) { string s; *this >> s; if (s == "true") v = true; else { v = false; if (s != "false") setstate(failbit); } return *this; } long x; integer(*this, x, 0, 1); v = x != 0; return *this; }
void ios_base::_M_call_callbacks(event) noexcept {}
void ios_base::_M_dispose_callbacks() noexcept {}
template <> basic_ios<char>& basic_ios<char>::copyfmt(const basic_ios<char>& o) { flags(o.flags()); precision(o.precision()); width(o.width()); _M_fill = o._M_fill; _M_fill_init = true; return *this; }
}
