// Self-test: library features that other versions of the code may use are modelled (each branch is one feature; the result is compared with the native run).
#include "common.h"
#include <algorithm>
#include <array>
#include <atomic>
#include <cctype>
#include <cmath>
#include <cstdlib>
#include <condition_variable>
#include <deque>
#include <forward_list>
#include <fstream>
#include <functional>
#include <future>
#include <iomanip>
#include <iostream>
#include <iterator>
#include <limits>
#include <list>
#include <map>
#include <mutex>
#include <numeric>
#include <queue>
#include <random>
#include <set>
#include <shared_mutex>
#include <sstream>
#include <stack>
#include <stdexcept>
#include <thread>
#include <typeinfo>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <strings.h>
static void obs(const Str& s) { lps_obs_bytes("r", s.data(), s.size()); }
static void obsi(long long v) { lps_obs("v", (unsigned long long)v); }
extern "C" void lps_main(void) {
  Str x = anyText("x", 3, 3); for (char& c : x) lps_assume(c >= 'a' && c <= 'd'); int n = (int)lps_range("n", 0, 5); char buf[64] = {0};
  int one = lps_param("one", -1); switch (one >= 0 ? one : (int)lps_choose("feature", 68)) {
    case 0: strncpy(buf, x.c_str(), 2); obs(buf); break;
    case 1: strcat(strcpy(buf, "q"), x.c_str()); strncat(buf, "zz", 1); obs(buf); break;
    case 2: obsi(strstr(x.c_str(), "ab") != nullptr); break;
    case 3: obsi(strspn(x.c_str(), "ab")); obsi(strcspn(x.c_str(), "c")); obsi(strpbrk(x.c_str(), "d") != nullptr); break;
    case 4: obsi(strnlen(x.c_str(), 2)); break;
    case 5: { char* p = strdup(x.c_str()); obs(p); free(p); break; }
    case 6: obsi(strcasecmp(x.c_str(), "ABC") == 0); obsi(strncasecmp(x.c_str(), "ABC", 2) == 0); break;
    case 7: obsi(isalpha(x[0]) != 0); obsi(isdigit('0' + n) != 0); obsi(isspace(' ') != 0); obsi(toupper(x[0])); obsi(tolower('A')); obsi(isxdigit(x[1]) != 0); obsi(isalnum(x[1]) != 0); obsi(isprint(x[1]) != 0); obsi(ispunct('/') != 0); obsi(isupper(x[0]) != 0); obsi(islower(x[0]) != 0); break;
    case 8: obsi(atoi("123")); obsi(atol("-45")); obsi(strtol("ff", nullptr, 16)); obsi(strtoul("77", nullptr, 8)); obsi(strtoll("12x", nullptr, 10)); break;
    case 9: obsi(std::stoi("42")); try { obsi(std::stoi("zz")); } catch (std::invalid_argument&) { obsi(-1); } try { obsi(std::stoi("99999999999")); } catch (std::out_of_range&) { obsi(-2); } break;
    case 10: sprintf(buf, "%d-%s-%02x-%5d-%-4d|%c%%%u", 7, "abc", 10, 42, 3, 'z', 9u); obs(buf); break;
    case 11: snprintf(buf, sizeof buf, "%ld %zu %llx %05.2f %p", -5L, (size_t)9, 255ULL, 1.5, (void*)nullptr); obs(Str(buf).substr(0, 12)); break;
    case 12: obs(std::to_string(n) + std::to_string(-7L) + std::to_string(3u)); break;
    case 13: { std::ostringstream o; o << std::hex << 255 << std::dec << ' ' << std::setw(5) << std::setfill('0') << 42 << std::boolalpha << true << std::setprecision(3) << 3.14159 << 'c' << "s" << x << 1.5f << (short)3 << (unsigned char)'u' << 7ull; obs(o.str()); break; }
    case 14: { std::istringstream i("12 abc 3.5\nline two\n"); int a; Str b; double d; i >> a >> b >> d; Str l; std::getline(i, l); std::getline(i, l); obsi(a); obs(b); obsi((int)(d * 2)); obs(l); obsi(i.eof()); break; }
    case 15: { std::stringstream s; s << x << "," << n; Str t; std::getline(s, t, ','); obs(t); s.str(""); s.clear(); s << "k"; obs(s.str()); break; }
    case 16: { std::vector<Str> v{x, "b", "aa"}; std::sort(v.begin(), v.end()); std::reverse(v.begin(), v.end()); obs(v[0] + v[1] + v[2]); break; }
    case 17: { std::unordered_map<Str, int> m; m["a"] = 1; m["b"] = 2; m["a"]++; obsi(m["a"]); obsi(m.count("zz")); m.erase("b"); obsi(m.size()); for (int i = 0; i < 40; i++) m[std::to_string(i)] = i; obsi(m.at("33")); break; }
    case 18: { std::unordered_set<int> s; for (int i = 0; i < 30; i++) s.insert(i * 7 % 11); obsi(s.size()); obsi(s.count(3)); break; }
    case 19: { std::set<Str> s{x, "abc", "b"}; obsi(s.size()); obsi(s.count("abc")); s.erase("b"); obsi(s.lower_bound("b") == s.end()); std::multimap<int, int> m; m.emplace(1, 2); m.emplace(1, 3); obsi(m.count(1)); obsi(std::distance(m.equal_range(1).first, m.equal_range(1).second)); break; }
    case 20: { std::map<Str, int> m; m.insert({x, 1}); m.emplace("zz", 2); auto r = m.emplace("zz", 3); obsi(r.second); auto it = m.upper_bound("q"); obsi(it->second); m.erase(m.begin()); obsi(m.size()); for (auto& p : m) obs(p.first); std::map<Str, int> c = m; obsi(c == m); obsi(m.rbegin()->second); break; }
    case 21: { std::list<int> l{3, 1, 2}; l.sort(); l.push_front(0); l.splice(l.end(), l, l.begin()); l.remove_if([](int v) { return v == 2; }); l.reverse(); l.unique(); for (int v : l) obsi(v); l.resize(1); obsi(l.size()); std::list<int> k{5}; l.merge(k); l.swap(k); obsi(k.size()); break; }
    case 22: { std::deque<int> d; for (int i = 0; i < 200; i++) { d.push_back(i); if (i % 3 == 0) d.pop_front(); } d.push_front(9); obsi(d.size()); obsi(d[10]); d.erase(d.begin() + 2); d.insert(d.begin() + 1, 77); obsi(d[1]); break; }
    case 23: { std::queue<int> q; q.push(1); q.push(2); q.pop(); obsi(q.front()); std::priority_queue<int> p; p.push(3); p.push(9); p.push(4); obsi(p.top()); std::stack<int> s; s.push(4); obsi(s.top()); break; }
    case 24: { std::function<int(int)> f = [n](int a) { return a + n; }; auto g = std::bind(f, std::placeholders::_1); obsi(g(3)); std::function<void()> e; try { e(); } catch (std::bad_function_call&) { obsi(-1); } break; }
    case 25: { std::string s = x; s.insert(1, "QQ"); s.erase(0, 1); s.replace(0, 1, "R"); s.append(3, 'y'); obs(s); obsi(s.find("Ry")); obsi(s.rfind('y')); obsi(s.find_first_not_of("RQ")); obsi(s.find_last_not_of('y')); obsi(s.compare(0, 2, "RQ")); obs(s.substr(2)); std::reverse(s.begin(), s.end()); obs(s); s.resize(20, 'k'); s.shrink_to_fit(); s.reserve(100); obs(s); s.clear(); obsi(s.empty()); try { s.at(3); } catch (std::out_of_range&) { obsi(-3); } try { s.substr(3); } catch (std::out_of_range&) { obsi(-4); } break; }
    case 26: { std::transform(x.begin(), x.end(), x.begin(), ::toupper); obs(x); break; }
    case 27: { std::vector<int> v(5); std::iota(v.begin(), v.end(), n); obsi(std::accumulate(v.begin(), v.end(), 0)); obsi(*std::max_element(v.begin(), v.end())); obsi(std::count_if(v.begin(), v.end(), [](int i) { return i > 3; })); obsi(std::any_of(v.begin(), v.end(), [](int i) { return i == 4; })); v.erase(std::remove(v.begin(), v.end(), 4), v.end()); obsi(v.size()); obsi(std::find(v.begin(), v.end(), 3) != v.end()); obsi(std::binary_search(v.begin(), v.end(), 5)); v.insert(v.begin(), 3, 8); obsi(v.size()); obsi(std::equal(v.begin(), v.end(), v.begin())); obsi(std::is_permutation(v.begin(), v.end(), v.rbegin())); break; }
    case 28: { std::mutex m; std::unique_lock<std::mutex> l(m, std::defer_lock); l.lock(); l.unlock(); obsi(l.try_lock()); obsi(l.owns_lock()); std::recursive_mutex r; std::lock_guard<std::recursive_mutex> a(r), b(r); std::mutex m2; std::lock(m2, *std::unique_ptr<std::mutex>(new std::mutex)); m2.unlock(); break; }
    case 29: { std::once_flag f; int k = 0; for (int i = 0; i < 3; i++) std::call_once(f, [&] { k++; }); obsi(k); break; }
    case 30: { std::atomic<int> a(3); a += n; a.fetch_sub(1); int e = 7; obsi(a.compare_exchange_strong(e, 9)); obsi(a.exchange(4)); std::atomic_flag g = ATOMIC_FLAG_INIT; obsi(g.test_and_set()); obsi(g.test_and_set()); obsi(a.load()); break; }
    case 31: { std::shared_ptr<int> p = std::make_shared<int>(n); std::weak_ptr<int> w = p; obsi(p.use_count()); obsi(*w.lock()); p.reset(); obsi(w.expired()); struct B { virtual ~B() {} }; struct D : B { int v = 5; }; std::shared_ptr<B> b = std::make_shared<D>(); obsi(std::static_pointer_cast<D>(b)->v); obsi(std::dynamic_pointer_cast<D>(b)->v); std::unique_ptr<int[]> u(new int[3]); u[1] = 2; obsi(u[1]); try { std::shared_ptr<int> q(w); } catch (std::bad_weak_ptr&) { obsi(-5); } std::shared_ptr<void> h(nullptr, [](void*) {}); break; }
    case 32: try { throw std::runtime_error("boom"); } catch (const std::exception& e) { obs(e.what()); } try { throw std::logic_error(x); } catch (const std::exception& e) { obs(e.what()); } try { throw std::system_error(std::make_error_code(std::errc::invalid_argument), "sys"); } catch (const std::exception&) { obsi(1); } break;
    case 33: { std::exception_ptr p; try { throw std::runtime_error("later"); } catch (...) { p = std::current_exception(); } try { std::rethrow_exception(p); } catch (std::runtime_error& e) { obs(e.what()); } break; }
    case 34: { auto t = std::chrono::steady_clock::now() + std::chrono::milliseconds(5); obsi(t > std::chrono::steady_clock::now() - std::chrono::seconds(1)); obsi(std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::seconds(2)).count()); break; }
    case 35: { std::array<int, 3> a{{1, 2, 3}}; a.fill(4); obsi(a[2]); std::forward_list<int> f{1, 2}; f.push_front(0); obsi(f.front()); std::pair<int, Str> p(1, x); std::tuple<int, Str> t(2, "z"); obsi(std::get<0>(t)); obsi(p < std::make_pair(2, Str())); int q; Str z; std::tie(q, z) = t; obs(z); break; }
    case 36: { std::istringstream i("a b c"); std::vector<Str> v((std::istream_iterator<Str>(i)), std::istream_iterator<Str>()); obsi(v.size()); std::ostringstream o; std::copy(v.begin(), v.end(), std::ostream_iterator<Str>(o, ";")); obs(o.str()); break; }
    case 37: { std::ifstream f("/no/such/file"); obsi(f.is_open()); obsi((bool)f); Str s((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>()); obs(s); break; }
    case 38: obsi((long long)std::floor(2.7)); obsi((long long)std::sqrt(16.0)); obsi((long long)std::pow(2.0, 3.0)); obsi(std::isnan(0.0 / (n - n + 0.0))); obsi(std::numeric_limits<int>::max()); obsi((long long)std::fabs(-2.0)); obsi(std::abs(-4)); obsi(std::isinf(1e308 * 10)); obsi((long long)std::round(2.5)); obsi((long long)std::fmod(7.0, 4.0)); break;
    case 39: { void* p = memchr(buf, 0, 4); obsi(p == buf); memmove(buf + 1, "abc", 3); obs(Str(buf + 1)); obsi(memcmp(buf + 1, "abd", 3) < 0); void* q = realloc(malloc(3), 9); free(q); obsi(strtod("2.5", nullptr) == 2.5); break; }
    case 40: { std::cout << "x" << std::flush << std::endl; std::cerr << 1 << '\n'; printf("%s", ""); fprintf(stderr, "%s", ""); puts(""); fflush(stdout); obsi(0); break; }
    case 41: { const char* e = getenv("LPS_NO_SUCH_VARIABLE"); obsi(e == nullptr); break; }
    case 42: { std::string a = "abc"; std::string b = std::move(a); std::string c(b.begin(), b.begin() + 2); std::string d(b, 1, 1); c.swap(d); obs(c + d); obsi(b < "abd"); obsi("abc" == b); c.assign(3, 'p'); c += {'q', 'r'}; c.push_back('s'); c.pop_back(); obs(c); obsi(c.front()); obsi(c.back()); char o[4] = {0}; c.copy(o, 3); obs(o); break; }
    case 43: { std::vector<bool> v(9); v[3] = true; v.push_back(true); obsi(v[3]); obsi(v.size()); obsi(std::count(v.begin(), v.end(), true)); break; }
    case 44: { std::mt19937 r(5); r.discard(1); obsi(0); break; }
    case 45: { struct Base { virtual ~Base() {} virtual int f() { return 1; } }; struct Der : Base { int f() override { return 2; } }; Base* b = new Der; obsi(b->f()); obsi(typeid(*b) == typeid(Der)); obsi(dynamic_cast<Der*>(b) != nullptr); try { dynamic_cast<Der&>(*std::unique_ptr<Base>(new Base)); } catch (std::bad_cast&) { obsi(-6); } delete b; break; }
    case 46: { std::vector<int> v; try { v.at(2); } catch (std::out_of_range&) { obsi(-7); } std::map<int, int> m; try { m.at(2); } catch (const std::out_of_range&) { obsi(-8); } try { std::vector<char> q; q.resize((size_t)-1); } catch (std::length_error&) { obsi(-9); } try { Str().resize((size_t)-1); } catch (std::length_error&) { obsi(-10); } break; }
    case 47: { std::vector<Str> v{"q", x, "b"}; std::stable_sort(v.begin(), v.end()); obs(v[0]); std::partial_sort(v.begin(), v.begin() + 1, v.end()); std::nth_element(v.begin(), v.begin() + 1, v.end()); std::rotate(v.begin(), v.begin() + 1, v.end()); obs(v[0]); std::vector<int> a{1, 3}, b{2, 3}, c; std::set_intersection(a.begin(), a.end(), b.begin(), b.end(), std::back_inserter(c)); std::merge(a.begin(), a.end(), b.begin(), b.end(), std::back_inserter(c)); obsi(c.size()); obsi(std::lexicographical_compare(a.begin(), a.end(), b.begin(), b.end())); break; }
    case 48: { std::condition_variable_any c; std::mutex m; c.notify_all(); std::unique_lock<std::mutex> l(m); obsi(c.wait_for(l, std::chrono::milliseconds(1), [] { return true; })); break; }
    case 49: { std::timed_mutex m; obsi(m.try_lock_for(std::chrono::milliseconds(1))); m.unlock(); std::shared_timed_mutex s; { std::shared_lock<std::shared_timed_mutex> l(s); } s.lock(); s.unlock(); obsi(1); break; }
    case 50: { std::promise<int> p; auto f = p.get_future(); p.set_value(4); obsi(f.get()); break; }
    case 51: { std::thread t([&n] { n++; }); t.join(); obsi(n); break; }
    case 52: { auto f = std::async(std::launch::async, [n] { return n + 1; }); obsi(f.get()); break; }
    case 53: { std::packaged_task<int()> t([n] { return n; }); auto f = t.get_future(); t(); obsi(f.get()); break; }
    case 54: { std::ostringstream o; o << std::string("abc").c_str() << std::string(2, 'z') << (const void*)nullptr << std::showbase << std::hex << 16 << std::uppercase << 255 << std::fixed << 2.5 << std::left << std::setw(4) << "l" << std::right << std::setw(4) << "r"; o.put('p'); o.write("wr", 2); obs(o.str()); obsi(o.tellp()); break; }
    case 55: { std::istringstream i("0x1f 077 true -3"); int a = 0; i >> std::hex >> a; obsi(a); i >> std::oct >> a; obsi(a); bool b = false; i >> std::boolalpha >> b; obsi(b); long l; i >> std::dec >> l; obsi(l); int z; obsi(!(i >> z)); obsi(i.fail()); i.clear(); obsi(i.peek()); break; }
    case 56: { std::istringstream i("hello"); char c; i.get(c); obsi(c); i.unget(); char b[3]; i.read(b, 2); obsi(i.gcount()); i.ignore(1); obsi(i.tellg()); i.seekg(0); Str s; i >> s; obs(s); i.putback('q'); break; }
    case 57: { errno = 0; obs(strerror(ENOENT)); obsi(errno); break; }
    case 58: { qsort(&x[0], 3, 1, [](const void* a, const void* b) { return *(const char*)a - *(const char*)b; }); obs(x); obsi(abs(-3)); div_t d = div(7, 2); obsi(d.quot); break; }
    case 59: { char t[] = "a,b"; char* s = nullptr; obs(strtok_r(t, ",", &s)); obs(strtok_r(nullptr, ",", &s)); char* e = stpcpy(buf, "abc"); obsi(e - buf); obsi(strcoll("a", "b") < 0); obsi((const char*)memrchr("abca", 'a', 4) != nullptr); obsi(memmem("abcd", 4, "cd", 2) != nullptr); break; }
    case 60: { std::u16string u = u"ab"; obsi(u.size()); std::wstring w = L"xy"; obsi(w.size()); w += L"z"; obsi(w[2]); break; }
    case 61: { std::unordered_multimap<Str, int> m; m.emplace("a", 1); m.emplace("a", 2); obsi(m.count("a")); std::hash<Str> h; obsi(h("a") == h(Str("a"))); std::unordered_map<int, Str> q{{1, "x"}, {2, "y"}}; obs(q.find(2)->second); q.reserve(100); obsi(q.size()); break; }
    case 62: { std::uniform_int_distribution<int> d(1, 6); std::mt19937 g(1); int v = d(g); obsi(v >= 1 && v <= 6); break; }
    case 63: { std::random_device r; std::mt19937_64 g(r()); obsi(1); break; }
    case 64: { time_t t = time(nullptr); obsi(t >= 0); struct timespec ts; obsi(clock_gettime(CLOCK_MONOTONIC, &ts)); obsi(ts.tv_sec >= 0); break; }
    case 65: { std::this_thread::yield(); std::this_thread::sleep_for(std::chrono::milliseconds(1)); std::this_thread::sleep_until(std::chrono::steady_clock::now()); obsi(std::this_thread::get_id() == std::this_thread::get_id()); break; }
    case 66: { std::ostringstream o; o.exceptions(std::ios::badbit); o << std::noboolalpha << false << std::ends; std::ostringstream p; p.copyfmt(o); std::ios_base::fmtflags f = o.flags(); o.flags(f); o.precision(3); o << 1.23456; o.unsetf(std::ios::hex); o.setf(std::ios::hex, std::ios::basefield); o << 17; o.width(4); o.fill('*'); o << 1; obs(o.str()); break; }
    case 67: { std::string s = "a/b//c"; std::vector<Str> v; std::stringstream ss(s); Str it; while (std::getline(ss, it, '/')) v.push_back(it); obsi(v.size()); std::vector<Str> w(std::make_move_iterator(v.begin()), std::make_move_iterator(v.end())); obs(w.back()); std::string u = std::accumulate(w.begin(), w.end(), Str("-")); obs(u); break; }
  }
}
