// Constant evaluation against execution: the scenarios of cexpr_body.inc (and more that only the library has, below)
// are evaluated by the compiler for FIRST..FIRST+COUNT-1 and repeated at run time, where the sanitizers watch them;
// the standard library runs the same scenarios. The compiler rejects undefined behaviour, indeterminate reads and leaks.
#include "cest/algorithm.hpp"
#include "cest/array.hpp"
#include "cest/cctype.hpp"
#include "cest/cmath.hpp"
#include "cest/complex.hpp"
#include "cest/cstdio.hpp"
#include "cest/cstdlib.hpp"
#include "cest/deque.hpp"
#include "cest/forward_list.hpp"
#include "cest/fstream.hpp"
#include "cest/functional.hpp"
#include "cest/iostream.hpp"
#include "cest/iterator.hpp"
#include "cest/limits.hpp"
#include "cest/list.hpp"
#include "cest/map.hpp"
#include "cest/memory.hpp"
#include "cest/numeric.hpp"
#include "cest/pair.hpp"
#include "cest/queue.hpp"
#include "cest/set.hpp"
#include "cest/sstream.hpp"
#include "cest/string.hpp"
#include "cest/swap.hpp"
#include "cest/utility.hpp"
#include "cest/vector.hpp"
#include "mon.hpp"
#include <array>
#include <bit>
#include <deque>
#include <forward_list>
#include <functional>
#include <iterator>
#include <list>
#include <memory>
#include <numeric>
#include <queue>
#include <sstream>

constexpr uint64_t cx_mix(uint64_t z) { z += 0x9e3779b97f4a7c15ull; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
struct CxRng { uint64_t s; constexpr explicit CxRng(uint64_t x) : s(cx_mix(x)) {} constexpr uint64_t next() { return s = cx_mix(s + 77); } constexpr uint64_t below(uint64_t n) { return n ? next() % n : 0; } };

namespace for_cest {
namespace N { using namespace cest; using std::swap; using std::pair; using std::distance; using std::back_inserter; using std::inserter; using std::array; }
#define CX constexpr
#include "cexpr_body.inc"
#undef CX
}
namespace for_std {
namespace N = std;
#define CX
#include "cexpr_body.inc"
#undef CX
}
// ---- what only the library offers to constant evaluation --------------------------
constexpr int64_t bits(double x) { return std::bit_cast<int64_t>(x); }
constexpr int64_t bits(float x) { return std::bit_cast<int32_t>(x); }
constexpr uint64_t l_cmath(uint64_t seed, int n)
{
  CxRng r(seed); for_cest::DG d; n = n / 5 + 1;
  for (int i = 0; i < n; i++) {
    double x = ((double)(int64_t)r.below(200000) - 100000) / (double)(1 + r.below(5000)), p = x < 0 ? -x : x, s = ((double)(int64_t)r.below(2000) - 1000) / 200; float f = (float)s;
    d(bits(cest::sqrt(p))); d(bits(cest::sin(x))); d(bits(cest::cos(x))); d(bits(cest::exp(s))); d(bits(cest::log(p + 0.001))); d(bits(cest::atan(x))); d(bits(cest::atan2(x, s))); d(bits(cest::sinh(s))); d(bits(cest::cosh(s))); d(bits(cest::abs(x))); d(bits(cest::pow(s == 0 ? 1.5 : s, (int)r.below(9) - 4))); d(cest::floor(x)); d(cest::ceil(x));
    d(bits(cest::sqrt((float)p))); d(bits(cest::sin(f))); d(bits(cest::cos(f))); d(bits(cest::abs(f))); d(cest::abs((int)r.below(100) - 50));
  }
  d(bits(cest::sqrt(0.0))); d(bits(cest::exp(0.0))); d(bits(cest::sin(0.0))); return d.h;
}
// the whole range of each function, as far as no step overflows
constexpr uint64_t l_range(uint64_t seed, int n)
{
  CxRng r(seed); for_cest::DG d; n = n / 6 + 1;
  auto mag = [&r](int lo, int hi) { double x = 1 + (double)r.below(1000000) / 1000000; int e = lo + (int)r.below(hi - lo + 1); for (; e > 0; e--) x *= 10; for (; e < 0; e++) x /= 10; return x; };
  auto sgn = [&r](double x) { return r.below(2) ? x : -x; };
  for (int i = 0; i < n; i++) {
    double a = mag(-300, 300), b = sgn(mag(-12, 12)), c = sgn(mag(-6, 2)), e = sgn(mag(-3, 2)); if (e > 700 || e < -700) e = 3; double g = sgn(mag(-5, 8));
    d(bits(cest::sqrt(mag(-150, 150)))); d(bits(cest::log(a))); d(bits(cest::sin(b))); d(bits(cest::cos(b))); d(bits(cest::exp(e))); d(bits(cest::atan(sgn(mag(-9, 30))))); d(bits(cest::atan2(b, c))); d(bits(cest::atan2(c, b))); d(bits(cest::sinh(c > 300 || c < -300 ? 3.0 : c))); d(bits(cest::cosh(c > 300 || c < -300 ? 3.0 : c)));
    d(bits(cest::abs(sgn(a)))); d(bits(cest::fabs(sgn(a)))); d(cest::floor(g)); d(cest::ceil(g)); d(bits(cest::pow(c, (int)r.below(30)))); d(bits(cest::pow(sgn(mag(-3, 3)), -(int)r.below(9)))); d(bits(cest::pow(1 + 1 / mag(5, 6), (int)r.below(200000))));
  }
  return d.h;
}
struct Closing { int* n; constexpr void operator()(int* p) const { ++*n; delete p; } };
constexpr uint64_t l_deleter(uint64_t seed, int n)
{
  CxRng r(seed); for_cest::DG d; int closed = 0, other = 0; { cest::vector<cest::shared_ptr<int>> v;
    for (int i = 0; i < n; i++) { switch (r.below(5)) { case 0: v.push_back(cest::shared_ptr<int>(new int(i), Closing{ &closed })); break; case 1: v.push_back(cest::shared_ptr<int>(new int(i))); break; case 2: if (!v.empty()) { auto p = v[r.below(v.size())]; if (auto* k = get_deleter<Closing>(p)) k->n = &other; d(p.use_count()); d(*p); } break; case 3: if (!v.empty()) v.pop_back(); break; default: if (!v.empty()) { v.push_back(v[r.below(v.size())]); auto& a = v[0]; auto& b = v[v.size() - 1]; d(a == b); d(a == a); d((bool)a); d(a.get() == b.get()); } } d(closed); d(other); } }
  d(closed); d(other); return d.h;
}
template <class T> constexpr uint64_t complex_of(uint64_t seed, int n)
{
  CxRng r(seed); for_cest::DG d; auto q = [&r]() { return ((T)(int64_t)r.below(2000) - 1000) / (T)(1 + r.below(300)); }; auto put = [&d](cest::complex<T> z) { d((int64_t)bits((double)z.real())); d((int64_t)bits((double)z.imag())); };
  cest::complex<T> z(q(), q()); n = n / 8 + 1;
  for (int i = 0; i < n; i++) { cest::complex<T> w(q() + T(0.5), q() + T(0.1234567)); switch (r.below(9)) { case 0: z = z + w; break; case 1: z = z - w; break; case 2: z = w * cest::complex<T>(q(), q()); break; case 3: z = w / cest::complex<T>(q() + T(2), q() + T(0.1234567)); break; case 4: z = w; z += T(2); z *= T(0.5); break; case 5: z = w; z *= z; break; case 6: z = cest::conj(w) - T(1); break; case 7: z = -w; d(z == w); d((int64_t)bits((double)cest::norm(z))); d((int64_t)bits((double)cest::abs(z))); break; default: z = w; z /= w; } put(z); }
  return d.h;
}
constexpr uint64_t l_complex(uint64_t seed, int n) { return complex_of<double>(seed, n) ^ complex_of<float>(seed + 1, n); }
constexpr uint64_t l_nary(uint64_t seed, int n)
{ CxRng r(seed); for_cest::DG d; int a = 1, b = 2, c = 3, e = 4, f = 5; for (int i = 0; i < n; i++) switch (r.below(6)) { case 0: nary::swap(a, b, c, e, f); break; case 1: nary::swapr(a, b, c, e); break; case 2: nary::swap(a, e); break; case 3: nary::swapr(f, a, b); break; case 4: nary::swap(a); nary::swap(); nary::swapr(b); break; default: nary::swap(a, b, c); } d(a); d(b); d(c); d(e); d(f); cest::string s("x"), t("yy"), u("zzz"); nary::swap(s, t, u); d.all(s); d.all(t); d.all(u); return d.h; }
constexpr uint64_t l_cctype(uint64_t seed, int n) { CxRng r(seed); for_cest::DG d; n = n / 8 + 2; for (int i = 0; i < n; i++) { int c = (int)r.below(258) - 1; d(cest::isalnum(c) != 0); d(cest::isupper(c) != 0); } d(cest::isupper((int)r.next()) != 0); return d.h; }
constexpr uint64_t l_memfile(uint64_t seed, int n)
{ CxRng r(seed); for_cest::DG d; char buf[40] = {}, out[64] = {}; for (auto& c : buf) c = (char)r.below(256); cest::FILE* f = cest::fmemopen(buf, 1 + r.below(40), "r"); size_t k = 1; for (int i = 0; i < n && k; i++) { k = cest::fread(out, 1, 1 + r.below(30), f); d((int64_t)k); for (size_t j = 0; j < k; j++) d(out[j]); } d(cest::fclose(f)); return d.h; }
struct Par { cest::vector<int> v; cest::string s; cest::complex<double> z; };
constexpr uint64_t l_aggregate(uint64_t seed, int n)
{ CxRng r(seed); for_cest::DG d; cest::vector<Par> ps; for (int i = 0; i < n / 6; i++) { Par p; for (int k = (int)r.below(5); k > 0; k--) { p.v.push_back(k); p.s.push_back((char)('a' + k)); } p.z = cest::complex<double>(i, 2); ps.push_back(p); } auto c = ps; for (auto& p : c) { d.all(p.v); d.all(p.s); d((int64_t)p.z.real()); } cest::function<int(Par&)> f = [](Par& p) { return (int)p.v.size(); }; if (!c.empty()) d(f(c[0])); cest::unique_ptr<Par> u = cest::make_unique<Par>(Par{}); u->v.push_back(5); d(u->v.back()); return d.h; }
constexpr uint64_t l_rest(uint64_t seed, int n)
{
  CxRng r(seed); for_cest::DG d; auto q = [&r]() { return (double)(int64_t)r.below(2000) / 7 - 100; };
  for (int i = 0; i < n / 8 + 1; i++) { cest::complex<long double> l((long double)q(), (long double)q() + 0.3L), m((long double)q() + 0.7L); cest::complex<double> z(q(), q()), w(q() + 0.1); cest::complex<float> f((float)q(), 2.5f); auto put = [&d](auto c) { d(bits((double)c.real())); d(bits((double)c.imag())); };
    d(bits((double)cest::real(l))); d(bits(cest::imag(z))); d(bits((double)cest::abs(l))); d(bits(cest::abs(z))); d(bits((double)cest::abs(f))); d(bits((double)cest::norm(l))); put(l + m); put(l - m); put(l * m); put(l / m); put(z + 2.0); put(2.0 + z); put(z - 2.0); put(2.0 - z); put(z * 2.0); put(2.0 * z); put(z / 2.0); put(2.0 / w); put(+z); put(-l); put(cest::conj(l)); d(z == w); d(z != w); d(z == 1.0); d(1.0 == z); d(z != 1.0); d(1.0 != z);
    cest::complex<double> c(f); put(c); c = f; put(c); c = 3.0; put(c); c += 1.0; c -= 0.25; c *= 2.0; c /= 4.0; put(c); c += z; c -= w; c *= z; put(c); c /= w; put(c); c += f; c -= f; c *= f; put(c); c /= f; put(c); l += m; l -= 2.0L; l *= 3.0L; l /= 2.0L; put(l); l = m; l *= l; l /= m; l += z; l -= w; l *= w; put(l); l = 5.0L; l += 1.0L; put(l); f += 1.0f; f -= 2.0f; f *= 3.0f; f /= 4.0f; f += f; f -= f; f = 2.0f; put(f); c.real(4); c.imag(5); l.real(6); l.imag(7); f.real(8); f.imag(9); put(c); put(l); put(f); d(c.real() + c.imag() + (double)l.real() + f.imag() > 0); }
  return d.h;
}
// output while the compiler evaluates: nothing appears and no characters are counted
constexpr long quiet_output()
{
  long n = 0; n += cest::printf("never %d\n", 5); n += cest::printf("never\n"); n += cest::fprintf(cest::stderr, "never %s\n", "x"); n += cest::fprintf(cest::stdout, "never\n");
  cest::cout << "never" << 5 << 'c' << cest::endl; cest::cout << cest::hex << 12L << cest::dec << 3u; cest::cerr << cest::string("never"); cest::clog << true << -3; int k = 4; cest::shared_ptr<int> p(new int(3)); cest::cout << p; (void)k;
  cest::unique_ptr<int> u(new int(4)); cest::cout << u << (short)3 << (signed char)'c' << (unsigned char)'d' << cest::oct << 7L << (const void*)nullptr << 9u; signed char sc[] = "sc"; unsigned char uc[] = "uc"; const signed char* sp = sc; const unsigned char* up = uc; cest::cout << sp << up; cest::cerr << "x" << cest::endl; cest::clog << cest::endl;
  
  return n;
}

struct Entry { const char* name; uint64_t seed; int n; uint64_t at_compile_time; uint64_t (*again)(uint64_t, int); uint64_t (*standard)(uint64_t, int); };
#ifndef COUNT
#define COUNT 6
#endif
#ifndef FIRST
#define FIRST 1
#endif
#ifndef LEN
#define LEN 40
#endif
template <auto F, uint64_t K> struct CV { static constexpr uint64_t seed = cx_mix(FIRST * 1000ull + K), n = 3 + seed % LEN; static constexpr uint64_t value = F(seed, n); };
template <auto F, size_t... I> void both(std::vector<Entry>& t, const char* name, uint64_t (*s)(uint64_t, int), std::index_sequence<I...>) { (t.push_back(Entry{ name, CV<F, I>::seed, (int)CV<F, I>::n, CV<F, I>::value, +F, s }), ...); }
#define BOTH(f) both<&for_cest::f>(t, #f, &for_std::f, std::make_index_sequence<COUNT>{})
#define LONE(f) both<&f>(t, #f, nullptr, std::make_index_sequence<COUNT>{})
#ifndef PART
#define PART 0
#endif
using namespace mon;
int main(int argc, char** argv)
{
  init(argc, argv, "w_cexpr"); std::vector<Entry> t;
#if PART == 0
  BOTH(s_vector); BOTH(s_string); BOTH(s_wstring); BOTH(s_deque); BOTH(s_list); BOTH(s_flist);
#elif PART == 1
  BOTH(s_set); BOTH(s_map); BOTH(s_queue); BOTH(s_shared); BOTH(s_unique); BOTH(s_function); BOTH(s_swap);
#elif PART == 2
  BOTH(s_algorithm); BOTH(s_nested); BOTH(s_stream); LONE(l_aggregate);
#elif PART == 4
  BOTH(b_vector); BOTH(b_deque); BOTH(b_dequelong); BOTH(b_string);
#elif PART == 5
  BOTH(b_list); BOTH(b_tree); BOTH(b_treeshape); BOTH(b_function); BOTH(b_owner);
#elif PART == 6
  BOTH(b_long); BOTH(b_longstream); LONE(l_range); LONE(l_deleter);
#elif PART == 7
  BOTH(r_deque); BOTH(r_lists); BOTH(r_trees); BOTH(r_vector); BOTH(r_string); BOTH(r_queue); BOTH(r_owners); BOTH(r_streams); LONE(l_rest);
#else
  LONE(l_cmath); LONE(l_complex); LONE(l_nary); LONE(l_cctype); LONE(l_memfile);
#endif
  S().ncases = t.size();
  run_cases([&](long i) {
    Entry& e = t[i]; volatile uint64_t seed = e.seed; volatile int n = e.n; op(e.name, e.n, (long)(e.seed >> 40)); op("compile-time", (long)(e.at_compile_time >> 32)); uint64_t g = e.again(seed, n); op("run-time", (long)(g >> 32));
    CHECK(MODEL, g == e.at_compile_time, e.name, "%s of seed %llu, %d steps: the compiler computed %llx, the program %llx", e.name, (unsigned long long)e.seed, e.n, (unsigned long long)e.at_compile_time, (unsigned long long)g);
    if (e.standard) { uint64_t s = e.standard(seed, n); CHECK(MODEL, g == s, e.name, "%s of seed %llu, %d steps: the library computes %llx, the standard library %llx", e.name, (unsigned long long)e.seed, e.n, (unsigned long long)g, (unsigned long long)s); count("standard_comparisons"); }
    count(e.name); state(hstr(e.name), e.n); state(e.at_compile_time);
    if (i == 0) { constexpr long q = quiet_output(); CHECK(MODEL, q == 0, "output", "output calls reported %ld characters during constant evaluation", q); static constinit long z = quiet_output(); CHECK(MODEL, z == 0, "output", "output calls reported %ld characters in a static initialiser", z); }
  });
}
