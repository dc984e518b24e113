// What an operation hands back is the thing itself, not a copy of it: elements through every accessor and iterator, the object of
// every assignment, iterators of every step, streams of every insertion and extraction. The same code runs over the standard types.
#include <stdexcept>
#include "cest/vector.hpp"
#include "cest/deque.hpp"
#include "cest/list.hpp"
#include "cest/forward_list.hpp"
#include "cest/set.hpp"
#include "cest/map.hpp"
#include "cest/queue.hpp"
#include "cest/string.hpp"
#include "cest/functional.hpp"
#include "cest/shared_ptr.hpp"
#include "cest/memory.hpp"
#include "cest/complex.hpp"
#include "cest/sstream.hpp"
#include "cest/istream.hpp"
#include "mon.hpp"
#include <complex>
#include <deque>
#include <forward_list>
#include <functional>
#include <list>
#include <map>
#include <memory>
#include <queue>
#include <set>
#include <sstream>
#include <string>
#include <vector>
using namespace mon;

struct E { int v = 0; long pad[2] = { 3, 4 }; E(int x = 0) : v(x) {} bool operator<(const E& o) const { return v < o.v; } bool operator==(const E& o) const { return v == o.v; } };
template <class T> static T val(int k) { if constexpr (std::is_same_v<T, E>) return E(k); else return (T)(k * 7 + 1); }

// bind whatever it is to a constant reference, and compare the address
template <class T> static const volatile void* at(const T& t) { return std::addressof(t); }
#define SAME(what, a, b) do { auto&& r_ = (a); CHECK(MODEL, at(r_) == at(b), "identity", "%s hands back another object", what); } while (0)

template <class I> static void steps(I b, I e, size_t n, const char* w)
{
  if (!n) return; op("steps", n);
  { I i = b; SAME("++", ++i, i); I j = b; auto&& o = j++; CHECK(MODEL, o == b && j == i && i != b, "post", "%s: a++", w); }
  { const I k = b; SAME("* of a constant iterator", *k, *b); }
  if constexpr (requires(I i) { b.operator->(); }) if constexpr (std::is_class_v<std::remove_cvref_t<decltype(*b)>>) { CHECK(MODEL, (const volatile void*)b.operator->() == at(*b), "arrow", "%s: ->", w); const I k = b; CHECK(MODEL, (const volatile void*)k.operator->() == at(*b), "arrow", "%s: -> of a constant iterator", w); }
  if constexpr (requires(I i) { --i; }) { I i = e; SAME("--", --i, i); I j = e; auto&& o = j--; CHECK(MODEL, o == e && j == i && i != e, "post", "%s: a--", w); size_t m = 0; for (i = e; i != b; --i) m++; CHECK(MODEL, m == n, "back", "%s: %zu steps back of %zu", w, m, n); }
  if constexpr (requires(I i) { i += 1; i[0]; }) { ptrdiff_t k = R.below(n); I i = b; SAME("+=", i += k, i); CHECK(MODEL, at(*i) == at(b[k]) && at(*(b + k)) == at(b[k]) && at(*(k + b)) == at(b[k]) && i - b == k, "random", "%s: + %zd", w, k);
    SAME("-=", i -= k, i); CHECK(MODEL, i == b && at(e[k - (ptrdiff_t)n]) == at(b[k]) && at(*(e - ((ptrdiff_t)n - k))) == at(b[k]), "random", "%s: - %zd", w, k); const I c = b; SAME("[] of a constant iterator", c[k], b[k]); }
  size_t m = 0; std::vector<const volatile void*> seen; for (I i = b; i != e; ++i, m++) if (n < 200) seen.push_back(at(*i)); std::sort(seen.begin(), seen.end());
  CHECK(MODEL, m == n && std::adjacent_find(seen.begin(), seen.end()) == seen.end(), "distinct", "%s: %zu distinct steps of %zu", w, m, n);
}

template <class C> static void assigns(C& a, const C& b, const char* w)
{
  op("assigns"); SAME("copy assignment", a = b, a); SAME("self assignment", a = a, a); { C t(b); SAME("move assignment", a = std::move(t), a); }
  C c(b), d(b); C& z = ((c = d) = b); CHECK(MODEL, at(z) == at(c), "chain", "%s: (a = b) = c", w);
}

template <class C, class F> static void sequence(const char* w, F&& fill)
{
  using T = typename C::value_type; size_t n = 1 + R.below(R.chance(1, 8) ? 90 : 9); C c, o; fill(c, n); fill(o, R.below(6)); const C& k = c; op("seq", n);
  std::vector<const volatile void*> ad; for (auto& x : c) ad.push_back(at(x)); CHECK(MODEL, ad.size() == n, "size", "%s: %zu of %zu", w, ad.size(), n);
  { size_t i = 0; for (const auto& x : k) { CHECK(MODEL, at(x) == ad[i], "identity", "%s: element %zu through a constant", w, i); i++; } i = 0; for (auto p = c.cbegin(); p != c.cend(); ++p, i++) CHECK(MODEL, at(*p) == ad[i], "identity", "%s: element %zu from cbegin", w, i); CHECK(MODEL, i == n, "size", "%s", w); }
  auto is = [&](const volatile void* p, size_t i, const char* what) { CHECK(MODEL, p == ad[i], "identity", "%s: %s is not element %zu itself", w, what, i); };
  if constexpr (requires { c.front(); }) { auto&& f = c.front(); auto&& g = k.front(); is(at(f), 0, "front"); is(at(g), 0, "the constant's front"); }
  if constexpr (requires { c.back(); }) { auto&& f = c.back(); auto&& g = k.back(); is(at(f), n - 1, "back"); is(at(g), n - 1, "the constant's back"); }
  for (size_t i = 0; i < n; i++) {
    if constexpr (requires { c[i]; }) { auto&& f = c[i]; auto&& g = k[i]; is(at(f), i, "[]"); is(at(g), i, "the constant's []"); }
    if constexpr (requires { c.at(i); }) { auto&& f = c.at(i); auto&& g = k.at(i); is(at(f), i, "at"); is(at(g), i, "the constant's at"); }
    if constexpr (requires { c.data(); }) { is(c.data() + i, i, "data"); is(k.data() + i, i, "the constant's data"); } }
  if constexpr (requires { c.rbegin(); }) { size_t i = n; for (auto p = c.rbegin(); p != c.rend(); ++p) is(at(*p), --i, "rbegin"); i = n; for (auto p = k.rbegin(); p != k.rend(); ++p) is(at(*p), --i, "the constant's rbegin"); i = n; if constexpr (requires { c.crbegin(); }) for (auto p = c.crbegin(); p != c.crend(); ++p) is(at(*p), --i, "crbegin"); }
  if constexpr (requires { c.before_begin(); }) { auto b = c.before_begin(); ++b; is(at(*b), 0, "after before_begin"); }
  steps(c.begin(), c.end(), n, w); steps(k.begin(), k.end(), n, w); steps(c.cbegin(), c.cend(), n, w);
  // written through one way, read through the others
  size_t i = R.below(n); T nv = val<T>(77); { auto p = c.begin(); for (size_t j = 0; j < i; j++) ++p; *p = nv; } { auto p = k.begin(); for (size_t j = 0; j < i; j++) ++p; CHECK(MODEL, *p == nv, "written", "%s: element %zu", w, i); }
  if constexpr (requires { c.front() = nv; }) { c.front() = val<T>(5); CHECK(MODEL, *k.begin() == val<T>(5), "written", "%s: front", w); }
  if constexpr (requires { c.back() = nv; }) { c.back() = val<T>(6); auto p = k.begin(); for (size_t j = 0; j + 1 < n; j++) ++p; CHECK(MODEL, *p == val<T>(6), "written", "%s: back", w); }
  if constexpr (requires { c[i] = nv; }) { c[i] = val<T>(9); auto p = k.begin(); for (size_t j = 0; j < i; j++) ++p; CHECK(MODEL, *p == val<T>(9), "written", "%s: []", w); }
  if constexpr (requires { c.emplace_back(nv); }) if constexpr (!std::is_void_v<decltype(c.emplace_back(nv))>) { auto&& r = c.emplace_back(nv); CHECK(MODEL, at(r) == at(c.back()) && c.back() == nv, "identity", "%s: emplace_back", w); }
  if constexpr (requires { c.emplace_front(nv); }) if constexpr (!std::is_void_v<decltype(c.emplace_front(nv))>) { auto&& r = c.emplace_front(nv); CHECK(MODEL, at(r) == at(c.front()) && c.front() == nv, "identity", "%s: emplace_front", w); }
  if constexpr (requires { c.emplace(c.begin(), nv); c.push_front(nv); }) { auto p = c.emplace(c.begin(), nv); CHECK(MODEL, p == c.begin() && at(*p) == at(c.front()), "identity", "%s: emplace", w); p = c.insert(c.cend(), nv); CHECK(MODEL, at(*p) == at(c.back()), "identity", "%s: insert", w); }
  assigns(c, o, w); state(n, sizeof(T));
}

template <class N> static void strings(const char* w)
{
  using C = N; using Ch = typename C::value_type; size_t n = R.below(40); std::vector<Ch> z; for (size_t i = 0; i < n; i++) z.push_back((Ch)('a' + R.below(20))); z.push_back(Ch());
  C c(z.data()), o(z.data() + n / 2); op("str", n);
  SAME("append of a piece", c.append(z.data(), n), c); SAME("append", c.append(o), c); SAME("append of itself", c.append(c), c); SAME("+= of a string", c += o, c); SAME("+= of a character", c += Ch('q'), c); SAME("= of text", c = z.data(), c);
  { C x(o); ((x += o) += Ch('c')) += o; CHECK(MODEL, x.size() == 3 * o.size() + 1, "chain", "%s: chained += is %zu", w, x.size()); x.append(o).append(z.data(), n).append(o); CHECK(MODEL, x.size() == 5 * o.size() + 1 + n, "chain", "%s: chained append is %zu", w, x.size()); (x = z.data()) += Ch('z'); CHECK(MODEL, x.size() == n + 1 && x.back() == Ch('z'), "chain", "%s: (a = text) += c", w); }
  CHECK(MODEL, at(c[c.size()]) == (const volatile void*)(c.data() + c.size()) && at(((const C&)c)[c.size()]) == (const volatile void*)(c.data() + c.size()), "identity", "%s: [size()]", w);
  sequence<C>(w, [](C& c, size_t n) { for (size_t i = 0; i < n; i++) c.push_back((Ch)(33 + R.below(80))); });
}

template <class C, bool MAP> static void tree(const char* w)
{
  size_t n = 1 + R.below(R.chance(1, 8) ? 80 : 9); C c, o; op("tree", n);
  auto key = [](const auto& x) -> const E& { if constexpr (MAP) return x.first; else return x; };
  auto mk = [](int q) { if constexpr (MAP) return typename C::value_type(E(q), E(-q)); else return E(q); };
  for (size_t i = 0; i < n; i++) { int q = R.below(400); auto v = mk(q); auto r = R.chance(1, 2) ? c.insert(v) : c.insert(mk(q)); auto f = c.find(E(q)); CHECK(MODEL, key(*r.first).v == q && f != c.end() && at(*r.first) == at(*f) && r.first == f, "identity", "%s: insert hands back another place", w); if (R.chance(1, 3)) { if constexpr (!MAP) { auto h = c.insert(c.begin(), v); CHECK(MODEL, at(*h) == at(*f), "identity", "%s: insert with a hint", w); } } if (R.chance(1, 2)) o.insert(v); }
  const C& k = c; size_t m = c.size(); std::vector<const volatile void*> ad; for (auto& x : c) ad.push_back(at(x)); CHECK(MODEL, ad.size() == m, "size", "%s", w);
  size_t i = 0; for (const auto& x : k) { CHECK(MODEL, at(x) == ad[i], "identity", "%s: element %zu through a constant", w, i); auto f = c.find(key(x)); auto g = k.find(key(x)); CHECK(MODEL, at(*f) == ad[i] && at(*g) == ad[i] && at(key(*f)) == at(key(x)), "identity", "%s: find of element %zu", w, i);
    if constexpr (MAP) { f->second.v = (int)i; CHECK(MODEL, g->second.v == (int)i && (*k.find(key(x))).second.v == (int)i && x.second.v == (int)i, "written", "%s: a mapped value", w); CHECK(MODEL, at(f->second) == at(x.second) && at(g->second) == at(x.second), "identity", "%s: a mapped value", w); (*f).second.v = -1; CHECK(MODEL, x.second.v == -1, "written", "%s: through *", w); }
    i++; }
  i = 0; for (auto p = c.cbegin(); p != c.cend(); ++p, i++) CHECK(MODEL, at(*p) == ad[i], "identity", "%s: element %zu from cbegin", w, i);
  steps(c.begin(), c.end(), m, w); steps(k.begin(), k.end(), m, w); steps(c.cbegin(), c.cend(), m, w); assigns(c, o, w); state(n, MAP);
}

template <class Q> static void queues(const char* w)
{
  size_t n = 1 + R.below(9); Q q, p; std::vector<int> v; op("queue", n);
  for (size_t i = 0; i < n; i++) { q.push(E(v.size())); v.push_back(i); }
  const Q& k = q; { auto&& f = q.front(); auto&& g = k.front(); CHECK(MODEL, at(f) == at(g) && at(q.front()) == at(f), "identity", "%s: front", w); auto&& b = q.back(); auto&& d = k.back(); CHECK(MODEL, at(b) == at(d) && at(q.back()) == at(b) && (at(f) == at(b)) == (n == 1), "identity", "%s: back", w); }
  q.back().v = 55; CHECK(MODEL, k.back().v == 55, "written", "%s: back", w); q.front().v = 44; CHECK(MODEL, k.front().v == 44, "written", "%s: front", w); p.push(E(1)); assigns(q, p, w);
}

template <template <class> class SP, template <class> class UP> static void owners(const char* w)
{
  E *a = new E(1), *b = new E(2); SP<E> p(a), q(b); op("owners"); SAME("assignment of a pointer", p = p, p); const SP<E>& k = p;
  CHECK(MODEL, at(*p) == a && at(*k) == a && p.get() == a && k.operator->() == a && at(p->v) == &a->v, "identity", "%s: *", w); (*k).v = 9; CHECK(MODEL, a->v == 9, "written", "%s", w); SP<E> z; SP<E>& y = ((z = p) = q); CHECK(MODEL, at(y) == at(z) && z.get() == b && p.use_count() == 1 && q.use_count() == 2, "chain", "%s: (a = b) = c", w); { SP<E> t(p); SAME("move assignment of a pointer", z = std::move(t), z); }
  E* m = new E[3]; SP<E[]> s(m); const SP<E[]>& ks = s; for (int i = 0; i < 3; i++) { SAME("[]", s[i], m[i]); SAME("[] of a constant", ks[i], m[i]); } SAME("assignment of a pointer", s = s, s); { SP<E[]> t; SAME("assignment of a pointer", t = s, t); }
  E* c = new E(7); UP<E> u(c), x(new E(8)); const UP<E>& ku = u; CHECK(MODEL, at(*u) == c && at(*ku) == c && u.get() == c && ku.get() == c && ku.operator->() == c && u.operator->() == c, "identity", "%s: * of a sole owner", w); (*u).v = 3; CHECK(MODEL, ku->v == 3, "written", "%s", w); SAME("move assignment of a sole owner", x = std::move(u), x); CHECK(MODEL, x.get() == c && !u, "chain", "%s", w);
  auto d = [](E* e) { delete e; }; { if constexpr (requires { x.get_deleter(); }) { auto&& g = x.get_deleter(); auto&& h = x.get_deleter(); CHECK(MODEL, at(g) == at(h), "identity", "%s: get_deleter", w); } } (void)d;
}

template <template <class> class FN> static void wrappers(const char* w)
{
  E e(4); op("fun"); FN<int()> f = [] { return 1; }, g = [] { return 2; }, h = [] { return 3; }; SAME("assignment of a wrapper", f = g, f); FN<int()>& r = ((f = g) = h); CHECK(MODEL, at(r) == at(f) && f() == 3 && g() == 2, "chain", "%s: (f = g) = h", w); SAME("move assignment of a wrapper", f = FN<int()>(g), f); SAME("assignment of a target", (f = [] { return 9; }), f); CHECK(MODEL, f() == 9, "chain", "%s", w);
  FN<void()> v = [&] { e.v++; }, x = [&] { e.v += 10; }; SAME("assignment of a wrapper", v = x, v); SAME("assignment of a target", (v = [&] { e.v = 1; }), v); SAME("move assignment of a wrapper", v = FN<void()>(x), v); v(); CHECK(MODEL, e.v == 14, "chain", "%s: %d", w, e.v);
  FN<E&(E&)> i = [](E& q) -> E& { return q; }; SAME("a result", i(e), e); FN<const E&(const E&)> j = [](const E& q) -> const E& { return q; }; SAME("a result", j(e), e); FN<E && (E&&)> l = [](E&& q) -> E&& { return std::move(q); }; SAME("a result", l(std::move(e)), e); FN<E*(E*)> m = [](E* q) { return q; }; CHECK(MODEL, m(&e) == &e, "identity", "%s: a result", w);
  FN<const volatile void*(const E&, E&, E&&, const volatile E&)> s = [&](const E& a, E& b, E&& c, const volatile E& d) { return at(a) == at(e) && at(b) == at(e) && at(c) == at(e) && &d == &e ? at(e) : nullptr; }; CHECK(MODEL, s(e, e, std::move(e), e) == at(e), "identity", "%s: an argument", w);
  static int calls; struct T { int n = 0; int operator()() { calls++; return ++n; } }; calls = 0; FN<int()> t = T{}; t(); t(); CHECK(MODEL, t() == 3 && calls == 3, "state", "%s: the target is one object", w); FN<int()> t2 = t; CHECK(MODEL, t2() == 4 && t() == 4 && t() == 5 && t2() == 5, "state", "%s: a copy has its own", w);
}

template <template <class> class CX, class T> static void complexes(const char* w)
{
  CX<T> a((T)3, (T)4), b((T)1, (T)2); CX<float> f(2, 1); const CX<T> k(5, 6); op("complex"); (void)w;
  SAME("= of a number", a = (T)2, a); SAME("=", a = b, a); SAME("+= of a number", a += (T)2, a); SAME("-= of a number", a -= (T)1, a); SAME("*= of a number", a *= (T)2, a); SAME("/= of a number", a /= (T)2, a); SAME("+=", a += b, a); SAME("-=", a -= k, a); SAME("*=", a *= b, a); SAME("/=", a /= b, a);
  if constexpr (!std::is_same_v<T, float>) { SAME("= of another precision", a = f, a); SAME("+= of another precision", a += f, a); SAME("-= of another precision", a -= f, a); SAME("*= of another precision", a *= f, a); SAME("/= of another precision", a /= f, a); }
  CX<T> c(1, 1); ((((c = b) += b) -= k) *= (T)2) += k; CHECK(MODEL, c.real() == (T)((1 + 1 - 5) * 2 + 5) && c.imag() == (T)((2 + 2 - 6) * 2 + 6), "chain", "chained assignments"); ((c = (T)4) *= b) /= (T)2; CHECK(MODEL, c.real() == 2 && c.imag() == 4, "chain", "chained assignments"); (c *= b) -= b; CHECK(MODEL, c.real() == -7 && c.imag() == 6, "chain", "chained assignments");
}

template <class M> static void mask(M a, M b, const char* w) { op("mask", (long)a, (long)b); M m = a; SAME("|=", m |= b, m); CHECK(MODEL, m == (a | b), "mask", "%s: |=", w); SAME("&=", m &= b, m); CHECK(MODEL, m == ((a | b) & b), "mask", "%s: &=", w); SAME("^=", m ^= a, m); CHECK(MODEL, m == (((a | b) & b) ^ a), "mask", "%s: ^=", w); }
template <class I> static void masks(const char* w)
{
  mask<typename I::fmtflags>(I::hex | I::showbase, I::dec, w); mask<typename I::fmtflags>(I::basefield, I::hex, w); mask<typename I::openmode>(I::in | I::app, I::out, w); mask<typename I::openmode>(I::ate, I::ate, w); mask<typename I::iostate>(I::failbit, I::eofbit | I::failbit, w); mask<typename I::iostate>(I::badbit, I::goodbit, w);
}

template <class T> using Cs = cest::shared_ptr<T>; template <class T> using Cu = cest::unique_ptr<T>; template <class T> using Cf = cest::function<T>; template <class T> using Cc = cest::complex<T>;
template <class T> using Ss = std::shared_ptr<T>; template <class T> using Su = std::unique_ptr<T>; template <class T> using Sf = std::function<T>; template <class T> using Sc = std::complex<T>;
static auto back = [](auto& c, size_t n) { for (size_t i = 0; i < n; i++) c.push_back(val<typename std::remove_cvref_t<decltype(c)>::value_type>(R.below(90))); };
static auto front = [](auto& c, size_t n) { for (size_t i = 0; i < n; i++) c.push_front(val<typename std::remove_cvref_t<decltype(c)>::value_type>(R.below(90))); };

int main(int argc, char** argv)
{
  init(argc, argv, "ident"); const std::string& c = S().config;
#if PART == 0
#define SEQ(cfg, N, F) if (c == cfg) run_cases([](long) { sequence<cest::N<E>>("cest::" #N, F); sequence<cest::N<int>>("cest::" #N, F); sequence<std::N<E>>("std::" #N, F); });
  SEQ("vec", vector, back) else SEQ("deq", deque, back) else SEQ("lst", list, back) else SEQ("flst", forward_list, front)
#elif PART == 1
  if (c == "str") run_cases([](long) { strings<cest::string>("cest::string"); strings<cest::wstring>("cest::wstring"); strings<std::string>("std::string"); });
  else if (c == "tree") run_cases([](long) { tree<cest::set<E>, false>("cest::set"); tree<cest::map<E, E>, true>("cest::map"); tree<std::set<E>, false>("std::set"); tree<std::map<E, E>, true>("std::map"); });
  else if (c == "que") run_cases([](long) { queues<cest::queue<E>>("cest::queue"); queues<std::queue<E>>("std::queue"); });
#else
  if (c == "ptr") run_cases([](long) { owners<Cs, Cu>("cest"); owners<Ss, Su>("std"); });
  else if (c == "fun") run_cases([](long) { wrappers<Cf>("cest"); wrappers<Sf>("std"); });
  else if (c == "cpx") run_cases([](long) { complexes<Cc, float>("cest"); complexes<Cc, double>("cest"); complexes<Cc, long double>("cest"); complexes<Sc, double>("std"); });
  else if (c == "ios") run_cases([](long) { masks<cest::ios_base>("cest"); masks<std::ios_base>("std"); });
#endif
  else return 3;
  leaks("all cases"); finish(0);
}
