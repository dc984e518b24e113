// Containers of containers, strings, owners and wrappers, several levels deep: one generated program runs twice, over
// the library's types and over the standard ones, and the complete nested contents are compared after every step.
#include <stdexcept>
#include "cest/vector.hpp"
#include "cest/deque.hpp"
#include "cest/list.hpp"
#include "cest/forward_list.hpp"
#include "cest/set.hpp"
#include "cest/map.hpp"
#include "cest/queue.hpp"
#include "cest/string.hpp"
#include "cest/memory.hpp"
#include "cest/functional.hpp"
#include "elems.hpp"
#include <deque>
#include <forward_list>
#include <functional>
#include <list>
#include <memory>
#include <queue>
using namespace mon;

#define NESTED_NAMES(NAME, N) struct NAME { \
  template <class T> using vector = N::vector<T>; template <class T> using deque = N::deque<T>; template <class T> using list = N::list<T>; template <class T> using flist = N::forward_list<T>; \
  template <class K> using set = N::set<K>; template <class K, class V> using map = N::map<K, V>; template <class T> using queue = N::queue<T>; using string = N::string; using wstring = N::basic_string<wchar_t>; \
  template <class T> using sp = N::shared_ptr<T>; template <class T> using up = N::unique_ptr<T>; using fun = N::function<long(long)>; }
NESTED_NAMES(CE, cest); NESTED_NAMES(SD, std);

// ---- what is seen of a value ----------------------------------------------------------
template <class N> struct W {
  // the kinds of values, told apart by what they offer
  template <class T> static constexpr bool ptr = requires(T t) { t.get(); *t; };
  template <class T> static constexpr bool str = requires(T t) { t.c_str(); };
  template <class T> static constexpr bool mapp = requires { typename T::mapped_type; };
  template <class T> static constexpr bool sett = requires { typename T::key_type; } && !mapp<T>;
  template <class T> static constexpr bool fifo = requires(T t) { t.front(); t.back(); t.pop(); };
  template <class T> static constexpr bool flst = requires(T t) { t.before_begin(); };
  template <class T> static constexpr bool vect = requires(T t) { t.push_back(*t.begin()); t.capacity(); } || requires(T t) { t.capacity(); };
  template <class T> static constexpr bool deqq = requires(T t) { t[0]; t.pop_front(); };
  template <class T> static constexpr bool lstt = requires(T t) { t.push_front(std::move(t.front())); t.erase(t.begin()); t.pop_back(); } && !deqq<T>;
  template <class T> static constexpr bool call = std::is_same_v<T, typename N::fun>;
  template <class T> static constexpr bool recd = requires(T t) { t.kids; t.name; };

  static void num(std::string& o, long x) { char b[24]; snprintf(b, sizeof b, "%ld ", x); o += b; }
  template <class T> static void dump(std::string& o, const T& t)
  {
    if constexpr (std::is_arithmetic_v<T>) num(o, (long)t);
    else if constexpr (str<T>) { o += '"'; for (auto c : t) o += (char)c; o += '"'; if (t.c_str()[t.size()]) o += "UNTERMINATED"; if (t.size() > t.capacity()) o += "CAP"; }
    else if constexpr (recd<T>) { o += '{'; dump(o, t.name); dump(o, t.kids); o += '}'; }
    else if constexpr (ptr<T>) { if (!t) { o += "null "; return; } if constexpr (requires { t.use_count(); }) { num(o, t.use_count()); } o += '*'; dump(o, *t); }
    else if constexpr (call<T>) { T f(t); o += "call "; num(o, f(5)); num(o, f(6)); }
    else if constexpr (fifo<T>) { num(o, t.size()); o += t.empty() ? 'e' : 'f'; if (!t.empty()) { dump(o, t.front()); dump(o, t.back()); T c(t); o += '<'; while (!c.empty()) { dump(o, c.front()); c.pop(); } o += '>'; } }
    else if constexpr (mapp<T>) { num(o, t.size()); o += '{'; for (auto& p : t) { dump(o, p.first); o += ':'; dump(o, p.second); } o += '}'; }
    else { if constexpr (requires { t.size(); }) num(o, t.size()); o += t.empty() ? 'e' : 'f'; o += '['; for (auto& x : t) dump(o, x); o += ']';
      if constexpr (vect<T> || deqq<T>) { for (size_t i = 0; i < t.size(); i++) if (&t[i] != &*(t.begin() + i)) o += "INDEX"; }
      if constexpr (vect<T>) { size_t n = 0; for (auto i = t.rbegin(); i != t.rend(); ++i) n++; num(o, n); if (n) { if (&*t.rbegin() != &t.back() || &t.front() != &*t.begin()) o += "ENDS"; } } }
  }
  // ---- values -----------------------------------------------------------------------
  template <class T> static T make(Rng& r, int depth)
  {
    if constexpr (std::is_arithmetic_v<T>) return (T)r.range(-99, 99);
    else if constexpr (str<T>) { T s; int n = r.chance(1, 4) ? r.below(60) : r.below(12); for (int i = 0; i < n; i++) s.push_back((typename T::value_type)('a' + r.below(26))); return s; }
    else if constexpr (recd<T>) { T t; t.name = make<decltype(t.name)>(r, depth + 1); if (depth < 4) t.kids = make<decltype(t.kids)>(r, depth + 1); return t; }
    else if constexpr (ptr<T>) { using E = typename T::element_type; if (r.chance(1, 6)) return T(); return T(new E(make<E>(r, depth + 1))); }
    else if constexpr (call<T>) { auto s = make<typename N::string>(r, depth); auto v = make<typename N::template vector<long>>(r, depth + 1); long n = 0; return T([s, v, n](long a) mutable { n++; long x = a * 7 + n * 1000003; for (char c : s) x = x * 31 % 1000003 + c; for (long y : v) x += y; v.push_back(a); s.push_back('q'); return x; }); }
    else { T c; int n = r.below(depth > 2 ? 3 : 6); for (int i = 0; i < n; i++) add(c, r, depth); return c; }
  }
  template <class T> static void add(T& c, Rng& r, int depth)
  {
    if constexpr (mapp<T>) { auto k = make<typename T::key_type>(r, depth + 1); c.insert(typename T::value_type(k, make<typename T::mapped_type>(r, depth + 1))); }
    else if constexpr (sett<T>) c.insert(make<typename T::key_type>(r, depth + 1));
    else if constexpr (fifo<T>) c.push(make<typename T::value_type>(r, depth + 1));
    else if constexpr (flst<T>) c.push_front(make<typename T::value_type>(r, depth + 1));
    else if constexpr (lstt<T> || deqq<T>) { auto v = make<typename T::value_type>(r, depth + 1); if (r.chance(1, 2)) c.push_back(std::move(v)); else c.push_front(std::move(v)); }
    else c.push_back(make<typename T::value_type>(r, depth + 1));
  }
  template <class T> static size_t count_of(const T& c) { size_t n = 0; for (auto i = c.begin(); i != c.end(); ++i) n++; return n; }
  template <class T> static auto at(T& c, size_t i) { auto it = c.begin(); for (; i > 0; i--) ++it; return it; }

  // ---- one change, at a random depth ---------------------------------------------------
  template <class T> static void change(T& c, Rng& r, int depth = 0)
  {
    if constexpr (std::is_arithmetic_v<T>) c = (T)(c + 1 + (long)r.below(9));
    else if constexpr (str<T>) switch (r.below(9)) {
      case 0: c.push_back('z'); break; case 1: c.append(c); if (c.size() > 400) c.clear(); break; case 2: if (!c.empty()) c.pop_back(); break; case 3: { T d(c); d += 'k'; c = d; } break; case 4: { T d(std::move(c)); c = make<T>(r, depth); d.push_back('m'); c.append(d); if (c.size() > 400) c.clear(); } break;
      case 5: c.clear(); break; case 6: if (!c.empty()) { c.push_back(c[r.below(c.size())]); c[r.below(c.size())] = '#'; } break; case 7: c = c; break; default: c = make<T>(r, depth); }
    else if constexpr (recd<T>) {
if (r.chance(1, 3)) change(c.name, r, depth + 1); else if (r.chance(1, 5)) { T d(c); change(d.kids, r, depth + 1); c = d; } else change(c.kids, r, depth + 1); }
    else if constexpr (ptr<T>) {
      if (!c || r.chance(1, 5)) { c = make<T>(r, depth); return; }
      if constexpr (requires { c.use_count(); }) { switch (r.below(6)) { case 0: { T d(c); c = T(); change(*d, r, depth + 1); c = d; } break; case 1: c = c; break; case 2: { T d(std::move(c)); c = std::move(d); } break; default: change(*c, r, depth + 1); } }
      else switch (r.below(6)) { case 0: { T d(std::move(c)); change(*d, r, depth + 1); c = std::move(d); } break; case 1: { auto* p = c.release(); change(*p, r, depth + 1); c.reset(p); } break; default: change(*c, r, depth + 1); }
    }
    else if constexpr (call<T>) switch (r.below(4)) { case 0: c = make<T>(r, depth); break; case 1: { T d(c); (void)d(3); if (r.chance(1, 2)) c = d; } break; default: (void)c((long)r.below(50)); }
    else if constexpr (fifo<T>) switch (r.below(7)) {
      case 0: case 1: add(c, r, depth); break; case 2: if (!c.empty()) c.pop(); break; case 3: if (!c.empty()) change(c.front(), r, depth + 1); break; case 4: if (!c.empty()) change(c.back(), r, depth + 1); break; case 5: { T d(c); if (!d.empty()) d.pop(); c = d; } break; default: if (!c.empty()) { c.push(c.front()); if (c.size() > 9) c.pop(); } }
    else if constexpr (mapp<T>) { size_t n = c.size(); switch (r.below(8)) {
      case 0: case 1: if (n < 12) add(c, r, depth); break; case 2: { T d(c); if (!d.empty()) change(at(d, r.below(n))->second, r, depth + 1); if (r.chance(1, 2)) c = d; } break; case 3: c = c; break; case 4: if (r.chance(1, 4)) c.clear(); break;
      case 5: if (n) { auto i = at(c, r.below(n)); auto k = i->first; auto f = c.find(k); if (f != c.end()) change(f->second, r, depth + 1); } break;
      case 6: if (n > 1) { auto& a = at(c, r.below(n))->second; auto& b = at(c, r.below(n))->second; if constexpr (std::is_copy_assignable_v<typename T::mapped_type>) a = b; } break;
      default: if (n) change(at(c, r.below(n))->second, r, depth + 1); } }
    else if constexpr (sett<T>) { size_t n = c.size(); switch (r.below(6)) { case 0: case 1: case 2: if (n < 20) add(c, r, depth); break; case 3: { T d(c); d.insert(make<typename T::key_type>(r, depth)); c = d; } break; case 4: if (r.chance(1, 4)) c.clear(); break; default: c = c; if (n) c.insert(*at(c, r.below(n))); } }
    else sequence(c, r, depth);
  }
  template <class T> static void sequence(T& c, Rng& r, int depth)
  {
    using V = typename T::value_type; constexpr bool cp = std::is_copy_constructible_v<V> && (!requires { std::declval<V&>().release(); }); size_t n = count_of(c), i = r.below(n), j = r.below(n); auto pick = [&c](size_t k) -> V& { return *at(c, k); };
    if (n > 14) { while (n-- > 4) if constexpr (flst<T>) c.pop_front(); else c.pop_back(); return; }
    switch (r.below(16)) {
      case 0: case 1: add(c, r, depth); break;
      case 2: if (n) { if constexpr (cp) { if constexpr (flst<T>) c.push_front(pick(i)); else c.push_back(pick(i)); } } break;
      case 3: if (n) { if constexpr (flst<T>) c.pop_front(); else if constexpr (vect<T>) c.pop_back(); else if (r.chance(1, 2)) c.pop_back(); else c.pop_front(); } break;
      case 4: if (n) { if constexpr (cp) pick(i) = pick(j); } break;
      case 5: if (n && i != j) { pick(i) = std::move(pick(j)); pick(j) = make<V>(r, depth + 1); } break;
      case 6: if (n) { using std::swap; swap(pick(i), pick(j)); } break;
      case 7: if constexpr (cp) { T d(c); if (n) change(*at(d, i), r, depth + 1); if (r.chance(1, 2)) c = d; } break;
      case 8: { T d(std::move(c)); c = T(); if (r.chance(1, 2)) add(d, r, depth); c = std::move(d); } break;
      case 9: if (r.chance(1, 4)) c.clear(); break;
      case 10: if constexpr (cp) c = c; break;
      case 11: if constexpr (vect<T>) { size_t a = std::min(i, j), b = std::max(i, j); if (n) c.erase(c.begin() + a, c.begin() + b); } else if constexpr (lstt<T>) { if (n) c.erase(at(c, i)); } else if constexpr (flst<T>) { if (n > i + 1) c.erase_after(at(c, i)); } break;
      case 12: if constexpr (vect<T>) { c.reserve(n + r.below(8)); } else if constexpr (lstt<T>) { if constexpr (cp) { if (n) c.insert(at(c, i), pick(j)); } } else if constexpr (flst<T>) { if constexpr (cp) { if (n) c.insert_after(at(c, i), pick(j)); } } break;
      default: if (n) change(pick(i), r, depth + 1);
    }
  }
  template <class T> static std::string seen(const T& t) { Quiet q; std::string o; dump(o, t); return o; }
};

template <template <class> class T> static void twin(const char* name)
{
  using A = typename T<CE>::type; using B = typename T<SD>::type;
  op(name); uint64_t sd = R.next(); Rng ra(sd), rb(sd);
  A a = W<CE>::template make<A>(ra, 0); B b = W<SD>::template make<B>(rb, 0);
  auto same = [&](const char* when, long k) { std::string x = W<CE>::seen(a), y = W<SD>::seen(b); CHECK(MODEL | COPY, x == y, name, "%s, %s %ld: the library holds %.300s, the standard %.300s", name, when, k, x.c_str(), y.c_str()); state(hstr(y.c_str())); };
  same("made", 0);
  int n = 10 + (int)R.below(30);
  for (int i = 0; i < n; i++) {
    op("change", i, (long)(ra.s % 100000)); uint64_t before = ra.s; (void)before;
    W<CE>::change(a, ra); W<SD>::change(b, rb); same("change", i);
    CHECK(MODEL, ra.s == rb.s, name, "%s: the two runs took different paths", name);
    if constexpr (std::is_copy_constructible_v<B> && !requires(B q) { q.release(); } && T<CE>::copies) if (R.chance(1, 6)) {
      op("copy"); { A a2(a); B b2(b); uint64_t s2 = R.next(); Rng r2(s2), r3(s2); for (int k = 0; k < 3; k++) { W<CE>::change(a2, r2); W<SD>::change(b2, r3); }
      std::string x = W<CE>::seen(a2), y = W<SD>::seen(b2); CHECK(COPY | MODEL, x == y, "copy", "%s: a changed copy holds %.300s, expected %.300s", name, x.c_str(), y.c_str()); same("the original of a changed copy", i);
      if (R.chance(1, 2)) { a = a2; b = b2; } else { a = std::move(a2); b = std::move(b2); } } same("assigned", i); }
  }
  count("nested values");
}
#define NEST(id, cps, ...) template <class N> struct id { static constexpr bool copies = cps; using string = typename N::string; template <class T> using vec = typename N::template vector<T>; template <class T> using deq = typename N::template deque<T>; template <class T> using lst = typename N::template list<T>; \
  template <class T> using fls = typename N::template flist<T>; template <class T> using set = typename N::template set<T>; template <class K, class V> using map = typename N::template map<K, V>; template <class T> using que = typename N::template queue<T>; template <class T> using sp = typename N::template sp<T>; template <class T> using up = typename N::template up<T>; using fun = typename N::fun; \
  using type = __VA_ARGS__; }
NEST(v1, true, vec<vec<string>>); NEST(v2, true, vec<map<int, lst<string>>>); NEST(v3, false, vec<up<vec<string>>>); NEST(v4, true, vec<vec<vec<int>>>); NEST(v5, true, vec<vec<set<string>>>);
NEST(d1, true, deq<deq<string>>); NEST(d2, true, deq<vec<fls<int>>>); NEST(d3, true, deq<map<string, int>>);
NEST(l1, true, lst<lst<string>>); NEST(l2, true, lst<vec<deq<int>>>); NEST(l3, true, fls<fls<string>>); NEST(l4, true, fls<lst<set<int>>>);
NEST(t1, true, map<string, lst<vec<string>>>); NEST(t2, true, map<int, map<string, set<int>>>); NEST(t3, true, map<string, vec<que<int>>>); NEST(t4, true, set<string>); NEST(t5, true, map<int, fls<deq<string>>>);
NEST(q1, true, que<que<string>>); NEST(q2, true, que<vec<map<int, string>>>); NEST(q3, true, vec<que<lst<string>>>);
NEST(s1, true, vec<string>); NEST(s2, true, deq<vec<string>>); NEST(s3, true, lst<map<string, string>>);
NEST(p1, true, vec<sp<vec<string>>>); NEST(p2, true, map<int, sp<lst<sp<string>>>>); NEST(p3, false, vec<up<map<string, sp<int>>>>); NEST(p4, false, up<vec<up<string>>>); NEST(p5, true, sp<deq<sp<sp<int>>>>);
NEST(f1, true, vec<fun>); NEST(f2, true, map<string, vec<fun>>); NEST(f3, true, lst<sp<fun>>); NEST(f4, true, deq<fun>);
template <class N> struct RecV { typename N::string name; typename N::template vector<RecV> kids; };
template <class N> struct RecL { typename N::string name; typename N::template list<RecL> kids; };
template <class N> struct RecF { typename N::string name; typename N::template flist<RecF> kids; };
NEST(r1, true, RecV<N>); NEST(r2, true, RecL<N>); NEST(r3, true, RecF<N>);
template <template <class> class... T> static void any(std::initializer_list<const char*> names) { size_t k = R.below(sizeof...(T)), i = 0; auto it = names.begin(); ((i++ == k ? twin<T>(it[i - 1]) : (void)0), ...); }

#ifndef PART
#define PART 0
#endif
int main(int argc, char** argv)
{
  init(argc, argv, "w_nested"); std::string c = S().config;
#if PART == 0
  if (c == "vec") run_cases([](long) { any<v1, v2, v3, v4, v5>({ "vector of vectors", "vector of maps", "vector of unique pointers", "vector of vectors of vectors", "vector of vectors of sets" }); });
  if (c == "deq") run_cases([](long) { any<d1, d2, d3>({ "deque of deques", "deque of vectors of lists", "deque of maps" }); });
  if (c == "lst") run_cases([](long) { any<l1, l2, l3, l4>({ "list of lists", "list of vectors of deques", "forward list of forward lists", "forward list of lists" }); });
  if (c == "rec") run_cases([](long) { any<r1, r2, r3>({ "recursive by vector", "recursive by list", "recursive by forward list" }); });
#else
  if (c == "tree") run_cases([](long) { any<t1, t2, t3, t4, t5>({ "map of lists", "map of maps", "map of queues", "set of strings", "map of forward lists" }); });
  if (c == "que") run_cases([](long) { any<q1, q2, q3>({ "queue of queues", "queue of vectors of maps", "vector of queues" }); });
  if (c == "str") run_cases([](long) { any<s1, s2, s3>({ "vector of strings", "deque of vectors of strings", "list of string maps" }); });
  if (c == "ptr") run_cases([](long) { any<p1, p2, p3, p4, p5>({ "vector of shared pointers", "map of shared lists", "vector of owned maps", "owned vector", "shared deque" }); });
  if (c == "fun") run_cases([](long) { any<f1, f2, f3, f4>({ "vector of functions", "map of functions", "list of shared functions", "deque of functions" }); });
#endif
  return 3;
}
