// every pair of target and source states: copy, move, assign, swap, then change or destroy either
#include <stdexcept>
#include "cest/vector.hpp"
#include "cest/deque.hpp"
#include "cest/list.hpp"
#include "cest/forward_list.hpp"
#include "cest/set.hpp"
#include "cest/map.hpp"
#include "cest/string.hpp"
#include "cest/queue.hpp"
#include "elems.hpp"
using namespace mon;
using Vals = std::vector<long>;

// ---- adaptors: what the workload needs of a container ---------------------------------
template <class C> struct Ad;
template <class T, class A> struct Ad<cest::vector<T, A>> {
  using C = cest::vector<T, A>; using E = El<T>;
  static constexpr bool mswap = true; static constexpr size_t big = 300; static constexpr bool trk = E::tracked; static constexpr int factor = 1;
  static void add(C& c, Vals& m, long v) { c.push_back(E::make(v)); m.push_back(v); }
  static void cut(C& c, Vals& m) { if (!m.empty()) { c.pop_back(); m.pop_back(); } }
  static void put(C& c, Vals& m, size_t i, long v) { if (i < m.size()) { c[i] = E::make(v); m[i] = v; } }
  static void room(C& c, size_t n) { c.reserve(n); }
  static void clear(C& c, Vals& m) { c.clear(); m.clear(); }
  static Vals see(const C& c)
  {
    Vals r; for (size_t i = 0; i < c.size(); i++) r.push_back(E::get(c[i]));
    Vals q; for (auto& x : c) q.push_back(E::get(x));
    CHECK(MODEL, r == q && c.empty() == r.empty() && c.capacity() >= c.size(), "views", "index and iteration disagree (%zu, %zu)", r.size(), q.size());
    return r;
  }
};
template <class T, class A> struct Ad<cest::deque<T, A>> {
  using C = cest::deque<T, A>; using E = El<T>;
  static constexpr bool mswap = false; static constexpr size_t big = 2300; static constexpr bool trk = E::tracked; static constexpr int factor = 1;
  static void add(C& c, Vals& m, long v)
  { if (v % 3) { c.push_back(E::make(v)); m.push_back(v); } else { c.push_front(E::make(v)); m.insert(m.begin(), v); } }
  static void cut(C& c, Vals& m) { if (!m.empty()) { if (m.size() & 1) { c.pop_back(); m.pop_back(); } else { c.pop_front(); m.erase(m.begin()); } } }
  static void put(C& c, Vals& m, size_t i, long v) { if (i < m.size()) { c[i] = E::make(v); m[i] = v; } }
  static void room(C& c, size_t n) { for (size_t i = 0; i < n; i++) c.push_back(E::make(1)); while (n--) c.pop_back(); }
  static void clear(C& c, Vals& m) { c.clear(); m.clear(); }
  static Vals see(const C& c)
  {
    Vals r; for (size_t i = 0; i < c.size(); i++) r.push_back(E::get(c[i]));
    Vals q; for (auto& x : c) q.push_back(E::get(x));
    CHECK(MODEL, r == q && c.empty() == r.empty(), "views", "index and iteration disagree (%zu, %zu)", r.size(), q.size());
    return r;
  }
};
template <class T, class A> struct Ad<cest::list<T, A>> {
  using C = cest::list<T, A>; using E = El<T>;
  static constexpr bool mswap = false; static constexpr size_t big = 120; static constexpr bool trk = E::tracked; static constexpr int factor = 1;
  static void add(C& c, Vals& m, long v)
  { if (v % 3) { c.push_back(E::make(v)); m.push_back(v); } else { c.push_front(E::make(v)); m.insert(m.begin(), v); } }
  static void cut(C& c, Vals& m) { if (!m.empty()) { if (m.size() & 1) { c.pop_back(); m.pop_back(); } else { c.erase(c.begin()); m.erase(m.begin()); } } }
  static void put(C& c, Vals& m, size_t i, long v) { if (i < m.size()) { auto it = c.begin(); for (size_t k = 0; k < i; k++) ++it; *it = E::make(v); m[i] = v; } }
  static void room(C&, size_t) {}
  static void clear(C& c, Vals& m) { c.clear(); m.clear(); }
  static Vals see(const C& c)
  {
    Vals r; for (auto& x : c) { r.push_back(E::get(x)); if (r.size() > c.size() + 5) break; }
    Vals q; for (auto it = c.end(); it != c.begin();) { --it; q.insert(q.begin(), E::get(*it)); if (q.size() > c.size() + 5) break; }
    CHECK(MODEL, r == q && c.empty() == r.empty() && c.size() == r.size(), "views", "forward and backward traversal or size disagree (%zu, %zu, size %zu)", r.size(), q.size(), c.size());
    return r;
  }
};
template <class T, class A> struct Ad<cest::forward_list<T, A>> {
  using C = cest::forward_list<T, A>; using E = El<T>;
  static constexpr bool mswap = true; static constexpr size_t big = 120; static constexpr bool trk = E::tracked; static constexpr int factor = 1;
  static void add(C& c, Vals& m, long v)
  {
    if (v % 3 || m.empty()) { c.push_front(E::make(v)); m.insert(m.begin(), v); }
    else { c.insert_after(c.begin(), E::make(v)); m.insert(m.begin() + 1, v); }
  }
  static void cut(C& c, Vals& m) { if (!m.empty()) { c.pop_front(); m.erase(m.begin()); } }
  static void put(C& c, Vals& m, size_t i, long v) { if (i < m.size()) { auto it = c.begin(); for (size_t k = 0; k < i; k++) ++it; *it = E::make(v); m[i] = v; } }
  static void room(C&, size_t) {}
  static void clear(C& c, Vals& m) { c.clear(); m.clear(); }
  static Vals see(const C& c)
  {
    Vals r; for (auto& x : c) { r.push_back(E::get(x)); if (r.size() > 100000) break; }
    CHECK(MODEL, c.empty() == r.empty(), "views", "empty() disagrees with traversal");
    return r;
  }
};
inline void ins(Vals& m, long v) { auto it = std::lower_bound(m.begin(), m.end(), v); if (it == m.end() || *it != v) m.insert(it, v); }
template <class T, class L, class A> struct Ad<cest::set<T, L, A>> {
  using C = cest::set<T, L, A>; using E = El<T>;
  static constexpr bool mswap = false; static constexpr size_t big = 150; static constexpr bool trk = E::tracked; static constexpr int factor = 1;
  static void add(C& c, Vals& m, long v) { v = v * 7919 % 10007; c.insert(E::make(v)); ins(m, v); }
  static void cut(C&, Vals&) {}
  static void put(C& c, Vals& m, size_t, long v) { add(c, m, v); }
  static void room(C&, size_t) {}
  static void clear(C& c, Vals& m) { c.clear(); m.clear(); }
  static Vals see(const C& c)
  {
    Vals r; for (auto& x : c) { r.push_back(E::get(x)); if (r.size() > 100000) break; }
    CHECK(MODEL, c.empty() == r.empty() && c.size() == r.size(), "views", "size %zu and traversal %zu disagree", c.size(), r.size());
    for (size_t i = 0; i < r.size(); i += 1 + r.size() / 12) { auto it = c.find(E::make(r[i])); CHECK(MODEL, !(it == c.end()) && E::get(*it) == r[i], "find", "key %ld is not found", r[i]); }
    CHECK(MODEL, c.find(E::make(20011)) == c.end(), "find-absent", "an absent key is found");
    return r;
  }
};
template <class K, class T, class L, class A> struct Ad<cest::map<K, T, L, A>> {
  using C = cest::map<K, T, L, A>; using E = El<K>; using F = El<T>;
  static constexpr bool mswap = false; static constexpr size_t big = 150; static constexpr bool trk = E::tracked; static constexpr int factor = 2;
  static void add(C& c, Vals& m, long v) { v = v * 7919 % 10007; c.insert(typename C::value_type(E::make(v), F::make(v + 1))); ins(m, v); }
  static void cut(C&, Vals&) {}
  static void put(C& c, Vals& m, size_t, long v) { add(c, m, v); }
  static void room(C&, size_t) {}
  static void clear(C& c, Vals& m) { c.clear(); m.clear(); }
  static Vals see(const C& c)
  {
    Vals r; for (auto& x : c) { r.push_back(E::get(x.first)); CHECK(MODEL, F::get(x.second) == r.back() + 1, "mapped", "value of key %ld is %ld", r.back(), F::get(x.second)); if (r.size() > 100000) break; }
    CHECK(MODEL, c.empty() == r.empty() && c.size() == r.size(), "views", "size %zu and traversal %zu disagree", c.size(), r.size());
    for (size_t i = 0; i < r.size(); i += 1 + r.size() / 12) { auto it = c.find(E::make(r[i])); CHECK(MODEL, !(it == c.end()) && E::get(it->first) == r[i], "find", "key %ld is not found", r[i]); }
    CHECK(MODEL, c.find(E::make(20011)) == c.end(), "find-absent", "an absent key is found");
    return r;
  }
};
template <class Ch, class Tr, class A> struct Ad<cest::basic_string<Ch, Tr, A>> {
  using C = cest::basic_string<Ch, Tr, A>;
  static constexpr bool mswap = false; static constexpr size_t big = 200; static constexpr bool trk = false; static constexpr int factor = 1;
  static void add(C& c, Vals& m, long v) { v %= 120; c.push_back((Ch)v); m.push_back(v); }
  static void cut(C& c, Vals& m) { if (!m.empty()) { c.pop_back(); m.pop_back(); } }
  static void put(C& c, Vals& m, size_t i, long v) { v %= 120; if (i < m.size()) { c[i] = (Ch)v; m[i] = v; } }
  static void room(C& c, size_t n) { c.reserve(n); }
  static void clear(C& c, Vals& m) { c.clear(); m.clear(); }
  static Vals see(const C& c)
  {
    Vals r; for (size_t i = 0; i < c.size(); i++) r.push_back((long)c.data()[i]);
    CHECK(MODEL, c.c_str()[c.size()] == Ch() && c.empty() == r.empty() && c.capacity() >= c.size(), "terminator", "no terminator at length %zu (capacity %zu)", c.size(), c.capacity());
    return r;
  }
};
template <class T, class U> struct Ad<cest::queue<T, U>> {
  using C = cest::queue<T, U>; using E = El<T>;
  static constexpr bool mswap = false; static constexpr size_t big = 1500; static constexpr bool trk = E::tracked; static constexpr int factor = 1;
  static void add(C& c, Vals& m, long v) { c.push(E::make(v)); m.push_back(v); }
  static void cut(C& c, Vals& m) { if (!m.empty()) { c.pop(); m.erase(m.begin()); } }
  static void put(C& c, Vals& m, size_t i, long v) { if (m.empty()) return; if (i % 2) { c.front() = E::make(v); m.front() = v; } else { c.back() = E::make(v); m.back() = v; } }
  static void room(C& c, size_t n) { for (size_t i = 0; i < n; i++) c.push(E::make(1)); while (n--) c.pop(); }
  static void clear(C& c, Vals& m) { while (!c.empty()) c.pop(); m.clear(); }
  static Vals see(const C& c)
  {
    struct Peek : C { const U& u() const { return this->c; } };
    CHECK(MODEL, c.empty() == (c.size() == 0), "views", "empty() at size %zu", c.size());
    return Ad<U>::see(static_cast<const Peek&>(c).u());
  }
};

template <class C> struct Pairs {
  using X = Ad<C>;
  struct Slot { C* c; Vals m; };
  static long val() { return R.chance(1, 6) ? R.range(1, 9) : 1 + R.below(9000); }

  // a container of n elements with one of several pasts
  static Slot build(size_t n, int past)
  {
    Slot s{ new C(), {} };
    switch (past) {
      case 1: X::room(*s.c, n + R.below(20)); break;                                        // spare room
      case 2: for (size_t i = n + 1 + R.below(40); i--;) X::add(*s.c, s.m, val()); X::clear(*s.c, s.m); break;    // was larger, emptied
      case 3: { Slot t = build(R.below(12), 0); *s.c = *t.c; X::clear(*s.c, s.m); delete t.c; break; }            // was assigned to
      case 4: { for (size_t i = 0; i < 5; i++) X::add(*s.c, s.m, val()); C t(std::move(*s.c)); X::clear(*s.c, s.m); break; } // was moved from
      case 5: for (size_t i = R.below(30); i--;) { X::add(*s.c, s.m, val()); X::cut(*s.c, s.m); } X::clear(*s.c, s.m); break; // ends displaced
      default: break;
    }
    while (s.m.size() < n) X::add(*s.c, s.m, val());
    if (past == 6) { X::add(*s.c, s.m, val()); X::add(*s.c, s.m, val()); X::cut(*s.c, s.m); X::cut(*s.c, s.m); }
    return s;
  }
  static void same(const Slot& s, const char* what, const char* where)
  {
    Vals v = X::see(*s.c);
    if (v == s.m) { S().checks++; return; }
    size_t i = 0; while (i < v.size() && i < s.m.size() && v[i] == s.m[i]) i++;
    viol(MODEL | COPY, where, "%s: %s holds %zu elements, expected %zu; first difference at %zu (%ld, expected %ld)", where, what, v.size(), s.m.size(), i,
         i < v.size() ? v[i] : -1, i < s.m.size() ? s.m[i] : -1);
  }
  static void count_live(std::initializer_list<const Slot*> l, const char* w)
  { if (X::trk) { size_t n = 0; for (auto p : l) n += p->m.size(); live_is(n * X::factor, w); } }
  static void change(Slot& s)
  {
    for (int k = R.range(1, 6); k--;) switch (R.below(5)) {
      case 0: X::cut(*s.c, s.m); break;
      case 1: case 2: X::put(*s.c, s.m, R.chance(1, 3) ? 0 : R.chance(1, 2) ? s.m.size() - 1 : R.below(s.m.size() + 1), val()); break;
      case 3: if (R.chance(1, 6)) { X::clear(*s.c, s.m); break; } [[fallthrough]];
      default: for (int j = R.range(1, 4); j--;) X::add(*s.c, s.m, val());
    }
  }

  static void run(long idx)
  {
    flag(COPY);
    size_t n, m;
    if (idx < 289) { n = idx / 17; m = idx % 17; }                 // all small pairs
    else if (idx % 3 == 0) { n = R.below(X::big); m = n; }          // equal sizes
    else if (idx % 3 == 1) { n = R.below(X::big); long d = R.range(-3, 3); m = (long)n + d < 0 ? 0 : n + d; }
    else { n = R.chance(1, 4) ? 0 : R.below(X::big); m = R.chance(1, 4) ? 0 : R.below(X::big); }
    if (X::big < 1000 && R.chance(1, 2) && idx >= 289) { n = R.below(70); if (idx % 3) m = R.below(70); else m = n; }
    int pa = R.below(7), pb = R.below(7), what = R.below(8);
    op("pair", n, m, pa * 10 + pb); op("do", what);
    Slot a = build(n, pa), b = build(m, pb);
    same(a, "a fresh container", "build"); same(b, "a fresh container", "build");
    count_live({ &a, &b }, "build");
    bool valid_b = true;
    switch (what) {
      case 0: case 1: { C& r = (*a.c = *b.c); CHECK(MODEL | COPY, &r == a.c, "assign-return", "assignment does not return its target"); a.m = b.m; break; }
      case 2: { C* t = new C(*b.c); delete a.c; a.c = t; a.m = b.m; break; }
      case 3: { const C& k = *b.c; *a.c = k; a.m = b.m; C& r = (*a.c = *a.c); CHECK(MODEL | COPY, &r == a.c, "self-assign-return", "self-assignment does not return its target"); break; }
      case 4: *a.c = std::move(*b.c); a.m = b.m; valid_b = false; break;
      case 5: { C* t = new C(std::move(*b.c)); delete a.c; a.c = t; a.m = b.m; valid_b = false; break; }
      case 6: if constexpr (X::mswap) a.c->swap(*b.c); else { using std::swap; swap(*a.c, *b.c); } std::swap(a.m, b.m); break;
      default: { Slot c = build(R.below(20), 0); *c.c = *a.c = *b.c; a.m = c.m = b.m; same(c, "the outer target", "chain"); change(c); same(a, "the inner target", "chain-change"); delete c.c; break; }
    }
    same(a, "the target", "target");
    if (valid_b) { same(b, "the source", "source"); count_live({ &a, &b }, "copying"); }
    else { X::clear(*b.c, b.m); same(b, "the moved-from object, cleared", "moved-from"); X::add(*b.c, b.m, val()); same(b, "the moved-from object", "moved-from"); }
    // later changes stay on their side
    for (int k = 0; k < 3; k++) {
      op("change", k);
      Slot& w = R.chance(1, 2) ? a : b;
      change(w); same(a, "the target", "later-change"); same(b, "the source", "later-change");
      count_live({ &a, &b }, "a change");
      if (R.chance(1, 3)) { op("again"); *a.c = *b.c; a.m = b.m; same(a, "the target", "second-assign"); same(b, "the source", "second-assign"); }
    }
    Slot& gone = R.chance(1, 2) ? a : b; Slot& left = &gone == &a ? b : a;
    op("destroy"); delete gone.c; same(left, "the survivor", "destroyed-other"); count_live({ &left }, "destroying one");
    change(left); same(left, "the survivor", "survivor"); delete left.c;
    all_gone("both");
    count(n < m ? "target_smaller" : n > m ? "target_larger" : "target_equal"); state(11, n > 80 ? 80 + n / 50 : n, m > 80 ? 80 + m / 50 : m, what);
  }
};
template <class C> void go() { run_cases([](long i) { Pairs<C>::run(i); }); }
template <class T> using MA = MonAlloc<T>;

int main(int argc, char** argv)
{
  init(argc, argv, "w_pairs");
  std::string c = S().config;
#ifndef PART
#define PART 0
#endif
#if PART == 0
  if (c == "vector") go<cest::vector<Trk, MA<Trk>>>();
  if (c == "vectori") go<cest::vector<int>>();
  if (c == "deque") go<cest::deque<Trk, MA<Trk>>>();
  if (c == "dequei") go<cest::deque<int>>();
#elif PART == 1
  if (c == "list") go<cest::list<Trk, MA<Trk>>>();
  if (c == "listi") go<cest::list<int>>();
  if (c == "flist") go<cest::forward_list<Trk, MA<Trk>>>();
  if (c == "flisti") go<cest::forward_list<int>>();
#elif PART == 2
  if (c == "set") go<cest::set<Trk, std::less<Trk>, MA<Trk>>>();
  if (c == "seti") go<cest::set<int>>();
  if (c == "map") go<cest::map<Trk, Trk, std::less<Trk>, MA<std::pair<const Trk, Trk>>>>();
  if (c == "mapi") go<cest::map<int, int>>();
#else
  if (c == "string") go<cest::basic_string<char, std::char_traits<char>, MA<char>>>();
  if (c == "stringw") go<cest::basic_string<wchar_t>>();
  if (c == "queue") go<cest::queue<Trk, cest::deque<Trk, MA<Trk>>>>();
  if (c == "queuel") go<cest::queue<int, cest::list<int>>>();
#endif
  return 3;
}
