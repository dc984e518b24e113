// list and forward_list: lockstep, node stability, lifetimes, copies, aliases
#include <stdexcept>
#include "cest/list.hpp"
#include "cest/forward_list.hpp"
#include "elems.hpp"
#include <iterator>
using namespace mon;

// ---------------------------------------------------------------- list
template <class T, class Al> struct WL {
  using C = cest::list<T, Al>;
  using E = El<T>;
  using It = typename C::iterator; using CIt = typename C::const_iterator;
  struct Ent { long v; It it; const T* ad; };
  struct Slot { C* c; std::vector<Ent> m; unsigned fl = 0; };
  std::vector<Slot> s;
  static constexpr bool trk = E::tracked;
  unsigned tg(const Slot& x, unsigned t = MODEL) const { return t | x.fl; }

  void observe(Slot& x, const char* w)
  {
    C& c = *x.c; const C& k = c; size_t n = x.m.size(), i = 0;
    CHECK(tg(x), c.size() == n, "size", "%s: size %zu, expected %zu", w, c.size(), n);
    CHECK(tg(x), c.empty() == (n == 0), "empty", "%s: empty() at size %zu", w, n);
    CHECK(tg(x), c.max_size() >= n, "max_size", "%s: max_size", w);
    for (It it = c.begin(); it != c.end(); ++it, ++i) {
      CHECK(tg(x), i < n, "forward-long", "%s: forward traversal goes past the %zu elements", w, n);
      if (i >= n) return;
      CHECK(tg(x), E::get(*it) == x.m[i].v, "forward", "%s: element %zu is %ld, expected %ld", w, i, E::get(*it), x.m[i].v);
      CHECK(tg(x, ADDR), &*it == x.m[i].ad && it.operator->() == x.m[i].ad, "address", "%s: element %zu moved in storage", w, i);
      CHECK(tg(x, ADDR), it == x.m[i].it, "iterator-place", "%s: the iterator to element %zu is no longer in place", w, i);
    }
    CHECK(tg(x), i == n, "forward-short", "%s: forward traversal ends after %zu of %zu", w, i, n);
    for (It it = c.end(); it != c.begin();) {
      bool pre = R.chance(1, 2); if (pre) --it; else { It o = it--; CHECK(tg(x, MODEL | ITER), o != it, "post-decr", "%s", w); }
      CHECK(tg(x), i > 0, "backward-long", "%s: backward traversal goes past the beginning", w); if (!i) return; --i;
      CHECK(tg(x), E::get(*it) == x.m[i].v, "backward", "%s: backward, element %zu is %ld, expected %ld", w, i, E::get(*it), x.m[i].v);
    }
    CHECK(tg(x), i == 0, "backward-short", "%s: backward traversal stops %zu before the beginning", w, i);
    for (CIt it = k.begin(); !(it == k.end()); it++, ++i) {
      CHECK(tg(x, MODEL | ITER), i < n && E::get(*it) == x.m[i].v && &*it == x.m[i].ad && it.operator->() == x.m[i].ad, "const-forward", "%s: const traversal, element %zu", w, i);
      CHECK(tg(x, MODEL | ITER | CMP), it == CIt(x.m[i < n ? i : 0].it), "const-conv", "%s: const iterator of element %zu", w, i);
      if (i >= n) return;
    }
    CHECK(tg(x), i == n, "const-short", "%s: const traversal", w);
    for (auto it = std::make_reverse_iterator(k.cend()); it != std::make_reverse_iterator(k.cbegin()); ++it) {
      CHECK(tg(x, MODEL | ITER), i > 0 && E::get(*it) == x.m[i - 1].v, "reverse", "%s: reverse traversal, element %zu", w, i); if (!i) return; --i;
    }
    // iterators held since insertion
    for (size_t j = 0; j < n; j++) {
      CHECK(tg(x, ADDR), &*x.m[j].it == x.m[j].ad && E::get(*x.m[j].ad) == x.m[j].v, "held-iterator", "%s: iterator held on element %zu", w, j);
      It nx = x.m[j].it; ++nx;
      CHECK(tg(x, ADDR), j + 1 < n ? nx == x.m[j + 1].it : nx == c.end(), "held-next", "%s: successor of a held iterator (element %zu of %zu)", w, j, n);
      if (j) { It pv = x.m[j].it; --pv; CHECK(tg(x, ADDR), pv == x.m[j - 1].it, "held-prev", "%s: predecessor of a held iterator (element %zu)", w, j); }
    }
    if (n) {
      CHECK(tg(x), E::get(c.front()) == x.m[0].v && E::get(k.front()) == x.m[0].v && &c.front() == x.m[0].ad, "front", "%s: front", w);
      CHECK(tg(x), E::get(c.back()) == x.m[n - 1].v && E::get(k.back()) == x.m[n - 1].v && &c.back() == x.m[n - 1].ad, "back", "%s: back", w);
    }
    state(4, n > 40 ? 40 : n, S().hist % 7);
  }
  void observe_all(const char* w)
  {
    size_t t = 0; for (auto& x : s) { observe(x, w); t += x.m.size(); }
    if (trk) live_is(t, w);
  }
  void rebuild(Slot& x, const std::vector<Ent>& src)
  {
    std::vector<Ent> m; size_t i = 0; It it = x.c->begin();
    for (; i < src.size() && it != x.c->end(); ++i, ++it) m.push_back({ src[i].v, it, &*it });
    CHECK(tg(x), i == src.size(), "copy-short", "a copy has %zu of %zu elements", i, src.size());
    x.m = m;
  }
  It at(Slot& x, size_t i) { return i < x.m.size() ? x.m[i].it : x.c->end(); }

  void run(long)
  {
    for (int i = 0; i < 3; i++) s.push_back(Slot{ new C(), {} });
    long nops = R.range(20, 150); size_t limit = R.chance(1, 6) ? 120 : 14;
    for (long kk = 0; kk < nops; kk++) {
      Slot& x = s[R.below(3)]; Slot& y = s[R.below(3)]; C& c = *x.c;
      size_t n = x.m.size(), p = R.chance(1, 4) ? 0 : R.chance(1, 3) ? n : R.below(n + 1);
      long e = next_val();
      auto ins = [&](size_t at, It it, long v) { x.m.insert(x.m.begin() + at, Ent{ v, it, &*it }); };
      auto idof = [&] { return &x - &s[0]; };
      switch (n < limit ? R.below(22) : 8 + R.below(14)) {
        case 0: { op("push_back", idof(), e); const T t = E::make(e); c.push_back(t); It it = c.end(); --it; ins(n, it, e); break; }
        case 1: { op("push_back_rv", idof(), e); c.push_back(E::make(e)); It it = c.end(); --it; ins(n, it, e); break; }
        case 2: { op("push_front", idof(), e); const T t = E::make(e); c.push_front(t); ins(0, c.begin(), e); break; }
        case 3: { op("push_front_rv", idof(), e); c.push_front(E::make(e)); ins(0, c.begin(), e); break; }
        case 4: { op("insert", idof(), p, e); const T t = E::make(e); It r = c.insert(CIt(at(x, p)), t);
          CHECK(tg(x, MODEL | ITER), E::get(*r) == e, "insert-return", "insert returned an iterator to %ld, not %ld", E::get(*r), e); ins(p, r, e); break; }
        case 5: { op("insert_rv", idof(), p, e); It r = c.insert(CIt(at(x, p)), E::make(e));
          CHECK(tg(x, MODEL | ITER), E::get(*r) == e, "insert-return", "insert returned an iterator to %ld, not %ld", E::get(*r), e); ins(p, r, e); break; }
        case 6: { op("emplace", idof(), p, e); It r = c.emplace(CIt(at(x, p)), E::make(e));
          CHECK(tg(x, MODEL | ITER), E::get(*r) == e, "emplace-return", "emplace returned an iterator to %ld, not %ld", E::get(*r), e); ins(p, r, e); break; }
        case 7: { bool b = R.chance(1, 2); op(b ? "emplace_back" : "emplace_front", idof(), e);
          T& r = b ? c.emplace_back(E::make(e)) : c.emplace_front(E::make(e));
          It it = c.begin(); if (b) { it = c.end(); --it; }
          CHECK(tg(x), &r == &*it && E::get(r) == e, "emplace-return", "emplace_front/back returned a reference to another element"); ins(b ? n : 0, it, e); break; }
        case 8: if (n) { op("pop_back", idof()); c.pop_back(); x.m.pop_back(); } break;
        case 9: if (n) { op("pop_front", idof()); c.pop_front(); x.m.erase(x.m.begin()); } break;
        case 10: case 11: case 12: if (n) { if (p == n) --p; op("erase", idof(), p, n); It r = c.erase(CIt(at(x, p))); x.m.erase(x.m.begin() + p);
          CHECK(tg(x, MODEL | ITER), r == at(x, p), "erase-return", "erase of element %zu of %zu returned another position", p, n); } break;
        case 13: if (R.chance(1, 3)) { op("clear", idof()); c.clear(); x.m.clear(); } break;
        case 14: { op("assign", idof(), &y - &s[0]); x.fl |= COPY; y.fl |= COPY; flag(COPY);
          C& r = (c = *y.c); CHECK(tg(x), &r == &c, "assign-return", "assignment does not return its target");
          if (&x != &y) rebuild(x, y.m); else { x.fl |= ALIAS; flag(ALIAS); std::vector<Ent> m = x.m; rebuild(x, m); } break; }
        case 15: { op("copy_construct", idof(), &y - &s[0]); x.fl |= COPY; y.fl |= COPY; flag(COPY);
          C* t = new C(*y.c); auto m = y.m; delete x.c; x.c = t; rebuild(x, m); break; }
        case 16: if (&x != &y) { op("move", idof(), &y - &s[0]); x.fl |= COPY; y.fl |= COPY; flag(COPY); auto m = y.m;
          if (R.chance(1, 2)) { C* t = new C(std::move(*y.c)); delete x.c; x.c = t; } else *x.c = std::move(*y.c);
          rebuild(x, m); long sum = 0; for (auto& v : *y.c) sum += E::get(v); y.c->clear(); y.m.clear(); y.c->push_back(E::make(e)); y.m.push_back({ e, y.c->begin(), &y.c->front() }); } break;
        case 17: if (n) { size_t i = R.below(n); op("write", idof(), i); T t = E::make(e);
          if (i == 0 && R.chance(1, 2)) c.front() = t; else if (i == n - 1 && R.chance(1, 2)) c.back() = t; else *at(x, i) = t; x.m[i].v = e; } break;
        case 18: case 19: if (n && n < limit) { size_t i = R.below(n); op("insert_own", idof(), p, i); x.fl |= ALIAS; flag(ALIAS); long v = x.m[i].v; It r = c.end();
          switch (R.below(5)) {
            case 0: r = c.insert(CIt(at(x, p)), *at(x, i)); break;
            case 1: r = c.emplace(CIt(at(x, p)), *at(x, i)); break;
            case 2: c.push_back(*at(x, i)); p = n; r = c.end(); --r; break;
            case 3: c.push_front(*at(x, i)); p = 0; r = c.begin(); break;
            default: c.emplace_back(*at(x, i)); p = n; r = c.end(); --r; break;
          }
          ins(p, r, v); } break;
        case 20: if (&x != &y) { using std::swap; op("std_swap", idof(), &y - &s[0]); x.fl |= COPY; y.fl |= COPY; flag(COPY); auto a = x.m, b = y.m; swap(*x.c, *y.c); rebuild(x, b); rebuild(y, a); } break;
        default: if (n > 2) { // erase while walking
          op("erase_if", idof(), e); size_t i = 0; long mod = 2 + e % 3; auto it = c.begin(); bool stop = false;
          while (it != c.end() && !stop) {
            if (i < x.m.size() && (x.m[i].v % mod) == 0) { it = c.erase(it); x.m.erase(x.m.begin() + i); }
            else { ++it; ++i; if (i > n) stop = true; }
          } } break;
      }
      if (n < 30 || kk % 3 == 0) observe_all(S().ring[(S().nops - 1) % 4096].op);
    }
    while (!s.empty()) { size_t i = R.below(s.size()); op("destroy", i); delete s[i].c; s.erase(s.begin() + i); observe_all("destroying another list"); }
    all_gone("destroying all lists");
  }
};

// ---------------------------------------------------------------- forward_list
template <class T, class Al> struct WF {
  using C = cest::forward_list<T, Al>;
  using E = El<T>;
  using It = typename C::iterator; using CIt = typename C::const_iterator;
  struct Ent { long v; It it; const T* ad; };
  struct Slot { C* c; std::vector<Ent> m; unsigned fl = 0; };
  std::vector<Slot> s;
  static constexpr bool trk = E::tracked;
  unsigned tg(const Slot& x, unsigned t = MODEL) const { return t | x.fl; }

  void observe(Slot& x, const char* w)
  {
    C& c = *x.c; const C& k = c; size_t n = x.m.size(), i = 0;
    CHECK(tg(x), c.empty() == (n == 0) && k.empty() == (n == 0), "empty", "%s: empty() at length %zu", w, n);
    It bb = c.before_begin(); ++bb; CHECK(tg(x, MODEL | ITER), bb == c.begin(), "before_begin", "%s: ++before_begin() is not begin()", w);
    for (It it = c.begin(); it != c.end(); ++it, ++i) {
      CHECK(tg(x), i < n, "forward-long", "%s: traversal goes past the %zu elements", w, n); if (i >= n) return;
      CHECK(tg(x), E::get(*it) == x.m[i].v, "forward", "%s: element %zu is %ld, expected %ld", w, i, E::get(*it), x.m[i].v);
      CHECK(tg(x, ADDR), &*it == x.m[i].ad && it.operator->() == x.m[i].ad && it == x.m[i].it, "address", "%s: element %zu moved in storage or its iterator is out of place", w, i);
    }
    CHECK(tg(x), i == n, "forward-short", "%s: traversal ends after %zu of %zu", w, i, n);
    i = 0;
    for (CIt it = k.begin(); !(it == k.end()); ++i) {
      CHECK(tg(x, MODEL | ITER), i < n && E::get(*it) == x.m[i].v && it.operator->() == x.m[i].ad && it == CIt(x.m[i].it), "const-forward", "%s: const traversal, element %zu", w, i);
      if (i >= n) return;
      CIt o = it++; CHECK(tg(x, MODEL | ITER), &*o == x.m[i].ad, "post-incr", "%s", w);
    }
    CHECK(tg(x), i == n && k.cbegin() == k.begin() && k.cend() == k.end(), "const-short", "%s: const traversal", w);
    for (size_t j = 0; j < n; j++) {
      It nx = x.m[j].it; It o = nx++;
      CHECK(tg(x, ADDR | ITER), o == x.m[j].it && (j + 1 < n ? nx == x.m[j + 1].it : nx == c.end()), "held-next", "%s: successor of a held iterator (element %zu of %zu)", w, j, n);
      CHECK(tg(x, ADDR), E::get(*x.m[j].ad) == x.m[j].v, "held-value", "%s: element %zu through its address", w, j);
    }
    if (n) CHECK(tg(x), E::get(c.front()) == x.m[0].v && E::get(k.front()) == x.m[0].v && &c.front() == x.m[0].ad, "front", "%s: front", w);
    state(5, n > 40 ? 40 : n, S().hist % 7);
  }
  void observe_all(const char* w)
  {
    size_t t = 0; for (auto& x : s) { observe(x, w); t += x.m.size(); }
    if (trk) live_is(t, w);
  }
  void rebuild(Slot& x, const std::vector<Ent>& src)
  {
    std::vector<Ent> m; size_t i = 0; It it = x.c->begin();
    for (; i < src.size() && it != x.c->end(); ++i, ++it) m.push_back({ src[i].v, it, &*it });
    CHECK(tg(x), i == src.size(), "copy-short", "a copy has %zu of %zu elements", i, src.size());
    x.m = m;
  }
  // the iterator before position i
  It before(Slot& x, size_t i) { return i == 0 ? x.c->before_begin() : x.m[i - 1].it; }

  void run(long)
  {
    for (int i = 0; i < 3; i++) s.push_back(Slot{ new C(), {} });
    long nops = R.range(20, 150); size_t limit = R.chance(1, 6) ? 120 : 14;
    for (long kk = 0; kk < nops; kk++) {
      Slot& x = s[R.below(3)]; Slot& y = s[R.below(3)]; C& c = *x.c;
      size_t n = x.m.size(), p = R.chance(1, 4) ? 0 : R.chance(1, 3) ? n : R.below(n + 1);
      long e = next_val(); long id = &x - &s[0];
      auto ins = [&](size_t at, It it, long v) { x.m.insert(x.m.begin() + at, Ent{ v, it, &*it }); };
      switch (n < limit ? R.below(19) : 6 + R.below(13)) {
        case 0: case 1: { op("push_front", id, e); if (R.chance(1, 2)) c.push_front(E::make(e)); else { const T t = E::make(e); c.push_front(t); } ins(0, c.begin(), e); break; }
        case 2: case 3: case 4: case 5: { op("insert_after", id, p, e); It r = c.end();
          if (R.chance(1, 2)) r = c.insert_after(CIt(before(x, p)), E::make(e)); else { const T t = E::make(e); r = c.insert_after(CIt(before(x, p)), t); }
          CHECK(tg(x, MODEL | ITER), E::get(*r) == e, "insert-return", "insert_after returned an iterator to %ld, not %ld", E::get(*r), e); ins(p, r, e); break; }
        case 6: if (n) { op("pop_front", id); c.pop_front(); x.m.erase(x.m.begin()); } break;
        case 7: case 8: case 9: if (n) { if (p == n) --p; op("erase_after", id, p, n); It r = c.erase_after(CIt(before(x, p))); x.m.erase(x.m.begin() + p);
          CHECK(tg(x, MODEL | ITER), p < x.m.size() ? r == x.m[p].it : r == c.end(), "erase-return", "erase_after of element %zu of %zu returned another position", p, n); } break;
        case 10: case 11: { size_t q = p + R.below(n - p + 1); if (R.chance(1, 4)) q = n; op("erase_after_range", id, p, q);
          It last = q < n ? x.m[q].it : c.end(); It r = c.erase_after(CIt(before(x, p)), CIt(last)); x.m.erase(x.m.begin() + p, x.m.begin() + q);
          CHECK(tg(x, MODEL | ITER), r == last, "erase-return", "erase_after(%zu,%zu) did not return last", p, q); break; }
        case 12: if (R.chance(1, 3)) { op("clear", id); c.clear(); x.m.clear(); } break;
        case 13: { op("assign", id, &y - &s[0]); x.fl |= COPY; y.fl |= COPY; flag(COPY); auto m = y.m;
          if (&x == &y) { x.fl |= ALIAS; flag(ALIAS); }
          C& r = (c = *y.c); CHECK(tg(x), &r == &c, "assign-return", "assignment does not return its target"); rebuild(x, m); break; }
        case 14: { op("copy_construct", id, &y - &s[0]); x.fl |= COPY; y.fl |= COPY; flag(COPY); auto m = y.m; C* t = new C(*y.c); delete x.c; x.c = t; rebuild(x, m); break; }
        case 15: { op("swap", id, &y - &s[0]); x.fl |= COPY; y.fl |= COPY; flag(COPY); c.swap(*y.c); std::swap(x.m, y.m); break; }
        case 16: if (n) { size_t i = R.below(n); op("write", id, i); if (i == 0) c.front() = E::make(e); else *x.m[i].it = E::make(e); x.m[i].v = e; } break;
        case 17: if (n && n < limit) { size_t i = R.below(n); op("insert_own", id, p, i); x.fl |= ALIAS; flag(ALIAS); long v = x.m[i].v;
          if (R.chance(1, 3)) { c.push_front(*x.m[i].it); ins(0, c.begin(), v); } else { It r = c.insert_after(CIt(before(x, p)), *x.m[i].it); ins(p, r, v); } } break;
        default: if (&x != &y) { op("move", id, &y - &s[0]); x.fl |= COPY; y.fl |= COPY; flag(COPY); auto m = y.m;
          if (R.chance(1, 2)) { C* t = new C(std::move(*y.c)); delete x.c; x.c = t; } else *x.c = std::move(*y.c);
          rebuild(x, m); long sum = 0; for (auto& v : *y.c) sum += E::get(v); y.c->clear(); y.m.clear(); y.c->push_front(E::make(e)); y.m.push_back({ e, y.c->begin(), &y.c->front() }); } break;
      }
      if (n < 30 || kk % 3 == 0) observe_all(S().ring[(S().nops - 1) % 4096].op);
    }
    while (!s.empty()) { size_t i = R.below(s.size()); op("destroy", i); delete s[i].c; s.erase(s.begin() + i); observe_all("destroying another list"); }
    all_gone("destroying all lists");
  }
};

// long lists: nothing may depend on the call stack's depth or be quadratic in traversal
template <class C> void longlist(bool fl)
{
  C* c = new C; size_t n = 20000 + R.below(20000); op("long", n);
  for (size_t i = 0; i < n; i++) c->push_front((int)i);
  size_t k = 0; for (auto& v : *c) { CHECK(MODEL, v == (int)(n - 1 - k), "long", "element %zu", k); if (++k > n) break; }
  CHECK(MODEL, k == n, "long", "traversal visited %zu of %zu", k, n);
  { C d(*c); C e; e = d; k = 0; for (auto& v : e) { CHECK(MODEL | COPY, v == (int)(n - 1 - k), "long-copy", "element %zu", k); if (++k > n) break; } CHECK(MODEL | COPY, k == n, "long-copy", "copy has %zu of %zu", k, n); }
  if (R.chance(1, 2)) { c->clear(); CHECK(MODEL, c->empty(), "clear", "not empty after clear"); }
  delete c;
}

template <class Wk> void go() { run_cases([](long i) { Wk w; w.run(i); }); }

int main(int argc, char** argv)
{
  init(argc, argv, "w_list");
  std::string c = S().config;
#ifndef PART
#define PART 0
#endif
#if PART == 0
  if (c == "trk") go<WL<Trk, MonAlloc<Trk>>>();
  if (c == "int") go<WL<int, std::allocator<int>>>();
  if (c == "string") go<WL<std::string, std::allocator<std::string>>>();
  if (c == "al64") go<WL<Al64, MonAlloc<Al64>>>();
  if (c == "nodef") go<WL<NoDef, MonAlloc<NoDef>>>();
  if (c == "long") run_cases([](long i) { longlist<cest::list<int>>(false); });
#else
  if (c == "ftrk") go<WF<Trk, MonAlloc<Trk>>>();
  if (c == "fint") go<WF<int, std::allocator<int>>>();
  if (c == "fstring") go<WF<std::string, std::allocator<std::string>>>();
  if (c == "fal64") go<WF<Al64, MonAlloc<Al64>>>();
  if (c == "fnodef") go<WF<NoDef, MonAlloc<NoDef>>>();
  if (c == "flong") run_cases([](long i) { longlist<cest::forward_list<int>>(true); });
#endif
  return 3;
}
