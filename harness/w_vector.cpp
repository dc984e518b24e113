// vector: lockstep with std::vector, lifetime, storage, addresses, capacity, copies, aliases
#include <stdexcept>
#include "cest/vector.hpp"
#include "elems.hpp"
using namespace mon;

template <class T, class Al> struct W {
  using V = cest::vector<T, Al>;
  using E = El<T>;
  struct Slot { V* v; std::vector<long> m; unsigned fl = 0; bool unknown = false; };
  std::vector<Slot> s;

  static constexpr bool trk = E::tracked;

  unsigned tg(const Slot& x, unsigned t = MODEL) const { return t | x.fl; }

  void observe(Slot& x, const char* where)
  {
    V& v = *x.v; const V& cv = v;
    size_t n = x.m.size();
    CHECK(tg(x), v.size() == n, "size", "%s: size %zu, expected %zu", where, v.size(), n);
    if (v.size() != n) return;
    CHECK(tg(x), v.empty() == x.m.empty(), "empty", "%s: empty() is %d at size %zu", where, v.empty(), n);
    CHECK(tg(x, MODEL | CAP), v.capacity() >= n, "capacity", "%s: capacity %zu below size %zu", where, v.capacity(), n);
    CHECK(tg(x, MODEL | ITER), (size_t)(v.end() - v.begin()) == n && (size_t)(cv.end() - cv.begin()) == n
          && (size_t)(v.cend() - v.cbegin()) == n, "iter-distance", "%s: end-begin is not the size", where);
    CHECK(tg(x, MODEL | ITER), (size_t)(v.rend() - v.rbegin()) == n && (size_t)(cv.rend() - cv.rbegin()) == n, "riter-distance", "%s: rend-rbegin is not the size", where);
    typename V::const_iterator ci = v.begin();
    CHECK(tg(x, MODEL | ITER | CMP), ci == cv.begin() && cv.begin() == v.begin() && cv.cend() == v.end(), "const-conv", "%s: const and mutable iterators differ", where);
    size_t step = n > 300 ? 1 + n / 200 : 1;
    for (size_t i = 0; i < n; i += step) {
      long e = x.m[i];
      CHECK(tg(x), E::get(v[i]) == e, "index", "%s: [%zu] is %ld, expected %ld", where, i, E::get(v[i]), e);
      CHECK(tg(x), E::get(cv[i]) == e && E::get(cv.at(i)) == e && E::get(v.at(i)) == e, "at", "%s: at(%zu) differs", where, i);
      CHECK(tg(x), E::get(v.data()[i]) == e && E::get(cv.data()[i]) == e, "data", "%s: data()[%zu] differs", where, i);
      CHECK(tg(x, MODEL | ITER), E::get(*(v.begin() + i)) == e && E::get(*(cv.begin() + i)) == e
            && E::get(*(v.cbegin() + i)) == e, "iter", "%s: begin()[%zu] differs", where, i);
      CHECK(tg(x, MODEL | ITER), E::get(*(v.rbegin() + (n - 1 - i))) == e && E::get(*(cv.rbegin() + (n - 1 - i))) == e, "riter", "%s: rbegin()[%zu] differs", where, n - 1 - i);
    }
    if (n) {
      CHECK(tg(x), E::get(v.front()) == x.m.front() && E::get(cv.front()) == x.m.front(), "front", "%s: front", where);
      CHECK(tg(x), E::get(v.back()) == x.m.back() && E::get(cv.back()) == x.m.back(), "back", "%s: back", where);
    }
    if (R.chance(1, 4)) {
      size_t bad = n + R.skew(5); if (R.chance(1, 8)) bad = (size_t)-1 - R.below(3);
      for (int k = 0; k < 2; k++) {
        bool thrown = false;
        try { if (k) (void)v.at(bad); else (void)cv.at(bad); } catch (const std::out_of_range&) { thrown = true; }
        CHECK(tg(x), thrown, "at-range", "%s: at(%zu) did not throw out_of_range at size %zu", where, bad, n);
      }
      CHECK(tg(x), v.size() == n, "at-changes", "%s: at out of range changed the size", where);
    }
    state(1, n > 64 ? 64 + n / 64 : n, v.capacity() > 256 ? 256 : v.capacity(), v.capacity() == n);
  }

  void observe_all(const char* where)
  {
    size_t total = 0;
    for (auto& x : s) { if (!x.unknown) observe(x, where); total += x.v->size(); }
    if (trk) live_is(total, where);
  }

  // what the source of a move holds is unspecified: it must be usable
  void settle(Slot& x)
  {
    size_t n = x.v->size();
    long sum = 0;
    for (size_t i = 0; i < n; i++) sum += E::get((*x.v)[i]);
    count("moved_from_elements_read", n + (sum == 42));
    switch (R.below(3)) {
      case 0: x.v->clear(); x.m.clear(); break;
      case 1: if constexpr (E::copyable) { x.v->clear(); long e = next_val(); x.v->push_back(E::make(e)); x.m = { e }; break; }
        [[fallthrough]];
      default: x.m.clear(); for (size_t i = 0; i < n; i++) x.m.push_back(E::get((*x.v)[i])); break;
    }
    x.unknown = false;
  }

  void push(Slot& x, long e, int how)
  {
    if (how == 0) {
      if constexpr (E::copyable) {
        const T t = E::make(e); x.v->push_back(t);
        CHECK(tg(x), E::get(t) == e, "arg-changed", "push_back changed its const argument");
      } else x.v->push_back(E::make(e));
    }
    else x.v->push_back(E::make(e));
    x.m.push_back(e);
  }

  void run(long)
  {
    int nslots = 3;
    for (int i = 0; i < nslots; i++) s.push_back(Slot{ new V(), {} });
    long nops = R.range(20, 160);
    size_t limit = R.chance(1, 8) ? 400 : R.chance(1, 2) ? 12 : 40;
    for (long k = 0; k < nops; k++) {
      Slot& x = s[R.below(s.size())];
      Slot& y = s[R.below(s.size())];
      if (x.unknown) settle(x);
      if (y.unknown) settle(y);
      V& v = *x.v;
      size_t n = x.m.size(), cap = v.capacity();
      const T* d = v.data();
      bool keep = false;       // the operation must not relocate if it fits
      bool noshrink = false;
      size_t need = 0, kept = n; // elements [0,kept) keep their place
      switch (R.below(24)) {
        case 0: case 1: case 2: case 3: {
          long e = next_val(); int how = R.below(2); op("push_back", &x - &s[0], e, how);
          if (n < limit) { push(x, e, how); keep = noshrink = true; need = n + 1; }
          break; }
        case 4: if (n && n < limit) { if constexpr (E::copyable) {
          size_t i = R.below(n); op("push_back_own", &x - &s[0], i);
          if (R.chance(1, 2)) i = R.chance(1, 2) ? 0 : n - 1;
          x.fl |= ALIAS; flag(ALIAS);
          long e = x.m[i]; v.push_back(v[i]); x.m.push_back(e); keep = noshrink = true; need = n + 1;
          } } break;
        case 5: if (n) { op("pop_back", &x - &s[0]); v.pop_back(); x.m.pop_back(); keep = noshrink = true; kept = n - 1; } break;
        case 6: case 7: {
          size_t a = R.below(n + 1), b = R.chance(1, 5) ? n : a + R.below(n - a + 1);
          if (R.chance(1, 8)) b = a;
          op("erase", &x - &s[0], a, b);
          {
          auto it = v.erase(v.begin() + a, v.begin() + b);
          x.m.erase(x.m.begin() + a, x.m.begin() + b);
          CHECK(tg(x, MODEL | ITER), it == v.begin() + a, "erase-return", "erase(%zu,%zu) returned position %td", a, b, it - v.begin());
          keep = noshrink = true; kept = a;
          }
          break; }
        case 8: if (R.chance(1, 3)) { op("clear", &x - &s[0]); v.clear(); x.m.clear(); noshrink = true; } break;
        case 9: case 10: if constexpr (E::defcon) {
          size_t c = R.chance(1, 3) ? R.below(cap + 1) : R.below(limit + 1);
          op("resize", &x - &s[0], c); v.resize(c);
          if (c <= n) x.m.resize(c); else x.m.resize(c, 0);
          keep = noshrink = true; need = c; kept = std::min(n, c);
          } break;
        case 11: { size_t c = R.chance(1, 2) ? R.below(cap + 2) : R.below(limit + 5);
          op("reserve", &x - &s[0], c); v.reserve(c); keep = noshrink = true; need = c;
          CHECK(tg(x, MODEL | CAP), v.capacity() >= c, "reserve", "capacity %zu after reserve(%zu)", v.capacity(), c);
          break; }
        case 12: case 13: if constexpr (E::copyable) {
          op("assign", &x - &s[0], &y - &s[0]);
          V& r = (v = *y.v); CHECK(tg(x), &r == &v, "assign-return", "assignment does not return its target");
          x.m = y.m; x.fl |= COPY; y.fl |= COPY; flag(COPY);
          if (&x == &y) { noshrink = true; flag(ALIAS); x.fl |= ALIAS; }
          } break;
        case 14: if (&x != &y) {
          op("move_assign", &x - &s[0], &y - &s[0]);
          v = std::move(*y.v); x.m = y.m; y.unknown = true; x.fl |= COPY; y.fl |= COPY; flag(COPY);
          } else if (R.chance(1, 4)) {
          op("self_move_assign", &x - &s[0]);
          v = std::move(*y.v); x.unknown = true; x.fl |= COPY; flag(COPY);
          } break;
        case 15: op("swap", &x - &s[0], &y - &s[0]); v.swap(*y.v); std::swap(x.m, y.m);
          x.fl |= COPY; y.fl |= COPY; flag(COPY);
          if (&x == &y) { CHECK(tg(x), v.size() == n, "self-swap", "swap with itself changed the size"); }
          break;
        case 16: if constexpr (E::copyable) {
          op("copy_construct", &x - &s[0], &y - &s[0]);
          V* t = new V(*y.v); delete x.v; x.v = t; x.m = y.m; x.fl |= COPY; y.fl |= COPY; flag(COPY);
          } break;
        case 17: {
          op("move_construct", &x - &s[0], &y - &s[0]);
          if (&x == &y) { V* t = new V(std::move(*x.v)); delete x.v; x.v = t; }
          else { V* t = new V(std::move(*y.v)); delete x.v; x.v = t; x.m = y.m; y.unknown = true; }
          x.fl |= COPY; y.fl |= COPY; flag(COPY);
          break; }
        case 18: if constexpr (E::copyable) {
          long a = next_val(), b = next_val(), c = next_val(); int w = R.below(4);
          op("init_list", &x - &s[0], w);
          if (w == 0) { V t{ E::make(a), E::make(b), E::make(c) }; v = std::move(t); x.m = { a, b, c }; x.fl |= COPY; }
          else if (w == 1) { V* t = new V({ E::make(a) }); delete x.v; x.v = t; x.m = { a }; }
          else if (w == 2) { const V t{ E::make(a), E::make(b), E::make(a), E::make(b), E::make(c) }; v = t; x.m = { a, b, a, b, c }; x.fl |= COPY; flag(COPY); }
          else { V* t = new V(std::initializer_list<T>{}); delete x.v; x.v = t; x.m.clear(); }
          } break;
        case 19: if constexpr (E::defcon && E::copyable) {
          size_t c = R.skew(limit); op("count_construct", &x - &s[0], c);
          V* t = new V(c); delete x.v; x.v = t; x.m.assign(c, 0);
          } break;
        case 20: case 21: if (n) {
          size_t i = R.below(n); long e = next_val(); int w = R.below(7); op("write", &x - &s[0], i, w);
          T t = E::make(e);
          switch (w) {
            case 0: v[i] = std::move(t); break;
            case 1: v.at(i) = std::move(t); break;
            case 2: *(v.begin() + i) = std::move(t); break;
            case 3: v.data()[i] = std::move(t); break;
            case 4: *(v.rbegin() + (n - 1 - i)) = std::move(t); break;
            case 5: i = 0; v.front() = std::move(t); break;
            default: i = n - 1; v.back() = std::move(t); break;
          }
          x.m[i] = e; keep = noshrink = true;
          } break;
        case 22: {
          op("compare", &x - &s[0], &y - &s[0]);
          const V& a = *x.v; const V& b = *y.v;
          bool eq = x.m == y.m;
          CHECK(tg(x, MODEL | CMP) | y.fl, (a == b) == eq && (b == a) == eq, "equal", "== of vectors of sizes %zu and %zu gives %d, expected %d", a.size(), b.size(), (int)(a == b), eq);
          CHECK(tg(x, MODEL | CMP) | y.fl, (a != b) == !eq, "not-equal", "!= disagrees with ==");
          CHECK(tg(x, MODEL | CMP), a == a && !(a != a), "reflexive", "a vector differs from itself");
          break; }
        default: if constexpr (E::copyable) if (n) { // a near-copy: differs in one place, or in length
          op("near_compare", &x - &s[0], &y - &s[0]);
          x.fl |= COPY; flag(COPY);
          V t(*x.v); std::vector<long> tm = x.m;
          size_t i = R.chance(1, 2) ? R.below(n) : R.chance(1, 2) ? 0 : n - 1;
          if (R.chance(2, 3)) { long e = next_val(); t[i] = E::make(e); tm[i] = e; }
          else if (R.chance(1, 2)) { t.pop_back(); tm.pop_back(); }
          bool eq = tm == x.m;
          CHECK(tg(x, MODEL | CMP), (t == *x.v) == eq && (*x.v == t) == eq && (t != *x.v) == !eq, "equal", "== of a vector and its altered copy (index %zu of %zu) gives %d, expected %d", i, n, (int)(t == *x.v), eq);
          } break;
      }
      if (noshrink && !x.unknown)
        CHECK(tg(x, MODEL | CAP | ADDR), x.v->capacity() >= cap, "capacity-shrank", "capacity went from %zu to %zu", cap, x.v->capacity());
      if (keep && need <= cap && kept)
        CHECK(tg(x, ADDR), x.v->data() == d, "relocated", "an operation that fits in capacity %zu (size %zu) moved the elements", cap, n);
      if (nops < 60 || n < 50 || k % 4 == 0) observe_all(S().ring[(S().nops - 1) % 4096].op);
    }
    // destroy in random order, the others must be unaffected
    while (!s.empty()) {
      size_t i = R.below(s.size());
      op("destroy", i);
      delete s[i].v; s.erase(s.begin() + i);
      observe_all("destroying another vector");
    }
    all_gone("destroying all vectors");
  }
};

// appending n elements reallocates O(log n) times, and keeps the order
template <class T> void growth()
{
  using V = cest::vector<T, MonAlloc<T>>;
  V v; size_t n = 1 + R.below(R.chance(1, 3) ? 60000 : 3000), moves = 0, cap = 0;
  op("grow", n);
  unsigned long a0 = A().allocs;
  if (R.chance(1, 3)) { cap = R.below(40); v.reserve(cap); }
  const T* d = v.data();
  for (size_t i = 0; i < n; i++) {
    size_t c = v.capacity(), m = v.size();
    v.push_back(El<T>::make((long)i));
    if (m < c) CHECK(ADDR, v.data() == d, "relocated", "push_back at size %zu capacity %zu moved the elements", m, c);
    if (v.data() != d) { moves++; d = v.data(); }
    CHECK(MODEL | CAP, v.size() == i + 1 && v.capacity() >= i + 1 && v.capacity() >= c, "capacity", "size %zu capacity %zu", v.size(), v.capacity());
  }
  double lg = 1; for (size_t x = n; x; x >>= 1) lg++;
  count("reallocations_seen", A().allocs - a0);
  CHECK(MODEL | CAP | COST, (double)(A().allocs - a0) <= 4 * lg + 20, "growth", "%lu reallocations for %zu appended elements", A().allocs - a0, n);
  for (size_t i = 0; i < n; i++) CHECK(MODEL, El<T>::get(v[i]) == (long)i, "order", "element %zu is %ld", i, El<T>::get(v[i]));
  // shrink and grow again inside the capacity
  size_t cap1 = v.capacity(); d = v.data();
  while (v.size() > n / 2) v.pop_back();
  v.push_back(El<T>::make(5));
  CHECK(MODEL | CAP, v.capacity() >= cap1, "capacity-shrank", "pop_back shrank the capacity");
  CHECK(ADDR, n < 2 || v.data() == d, "relocated", "pop_back/push_back moved the elements");
  v.clear();
  CHECK(MODEL | CAP | ADDR, v.capacity() >= cap1, "capacity-shrank", "clear shrank the capacity");
  if (R.chance(1, 2)) { v.resize(cap1 / 2); v.erase(v.begin(), v.end()); v.resize(cap1); v.resize(0); }
  for (size_t i = 0; i < cap1; i++) v.push_back(El<T>::make((long)i));
  CHECK(ADDR, v.data() == d, "relocated", "refilling a cleared vector up to its capacity %zu moved the elements", cap1);
  state(7, n % 1000);
}

// stateful allocators: storage returns to the allocator it came from
void stateful()
{
  using V = cest::vector<Trk, MonAlloc<Trk>>;
  {
    V a(R.below(5), MonAlloc<Trk>(1)), b({ Trk(1), Trk(2) }, MonAlloc<Trk>(2)), c(R.below(3), MonAlloc<Trk>(3));
    V* all[] = { &a, &b, &c };
    for (int k = 0; k < 30; k++) {
      V& x = *all[R.below(3)]; V& y = *all[R.below(3)];
      switch (R.below(6)) {
        case 0: case 1: op("push", 0); x.push_back(Trk(k)); break;
        case 2: op("assign"); x = y; break;
        case 3: op("swap"); x.swap(y); break;
        case 4: op("reserve"); x.reserve(R.below(30)); break;
        case 5: op("move"); { V t(std::move(x)); x = t; } break;
      }
      live_is(a.size() + b.size() + c.size(), "stateful");
    }
    bool from1 = false;
    { V t(3, MonAlloc<Trk>(7)); for (auto& [p, bl] : A().out) from1 |= bl.id == 7; }
    CHECK(ALLOC, from1, "allocator-ignored", "a vector given an allocator obtained no storage from it");
  }
  all_gone("stateful vectors");
}

template <class T, class Al> void go() { run_cases([](long i) { W<T, Al> w; w.run(i); }); }

int main(int argc, char** argv)
{
  init(argc, argv, "w_vector");
  std::string c = S().config;
#ifndef PART
#define PART 0
#endif
#if PART == 0
  if (c == "trk") go<Trk, MonAlloc<Trk>>();
  if (c == "trkcopy") go<TrkCopy, MonAlloc<TrkCopy>>();
  if (c == "int") go<int, std::allocator<int>>();
  if (c == "growth") run_cases([](long i) { if (i % 3 == 0) growth<Trk>(); else growth<int>(); });
  if (c == "stateful") run_cases([](long) { stateful(); });
#else
  if (c == "string") go<std::string, std::allocator<std::string>>();
  if (c == "big") go<Big, MonAlloc<Big>>();
  if (c == "al64") go<Al64, std::allocator<Al64>>();
  if (c == "nodef") go<NoDef, MonAlloc<NoDef>>();
  if (c == "mo") go<Mo, std::allocator<Mo>>();
#endif
  return 3;
}
