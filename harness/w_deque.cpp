// deque: lockstep, block boundaries, element addresses, iterators
#include <stdexcept>
#include "cest/deque.hpp"
#include "elems.hpp"
#include <deque>
using namespace mon;

template <class T, class Al> struct W {
  using D = cest::deque<T, Al>;
  using E = El<T>;
  struct Slot { D* d; std::deque<long> m; std::deque<const T*> ad; unsigned fl = 0; };
  std::vector<Slot> s;
  static constexpr bool trk = E::tracked;
  unsigned tg(const Slot& x, unsigned t = MODEL) const { return t | x.fl; }

  void quick(Slot& x, const char* w)
  {
    D& d = *x.d; const D& c = d; size_t n = x.m.size();
    CHECK(tg(x), d.size() == n, "size", "%s: size %zu, expected %zu", w, d.size(), n);
    CHECK(tg(x), d.empty() == (n == 0), "empty", "%s: empty() at size %zu", w, n);
    CHECK(tg(x, MODEL | ITER), d.end() - d.begin() == (long)n && c.end() - c.begin() == (long)n && c.cend() - c.cbegin() == (long)n,
          "iter-distance", "%s: end-begin is %td at size %zu", w, d.end() - d.begin(), n);
    CHECK(tg(x, MODEL | ITER | CMP), (d.begin() == d.end()) == (n == 0) && (c.begin() == c.end()) == (n == 0), "begin-end", "%s: begin==end at size %zu", w, n);
    if (!n) return;
    CHECK(tg(x), E::get(d.front()) == x.m.front() && E::get(c.front()) == x.m.front(), "front", "%s: front is %ld, expected %ld (size %zu)", w, E::get(d.front()), x.m.front(), n);
    CHECK(tg(x), E::get(d.back()) == x.m.back() && E::get(c.back()) == x.m.back(), "back", "%s: back is %ld, expected %ld (size %zu)", w, E::get(d.back()), x.m.back(), n);
    CHECK(tg(x, MODEL | ITER), E::get(*d.begin()) == x.m.front() && E::get(*c.begin()) == x.m.front() && E::get(*c.cbegin()) == x.m.front(), "begin", "%s: *begin", w);
    auto e = d.end(); --e; auto ce = c.end(); ce--; auto c2 = c.cend(); --c2;
    CHECK(tg(x, MODEL | ITER), E::get(*e) == x.m.back() && E::get(*ce) == x.m.back() && E::get(*c2) == x.m.back(), "end", "%s: *--end", w);
    CHECK(tg(x, ADDR), &d.front() == x.ad.front() && &d.back() == x.ad.back(), "address", "%s: front or back element moved in storage", w);
    for (int k = 0; k < 6; k++) {
      size_t i = k == 4 ? 0 : k == 5 ? n - 1 : R.below(n);
      CHECK(tg(x), E::get(d[i]) == x.m[i] && E::get(c[i]) == x.m[i], "index", "%s: [%zu] is %ld, expected %ld (size %zu)", w, i, E::get(d[i]), x.m[i], n);
      CHECK(tg(x, ADDR), &d[i] == x.ad[i], "address", "%s: element %zu moved in storage", w, i);
      CHECK(tg(x, MODEL | ITER), E::get(*(d.begin() + i)) == x.m[i] && E::get(c.begin()[i]) == x.m[i] && E::get(*(d.end() - (long)(n - i))) == x.m[i],
            "iter-arith", "%s: begin+%zu or end-%zu", w, i, n - i);
    }
    state(2, n > 40 ? 40 + n / 37 : n, ((uintptr_t)&d.front() / sizeof(T)) % 16);
  }

  // every single step, forwards and backwards: the old and the new position that a step yields both stay usable for arithmetic
  template <class Q> void steps(Slot& x, Q& d, size_t n, const char* w)
  {
    auto b = d.begin(), e = d.end(), it = b; long m = n;
    for (long i = 0; i < m; i++) {
      auto old = it++;
      CHECK(tg(x, MODEL | ITER), old - b == i && it - b == i + 1 && old + 1 == it && e - old == m - i && old < it && E::get(*old) == x.m[i] && &old[0] == &d[i], "step", "%s: post-increment at %ld of %ld", w, i, m);
      if (i % 16 == 0) CHECK(tg(x, MODEL | ITER), &old[m - 1 - i] == &d[m - 1] && &it[-1 - i] == &d[0], "step-far", "%s: reaching both ends from %ld of %ld", w, i, m);
    }
    for (long i = m; i > 0; i--) {
      auto old = it--;
      CHECK(tg(x, MODEL | ITER), old - b == i && it - b == i - 1 && it + 1 == old && e - old == m - i && it < old && E::get(*it) == x.m[i - 1] && &old[-1] == &d[i - 1] && &it[0] == &d[i - 1], "step", "%s: post-decrement at %ld of %ld", w, i, m);
    }
    auto f = b; for (long i = 0; i < m; i++) { auto& r = ++f; CHECK(tg(x, MODEL | ITER), &r == &f && f - b == i + 1 && e - f == m - i - 1, "step", "%s: pre-increment at %ld of %ld", w, i, m); }
    for (long i = m; i > 0; i--) { auto& r = --f; CHECK(tg(x, MODEL | ITER), &r == &f && f - b == i - 1 && f + (m - i + 1) == e, "step", "%s: pre-decrement at %ld of %ld", w, i, m); }
  }

  void full(Slot& x, const char* w)
  {
    quick(x, w);
    D& d = *x.d; const D& c = d; size_t n = x.m.size(), i = 0;
    for (auto it = d.begin(); it != d.end(); ++it, ++i) {
      CHECK(tg(x, MODEL | ITER), i < n && E::get(*it) == x.m[i] && &*it == &d[i], "forward", "%s: forward traversal, element %zu of %zu is %ld, expected %ld", w, i, n, E::get(*it), x.m[i]);
      if (i >= n) return;
    }
    CHECK(tg(x, MODEL | ITER), i == n, "forward-count", "%s: forward traversal visited %zu of %zu", w, i, n);
    i = 0;
    for (auto it = c.begin(); !(it == c.end()); it++, ++i) {
      CHECK(tg(x, MODEL | ITER), i < n && E::get(*it) == x.m[i], "const-forward", "%s: const traversal, element %zu", w, i);
      if (i >= n) return;
    }
    CHECK(tg(x, MODEL | ITER), i == n, "const-forward-count", "%s: const traversal visited %zu of %zu", w, i, n);
    i = n;
    for (auto it = d.end(); it != d.begin();) {
      if (R.chance(1, 2)) --it; else it--;
      CHECK(tg(x, MODEL | ITER), i > 0 && E::get(*it) == x.m[i - 1], "backward", "%s: backward traversal, element %zu", w, i);
      if (!i) return; --i;
    }
    CHECK(tg(x, MODEL | ITER), i == 0, "backward-count", "%s: backward traversal left %zu", w, i);
    i = n;
    for (auto it = c.cend(); it != c.cbegin();) {
      --it; CHECK(tg(x, MODEL | ITER), i > 0 && E::get(*it) == x.m[i - 1], "const-backward", "%s: const backward traversal, element %zu", w, i);
      if (!i) return; --i;
    }
    steps(x, d, n, w); steps(x, c, n, w);
    i = n;
    for (auto it = std::make_reverse_iterator(d.end()); it != std::make_reverse_iterator(d.begin()); ++it) {
      CHECK(tg(x, MODEL | ITER), i > 0 && E::get(*it) == x.m[i - 1], "reverse", "%s: reverse traversal, element %zu", w, i);
      if (!i) return; --i;
    }
    for (i = 0; i < n; i++) {
      CHECK(tg(x), E::get(d[i]) == x.m[i] && E::get(c[i]) == x.m[i], "index", "%s: [%zu] is %ld, expected %ld (size %zu)", w, i, E::get(d[i]), x.m[i], n);
      CHECK(tg(x, ADDR), &d[i] == x.ad[i], "address", "%s: element %zu of %zu moved in storage", w, i, n);
    }
    // iterator arithmetic between random positions
    for (int k = 0; k < 8 && n; k++) {
      long a = R.below(n + 1), b = R.below(n + 1);
      auto ia = d.begin(), ib = d.begin(); ia += a; ib = ib + b;
      typename D::const_iterator ca = ia, cb = c.begin(); cb += b;
      CHECK(tg(x, MODEL | ITER), ia - ib == a - b && ca - cb == a - b && (ia == ib) == (a == b) && (ca == cb) == (a == b) && (ia != ib) == (a != b),
            "iter-diff", "%s: positions %ld and %ld differ by %td", w, a, b, ia - ib);
      CHECK(tg(x, MODEL | ITER), (ia < ib) == (a < b) && (ia > ib) == (a > b) && (ia <= ib) == (a <= b) && (ia >= ib) == (a >= b)
            && (ca < cb) == (a < b) && (ca >= cb) == (a >= b), "iter-order", "%s: order of positions %ld and %ld", w, a, b);
      CHECK(tg(x, MODEL | ITER | CMP), ca == typename D::const_iterator(ia), "const-conv", "%s: converted iterator differs", w);
      auto j = ib; j += a - b; auto cj = ca; cj -= a - b;
      CHECK(tg(x, MODEL | ITER), j == ia && cj == cb && (a - b) + ib == ia && ca - (a - b) == cb, "iter-jump", "%s: jump from %ld to %ld", w, b, a);
      if (a < (long)n) CHECK(tg(x, MODEL | ITER), E::get(ib[a - b]) == x.m[a] && E::get(cb[a - b]) == x.m[a] && &*ia == &d[a] && ia.operator->() == &d[a], "iter-index", "%s: it[%ld] from %ld", w, a - b, b);
      if (a < (long)n) { auto q = ia; auto old = q++; CHECK(tg(x, MODEL | ITER), old == ia && q - ia == 1 && --q == ia, "post-incr", "%s: ++/-- at %ld", w, a); }
    }
    count("full_traversals");
  }

  void live(const char* w) { size_t t = 0; for (auto& x : s) t += x.m.size(); if (trk) live_is(t, w); }

  void push(Slot& x, bool back, int how)
  {
    long e = next_val(); D& d = *x.d; size_t n = x.m.size();
    if (how == 2 && n && E::copyable) {
      if constexpr (E::copyable) {
        size_t i = R.chance(1, 3) ? (R.chance(1, 2) ? 0 : n - 1) : R.below(n);
        x.fl |= ALIAS; flag(ALIAS); e = x.m[i];
        if (back) d.push_back(d[i]); else d.push_front(d[i]);
      }
    } else if (how == 1 || !E::copyable) { if (back) d.push_back(E::make(e)); else d.push_front(E::make(e)); }
    else if constexpr (E::copyable) {
      const T t = E::make(e); if (back) d.push_back(t); else d.push_front(t);
      CHECK(tg(x), E::get(t) == e, "arg-changed", "push changed its const argument");
    }
    if (back) { x.m.push_back(e); x.ad.push_back(&d.back()); } else { x.m.push_front(e); x.ad.push_front(&d.front()); }
  }
  void pop(Slot& x, bool back)
  {
    if (x.m.empty()) return;
    if (back) { x.d->pop_back(); x.m.pop_back(); x.ad.pop_back(); } else { x.d->pop_front(); x.m.pop_front(); x.ad.pop_front(); }
  }
  void readdr(Slot& x) { x.ad.clear(); for (size_t i = 0; i < x.m.size() && i < x.d->size(); i++) x.ad.push_back(&(*x.d)[i]); }

  // pushes and pops in phases, so that the ends cross block boundaries in all ways
  void run(long idx)
  {
    int ns = idx % 3 == 0 ? 1 : 2;
    for (int i = 0; i < ns; i++) s.push_back(Slot{ new D(), {}, {} });
    size_t limit = R.chance(1, 4) ? 60 : R.chance(1, 2) ? 1400 : 4500;
    int phases = R.range(4, 12);
    for (int p = 0; p < phases; p++) {
      Slot& x = s[R.below(s.size())]; Slot& y = s[R.below(s.size())];
      size_t n = x.m.size();
      int what = R.below(12);
      if (what < 9) {
        // weights of push_back, push_front, pop_back, pop_front
        static const int mixes[][4] = { {9,1,1,0},{1,9,0,1},{1,0,9,1},{0,1,1,9},{5,0,0,5},{0,5,5,0},{5,5,1,1},{1,1,5,5},{3,3,3,3},{10,0,0,0},{0,10,0,0},{6,0,0,4},{0,6,4,0} };
        const int* mx = mixes[R.below(13)];
        long steps = R.chance(1, 3) ? R.range(1, 40) : R.range(1, (long)limit);
        if (R.chance(1, 3)) { // aim at a block edge
          static const int edges[] = { 508, 510, 511, 512, 513, 514, 1022, 1023, 1024, 1025, 1026, 1534, 1535, 1536, 1537, 2047, 2048, 2049, 2559, 2560 };
          steps = edges[R.below(20)];
        }
        op("phase", &x - &s[0], mx - mixes[0], steps);
        int tot = mx[0] + mx[1] + mx[2] + mx[3];
        for (long k = 0; k < steps; k++) {
          int r = R.below(tot); int how = R.below(8) == 0 ? 2 : R.below(2);
          n = x.m.size();
          const char* w;
          if (r < mx[0]) { if (n < limit) push(x, true, how); w = "push_back"; }
          else if (r < mx[0] + mx[1]) { if (n < limit) push(x, false, how); w = "push_front"; }
          else if (r < mx[0] + mx[1] + mx[2]) { pop(x, true); w = "pop_back"; }
          else { pop(x, false); w = "pop_front"; }
          S().ops++;
          if (k % 7 == 0 || steps - k < 12 || steps < 60) quick(x, w);
          if (trk && k % 64 == 0) live(w);
        }
        full(x, "after a phase");
      } else switch (what * 10 + R.below(5)) {
        case 90: case 91: op("clear", &x - &s[0]); x.d->clear(); x.m.clear(); x.ad.clear(); full(x, "clear"); break;
        case 92: case 93: case 94: if constexpr (E::copyable) {
          op("assign", &x - &s[0], &y - &s[0]); x.fl |= COPY; y.fl |= COPY; flag(COPY);
          D& r = (*x.d = *y.d); CHECK(tg(x), &r == x.d, "assign-return", "assignment does not return its target");
          if (&x != &y) { x.m = y.m; readdr(x); } full(x, "assign"); full(y, "assigned from");
          } break;
        case 100: case 101: if constexpr (E::copyable) {
          op("copy_construct", &x - &s[0], &y - &s[0]); x.fl |= COPY; y.fl |= COPY; flag(COPY);
          D* t = new D(*y.d); delete x.d; x.d = t; x.m = y.m; readdr(x); if (&x != &y) full(y, "copied from"); full(x, "copy");
          } break;
        case 102: case 103: if constexpr (E::copyable) {
          op("move", &x - &s[0], &y - &s[0]); x.fl |= COPY; y.fl |= COPY; flag(COPY);
          if (&x != &y) {
            if (R.chance(1, 2)) { D* t = new D(std::move(*y.d)); delete x.d; x.d = t; } else *x.d = std::move(*y.d);
            x.m = y.m; readdr(x); full(x, "move");
            size_t k = y.d->size(); long sum = 0; for (size_t i = 0; i < k; i++) sum += E::get((*y.d)[i]);
            y.d->clear(); y.m.clear(); y.ad.clear(); push(y, true, 1); push(y, false, 1); full(y, "moved from");
          }
          } break;
        case 104: if constexpr (E::copyable) {
          long a = next_val(), b = next_val(); op("init_list", &x - &s[0]);
          D* t = new D{ E::make(a), E::make(b), E::make(a) }; delete x.d; x.d = t; x.m = { a, b, a }; readdr(x); full(x, "init_list");
          } break;
        case 110: if constexpr (E::copyable) { using std::swap; if (&x != &y) { op("std_swap"); x.fl |= COPY; y.fl |= COPY; flag(COPY);
          swap(*x.d, *y.d); std::swap(x.m, y.m); readdr(x); readdr(y); full(x, "swap"); full(y, "swap"); } } break;
        default: if (n) for (int k = 0; k < 12; k++) {
          size_t i = R.below(n); long e = next_val(); T t = E::make(e); op("write", &x - &s[0], i);
          switch (R.below(5)) {
            case 0: (*x.d)[i] = std::move(t); break;
            case 1: *(x.d->begin() + i) = std::move(t); break;
            case 2: x.d->begin()[i] = std::move(t); break;
            case 3: i = 0; x.d->front() = std::move(t); break;
            default: i = n - 1; x.d->back() = std::move(t); break;
          }
          x.m[i] = e; for (auto& z : s) quick(z, "write");
          } break;
      }
      live("a phase");
      for (auto& z : s) if (&z != &x) quick(z, "another deque changed");
    }
    while (!s.empty()) {
      size_t i = R.below(s.size()); op("destroy", i); delete s[i].d; s.erase(s.begin() + i);
      for (auto& z : s) full(z, "destroying another deque");
      live("destroy");
    }
    all_gone("destroying all deques");
  }
};

// the same ends at every offset within a block: a systematic sweep
template <class T> void sweep(long idx)
{
  using D = cest::deque<T, MonAlloc<T>>; using E = El<T>;
  {
    D d; std::deque<long> m; op("sweep", idx);
    auto cmp = [&](const char* w) {
      const D& c = d;
      CHECK(MODEL, d.size() == m.size(), "size", "%s: size %zu expected %zu", w, d.size(), m.size());
      if (m.empty()) { CHECK(MODEL | ITER, d.begin() == d.end() && c.end() - c.begin() == 0, "begin-end", "%s", w); return; }
      CHECK(MODEL, E::get(d.front()) == m.front() && E::get(d.back()) == m.back() && E::get(c[m.size() - 1]) == m.back() && E::get(c[0]) == m.front(), "ends", "%s: ends at size %zu", w, m.size());
      auto e = c.end(); CHECK(MODEL | ITER, e - c.begin() == (long)m.size(), "iter-distance", "%s: end-begin %td size %zu", w, e - c.begin(), m.size());
      --e; CHECK(MODEL | ITER, E::get(*e) == m.back() && E::get(*c.begin()) == m.front(), "begin-end", "%s", w);
    };
    auto all = [&](const char* w) {
      size_t i = 0; for (auto& v : d) { CHECK(MODEL | ITER, i < m.size() && E::get(v) == m[i], "forward", "%s: element %zu of %zu", w, i, m.size()); if (++i > m.size()) return; }
      CHECK(MODEL | ITER, i == m.size(), "forward-count", "%s: %zu of %zu", w, i, m.size());
    };
    bool back = idx & 1; long v = 0;
    long shift = (idx / 2) * 37 % 1500;
    for (long i = 0; i < shift; i++) { if (back) { d.push_back(E::make(v)); m.push_back(v); } else { d.push_front(E::make(v)); m.push_front(v); } v++; }
    all("shifted");
    // drain from the other end to empty, then refill both ways over two blocks
    while (!m.empty()) { if (back) { d.pop_front(); m.pop_front(); } else { d.pop_back(); m.pop_back(); } cmp("drain"); }
    for (long i = 0; i < 1100; i++) { if (back) { d.push_front(E::make(v)); m.push_front(v); } else { d.push_back(E::make(v)); m.push_back(v); } v++; cmp("refill"); }
    all("refilled");
    for (long i = 0; i < 1100; i++) { if (i & 1) { d.push_front(E::make(v)); m.push_front(v); } else { d.push_back(E::make(v)); m.push_back(v); } v++; cmp("both"); }
    all("both");
    { D c(d); D e; e = d; CHECK(MODEL | COPY, c.size() == m.size() && e.size() == m.size(), "copy-size", "copy has %zu of %zu", c.size(), m.size());
      for (size_t i = 0; i < m.size(); i++) CHECK(MODEL | COPY, E::get(c[i]) == m[i] && E::get(e[i]) == m[i], "copy", "element %zu of a copy", i); }
    while (!m.empty()) { if (back ^ (m.size() % 3 == 0)) { d.pop_back(); m.pop_back(); } else { d.pop_front(); m.pop_front(); } cmp("drain2"); }
    d.clear(); all("clear"); d.push_front(E::make(1)); m.push_front(1); d.push_back(E::make(2)); m.push_back(2); all("after clear"); cmp("after clear");
    state(3, shift, back);
  }
  all_gone("sweep");
}

template <class T, class Al> void go() { run_cases([](long i) { W<T, Al> w; w.run(i); }); }
void stateful()
{
  { using D = cest::deque<Trk, MonAlloc<Trk>>;
    D d({ Trk(1), Trk(2) }, MonAlloc<Trk>(9)); op("stateful");
    bool own = false, other = false;
    for (auto& [p, b] : A().out) { own |= b.id == 9; other |= b.id != 9; }
    CHECK(ALLOC, own && !other, "allocator-ignored", "a deque given an allocator obtained storage elsewhere");
    D e; e = d; for (int i = 0; i < 2000; i++) { d.push_back(Trk(i)); e.push_front(Trk(i)); } d = e; live_is(d.size() + e.size(), "stateful"); }
  all_gone("stateful deques");
}

int main(int argc, char** argv)
{
  init(argc, argv, "w_deque");
  std::string c = S().config;
#ifndef PART
#define PART 0
#endif
#if PART == 0
  if (c == "trk") go<Trk, MonAlloc<Trk>>();
  if (c == "int") go<int, std::allocator<int>>();
  if (c == "sweep") run_cases([](long i) { sweep<int>(R.below(3000)); });
  if (c == "stateful") run_cases([](long) { stateful(); });
#else
  if (c == "string") go<std::string, std::allocator<std::string>>();
  if (c == "big") go<Big, MonAlloc<Big>>();
  if (c == "al64") go<Al64, MonAlloc<Al64>>();
  if (c == "mo") go<Mo, std::allocator<Mo>>();
  if (c == "sweeptrk") run_cases([](long i) { sweep<Trk>(R.below(3000)); });
#endif
  return 3;
}
