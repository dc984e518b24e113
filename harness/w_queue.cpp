// queue: event log of pushes and deliveries, judged by a first-in first-out exactly-once checker
#include <stdexcept>
#include "cest/queue.hpp"
#include "cest/list.hpp"
#include "elems.hpp"
#include <deque>
#include <list>
using namespace mon;

template <class T, class Cont, class StdCont> struct W {
  using Q = cest::queue<T, Cont>; using E = El<T>;
  // the log of one queue: tickets pushed, in order; how many were delivered
  struct Log { std::vector<long> pushed; size_t delivered = 0; size_t size() const { return pushed.size() - delivered; } };
  struct Slot { Q* q; Log g; unsigned fl = 0; };
  std::vector<Slot> s; long ticket = 0;
  static constexpr bool trk = E::tracked;
  unsigned tg(const Slot& x, unsigned t = MODEL | ORDER) const { return t | x.fl; }

  void observe(Slot& x, const char* w)
  {
    Q& q = *x.q; const Q& c = q; size_t n = x.g.size();
    CHECK(tg(x), q.size() == n && c.size() == n, "size", "%s: size %zu, pushes minus pops is %zu", w, q.size(), n);
    CHECK(tg(x), q.empty() == (n == 0) && c.empty() == (n == 0), "empty", "%s: empty() at %zu", w, n);
    if (n) {
      long f = x.g.pushed[x.g.delivered], b = x.g.pushed.back();
      CHECK(tg(x), E::get(q.front()) == f && E::get(c.front()) == f, "front", "%s: front is ticket %ld, oldest undelivered is %ld", w, E::get(q.front()), f);
      CHECK(tg(x), E::get(q.back()) == b && E::get(c.back()) == b, "back", "%s: back is ticket %ld, newest is %ld", w, E::get(q.back()), b);
    }
    state(10, n > 64 ? 64 + n / 61 : n, x.g.delivered % 1024 / 16);
  }
  void push(Slot& x)
  {
    long t = ++ticket; Q& q = *x.q;
    switch (E::copyable ? R.below(3) : 0) {
      case 0: q.push(E::make(t)); break;
      case 1: if constexpr (E::copyable) { const T v = E::make(t); q.push(v); CHECK(tg(x), E::get(v) == t, "arg-changed", "push changed its const argument"); } break;
      default: if constexpr (E::copyable) { if (x.g.size()) { bool f = R.chance(1, 2); t = f ? E::get(q.front()) : E::get(q.back()); x.fl |= ALIAS; flag(ALIAS); q.push(f ? q.front() : q.back()); } else { T v = E::make(t); q.push(std::move(v)); } } break;
    }
    x.g.pushed.push_back(t);
  }
  void pop(Slot& x)
  {
    if (!x.g.size()) return; Q& q = *x.q;
    long got; if (R.chance(1, 3)) { T v = std::move(q.front()); got = E::get(v); } else got = E::get(q.front());
    CHECK(tg(x), got == x.g.pushed[x.g.delivered], "delivery", "delivered ticket %ld, the oldest is %ld", got, x.g.pushed[x.g.delivered]);
    q.pop(); x.g.delivered++; count("delivered");
  }
  void live(const char* w) { size_t t = 0; for (auto& x : s) t += x.g.size(); if (trk) live_is(t, w); }

  void run(long idx)
  {
    int ns = idx % 2 ? 1 : 2; for (int i = 0; i < ns; i++) s.push_back(Slot{ new Q(), {} });
    size_t limit = R.chance(1, 3) ? 40 : 2600;
    for (int ph = R.range(3, 10); ph--;) {
      Slot& x = s[R.below(ns)]; Slot& y = s[R.below(ns)];
      long steps = R.chance(1, 2) ? R.range(1, 60) : R.range(1, limit); int up = R.below(11);
      op("phase", &x - &s[0], up, steps);
      for (long k = 0; k < steps; k++) {
        if ((long)R.below(10) < up) { if (x.g.size() < limit) push(x); } else pop(x);
        S().ops++; if (k % 5 == 0 || steps < 70) observe(x, "phase");
      }
      if (trk) live("phase");
      switch (R.below(8)) {
        case 0: case 1: if constexpr (E::copyable) { op("assign", &x - &s[0], &y - &s[0]); x.fl |= COPY; y.fl |= COPY; flag(COPY); Log g = y.g; *x.q = *y.q; x.g = g; } break;
        case 2: if constexpr (E::copyable) { op("copy", &x - &s[0], &y - &s[0]); x.fl |= COPY; y.fl |= COPY; flag(COPY); Log g = y.g; Q* t = new Q(*y.q); delete x.q; x.q = t; x.g = g; } break;
        case 3: if constexpr (E::copyable) { op("from_container"); Cont c; Log g; for (int i = R.below(30); i--;) { c.push_back(E::make(++ticket)); g.pushed.push_back(ticket); }
          size_t before = c.size(); Q* t = R.chance(1, 2) ? new Q(c) : new Q(Cont(c)); CHECK(MODEL | COPY, c.size() == before, "source-changed", "constructing a queue from a container changed it"); delete x.q; x.q = t; x.g = g; } break;
        case 4: { op("drain", &x - &s[0]); while (x.g.size()) { pop(x); if (x.g.size() % 3 == 0) observe(x, "drain"); } break; }
        case 5: if constexpr (E::copyable) if (ns > 1 && &x != &y) { op("move"); x.fl |= COPY; y.fl |= COPY; flag(COPY); Log g = y.g; *x.q = std::move(*y.q); x.g = g; size_t left = y.q->size(); while (left--) y.q->pop(); y.g = Log(); CHECK(tg(y), y.q->empty(), "moved-from", "a moved-from queue emptied by pops is not empty"); } break;
        default: break;
      }
      for (auto& z : s) observe(z, "after");
      live("after");
    }
    // drain everything: exactly once, in order
    for (auto& z : s) { while (z.g.size()) { pop(z); if (z.g.size() % 7 == 0) observe(z, "final drain"); } CHECK(tg(z), z.q->empty(), "not-drained", "the queue is not empty after all deliveries"); }
    while (!s.empty()) { if (R.chance(1, 2)) for (int i = 0; i < 5; i++) push(s.back()); delete s.back().q; s.pop_back(); live("destroy"); }
    all_gone("destroying all queues");
  }
};
template <class Wk> void go() { run_cases([](long i) { Wk w; w.run(i); }); }
int main(int argc, char** argv)
{
  init(argc, argv, "w_queue");
  std::string c = S().config;
  if (c == "trk") go<W<Trk, cest::deque<Trk, MonAlloc<Trk>>, std::deque<long>>>();
  if (c == "int") go<W<int, cest::deque<int>, std::deque<long>>>();
  if (c == "list") go<W<Trk, cest::list<Trk, MonAlloc<Trk>>, std::list<long>>>();
  if (c == "stdlist") go<W<std::string, std::list<std::string>, std::list<long>>>();
  if (c == "stddeque") go<W<int, std::deque<int>, std::list<long>>>();
  if (c == "string") go<W<std::string, cest::deque<std::string>, std::list<long>>>();
  if (c == "mo") go<W<Mo, cest::deque<Mo>, std::list<long>>>();
  return 3;
}
