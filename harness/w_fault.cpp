// Failure sweep: every operation on every container state is repeated with its 1st, 2nd, 3rd ... fallible step
// (element construction, copy, throwing move, allocator request, operator new) made to throw, until it runs through.
// After each failure: the exception reached the caller, registries agree with the containers, contents are as promised,
// the containers still work and release everything.
#include "cest/deque.hpp"
#include "cest/forward_list.hpp"
#include "cest/functional.hpp"
#include "cest/cstdio.hpp"
#include "cest/list.hpp"
#include "cest/map.hpp"
#include "cest/memory.hpp"
#include "cest/queue.hpp"
#include "cest/set.hpp"
#include "cest/sstream.hpp"
#include "cest/string.hpp"
#include "cest/vector.hpp"
#include "elems.hpp"
#include <iterator>
#include <new>
#include <sstream>
using namespace mon;

static bool newfaults = false;
void* operator new(size_t n) { if (newfaults) F_.tick<std::bad_alloc>(); if (void* p = malloc(n ? n : 1)) return p; throw std::bad_alloc(); }
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }

struct Armed { Armed(long k) { F_.fuse = k; F_.on = true; } ~Armed() { F_.on = false; F_.fuse = -1; } };
using Vals = std::vector<long>;
template <class E> long val(const E& e) { if constexpr (requires { e.first; }) return El<std::remove_cvref_t<decltype(e.first)>>::get(e.first) * 100003 + El<std::remove_cvref_t<decltype(e.second)>>::get(e.second); else return El<E>::get(e); }
template <class C> Vals vals(const C& c) { Vals r; for (auto i = c.begin(); i != c.end(); ++i) { r.push_back(val(*i)); if (r.size() > 100000) break; } return r; }
template <class C> constexpr bool sized = requires(const C& c) { c.size(); };
template <class C> size_t elems_of(const C& c) { if constexpr (requires { typename C::mapped_type; }) return 2 * vals(c).size(); else return vals(c).size(); }
static const char* CN; static bool TRACKED; static size_t OTHER_LIVE;
enum { BASIC = 0, STRONG = 1, KEEP_OTHER = 2 };

// build(c, other): the state; op(c, other): the operation; both deterministic
template <class C, class B, class O> void sweep(const char* name, int flags, B build, O oper)
{
  op(name, flags);
  long k = 1;
  for (;; k++) {
    size_t base = A().out.size(); (void)base;
    {
      C c, other; build(c, other); Vals before = vals(c), ob = vals(other); bool threw = false; unsigned long f0 = F_.fired; if (k == 1) op("state", (long)before.size(), (long)ob.size(), before.empty() ? 0 : before[0]);
      { Armed a(k); try { oper(c, other); } catch (const Fault&) { threw = true; } catch (const std::bad_alloc&) { threw = true; } }
      bool fired = F_.fired != f0; count("runs"); if (fired) count("faults");
      CHECK(EXC, !fired || threw, "swallowed", "%s %s: the failure of step %ld did not reach the caller", CN, name, k);
      Vals after = vals(c), oa = vals(other);
      if constexpr (sized<C>) { CHECK(EXC, c.size() == after.size() && c.empty() == after.empty(), "size", "%s %s failing at step %ld: size() %zu, %zu elements in iteration", CN, name, k, (size_t)c.size(), after.size()); CHECK(EXC, other.size() == oa.size(), "size", "%s %s failing at step %ld: other container's size() %zu, %zu elements", CN, name, k, (size_t)other.size(), oa.size()); }
      if constexpr (requires { c.data(); c.capacity(); }) CHECK(EXC, c.capacity() >= c.size(), "capacity", "%s %s failing at step %ld: capacity %zu below size", CN, name, k, (size_t)c.capacity());
      if constexpr (requires { c.c_str(); }) CHECK(EXC, c.c_str()[c.size()] == typename C::value_type(), "terminator", "%s %s failing at step %ld: no terminator", CN, name, k);
      if (TRACKED) CHECK(LIFE | EXC, L().live.size() == elems_of(c) + elems_of(other) + OTHER_LIVE, "live", "%s %s failing at step %ld: %zu elements alive, containers hold %zu and %zu", CN, name, k, L().live.size(), elems_of(c), elems_of(other));
      if (threw && (flags & STRONG)) CHECK(EXC, after == before, "strong", "%s %s failing at step %ld: contents changed (%zu elements before, %zu after)", CN, name, k, before.size(), after.size());
      if (threw && (flags & KEEP_OTHER)) CHECK(EXC, oa == ob, "source", "%s %s failing at step %ld: the other container changed", CN, name, k);
      state(hstr(name), k > 30 ? 30 : k, before.size() > 40 ? 40 : before.size(), threw);
      // still usable: the same operation now succeeds, and so does a copy
      if (threw) {
        try { if (flags & STRONG || R.chance(1, 2)) { oper(c, other); Vals v = vals(c); if (flags & STRONG) { C d, e; build(d, e); oper(d, e); CHECK(EXC, v == vals(d), "again", "%s %s: after a failure at step %ld the repeated operation gives other contents", CN, name, k); } }
          C copy(c); CHECK(EXC, vals(copy) == vals(c), "copy-after", "%s %s: a copy made after the failure differs", CN, name); copy = other; CHECK(EXC, vals(copy) == vals(other), "assign-after", "%s %s: an assignment after the failure differs", CN, name);
          c.clear(); CHECK(EXC, vals(c).empty(), "clear-after", "%s %s: not empty after clear", CN, name);
        } catch (...) { CHECK(EXC, false, "unusable", "%s %s: an operation after the failure threw without a fault", CN, name); }
      }
      if (!fired) { CHECK(EXC, !threw, "spontaneous", "%s %s threw without a fault", CN, name); k = -1; }
    }
    if (TRACKED) CHECK(LIFE | EXC, L().live.size() == OTHER_LIVE, "destroyed", "%s %s: %zu elements alive after destruction", CN, name, L().live.size());
    CHECK(ALLOC | LEAK | EXC, A().out.size() == base, "returned", "%s %s failing at step %ld: %zu blocks not returned", CN, name, k, A().out.size() - base);
    if (k < 0 || k > 300) break;
  }
  count(k < 0 ? "sweeps_exhausted" : "sweeps_cut_at_300_steps");
}
// constructions: the container is the result
template <class C, class B, class O> void ctor(const char* name, B build, O make)
{
  op(name); long k = 1; C src; build(src); Vals before = vals(src);
  for (;; k++) {
    size_t base = A().out.size(), live = L().live.size(); bool threw = false; unsigned long f0 = F_.fired;
    { Armed a(k); try { make(src); } catch (const Fault&) { threw = true; } catch (const std::bad_alloc&) { threw = true; } }
    bool fired = F_.fired != f0; count("runs"); if (fired) count("faults");
    CHECK(EXC, fired == threw, "swallowed", "%s %s: failure of step %ld: fired %d, thrown %d", CN, name, k, fired, threw);
    CHECK(EXC, vals(src) == before, "source", "%s %s failing at step %ld: the source changed", CN, name, k);
    if (TRACKED) CHECK(LIFE | EXC, L().live.size() == live, "live", "%s %s failing at step %ld: %ld elements left alive", CN, name, k, (long)(L().live.size() - live));
    CHECK(ALLOC | LEAK | EXC, A().out.size() == base, "returned", "%s %s failing at step %ld: %ld blocks not returned", CN, name, k, (long)(A().out.size() - base));
    state(hstr(name), k > 30 ? 30 : k, before.size() > 40 ? 40 : before.size(), threw);
    if (!fired || k > 300) break;
  }
  count(k <= 300 ? "sweeps_exhausted" : "sweeps_cut_at_300_steps");
}
template <class C> auto pick(C& c, long n) { auto i = c.begin(); for (; n > 0; n--) ++i; return i; }
template <class T> T mk(long v) { Quiet q; return El<T>::make(v); }   // arguments are made outside the sweep
template <class T> struct Arg { T x; Arg(long v) : x(mk<T>(v)) { if (El<T>::tracked) OTHER_LIVE++; } ~Arg() { if (El<T>::tracked) OTHER_LIVE--; } };

template <class T> void vectors()
{
  using C = cest::vector<T, MonAlloc<T>>; CN = "vector"; TRACKED = El<T>::tracked;
  long n = R.chance(1, 3) ? (1L << R.below(5)) : R.skew(24), m = R.skew(20), extra = R.below(3) ? 0 : R.below(20), s = R.below(1000);
  auto build = [=](C& c, C& o) { if (extra) c.reserve(n + extra); for (long i = 0; i < n; i++) c.push_back(mk<T>(s + i)); for (long i = 0; i < m; i++) o.push_back(mk<T>(5000 + i)); };
  auto build1 = [=](C& c) { C o; build(c, o); };
  long p = R.below(n + 1), q = p + R.below(n - p + 1), r = R.below(2 * n + 4);
  { Arg<T> a(77); sweep<C>("push_back", STRONG | KEEP_OTHER, build, [&](C& c, C&) { c.push_back(a.x); }); }
  sweep<C>("push_back_move", STRONG | KEEP_OTHER, build, [&](C& c, C&) { T t(mk<T>(78)); c.push_back(std::move(t)); });
  sweep<C>("push_back_own", STRONG | KEEP_OTHER, build, [&](C& c, C&) { if (n) c.push_back(c[p % n]); });
  sweep<C>("push_back_other", STRONG | KEEP_OTHER, build, [&](C& c, C& o) { if (m) c.push_back(o[0]); });
  sweep<C>("reserve", KEEP_OTHER, build, [&](C& c, C&) { c.reserve(r + n); });
  sweep<C>("resize", KEEP_OTHER, build, [&](C& c, C&) { c.resize(r); });
  sweep<C>("erase", KEEP_OTHER, build, [&](C& c, C&) { c.erase(c.begin() + std::min<long>(p, c.size()), c.begin() + std::min<long>(q, c.size())); });
  sweep<C>("assign", KEEP_OTHER, build, [&](C& c, C& o) { c = o; });
  sweep<C>("self_assign", KEEP_OTHER, build, [&](C& c, C&) { auto& d = c; c = d; });
  sweep<C>("move_assign", BASIC, build, [&](C& c, C& o) { c = std::move(o); });
  sweep<C>("swap", BASIC, build, [&](C& c, C& o) { c.swap(o); });
  sweep<C>("pop_back", BASIC, build, [&](C& c, C&) { if (!c.empty()) c.pop_back(); });
  { Arg<T> a(5), b(6), d(7); sweep<C>("many", BASIC, build, [&](C& c, C& o) { c.push_back(a.x); c.push_back(b.x); o.push_back(d.x); c = o; c.push_back(a.x); c.resize(9); }); }
  OTHER_LIVE = 0;
  ctor<C>("copy", build1, [](C& s) { C d(s); }); ctor<C>("count", build1, [&](C&) { C d(m); }); ctor<C>("move", build1, [](C& s) { C d(std::move(s)); s = std::move(d); });
  { T one(mk<T>(1)), two(mk<T>(2)); ctor<C>("init", build1, [&](C&) { C d({ one, two, one }); }); }
}
template <class T> void deques()
{
  using C = cest::deque<T, MonAlloc<T>>; CN = "deque"; TRACKED = El<T>::tracked;
  long n = R.chance(1, 2) ? R.skew(14) : R.below(80), m = R.skew(10), front = R.below(n + 1), s = R.below(1000), pops = R.below(n + 1);
  auto build = [=](C& c, C& o) { for (long i = 0; i < n; i++) if (i < front) c.push_front(mk<T>(s + i)); else c.push_back(mk<T>(s + i)); for (long i = 0; i < pops; i++) if (i & 1) c.pop_front(); else c.pop_back(); for (long i = 0; i < m; i++) o.push_back(mk<T>(5000 + i)); };
  auto build1 = [=](C& c) { C o; build(c, o); };
  { Arg<T> a(77); sweep<C>("push_back", STRONG | KEEP_OTHER, build, [&](C& c, C&) { c.push_back(a.x); }); sweep<C>("push_front", STRONG | KEEP_OTHER, build, [&](C& c, C&) { c.push_front(a.x); }); }
  sweep<C>("push_back_move", STRONG | KEEP_OTHER, build, [&](C& c, C&) { T t(mk<T>(78)); c.push_back(std::move(t)); });
  sweep<C>("push_front_move", STRONG | KEEP_OTHER, build, [&](C& c, C&) { T t(mk<T>(78)); c.push_front(std::move(t)); });
  sweep<C>("push_back_own", STRONG | KEEP_OTHER, build, [&](C& c, C&) { if (!c.empty()) c.push_back(c.front()); });
  sweep<C>("push_front_own", STRONG | KEEP_OTHER, build, [&](C& c, C&) { if (!c.empty()) c.push_front(c.back()); });
  sweep<C>("assign", KEEP_OTHER, build, [&](C& c, C& o) { c = o; });
  sweep<C>("self_assign", KEEP_OTHER, build, [&](C& c, C&) { auto& d = c; c = d; });
  sweep<C>("clear_push", KEEP_OTHER, build, [&](C& c, C& o) { c.clear(); for (long i = 0; i < 3; i++) { T t(mk<T>(i)); c.push_back(t); c.push_front(t); } });
  sweep<C>("pops", BASIC, build, [&](C& c, C&) { if (!c.empty()) c.pop_back(); if (!c.empty()) c.pop_front(); });
  ctor<C>("copy", build1, [](C& s) { C d(s); }); { T one(mk<T>(1)), two(mk<T>(2)); ctor<C>("init", build1, [&](C&) { C d({ one, two, one }); }); }
}
// long runs across storage blocks, failing only around the block boundary
static void deque_edges()
{
  using T = Trk; using C = cest::deque<T, MonAlloc<T>>; CN = "deque"; TRACKED = true; bool front = R.chance(1, 2); long len = R.range(20, 1100);
  C c; std::vector<long> want; Arg<T> a(9); op("deque_edges", len, front); op("edge", len); op("edge", front);
  for (long i = 0; i < len; i++) for (long k = 1;; k++) {
    unsigned long f0 = F_.fired; bool threw = false; { Armed ar(k); try { if (front) c.push_front(a.x); else c.push_back(a.x); } catch (const Fault&) { threw = true; } catch (const std::bad_alloc&) { threw = true; } }
    bool fired = F_.fired != f0; if (fired) count("faults"); CHECK(EXC, fired == threw, "swallowed", "deque push %ld: fired %d, thrown %d", i, fired, threw);
    CHECK(EXC, (long)c.size() == i + !threw, "strong", "deque push %ld failing at step %ld: size %zu", i, k, (size_t)c.size()); CHECK(LIFE | EXC, L().live.size() == c.size() + OTHER_LIVE, "live", "deque push %ld: %zu alive", i, L().live.size());
    if (!threw) break;
  }
  long n = 0; for (auto i = c.begin(); i != c.end(); ++i) { n++; CHECK(EXC, (*i).v() == 9, "strong", "deque element %ld", n); } CHECK(EXC, n == len, "strong", "deque of %ld pushes holds %ld", len, n); count("sweeps_exhausted", len);
}
template <class T> void lists()
{
  using C = cest::list<T, MonAlloc<T>>; CN = "list"; TRACKED = El<T>::tracked; long n = R.skew(14), m = R.skew(9), p = R.below(n + 1), s = R.below(1000);
  auto build = [=](C& c, C& o) { for (long i = 0; i < n; i++) c.push_back(mk<T>(s + i)); for (long i = 0; i < m; i++) o.push_back(mk<T>(5000 + i)); }; auto build1 = [=](C& c) { C o; build(c, o); };
  { Arg<T> a(77); int f = STRONG | KEEP_OTHER;
    sweep<C>("push_back", f, build, [&](C& c, C&) { c.push_back(a.x); }); sweep<C>("push_front", f, build, [&](C& c, C&) { c.push_front(a.x); });
    sweep<C>("insert", f, build, [&](C& c, C&) { c.insert(pick(c, p), a.x); }); sweep<C>("emplace", f, build, [&](C& c, C&) { c.emplace(pick(c, p), a.x); });
    sweep<C>("emplace_back", f, build, [&](C& c, C&) { c.emplace_back(a.x); }); sweep<C>("emplace_front", f, build, [&](C& c, C&) { c.emplace_front(a.x); }); sweep<C>("emplace_value", f, build, [&](C& c, C&) { c.emplace(pick(c, p), 5L); });
    sweep<C>("insert_own", f, build, [&](C& c, C&) { if (!c.empty()) c.insert(pick(c, p), c.front()); }); }
  sweep<C>("push_move", STRONG | KEEP_OTHER, build, [&](C& c, C&) { T t(mk<T>(78)); c.push_back(std::move(t)); }); sweep<C>("push_front_move", STRONG | KEEP_OTHER, build, [&](C& c, C&) { T t(mk<T>(78)); c.push_front(std::move(t)); }); sweep<C>("insert_move", STRONG | KEEP_OTHER, build, [&](C& c, C&) { T t(mk<T>(78)); c.insert(pick(c, p), std::move(t)); });
  sweep<C>("assign", KEEP_OTHER, build, [&](C& c, C& o) { c = o; }); sweep<C>("self_assign", KEEP_OTHER, build, [&](C& c, C&) { auto& d = c; c = d; });
  sweep<C>("erase", KEEP_OTHER, build, [&](C& c, C&) { if (!c.empty()) c.erase(c.begin()); if (!c.empty()) c.pop_back(); });
  ctor<C>("copy", build1, [](C& s) { C d(s); });
}
template <class T> void flists()
{
  using C = cest::forward_list<T, MonAlloc<T>>; CN = "forward_list"; TRACKED = El<T>::tracked; long n = R.skew(14), m = R.skew(9), p = R.below(n + 1), s = R.below(1000);
  auto build = [=](C& c, C& o) { for (long i = 0; i < n; i++) c.push_front(mk<T>(s + i)); for (long i = 0; i < m; i++) o.push_front(mk<T>(5000 + i)); }; auto build1 = [=](C& c) { C o; build(c, o); };
  auto at = [p](C& c) { auto i = c.before_begin(); for (long k = p; k > 0; k--) ++i; return i; };
  { Arg<T> a(77); int f = STRONG | KEEP_OTHER; sweep<C>("push_front", f, build, [&](C& c, C&) { c.push_front(a.x); }); sweep<C>("insert_after", f, build, [&](C& c, C&) { auto i = c.before_begin(); auto j = i; for (long k = p; k > 0; k--) { if (++j == c.end()) break; i = j; } c.insert_after(i, a.x); }); (void)at; }
  sweep<C>("push_front_move", STRONG | KEEP_OTHER, build, [&](C& c, C&) { T t(mk<T>(78)); c.push_front(std::move(t)); });
  sweep<C>("assign", KEEP_OTHER, build, [&](C& c, C& o) { c = o; }); sweep<C>("self_assign", KEEP_OTHER, build, [&](C& c, C&) { auto& d = c; c = d; }); sweep<C>("swap", BASIC, build, [&](C& c, C& o) { c.swap(o); });
  ctor<C>("copy", build1, [](C& s) { C d(s); });
}
// a comparison that may fail
template <class K> struct FailLess { bool operator()(const K& a, const K& b) const { L().tick(); return a < b; } };
template <class Less, class T> void trees_of()
{
  using K = T;
  { using C = cest::set<K, Less, MonAlloc<K>>; CN = "set"; TRACKED = El<K>::tracked; long n = R.skew(30), m = R.skew(9), range = R.range(5, 60); int shape = R.below(3); uint64_t sd = R.next();
    auto build = [=](C& c, C& o) { Rng r(sd); for (long i = 0; i < n; i++) c.insert(mk<K>(shape == 0 ? (long)r.below(range) : shape == 1 ? i : n - i)); for (long i = 0; i < m; i++) o.insert(mk<K>(5000 + i)); }; auto build1 = [=](C& c) { C o; build(c, o); };
    for (int t = 0; t < 3; t++) { Arg<K> a(t ? (long)R.below(range + 2) : -5); 
      sweep<C>("insert", STRONG | KEEP_OTHER, build, [&](C& c, C&) { c.insert(a.x); }); sweep<C>("insert_hint", STRONG | KEEP_OTHER, build, [&](C& c, C&) { c.insert(c.begin(), a.x); }); sweep<C>("find", STRONG | KEEP_OTHER, build, [&](C& c, C&) { const C& q = c; (void)c.find(a.x); (void)q.find(a.x); }); }
    sweep<C>("insert_then_look", KEEP_OTHER, build, [&](C& c, C&) { Arg<K> a(-7); try { c.insert(a.x); } catch (...) { Quiet q; for (auto i = c.begin(); i != c.end(); ++i) CHECK(EXC, c.find(*i) == i, "lost", "an element is not found after a failed insertion"); CHECK(EXC, c.find(a.x) == c.end(), "kept", "an element whose insertion failed is found"); throw; } });
    sweep<C>("assign", KEEP_OTHER, build, [&](C& c, C& o) { c = o; }); ctor<C>("copy", build1, [](C& s) { C d(s); }); }
  { using V = std::pair<const long, T>; using C = cest::map<long, T, FailLess<long>, MonAlloc<V>>; CN = "map"; TRACKED = false; long n = R.skew(30), m = R.skew(9), range = R.range(5, 60); int shape = R.below(3); uint64_t sd = R.next();
    auto build = [=](C& c, C& o) { Rng r(sd); for (long i = 0; i < n; i++) { V v(shape == 0 ? (long)r.below(range) : shape == 1 ? i : n - i, mk<T>(i)); c.insert(v); } for (long i = 0; i < m; i++) { V v(5000 + i, mk<T>(i)); o.insert(v); } }; auto build1 = [=](C& c) { C o; build(c, o); };
    size_t l0 = L().live.size(); for (int t = 0; t < 3; t++) { V v(t ? (long)R.below(range + 2) : -5, mk<T>(1)); sweep<C>("insert", STRONG | KEEP_OTHER, build, [&](C& c, C&) { c.insert(v); }); sweep<C>("find", STRONG | KEEP_OTHER, build, [&](C& c, C&) { const C& q = c; (void)c.find(v.first); (void)q.find(v.first); }); sweep<C>("find_other", STRONG | KEEP_OTHER, build, [&](C& c, C&) { const C& q = c; (void)c.find((int)v.first); (void)q.find((short)v.first); });
      sweep<C>("insert_then_look", KEEP_OTHER, build, [&](C& c, C&) { try { c.insert(v); } catch (...) { Quiet q; for (auto i = c.begin(); i != c.end(); ++i) CHECK(EXC, c.find(i->first) == i, "lost", "an element is not found after a failed insertion"); throw; } }); }
    sweep<C>("assign", KEEP_OTHER, build, [&](C& c, C& o) { c = o; }); ctor<C>("copy", build1, [](C& s) { C d(s); });
    CHECK(LIFE | EXC, L().live.size() == l0, "live", "map: %ld mapped values left alive", (long)(L().live.size() - l0)); }
}
static void keys()
{
  using C = cest::set<long, FailLess<long>, MonAlloc<long>>; CN = "set"; TRACKED = false; long n = R.skew(30), m = R.skew(9), range = R.range(5, 60), want = R.below(range + 2); uint64_t sd = R.next();
  auto build = [=](C& c, C& o) { Rng r(sd); for (long i = 0; i < n; i++) c.insert((long)r.below(range)); for (long i = 0; i < m; i++) o.insert(5000 + i); };
  sweep<C>("find_other", STRONG | KEEP_OTHER, build, [&](C& c, C&) { const C& q = c; (void)c.find((int)want); (void)q.find((short)want); }); sweep<C>("insert", STRONG | KEEP_OTHER, build, [&](C& c, C&) { c.insert(want); });
}
template <class T> void trees()
{
  { using C = cest::set<T, std::less<T>, MonAlloc<T>>; CN = "set"; TRACKED = El<T>::tracked; long n = R.skew(30), m = R.skew(9), range = R.range(5, 60); uint64_t sd = R.next();
    auto build = [=](C& c, C& o) { Rng r(sd); for (long i = 0; i < n; i++) c.insert(mk<T>((long)r.below(range))); for (long i = 0; i < m; i++) o.insert(mk<T>(5000 + i)); }; auto build1 = [=](C& c) { C o; build(c, o); };
    for (int t = 0; t < 3; t++) { Arg<T> a((long)R.below(range + 2)); sweep<C>("insert", STRONG | KEEP_OTHER, build, [&](C& c, C&) { c.insert(a.x); }); sweep<C>("insert_hint", STRONG | KEEP_OTHER, build, [&](C& c, C&) { c.insert(c.begin(), a.x); }); }
    sweep<C>("assign", KEEP_OTHER, build, [&](C& c, C& o) { c = o; }); sweep<C>("self_assign", KEEP_OTHER, build, [&](C& c, C&) { auto& d = c; c = d; }); sweep<C>("find", STRONG | KEEP_OTHER, build, [&](C& c, C&) { T t(mk<T>(3)); (void)c.find(t); });
    ctor<C>("copy", build1, [](C& s) { C d(s); }); }
  { using V = std::pair<const long, T>; using C = cest::map<long, T, std::less<long>, MonAlloc<V>>; CN = "map"; TRACKED = false; long n = R.skew(30), m = R.skew(9), range = R.range(5, 60); uint64_t sd = R.next();
    auto build = [=](C& c, C& o) { Rng r(sd); for (long i = 0; i < n; i++) { long k = (long)r.below(range); V v(k, mk<T>(i)); c.insert(v); } for (long i = 0; i < m; i++) { V v(5000 + i, mk<T>(i)); o.insert(v); } }; auto build1 = [=](C& c) { C o; build(c, o); };
    size_t l0 = L().live.size(); for (int t = 0; t < 3; t++) { V v((long)R.below(range + 2), mk<T>(1)); sweep<C>("insert", STRONG | KEEP_OTHER, build, [&](C& c, C&) { c.insert(v); }); }
    sweep<C>("assign", KEEP_OTHER, build, [&](C& c, C& o) { c = o; }); sweep<C>("self_assign", KEEP_OTHER, build, [&](C& c, C&) { auto& d = c; c = d; }); ctor<C>("copy", build1, [](C& s) { C d(s); });
    CHECK(LIFE | EXC, L().live.size() == l0, "live", "map: %ld mapped values left alive", (long)(L().live.size() - l0)); }
}
template <class Ch> void strings()
{
  using C = cest::basic_string<Ch, std::char_traits<Ch>, MonAlloc<Ch>>; CN = "string"; TRACKED = false; long n = R.chance(1, 3) ? (1L << R.below(6)) : R.skew(40), m = R.skew(20), s = R.below(90);
  auto build = [=](C& c, C& o) { for (long i = 0; i < n; i++) c.push_back((Ch)(33 + (s + i) % 90)); for (long i = 0; i < m; i++) o.push_back((Ch)(33 + i)); }; auto build1 = [=](C& c) { C o; build(c, o); };
  std::basic_string<Ch> t; for (long i = R.skew(40); i--;) t.push_back((Ch)(40 + i % 60)); long r = R.below(2 * n + 4), p = R.below(n + 1); int f = STRONG | KEEP_OTHER;
  sweep<C>("push_back", f, build, [&](C& c, C&) { c.push_back((Ch)65); }); sweep<C>("push_back_own", f, build, [&](C& c, C&) { if (!c.empty()) c.push_back(c[0]); }); sweep<C>("plus_char", f, build, [&](C& c, C&) { c += (Ch)66; });
  sweep<C>("append", KEEP_OTHER, build, [&](C& c, C&) { c.append(t.data(), t.size()); }); sweep<C>("append_string", KEEP_OTHER, build, [&](C& c, C& o) { c.append(o); }); sweep<C>("plus", KEEP_OTHER, build, [&](C& c, C& o) { c += o; }); sweep<C>("append_self", BASIC, build, [&](C& c, C&) { if (c.size() < 5000) c += c; }); sweep<C>("append_own_part", BASIC, build, [&](C& c, C&) { if (c.size() < 5000) c.append(c.data() + std::min<size_t>(p, c.size()), c.size() - std::min<size_t>(p, c.size())); });
  sweep<C>("assign", KEEP_OTHER, build, [&](C& c, C& o) { c = o; }); sweep<C>("assign_c", KEEP_OTHER, build, [&](C& c, C&) { c = t.c_str(); }); sweep<C>("reserve", KEEP_OTHER, build, [&](C& c, C&) { c.reserve(r); }); sweep<C>("self_assign", KEEP_OTHER, build, [&](C& c, C&) { auto& d = c; c = d; }); sweep<C>("assign_own", BASIC, build, [&](C& c, C&) { c = c.c_str() + std::min<size_t>(p, c.size()); });
  ctor<C>("copy", build1, [](C& s) { C d(s); }); ctor<C>("default", build1, [](C&) { C d; }); ctor<C>("chars", build1, [&](C&) { C d(t.data(), t.size()); }); ctor<C>("c_str", build1, [&](C&) { C d(t.c_str()); }); if constexpr (std::is_same_v<Ch, char>) ctor<C>("range", build1, [&](C&) { std::istringstream is(t); C d((std::istreambuf_iterator<char>(is)), std::istreambuf_iterator<char>()); CHECK(EXC, d.size() == t.size(), "value", "string from a range"); });
  ctor<C>("comparisons", build1, [&](C& s) { (void)(s == s); (void)(s < s); (void)(s == t.c_str()); (void)s.find((Ch)65, 1); });
}
template <class T> void queues_of()
{
  using D = cest::deque<T, MonAlloc<T>>; using C = cest::queue<T, D>; CN = "queue"; long n = R.skew(20); uint64_t sd = R.next();
  auto size_live = [&](C& c) { CHECK(LIFE | EXC, L().live.size() == c.size() + OTHER_LIVE, "live", "queue: %zu alive, %zu queued", L().live.size(), (size_t)c.size()); };
  for (int what = 0; what < 6; what++) for (long k = 1; k < 400; k++) {
    bool threw = false; unsigned long f0 = F_.fired; Vals got; op("queue", what, k, n);
    { Arg<T> a(9); C c; D box; { Quiet q; for (long i = 0; i < n; i++) c.push(mk<T>(i)); if (what > 3) for (long i = 0; i < n; i++) { box.push_back(mk<T>(i)); OTHER_LIVE++; } } size_t before = c.size();
      { Armed ar(k); try { switch (what) { case 0: c.push(a.x); break; case 1: { C d(c); } break; case 2: { C d; d = c; } break; case 4: { const D& b = box; C d(b); } break; case 5: { C d(std::move(box)); } break; default: { T t(mk<T>(4)); c.push(std::move(t)); } } } catch (const Fault&) { threw = true; } catch (const std::bad_alloc&) { threw = true; } }
      if (what == 5) OTHER_LIVE -= n - (long)box.size(); bool fired = F_.fired != f0; CHECK(EXC, fired == threw, "swallowed", "queue: fired %d, thrown %d", fired, threw); size_live(c);
      if (threw) CHECK(EXC, c.size() == before, "strong", "queue: %zu queued before, %zu after a failure", before, (size_t)c.size());
      for (long i = 0; i < n; i++) { CHECK(EXC, c.front().v() == i, "strong", "queue: element %ld changed", i); c.pop(); } if (what > 3) OTHER_LIVE -= (long)box.size(); if (fired) count("faults"); if (!fired) break; (void)sd; }
  }
  CHECK(EXC | LIFE, L().live.empty() && A().out.empty(), "destroyed", "queue: %zu elements, %zu blocks left", L().live.size(), A().out.size()); count("sweeps_exhausted", 6);
}
// long runs of pushes, so that each needs storage at some point
template <class Q> void queue_edges(const char* cn)
{
  CN = cn; TRACKED = false; bool own = R.chance(1, 2); long len = R.range(20, 1300), keep = R.below(3) ? len : 1 + R.below(40); op("queue_edges", len, own, keep); Q c; long head = 0; auto fresh = [](long i) { Quiet q; return long(i); };
  for (long i = 0; i < len; i++) { for (long k = 1;; k++) {
      unsigned long f0 = F_.fired; bool threw = false; long x = fresh(i), y = x; { Armed ar(k); try { if (own) c.push(std::move(y)); else c.push(x); } catch (const Fault&) { threw = true; } catch (const std::bad_alloc&) { threw = true; } }
      bool fired = F_.fired != f0; if (fired) count("faults"); CHECK(EXC, fired == threw, "swallowed", "%s push %ld: fired %d, thrown %d", cn, i, fired, threw); CHECK(EXC, (long)c.size() == i - head + !threw, "strong", "%s push %ld failing at step %ld: size %zu", cn, i, k, (size_t)c.size()); if (!threw) break; }
    CHECK(EXC, c.back() == i && c.front() == head, "strong", "%s push %ld: back %ld, front %ld", cn, i, c.back(), c.front()); if ((long)c.size() > keep) { c.pop(); head++; } }
  while (!c.empty()) { CHECK(EXC, c.front() == head, "strong", "%s: element %ld is %ld", cn, head, c.front()); head++; c.pop(); } CHECK(EXC, head == len, "strong", "%s: %ld of %ld came out", cn, head, len); count("sweeps_exhausted", len);
}
static void queues() { queue_edges<cest::queue<long, cest::deque<long, MonAlloc<long>>>>("queue"); queue_edges<cest::queue<long, cest::list<long, MonAlloc<long>>>>("queue of list"); queues_of<Trk>(); queues_of<TrkMove>(); queues_of<TrkCopy>(); }
// ---- owners: failure of the control block, of the stored target, of a stream's text ----
static long gone = 0; struct CountDel { void operator()(Trk* p) const { gone++; delete p; } };
struct Callee { Trk t; long operator()(long x) { return t.v() + x; } Callee(long v) : t(v) {} };
template <class O> void owner(const char* name, O oper)
{
  newfaults = true; op(name);
  for (long k = 1; k < 200; k++) {
    size_t live = L().live.size(); bool threw = false; unsigned long f0 = F_.fired; { Armed a(k); try { oper(); } catch (const Fault&) { threw = true; } catch (const std::bad_alloc&) { threw = true; } }
    bool fired = F_.fired != f0; count("runs"); if (fired) count("faults"); CHECK(EXC, fired == threw, "swallowed", "%s failing at step %ld: fired %d, thrown %d", name, k, fired, threw);
    CHECK(LIFE | EXC, L().live.size() == live, "live", "%s failing at step %ld: %ld objects left alive", name, k, (long)(L().live.size() - live)); state(hstr(name), k); if (!fired) break;
  }
  newfaults = false; count("sweeps_exhausted");
}
// a standard output object whose buffer fails now and then, with exceptions switched on
struct Sink : std::streambuf { char got[700]; size_t n = 0; bool lively = false; int sync() override { if (lively) F_.tick<std::bad_alloc>(); return 0; } std::streamsize xsputn(const char* s, std::streamsize k) override { F_.tick<std::bad_alloc>(); memcpy(got + n, s, k); n += k; return k; } int overflow(int c) override { F_.tick<std::bad_alloc>(); got[n++] = (char)c; return c; } };
static void outputs()
{
  struct Route { std::ostream& o; Sink s; std::streambuf* was; std::ios_base::fmtflags fl; Route(std::ostream& x) : o(x), was(x.rdbuf(&s)), fl(x.flags()) { o.clear(); o.exceptions(std::ios_base::badbit | std::ios_base::failbit); } ~Route() { o.exceptions(std::ios_base::goodbit); o.rdbuf(was); o.flags(fl); o.clear(); } };
  long v = R.range(-99999, 99999); int w = 1 + R.below(60); char exp[200]; int en = snprintf(exp, sizeof exp, "%*ld|%s", w, v, "text");
  for (int k = 0; k < 3; k++) {
    Route r(k == 0 ? std::cout : k == 1 ? std::cerr : std::clog); cest::ostream& to = k == 0 ? cest::cout : k == 1 ? cest::cerr : cest::clog;
    owner("fprintf", [&] { r.o.clear(); r.s.n = 0; int n = cest::fprintf(&to, "%*ld|%s", w, v, "text"); CHECK(EXC, n == en && r.s.n == (size_t)en && !memcmp(r.s.got, exp, en), "value", "fprintf after failures: %d characters, %zu arrived", n, r.s.n); });
    owner("insertion", [&] { r.o.clear(); r.s.n = 0; cest::string s("a text"); to << s << ' ' << (int)v << "!"; char e2[60]; int n2 = snprintf(e2, 60, "a text %d!", (int)v); CHECK(EXC, r.s.n == (size_t)n2 && !memcmp(r.s.got, e2, n2), "value", "insertion after failures: %zu characters", r.s.n); });
    owner("insertion_kinds", [&] { r.o.clear(); r.o.flags(std::ios_base::dec | std::ios_base::skipws); r.s.n = 0; r.s.lively = true; to << cest::dec; signed char sc[] = "sc"; unsigned char uc[] = "uc"; const signed char* sp = sc; const unsigned char* up = uc; const void* null = nullptr; cest::unique_ptr<int> u; cest::shared_ptr<int> sh; to << v << (short)-7 << 9u << null << (signed char)'x' << (unsigned char)'y' << sp << up << u << sh << cest::hex << 255 << cest::oct << 8 << cest::dec << 8 << cest::endl; to.flush();
      char e3[200]; int n3 = snprintf(e3, 200, "%ld-790xyscuc00ff108\n", v); CHECK(EXC, r.s.n == (size_t)n3 && !memcmp(r.s.got, e3, n3), "value", "insertions after failures: %zu characters, not %d: %.*s", r.s.n, n3, (int)r.s.n, r.s.got); });
    r.s.lively = false; r.o.flags(r.fl); to << cest::dec;
  }
}
static void owners()
{
  outputs();
  CN = "owner"; TRACKED = true; OTHER_LIVE = 0;
  owner("shared_ptr", [] { cest::shared_ptr<Trk> p(new Trk(4)); auto q = p; q = p; });
  owner("shared_ptr_deleter", [] { long g = gone; bool made = false; try { Trk* raw = new Trk(4); made = true; cest::shared_ptr<Trk> p(raw, CountDel{}); } catch (...) { CHECK(EXC, !made || gone == g + 1, "deleter", "the deleter ran %ld times after a failed construction", gone - g); throw; } CHECK(EXC, gone == g + 1, "deleter", "the deleter ran %ld times", gone - g); });
  owner("shared_ptr_array", [] { cest::shared_ptr<Trk[]> p(new Trk[3]); });
  owner("make_unique", [] { auto p = cest::make_unique<Trk>(5L); auto q = std::move(p); q = cest::make_unique<Trk>(6L); });
  { struct Doing { Trk t; long* total; void operator()(long x) { *total += t.v() + x; } }; long total = 0; cest::function<void(long)> f{ Doing{ Trk(3), &total } };
    owner("function_void", [&] { total = 0; cest::function<void(long)> g(f); g(1); CHECK(EXC, total == 4, "value", "function copy"); g = f; cest::function<void(long)> h{ Doing{ Trk(8), &total } }; g = h; g(2); CHECK(EXC, total == 14, "value", "function copy"); }); total = 0; f(2); CHECK(EXC, total == 5, "value", "the wrapper changed by a failed copy"); }
  owner("unique_ptr", [] { cest::unique_ptr<Trk> p(new Trk(1)); p.reset(new Trk(2)); });
  { cest::function<long(long)> f{ Callee(3) }; owner("function", [&] { cest::function<long(long)> g(f); CHECK(EXC, g(1) == 4, "value", "function copy"); g = f; cest::function<long(long)> h{ Callee(8) }; g = h; CHECK(EXC, g(1) == 9, "value", "function copy"); }); CHECK(EXC, f(2) == 5, "value", "the wrapper changed by a failed copy");
    cest::function<long(long)> g{ Callee(30) }; newfaults = true; for (long k = 1; k < 100; k++) { unsigned long f0 = F_.fired; bool threw = false; { Armed a(k); try { g = f; } catch (const Fault&) { threw = true; } catch (const std::bad_alloc&) { threw = true; } } if (threw) CHECK(EXC, g(1) == 31, "strong", "assignment that failed changed the wrapper"); if (F_.fired == f0) break; } newfaults = false; CHECK(EXC, g(1) == 4, "value", "assigned wrapper"); }
  { struct Thrower { Trk t; long n = 0; long operator()(Trk a, Trk& b) { L().tick(); n++; L().tick(); return t.v() + a.v() + b.v(); } };   // the target itself fails
    long total = 0; struct Quiet2 { Trk t; long* total; void operator()(Trk a) { L().tick(); *total += t.v() + a.v(); L().tick(); } };
    cest::function<long(Trk, Trk&)> f{ Thrower{ Trk(3) } }; cest::function<void(Trk)> g{ Quiet2{ Trk(5), &total } };
    owner("function_call", [&] { Trk a(20), b(100); long r = f(a, b); CHECK(EXC, r == 123, "value", "a call after a failed call returned %ld", r); });
    owner("function_call_void", [&] { Trk a(7); long t0 = total; g(a); CHECK(EXC, total == t0 + 12, "value", "a call after a failed call added %ld", total - t0); }); }
  { std::string text(1 + R.below(80), 'x'); cest::string t(text.c_str()); owner("istringstream", [&] { cest::basic_istringstream<char> is(t); char c = 0; is.get(c); is.str(t); is.get(c); CHECK(EXC, c == 'x', "value", "stream text"); cest::string got = is.str(); CHECK(EXC, got == t, "value", "stream text"); });
    owner("stringstream", [&] { cest::stringstream ss(t); char c = 0; ss.get(c); cest::string got = ss.str(); CHECK(EXC, c == 'x' && got == t, "value", "stream text"); ss.str(got); ss.get(c); CHECK(EXC, c == 'x', "value", "stream text"); cest::stringstream none; none.str(t); cest::basic_stringbuf<char> sb(t, cest::ios_base::in); CHECK(EXC, none.str() == t && sb.str() == t, "value", "stream text"); });
    { cest::basic_istringstream<char> is(t); newfaults = true; for (long k = 1; k < 60; k++) { unsigned long f0 = F_.fired; bool threw = false; char c = 0; is.clear(); is.str(t); is.get(c); { Armed a(k); try { is.str(cest::string("yyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyy")); } catch (const std::bad_alloc&) { threw = true; } } Quiet q; is.clear(); c = 0; is.get(c); cest::string now = is.str(); CHECK(EXC, threw ? (c == 'x' || c == 0 || c == 'y') : c == 'y', "value", "after a failed str(), get() yields %d", c); long n = 0; while (is.get(c)) n++; CHECK(EXC, n <= (long)now.size(), "value", "after a failed str(), %ld characters are read of %zu", n, now.size()); if (F_.fired == f0) break; } newfaults = false; }
    char buf[100]; memset(buf, 'q', sizeof buf); owner("fmemopen", [&] { cest::FILE* f = cest::fmemopen(buf, 50, "r"); char o[60]; size_t n = cest::fread(o, 1, 60, f); CHECK(EXC, n == 50, "value", "memory file read %zu", n); cest::fclose(f); }); }
  { owner("vector of strings", [] { cest::vector<cest::string> v; for (int i = 0; i < 4; i++) v.push_back(cest::string("some text")); cest::vector<cest::string> w(v); w = v; v.resize(7); }); owner("map of strings", [] { cest::map<int, cest::string> m; for (int i = 0; i < 5; i++) m.insert(std::make_pair(i, cest::string("value"))); auto c = m; c = m; }); owner("list of vectors", [] { cest::list<cest::vector<Trk>> l; cest::vector<Trk> v; v.push_back(Trk(1)); v.push_back(Trk(2)); l.push_back(v); l.push_front(v); auto c = l; c = l; }); owner("deque of shared", [] { cest::deque<cest::shared_ptr<Trk>> d; cest::shared_ptr<Trk> p(new Trk(1)); for (int i = 0; i < 4; i++) { d.push_back(p); d.push_front(p); } auto c = d; }); owner("set of strings", [] { cest::set<cest::string> s; s.insert(cest::string("b")); s.insert(cest::string("a")); s.insert(cest::string("c")); auto c = s; c = s; }); }
}
int main(int argc, char** argv)
{
  init(argc, argv, "w_fault"); std::string c = S().config;
  auto reset = [] { F_ = Faults(); OTHER_LIVE = 0; };
#ifndef PART
#define PART 0
#endif
#if PART == 0
  if (c == "vector") run_cases([=](long) { reset(); vectors<Trk>(); all_gone("the sweep"); });
  if (c == "vectorcopy") run_cases([=](long) { reset(); vectors<TrkCopy>(); all_gone("the sweep"); });
  if (c == "vectormove") run_cases([=](long) { reset(); vectors<TrkMove>(); all_gone("the sweep"); });
  if (c == "deque") run_cases([=](long) { reset(); deques<Trk>(); all_gone("the sweep"); });
  if (c == "dequemove") run_cases([=](long) { reset(); deques<TrkMove>(); all_gone("the sweep"); });
  if (c == "edges") run_cases([=](long) { reset(); deque_edges(); all_gone("the sweep"); });
#else
  if (c == "list") run_cases([=](long) { reset(); lists<Trk>(); all_gone("the sweep"); });
  if (c == "listmove") run_cases([=](long) { reset(); lists<TrkMove>(); all_gone("the sweep"); });
  if (c == "flist") run_cases([=](long) { reset(); flists<Trk>(); flists<TrkMove>(); all_gone("the sweep"); });
  if (c == "tree") run_cases([=](long) { reset(); trees<Trk>(); trees<TrkMove>(); all_gone("the sweep"); });
  if (c == "compare") run_cases([=](long) { reset(); trees_of<FailLess<Trk>, Trk>(); keys(); all_gone("the sweep"); });
  if (c == "string") run_cases([=](long) { reset(); strings<char>(); strings<char32_t>(); all_gone("the sweep"); });
  if (c == "queue") run_cases([=](long) { reset(); queues(); all_gone("the sweep"); });
  if (c == "owner") run_cases([=](long) { reset(); owners(); all_gone("the sweep"); });
#endif
  return 3;
}
