// Every length in turn: each facility is used at each size from 0 on and around the powers of two, so that a
// behaviour that changes at one particular size cannot hide between samples.
#include <stdexcept>
#include "cest/vector.hpp"
#include "cest/deque.hpp"
#include "cest/list.hpp"
#include "cest/forward_list.hpp"
#include "cest/set.hpp"
#include "cest/map.hpp"
#include "cest/queue.hpp"
#include "cest/string.hpp"
#include "cest/sstream.hpp"
#include "cest/iostream.hpp"
#include "cest/cstdio.hpp"
#include "cest/memory.hpp"
#include "elems.hpp"
#include <deque>
#include <sstream>
#include <sys/mman.h>
#include <sys/stat.h>
using namespace mon;
extern "C" void __sanitizer_set_report_fd(void*) __attribute__((weak));

static std::vector<size_t> lens(size_t dense, size_t top)
{
  std::vector<size_t> r; for (size_t i = 0; i <= dense; i++) r.push_back(i);
  for (size_t p = 1; p <= top; p *= 2) for (long d = -2; d <= 2; d++) if ((long)p + d > (long)dense) r.push_back(p + d);
  for (size_t p : { 1000, 1500, 2000, 2500, 3000, 5000, 10000, 20000, 50000 }) for (long d = -1; d <= 1; d++) if (p + d > dense && p + d < top) r.push_back(p + d);
  return r;
}
// every length, split over the cases: case i takes the lengths i, i+N, i+2N, ...; the order within a case varies with the seed
template <class F> static void over(size_t dense, size_t top, F f)
{
  auto l = lens(dense, top); size_t step = (size_t)std::max(1L, S().ncases);
  run_cases([&](long i) { std::vector<size_t> mine; for (size_t k = i; k < l.size(); k += step) mine.push_back(l[k]); if (R.chance(1, 2)) std::reverse(mine.begin(), mine.end());
    for (size_t n : mine) { op("length", n); f(n); state(n); count("lengths"); } op("end", mine.size()); });
}

// ---- strings ------------------------------------------------------------------------
template <class Ch> struct Str {
  using C = cest::basic_string<Ch, std::char_traits<Ch>, std::allocator<Ch>>; using M = std::basic_string<Ch>;
  static void is(const C& c, const M& m, const char* w, unsigned t = MODEL)
  {
    CHECK(t, c.size() == m.size() && c.length() == m.size() && c.empty() == m.empty(), w, "%s: size %zu, expected %zu", w, c.size(), m.size());
    CHECK(t, c.c_str()[m.size()] == Ch(), w, "%s: no terminator at %zu", w, m.size());
    CHECK(t, !memcmp(c.data(), m.data(), m.size() * sizeof(Ch)), w, "%s: other characters at length %zu", w, m.size());
    CHECK(t | CAP, c.capacity() >= c.size(), w, "%s: capacity %zu, size %zu", w, c.capacity(), c.size());
  }
  static M text(size_t n) { M m(n, Ch('a')); for (auto& x : m) x = (Ch)('a' + R.below(20)); return m; }
  static void run(size_t n)
  {
    M m = text(n); std::unique_ptr<Ch[]> z(new Ch[n + 1]); std::copy(m.begin(), m.end(), z.get()); z[n] = Ch(); std::unique_ptr<Ch[]> ex(new Ch[n]); std::copy(m.begin(), m.end(), ex.get());
    C a(z.get()); is(a, m, "from a C string"); { C b(ex.get(), n); is(b, m, "from characters"); }
    { std::basic_istringstream<Ch> s(m); C b{ std::istreambuf_iterator<Ch>(s), std::istreambuf_iterator<Ch>() }; is(b, m, "from a range"); }
    { C b; for (Ch x : m) b.push_back(x); is(b, m, "pushed"); if (n) { b.pop_back(); is(b, m.substr(0, n - 1), "popped"); b += m[n - 1]; is(b, m, "+="); } b.clear(); is(b, M(), "cleared"); b.append(ex.get(), n); is(b, m, "appended after clear"); }
    { C b(a); is(b, m, "copy", MODEL | COPY); if (n) { b[n - 1] = Ch('!'); is(a, m, "the original of a changed copy", MODEL | COPY); } }
    { C b; b = a; is(b, m, "assigned", MODEL | COPY); b = z.get(); is(b, m, "assigned a C string"); b = a; is(b, m, "assigned again", MODEL | COPY); }
    { M k = text(R.below(2 * n + 2)); C b(k.data(), k.size()); b = a; is(b, m, "assigned over another", MODEL | COPY); b.append(ex.get(), n); M mm = m + m; is(b, mm, "doubled"); }
    { C b(a); b.append(b); is(b, m + m, "appended to itself", MODEL | ALIAS); C c(a); c += c; is(c, m + m, "+= itself", MODEL | ALIAS); C d(a); d = d; is(d, m, "assigned to itself", MODEL | ALIAS); if (n) { C e(a); e.push_back(e[0]); is(e, m + m[0], "own first pushed", MODEL | ALIAS); C f(a); f.append(f.data() + n - 1, 1); is(f, m + m[n - 1], "own last appended", MODEL | ALIAS); f = f.c_str() + n / 2; is(f, (m + m[n - 1]).substr(n / 2), "own tail assigned", MODEL | ALIAS); } }
    { C b; b.reserve(n); size_t cp = b.capacity(); const Ch* d = b.data(); CHECK(MODEL | CAP, cp >= n, "reserve", "capacity %zu after reserve(%zu)", cp, n); b.append(ex.get(), n); is(b, m, "appended within capacity"); CHECK(ADDR, b.data() == d, "relocated", "appending %zu characters moved them though capacity was %zu", n, cp); b.append(ex.get(), 0); is(b, m, "nothing appended"); }
    { C b(a); b.reserve(n + 1); is(b, m, "reserve keeps"); b.reserve(2 * n + 3); is(b, m, "reserve keeps"); }
    { const C& k = a; C b(a); size_t i = 0; if (n) { CHECK(MODEL, k.front() == m[0] && b.front() == m[0] && k.back() == m[n - 1] && b.back() == m[n - 1], "ends", "the ends of %zu characters", n); CHECK(MODEL, k[n / 2] == m[n / 2] && k[n - 1] == m[n - 1] && b[n / 2] == m[n / 2], "index", "indexing %zu characters", n); b.front() = Ch('<'); b.back() = Ch('>'); M q = m; q.front() = Ch('<'); q.back() = Ch('>'); is(b, q, "written at the ends"); is(a, m, "the original of a changed copy", MODEL | COPY); }
      for (auto x : k) { CHECK(MODEL | ITER, i < n && x == m[i], "iterate", "character %zu of %zu in iteration", i, n); i++; } CHECK(MODEL | ITER, i == n && k.end() - k.begin() == (long)n, "iterate", "%zu of %zu characters in iteration", i, n); }
    // searching: at the end, absent, one position before
    if (n) {
      C nd(ex.get() + n - 1, 1); size_t l = std::min<size_t>(n, 1 + R.below(20));
      C b(a); b[n - 1] = Ch('Z'); M mb = m; mb[n - 1] = Ch('Z');
      CHECK(MODEL, b.find(Ch('Z')) == n - 1 && a.find(Ch('Z')) == C::npos, "find", "the last of %zu characters: find gives %zu", n, b.find(Ch('Z')));
      CHECK(MODEL, b.find(Ch('Z'), n - 1) == n - 1 && b.find(Ch('Z'), n) == C::npos && b.find(Ch('Z'), n / 2) == n - 1, "find", "the last of %zu characters, from a position", n);
      C tail(b.data() + n - l, l); M mt = mb.substr(n - l);
      CHECK(MODEL, b.find(tail) == mb.find(mt) && b.find(tail.c_str()) == mb.find(mt) && b.find(tail.data(), 0, l) == mb.find(mt) && b.find(tail, n - l) == n - l, "find", "the last %zu of %zu characters: %zu", l, n, b.find(tail));
      CHECK(MODEL, b.find(tail, n - l + 1) == C::npos && b.find(b) == 0 && a.find(b) == C::npos && b.find(b, 1) == C::npos, "find", "what is not there in %zu characters", n);
      C more(tail); more += Ch('Q'); CHECK(MODEL, b.find(more) == C::npos, "find", "one more than the last %zu of %zu", l, n);
      C h(b.data(), l); CHECK(MODEL, b.find(h) == 0 && b.find(h, 1) == mb.find(mb.substr(0, l), 1), "find", "the first %zu of %zu", l, n);
      // comparison: a difference in the last character only
      unsigned t = MODEL | CMP; C s(b.data(), n - 1);
      CHECK(t, a == a && a == z.get() && !(a != z.get()) && !a.compare(z.get()), "equal", "%zu equal characters compare as different", n);
      CHECK(t, a != b && b != a && !(a == b) && (a < b) == (m < mb) && (b < a) == (mb < m) && (a.compare(b) < 0) == (m.compare(mb) < 0) && (a.compare(b.c_str()) < 0) == (m.compare(mb) < 0) && a.compare(b) != 0, "last-differs", "%zu characters that differ in the last", n);
      CHECK(t, s < b && !(b < s) && s != b && s.compare(b) < 0 && b.compare(s) > 0 && b.compare(s.c_str()) > 0, "prefix", "%zu characters and their prefix", n);
    } else CHECK(MODEL, a.find(Ch('Z')) == C::npos && a.find(C()) == 0 && a == C() && a.compare(z.get()) == 0, "empty", "the empty string");
    { C b(a), c(std::move(b)); is(c, m, "moved", MODEL | COPY); C d; d = std::move(c); is(d, m, "move-assigned", MODEL | COPY); }
    { using std::swap; C b(a), c; swap(b, c); is(c, m, "swapped", MODEL | COPY); is(b, M(), "swapped", MODEL | COPY); }
  }
};

// ---- sequences ------------------------------------------------------------------------
using Vals = std::vector<long>;
template <class T, class C> static Vals see(const C& c) { Vals r; for (auto& x : c) { r.push_back(El<T>::get(x)); if (r.size() > 1000000) break; } return r; }
template <class T, class C> static void is(const C& c, const Vals& m, const char* w, unsigned t = MODEL)
{
  Vals v = see<T>(c); size_t i = 0; while (i < v.size() && i < m.size() && v[i] == m[i]) i++;
  CHECK(t, v == m, w, "%s: %zu elements, expected %zu; first difference at %zu", w, v.size(), m.size(), i);
  if constexpr (requires { c.size(); }) CHECK(t, c.size() == m.size(), w, "%s: size %zu, expected %zu", w, c.size(), m.size());
  if constexpr (requires { c.empty(); }) CHECK(t, c.empty() == m.empty(), w, "%s: empty() of %zu elements", w, m.size());
  if constexpr (requires { c[0]; }) for (i = 0; i < m.size(); i += 1 + i / 16) CHECK(t, El<T>::get(c[i]) == m[i], w, "%s: element %zu of %zu", w, i, m.size());
  if (!m.empty()) { CHECK(t, El<T>::get(c.front()) == m.front(), w, "%s: front() of %zu", w, m.size()); if constexpr (requires { c.back(); }) CHECK(t, El<T>::get(c.back()) == m.back() && (!requires { c.size(); } || true), w, "%s: back() of %zu", w, m.size()); }
}
template <class T> static void alive(size_t n, const char* w) { if constexpr (El<T>::tracked) live_is(n, w); }
// through an iterator's arrow
template <class C> static void arrow(C& c, const Vals& m) { if constexpr (requires { c.begin()->v(); }) { size_t i = 0; for (auto it = c.begin(); it != c.end() && i < 200; ++it, ++i) CHECK(MODEL, it->v() == m[i] && std::as_const(c).begin()->v() == m[0], "arrow", "element %zu through an iterator's arrow", i); } }
static Vals vals(size_t n) { Vals m; for (size_t i = 0; i < n; i++) m.push_back(1 + (long)R.below(5000)); return m; }

template <class T> static void vec(size_t n)
{
  using C = cest::vector<T>; Vals m = vals(n); auto mk = [](long v) { return El<T>::make(v); };
  {
    C a; const T* d = nullptr; size_t re = 0;
    for (size_t i = 0; i < n; i++) { size_t cp = a.capacity(), sz = a.size(); if (i & 1) { T x = mk(m[i]); a.push_back(x); } else a.push_back(mk(m[i])); if (sz + 1 <= cp) CHECK(ADDR, a.data() == d, "relocated", "push_back at %zu of %zu moved the elements", sz, cp); if (a.data() != d) { d = a.data(); re++; } }
    is<T>(a, m, "pushed"); alive<T>(n, "pushing"); arrow(a, m);
    { C b(a); is<T>(b, m, "copy", MODEL | COPY); alive<T>(2 * n, "copying"); CHECK(MODEL | CMP, a == b && !(a != b), "equal", "%zu equal elements", n);
      if (n) { b[n - 1] = mk(7777); CHECK(MODEL | CMP, !(a == b) && a != b, "last-differs", "%zu elements that differ in the last", n); is<T>(a, m, "the original of a changed copy", MODEL | COPY);
        b.pop_back(); CHECK(MODEL | CMP, !(a == b) && b != a, "prefix", "%zu elements and their prefix", n); is<T>(b, Vals(m.begin(), m.end() - 1), "popped"); b = a; is<T>(b, m, "assigned", MODEL | COPY); } 
      b = b; is<T>(b, m, "assigned to itself", MODEL | ALIAS); b.push_back(mk(1)); Vals q = m; q.push_back(1); is<T>(b, q, "pushed to a copy", MODEL | COPY); b = a; is<T>(b, m, "assigned over a larger one", MODEL | COPY); C c; c = b; is<T>(c, m, "assigned to an empty one", MODEL | COPY); c.clear(); is<T>(c, Vals(), "cleared"); alive<T>(2 * n, "clearing a copy"); c = a; is<T>(c, m, "assigned after clear", MODEL | COPY); }
    alive<T>(n, "destroying copies");
    { C b; b.reserve(n); size_t cp = b.capacity(); const T* p = b.data(); CHECK(MODEL | CAP, cp >= n, "reserve", "capacity %zu after reserve(%zu)", cp, n); for (size_t i = 0; i < n; i++) b.push_back(a[i]); CHECK(ADDR, b.data() == p, "relocated", "pushing %zu elements moved them though capacity was %zu", n, cp); is<T>(b, m, "pushed within capacity");
      b.reserve(n + 1); is<T>(b, m, "reserve keeps"); b.reserve(n / 2); is<T>(b, m, "a smaller reserve"); CHECK(MODEL | CAP, b.capacity() >= n + 1, "reserve", "capacity %zu after reserve(%zu)", b.capacity(), n + 1); }
    for (int k = 0; k < 3 && n; k++) { size_t f = k == 0 ? 0 : R.below(n), l = f + (k == 1 ? n - f : R.below(n - f + 1)); C b(a); Vals q = m; auto r = b.erase(b.begin() + f, b.begin() + l); q.erase(q.begin() + f, q.begin() + l); CHECK(MODEL, r - b.begin() == (long)f, "erase", "erase of [%zu,%zu) of %zu returns position %ld", f, l, n, (long)(r - b.begin())); is<T>(b, q, "erased"); alive<T>(n + q.size(), "erasing"); }
    if (n) { C b(a); b.push_back(b[0]); Vals q = m; q.push_back(m[0]); is<T>(b, q, "own first pushed", MODEL | ALIAS); C c(a); c.push_back(c[n - 1]); q.back() = m[n - 1]; is<T>(c, q, "own last pushed", MODEL | ALIAS); C e(a); e.push_back(std::move(e[n / 2])); CHECK(MODEL | ALIAS, e.size() == n + 1 && El<T>::get(e[n]) == m[n / 2], "own moved", "own element %zu of %zu moved to the end", n / 2, n); }
    { bool th = false; try { (void)a.at(n); } catch (const std::out_of_range&) { th = true; } CHECK(MODEL, th, "at", "at(%zu) of %zu elements does not throw", n, n); if (n) CHECK(MODEL, El<T>::get(a.at(n - 1)) == m[n - 1], "at", "at(%zu)", n - 1); }
    { const C& k = a; bool th = false; try { (void)k.at(n); } catch (const std::out_of_range&) { th = true; } CHECK(MODEL, th, "at", "at(%zu) of %zu constant elements does not throw", n, n); if (n) CHECK(MODEL, El<T>::get(k.at(n - 1)) == m[n - 1] && El<T>::get(k.at(n / 2)) == m[n / 2] && El<T>::get(k.front()) == m[0] && El<T>::get(a.front()) == m[0] && El<T>::get(k.back()) == m[n - 1] && El<T>::get(a.back()) == m[n - 1], "at", "ends of %zu elements", n);
      Vals q; for (auto i = k.rbegin(); i != k.rend(); ++i) q.push_back(El<T>::get(*i)); std::reverse(q.begin(), q.end()); CHECK(MODEL | ITER, q == m, "reverse", "%zu constant elements backwards", n); }
    { Vals q; for (auto i = a.rbegin(); i != a.rend(); ++i) q.push_back(El<T>::get(*i)); std::reverse(q.begin(), q.end()); CHECK(MODEL, q == m, "reverse", "%zu elements backwards", n); }
    { C b(a), c(std::move(b)); is<T>(c, m, "moved", MODEL | COPY); C e; e = std::move(c); is<T>(e, m, "move-assigned", MODEL | COPY); e.swap(a); is<T>(a, m, "swapped", MODEL | COPY); is<T>(e, m, "swapped", MODEL | COPY); }
    if constexpr (El<T>::defcon) { C b(a); size_t k = R.below(3) == 0 ? n + R.below(n + 3) : R.below(n + 1); b.resize(k); Vals q = m; q.resize(k); is<T>(b, q, "resized"); C c; c.resize(n); is<T>(c, Vals(n, 0), "resized from nothing"); c.resize(n + 1); is<T>(c, Vals(n + 1, 0), "resized by one"); c.resize(n); is<T>(c, Vals(n, 0), "resized by one"); C e(n); is<T>(e, Vals(n, 0), "of a count"); alive<T>(n + k + 2 * n, "resizing"); }
    alive<T>(n, "the rounds");
    if (n <= 1200) for (size_t i = n; i--;) { a.pop_back(); CHECK(MODEL, a.size() == i && (!i || El<T>::get(a.back()) == m[i - 1]), "pop", "popping: %zu of %zu left", i, n); }
  }
  all_gone("vectors");
}
template <class T, class C, bool queue> static void deq(size_t n)
{
  Vals m = vals(n); auto mk = [](long v) { return El<T>::make(v); };
  if constexpr (queue) {
    { C a; for (long v : m) a.push(mk(v)); CHECK(MODEL | ORDER, a.size() == n && a.empty() == !n, "size", "size %zu after %zu pushes", a.size(), n); C b(a);
    for (size_t i = 0; i < n; i++) { CHECK(MODEL | ORDER, El<T>::get(a.front()) == m[i] && El<T>::get(a.back()) == m[n - 1] && a.size() == n - i, "order", "element %zu of %zu", i, n); a.pop(); }
    CHECK(MODEL | ORDER, a.empty() && b.size() == n, "drained", "after %zu pops", n); a = b; for (size_t i = 0; i < n; i++) { CHECK(MODEL | ORDER | COPY, El<T>::get(a.front()) == m[i], "order", "element %zu of %zu of an assigned queue", i, n); a.pop(); a.push(mk(1)); } CHECK(MODEL | ORDER, a.size() == n, "size", "size after pops and pushes"); }
  } else {
    { C a; for (size_t i = 0; i < n; i++) { T x = mk(m[i]); if (i & 1) a.push_back(x); else a.push_back(mk(m[i])); if (i == 0 || i + 1 == n) CHECK(MODEL, El<T>::get(a.back()) == m[i] && El<T>::get(a.front()) == m[0], "ends", "ends after %zu", i + 1); }
    is<T>(a, m, "pushed"); alive<T>(n, "pushing"); arrow(a, m); std::vector<const T*> ad; for (size_t i = 0; i < n; i += 1 + i / 9) ad.push_back(&a[i]);
    { C b; for (size_t i = n; i--;) b.push_front(mk(m[i])); is<T>(b, m, "pushed in front"); C c(b); is<T>(c, m, "copy", MODEL | COPY); for (size_t i = 0; i < n; i++) { CHECK(MODEL, El<T>::get(b.front()) == m[i], "front", "front %zu of %zu", i, n); b.pop_front(); } is<T>(b, Vals(), "drained"); b.push_back(mk(3)); is<T>(b, Vals{ 3 }, "used after draining"); b = c; is<T>(b, m, "assigned", MODEL | COPY); for (size_t i = n; i--;) { CHECK(MODEL, El<T>::get(b.back()) == m[i], "back", "back %zu of %zu", i, n); b.pop_back(); } b.push_front(mk(4)); is<T>(b, Vals{ 4 }, "used after draining"); c.clear(); is<T>(c, Vals(), "cleared"); c = a; is<T>(c, m, "assigned after clear", MODEL | COPY); c = c; is<T>(c, m, "assigned to itself", MODEL | ALIAS); }
    { size_t k = R.below(n + 1); C b; Vals q; for (size_t i = 0; i < k; i++) { b.push_front(mk(m[i])); } for (size_t i = k; i < n; i++) b.push_back(mk(m[i])); for (size_t i = k; i--;) q.push_back(m[i]); q.insert(q.end(), m.begin() + k, m.end()); is<T>(b, q, "pushed at both ends");
      auto e = b.end(), s = b.begin(); CHECK(MODEL | ITER, e - s == (long)n && s + n == e && e - n == s, "distance", "distance over %zu elements is %ld", n, (long)(e - s)); size_t j = 0; for (auto i = s; i != e && j <= n; ++i, ++j) { CHECK(MODEL | ITER, i - s == (long)j && e - i == (long)(n - j) && s + j == i, "position", "position %zu of %zu", j, n); } j = n; for (auto i = e; i != s; --j) { --i; CHECK(MODEL | ITER, El<T>::get(*i) == q[j - 1], "backwards", "position %zu of %zu backwards", j - 1, n); }
      C c(std::move(b)); is<T>(c, q, "moved", MODEL | COPY); C d; d = std::move(c); is<T>(d, q, "move-assigned", MODEL | COPY); if (n) { d.push_back(d.front()); q.push_back(q[0]); d.push_front(d.back()); q.insert(q.begin(), q.back()); is<T>(d, q, "own elements pushed", MODEL | ALIAS); } }
    if (n <= 4200) for (int way = 0; way < 12; way++) { // filled from one side and emptied from either or both: wherever the last element was, what follows is right
      C b; std::deque<long> q; auto put = [&](bool back, long v) { if (back) { b.push_back(mk(v)); q.push_back(v); } else { b.push_front(mk(v)); q.push_front(v); } CHECK(MODEL, b.size() == q.size() && El<T>::get(b.front()) == q.front() && El<T>::get(b.back()) == q.back(), "ends", "the ends at size %zu, filled to %zu before", q.size(), n); };
      for (size_t i = 0; i < n; i++) put(way & 1, m[i]);
      for (size_t i = 0; i < n; i++) { bool back = way / 2 % 3 == 0 ? true : way / 2 % 3 == 1 ? false : R.chance(1, 2); if (back) { b.pop_back(); q.pop_back(); } else { b.pop_front(); q.pop_front(); } CHECK(MODEL, b.size() == q.size() && b.empty() == q.empty() && (q.empty() || (El<T>::get(b.front()) == q.front() && El<T>::get(b.back()) == q.back())), "ends", "the ends with %zu of %zu left", q.size(), n); }
      CHECK(MODEL | ITER, b.begin() == b.end() && b.end() - b.begin() == 0, "empty", "emptied of %zu", n);
      put(way / 6, 7); put(way / 6, 8); put(!(way / 6), 9); put(way & 1, 6); is<T>(b, Vals(q.begin(), q.end()), "used after being emptied"); }
    is<T>(a, m, "after all"); size_t k = 0; for (size_t i = 0; i < n; i += 1 + i / 9) CHECK(ADDR, &a[i] == ad[k++], "relocated", "element %zu of %zu moved", i, n); alive<T>(n, "the rounds"); }
  }
  all_gone("deques");
}
template <class T> static void lst(size_t n)
{
  auto mk = [](long v) { return El<T>::make(v); };
  { using C = cest::list<T>; Vals m = vals(n); C a; for (size_t i = 0; i < n; i++) { T x = mk(m[i]); if (i & 1) a.push_back(x); else a.emplace_back(mk(m[i])); } is<T>(a, m, "pushed"); alive<T>(n, "pushing"); arrow(a, m);
    { C b(a); is<T>(b, m, "copy", MODEL | COPY); b.push_front(mk(5)); Vals q = m; q.insert(q.begin(), 5); is<T>(b, q, "pushed in front"); is<T>(a, m, "original", MODEL | COPY); size_t p = R.below(n + 2); auto it = b.begin(); for (size_t k = 0; k < p; k++) ++it; auto r = b.insert(it, mk(9)); q.insert(q.begin() + p, 9); CHECK(MODEL, El<T>::get(*r) == 9, "insert", "insert at %zu of %zu", p, n); is<T>(b, q, "inserted"); auto r2 = b.erase(r); q.erase(q.begin() + p); CHECK(MODEL | ADDR, r2 == it, "erase", "erase at %zu of %zu", p, n); is<T>(b, q, "erased");
      b = a; is<T>(b, m, "assigned", MODEL | COPY); b = b; is<T>(b, m, "assigned to itself", MODEL | ALIAS); Vals w; for (auto i = b.end(); i != b.begin();) { --i; w.insert(w.begin(), El<T>::get(*i)); } if (n <= 3000) CHECK(MODEL, w == m, "backwards", "%zu elements backwards", n); alive<T>(2 * n, "the rounds"); b.clear(); is<T>(b, Vals(), "cleared"); b = a; is<T>(b, m, "assigned after clear", MODEL | COPY); C c(std::move(b)); is<T>(c, m, "moved", MODEL | COPY); while (!c.empty()) { if (c.size() & 1) c.pop_back(); else c.pop_front(); } is<T>(c, Vals(), "drained"); c.push_front(mk(2)); is<T>(c, Vals{ 2 }, "used after draining"); }
    if (n <= 1500) { C b; std::deque<long> q; for (size_t i = 0; i < n; i++) { T x = mk(m[i]); size_t h = (i + n) % 6;
        switch (h) { case 0: b.push_back(x); break; case 1: b.push_front(x); break; case 2: b.push_back(mk(m[i])); break; case 3: b.push_front(mk(m[i])); break; case 4: b.emplace_back(mk(m[i])); break; default: b.emplace_front(mk(m[i])); }
        if (h & 1) q.push_front(m[i]); else q.push_back(m[i]); CHECK(MODEL, b.size() == i + 1 && El<T>::get(b.front()) == q.front() && El<T>::get(b.back()) == q.back(), "ends", "the ends after %zu elements", i + 1); }
      is<T>(b, Vals(q.begin(), q.end()), "added at both ends"); (void)b.get_allocator(); CHECK(MODEL, b.max_size() >= n, "max", "max_size with %zu elements", n);
      for (size_t i = n; i--;) { if ((i + n) & 1) { b.pop_front(); q.pop_front(); } else { b.pop_back(); q.pop_back(); } CHECK(MODEL, b.size() == i && b.empty() == !i && (!i || (El<T>::get(b.front()) == q.front() && El<T>::get(b.back()) == q.back())), "ends", "the ends with %zu of %zu left", i, n); } b.push_front(mk(1)); is<T>(b, Vals{ 1 }, "used after draining"); }
    is<T>(a, m, "after all"); alive<T>(n, "the rounds"); }
  { using C = cest::forward_list<T>; Vals m = vals(n); C a; for (size_t i = n; i--;) a.push_front(mk(m[i])); is<T>(a, m, "pushed"); alive<T>(n, "pushing"); arrow(a, m);
    { C b(a); is<T>(b, m, "copy", MODEL | COPY); size_t p = R.below(n + 1); auto it = b.before_begin(); for (size_t k = 0; k < p; k++) ++it; auto r = b.insert_after(it, mk(9)); Vals q = m; q.insert(q.begin() + p, 9); CHECK(MODEL, El<T>::get(*r) == 9, "insert", "insert at %zu of %zu", p, n); is<T>(b, q, "inserted"); is<T>(a, m, "original", MODEL | COPY); b.erase_after(it); is<T>(b, m, "erased"); 
      size_t f = R.below(n + 1), l = f + R.below(n - f + 1); auto i1 = b.before_begin(), i2 = b.begin(); for (size_t k = 0; k < f; k++) ++i1; for (size_t k = 0; k < l; k++) ++i2; b.erase_after(i1, i2); q = m; q.erase(q.begin() + f, q.begin() + l); is<T>(b, q, "range erased"); b = a; is<T>(b, m, "assigned", MODEL | COPY); b = b; is<T>(b, m, "assigned to itself", MODEL | ALIAS); b.clear(); is<T>(b, Vals(), "cleared"); b = a; C c(std::move(b)); is<T>(c, m, "moved", MODEL | COPY); C d; d.swap(c); is<T>(d, m, "swapped", MODEL | COPY); while (!d.empty()) d.pop_front(); d.push_front(mk(2)); is<T>(d, Vals{ 2 }, "used after draining"); }
    if (n <= 1500) { C b; const C& k = b; for (size_t i = n; i--;) { T x = mk(m[i]); if (i % 2) b.push_front(x); else b.push_front(mk(m[i])); CHECK(MODEL, El<T>::get(b.front()) == m[i] && El<T>::get(k.front()) == m[i], "front", "the front after %zu elements", n - i); }
      for (size_t i = 0; i < n; i++) { CHECK(MODEL, !b.empty() && El<T>::get(b.front()) == m[i], "front", "element %zu of %zu in front", i, n); b.pop_front(); } CHECK(MODEL, b.empty(), "drained", "not empty after %zu removals", n); b.push_front(mk(1)); is<T>(b, Vals{ 1 }, "used after draining"); }
    is<T>(a, m, "after all"); alive<T>(n, "the rounds"); }
  all_gone("lists");
}
template <class T> static void tree(size_t n)
{
  auto mk = [](long v) { return El<T>::make(v); }; Vals keys; for (size_t i = 0; i < n; i++) keys.push_back(2 * i + 1);
  Vals order = keys; switch (R.below(4)) { case 0: break; case 1: std::reverse(order.begin(), order.end()); break; default: for (size_t i = n; i > 1; i--) std::swap(order[i - 1], order[R.below(i)]); }
  auto get = [](auto& e) { if constexpr (requires { e.first; }) return El<T>::get(e.first); else return El<T>::get(e); };
  auto look = [&](auto& c, size_t k, const char* w, unsigned t = MODEL) {
    size_t i = 0; for (auto& e : c) { CHECK(t, i < k && get(e) == keys[i], w, "%s: element %zu of %zu", w, i, k); if constexpr (requires { e.first; }) CHECK(t, El<T>::get(e.second) == keys[i] + 1, w, "%s: mapped value %zu", w, i); i++; }
    CHECK(t, i == k && c.size() == k && c.empty() == !k, w, "%s: %zu elements, size %zu, expected %zu", w, i, c.size(), k);
    auto it = c.end(); for (size_t j = k; j--;) { --it; if (k < 3000 || j % 16 == 0) CHECK(t, get(*it) == keys[j], w, "%s: element %zu of %zu backwards", w, j, k); }
    for (size_t j = 0; j < k; j += k < 300 ? 1 : 1 + k / 200) { auto f = c.find(mk(keys[j])); CHECK(t, !(f == c.end()) && get(*f) == keys[j], w, "%s: key %zu of %zu not found", w, j, k); CHECK(t, c.find(mk(keys[j] - 1)) == c.end(), w, "%s: an absent key below key %zu of %zu is found", w, j, k); }
    CHECK(t, c.find(mk(2 * n + 1)) == c.end(), w, "%s: an absent key is found", w);
  };
  auto all = [&](auto sample, auto val, int factor) {
    using C = decltype(sample); C a; std::vector<std::pair<const void*, long>> ad;
    for (size_t i = 0; i < n; i++) { auto r = a.insert(val(order[i])); CHECK(MODEL, r.second && get(*r.first) == order[i], "insert", "insert %zu of %zu", i, n); if (i % 13 == 0) ad.push_back({ &*r.first, order[i] }); }
    look(a, n, "inserted"); alive<T>(n * factor, "inserting"); arrow(a, keys); if constexpr (requires { a.begin()->second.v(); }) { size_t i = 0; for (auto it = a.begin(); it != a.end() && i < 200; ++it, ++i) CHECK(MODEL, it->first.v() == keys[i] && it->second.v() == keys[i] + 1, "arrow", "element %zu through an iterator's arrow", i); }
    for (size_t i = 0; i < n; i += 1 + n / 50) { auto r = a.insert(val(order[i])); CHECK(MODEL, !r.second && get(*r.first) == order[i], "insert-again", "insert of a present key, %zu of %zu", i, n); }
    { C b(a); look(b, n, "copy", MODEL | COPY); C c; c = a; look(c, n, "assigned", MODEL | COPY); c = c; look(c, n, "assigned to itself", MODEL | ALIAS); b.clear(); look(b, 0, "cleared"); look(a, n, "original", MODEL | COPY); alive<T>(2 * n * factor, "the rounds"); b = c; look(b, n, "assigned after clear", MODEL | COPY); c.clear(); look(b, n, "the copy of a cleared one", MODEL | COPY); C d(std::move(b)); look(d, n, "moved", MODEL | COPY); if (n) { C e; e.insert(val(99999999)); e = d; look(e, n, "assigned over another", MODEL | COPY); } }
    for (auto& [p, k] : ad) { auto f = a.find(mk(k)); CHECK(ADDR, !(f == a.end()) && &*f == p, "relocated", "key %ld of %zu moved", k, n); }
    alive<T>(n * factor, "the rounds");
  };
  auto het = [&](auto sample, auto val) { using C = decltype(sample); C a; for (long v : order) a.insert(val(v)); const C& k = a; size_t step = n < 150 ? 1 : 1 + n / 60;
    for (size_t j = n ? (n * 7 + 3) % step : 0; j < n; j += step) { auto f = a.find(keys[j]); auto g = k.find(keys[j]); auto h = k.find(mk(keys[j])); CHECK(MODEL, !(f == a.end()) && !(g == k.end()) && !(h == k.end()) && get(*f) == keys[j] && get(*g) == keys[j] && get(*h) == keys[j] && &*f == &*g && &*g == &*h, "find", "key %zu of %zu, looked up by another type and in a constant container", j, n);
      CHECK(MODEL, a.find(keys[j] - 1) == a.end() && k.find(keys[j] - 1) == k.end() && k.find(mk(keys[j] - 1)) == k.end(), "find", "an absent key below key %zu of %zu is found by another type", j, n); }
    CHECK(MODEL, a.find(2 * (long)n + 1) == a.end() && k.find(2 * (long)n + 1) == k.end() && (!n || !(k.find(keys[n - 1]) == k.end())) && (!n || !(a.find(keys[0]) == a.end())), "find", "the ends of %zu keys by another type", n); };
  het(cest::set<T, std::less<>>(), [&](long v) { return mk(v); }); het(cest::map<T, T, std::less<>>(), [&](long v) { return typename cest::map<T, T, std::less<>>::value_type(mk(v), mk(v + 1)); }); all_gone("trees");
  all(cest::set<T>(), [&](long v) { return mk(v); }, 1); all_gone("sets");
  all(cest::map<T, T>(), [&](long v) { return typename cest::map<T, T>::value_type(mk(v), mk(v + 1)); }, 2); all_gone("maps");
}

// ---- streams --------------------------------------------------------------------------
template <class Ch> static void strm(size_t n)
{
  using CS = cest::basic_string<Ch, std::char_traits<Ch>, std::allocator<Ch>>; using M = std::basic_string<Ch>; M m(n, Ch('a')); for (auto& x : m) x = (Ch)(sizeof(Ch) > 1 ? R.below(0x10000) : R.below(256)); CS t(m.data(), n);
  auto all = [&](auto& c, const char* w) { // the rest of a stream, one by one
    for (size_t i = 0; i < n; i++) { Ch q = 0; c.get(q); CHECK(MODEL, q == m[i] && c.good() && c.gcount() == 1, w, "%s: character %zu of %zu", w, i, n); }
    Ch q = 5; c.get(q); CHECK(MODEL, c.eof() && c.fail() && c.gcount() == 0, w, "%s: no end after %zu", w, n); };
  cest::basic_istringstream<Ch> a(t); all(a, "get");
  a.clear(); a.str(t); all(a, "get after str"); a.clear(); { auto s = a.str(); CHECK(MODEL, s.size() == n && !memcmp(s.data(), m.data(), n * sizeof(Ch)), "str", "str() of %zu characters", n); }
  std::unique_ptr<Ch[]> b(new Ch[n + 1]);
  { cest::basic_istringstream<Ch> s(t); s.read(b.get(), n); CHECK(MODEL, s.good() && (size_t)s.gcount() == n && !memcmp(b.get(), m.data(), n * sizeof(Ch)), "read", "read of all %zu characters", n); s.read(b.get(), 1); CHECK(MODEL, s.eof() && s.fail() && s.gcount() == 0, "read", "no end after %zu", n); }
  { cest::basic_stringstream<Ch> s(t); b[n] = Ch(1); s.read(b.get(), n + 1); CHECK(MODEL, s.eof() && s.fail() && (size_t)s.gcount() == n && !memcmp(b.get(), m.data(), n * sizeof(Ch)) && b[n] == Ch(1), "read", "read of one more than %zu characters", n); s.clear(); if (n) { s.unget(); Ch q = 0; s.get(q); CHECK(MODEL, q == m[n - 1], "unget", "unget after %zu", n); } }
  { cest::basic_istringstream<Ch> s; s.str(t); size_t p = 0, bs = 1 + R.below(n + 5); for (;;) { s.read(b.get(), std::min<size_t>(bs, n + 1)); size_t g = s.gcount(), e = std::min(std::min<size_t>(bs, n + 1), n - p); CHECK(MODEL, g == e && !memcmp(b.get(), m.data() + p, g * sizeof(Ch)), "blocks", "block of %zu at %zu of %zu gives %zu", bs, p, n, g); p += g; if (!s) break; } }
  { cest::basic_istringstream<Ch> s(t); s.read(b.get(), n); for (size_t k = std::min<size_t>(n, 1500); k--;) { s.unget(); CHECK(MODEL, s.good(), "unget", "unget %zu of %zu", k, n); } if (n <= 1500) all(s, "after going all the way back"); }
}
// ---- the outputs ---------------------------------------------------------------------
static int cap[3]; static std::string got[3]; static size_t seen[3];
static void capture()
{
  int keep = dup(2); if (__sanitizer_set_report_fd) __sanitizer_set_report_fd((void*)(long)keep);
  for (int fd = 1; fd <= 2; fd++) { cap[fd] = memfd_create("cap", 0); if (cap[fd] < 0) { char t[] = "/tmp/capXXXXXX"; cap[fd] = mkstemp(t); unlink(t); } dup2(cap[fd], fd); }
}
static void due(int fd, const std::string& e, const char* w)
{
  std::cout.flush(); std::clog.flush(); fflush(::stdout); fflush(::stderr); struct stat st; fstat(cap[fd], &st); size_t n = st.st_size - seen[fd]; std::string g(n, 0); if (n && pread(cap[fd], &g[0], n, seen[fd]) != (ssize_t)n) exit(2);
  CHECK(MODEL, g == e, w, "%s: descriptor %d got %zu bytes, expected %zu", w, fd, g.size(), e.size()); count("bytes_compared", n);
  fstat(cap[3 - fd], &st); CHECK(MODEL, (size_t)st.st_size == seen[3 - fd], w, "%s: something arrived on the other descriptor", w);
  seen[fd] += n; if (seen[fd] > 4000000) { if (ftruncate(cap[fd], 0)) {} lseek(cap[fd], 0, SEEK_SET); seen[fd] = 0; }
}
static std::string bytes(size_t n) { std::string s(n, 'a'); for (auto& c : s) c = (char)('!' + R.below(90)); return s; }
static void print(size_t n)
{
  std::string s = bytes(n), pad = std::string(n, ' '); std::string f; for (char c : s) f += c == '%' ? 'p' : c;
  int r = cest::printf("%s", s.c_str()); CHECK(MODEL, r == (int)n, "count", "printf returned %d for %zu characters", r, n); due(1, s, "printf");
  r = cest::printf(f.c_str()); CHECK(MODEL, r == (int)n, "count", "printf returned %d for a format of %zu characters", r, n); due(1, f, "printf of a plain format");
  r = cest::printf("%*s|", (int)n, ""); CHECK(MODEL, r == (int)n + 1, "count", "printf returned %d for %zu characters", r, n + 1); due(1, pad + "|", "printf with a width");
  r = cest::fprintf(cest::stdout, "%s%d", s.c_str(), 42); CHECK(MODEL, r == (int)n + 2, "count", "fprintf returned %d for %zu characters", r, n + 2); due(1, s + "42", "fprintf to stdout");
  r = cest::fprintf(cest::stderr, "%s", s.c_str()); CHECK(MODEL, r == (int)n, "count", "fprintf returned %d for %zu characters", r, n); due(2, s, "fprintf to stderr");
  r = cest::fprintf(&cest::clog, "%.*s", (int)n, s.c_str()); CHECK(MODEL, r == (int)n, "count", "fprintf returned %d for %zu characters", r, n); due(2, s, "fprintf to clog");
  r = cest::fprintf(cest::stdout, f.c_str()); CHECK(MODEL, r == (int)n, "count", "fprintf returned %d for a format of %zu characters", r, n); due(1, f, "fprintf of a plain format");
  static cest::basic_stringbuf<char> ub(cest::string("user")); static cest::ostream user(&ub); r = cest::fprintf(&user, "%s", s.c_str()); CHECK(MODEL, r == (int)n, "count", "fprintf to another object returned %d for %zu characters", r, n); due(1, "", "fprintf to another object");
}
static void ins(size_t n)
{
  std::string s = bytes(n); cest::string c(s.data(), n); cest::ostream* o[] = { &cest::cout, &cest::cerr, &cest::clog };
  std::string z = s; if (n) z[R.below(n)] = 0; cest::string cz(z.data(), n);
  for (int i = 0; i < 3; i++) { int fd = i ? 2 : 1; *o[i] << s.c_str(); due(fd, s, "insertion of a C string"); *o[i] << c; due(fd, s, "insertion of a string"); *o[i] << cz << cest::endl; due(fd, z + "\n", "insertion of a string with a zero"); for (char x : s.substr(0, std::min<size_t>(n, 300))) *o[i] << x; due(fd, s.substr(0, std::min<size_t>(n, 300)), "insertion of characters"); }
}
static void memf(size_t n)
{
  std::string s = bytes(n); for (size_t i = 0; i < n; i += 1 + R.below(9)) s[i] = (char)R.below(256); std::unique_ptr<char[]> b(new char[n]), t(new char[n + 1]); memcpy(b.get(), s.data(), n);
  for (int k = 0; k < 3; k++) {
    cest::FILE* f = cest::fmemopen(b.get(), n, "r"); CHECK(MODEL, f != nullptr, "open", "fmemopen of %zu bytes gave a null pointer", n);
    size_t bs = k == 0 ? n : k == 1 ? n + 1 : 1 + R.below(n / 3 + 3), p = 0;
    for (;;) { size_t want = std::min(bs, n + 1), g = cest::fread(t.get(), 1, want, f), e = std::min(want, n - p); CHECK(MODEL, g == e, "count", "fread of %zu at %zu of %zu returned %zu", want, p, n, g); CHECK(MODEL, !memcmp(t.get(), s.data() + p, e), "bytes", "fread of %zu at %zu of %zu", want, p, n); p += g; if (p == n && (g < want || want == 0)) break; if (!g) break; }
    CHECK(MODEL, p == n && cest::fread(t.get(), 1, 1, f) == 0, "end", "%zu bytes of %zu, then more", p, n); int r = cest::fclose(f); CHECK(MODEL, r == 0, "close", "fclose returned %d", r);
  }
  CHECK(MODEL, !memcmp(b.get(), s.data(), n), "buffer", "reading changed the buffer");
}

int main(int argc, char** argv)
{
  init(argc, argv, "w_lengths"); std::string c = S().config;
  size_t big = S().scale > 1 ? 131072 : 65536, node = S().scale > 1 ? 16384 : 4096; size_t dense = S().scale > 1 ? 4200 : 1100;
#ifndef PART
#define PART 0
#endif
#if PART == 0
  if (c == "str") over(dense, big, [](size_t n) { Str<char>::run(n); });
  if (c == "wstr") over(dense / 2, big / 4, [](size_t n) { Str<wchar_t>::run(n); });
  if (c == "strm") over(dense, big, [](size_t n) { strm<char>(n); });
  if (c == "wstrm") over(dense / 2, big / 4, [](size_t n) { strm<wchar_t>(n); });
  if (c == "print" || c == "ins") capture();
  if (c == "print") over(2100, big, print);
  if (c == "ins") over(dense, big, ins);
  if (c == "memf") over(2100, big, memf);
#elif PART == 1
  if (c == "vec") over(dense, big, [](size_t n) { vec<int>(n); });
  if (c == "vectrk") over(dense / 4, 1024, [](size_t n) { vec<Trk>(n); });
  if (c == "vecamp") over(dense / 10, 300, [](size_t n) { vec<TrkAmp>(n); });
  if (c == "deqamp") over(dense / 10, 300, [](size_t n) { deq<TrkAmp, cest::deque<TrkAmp>, false>(n); });
  if (c == "queamp") over(dense / 10, 300, [](size_t n) { deq<TrkAmp, cest::queue<TrkAmp>, true>(n); });
  if (c == "deq") over(dense, big / 4, [](size_t n) { deq<int, cest::deque<int>, false>(n); });
  if (c == "deqtrk") over(dense / 4, 2048, [](size_t n) { deq<Trk, cest::deque<Trk>, false>(n); });
  if (c == "que") over(dense, big / 4, [](size_t n) { deq<int, cest::queue<int>, true>(n); });
#else
  if (c == "lst") over(dense / 2, node, [](size_t n) { lst<int>(n); });
  if (c == "lsttrk") over(dense / 5, 512, [](size_t n) { lst<Trk>(n); });
  if (c == "lstamp") over(dense / 20, 200, [](size_t n) { lst<TrkAmp>(n); });
  if (c == "treeamp") over(dense / 20, 200, [](size_t n) { tree<TrkAmp>(n); });
  if (c == "tree") over(dense / 2, node, [](size_t n) { tree<int>(n); });
  if (c == "treetrk") over(dense / 5, 512, [](size_t n) { tree<Trk>(n); });
#endif
  return 3;
}
