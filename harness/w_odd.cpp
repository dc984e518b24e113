// Elements with unusual but permitted properties: constructors that take anything, deleted or class-specific operator new,
// constant members, explicit copies, initializer-list constructors, virtual bases, nulls that are not zero bytes, ...
#include <stdexcept>
#include "cest/vector.hpp"
#include "cest/deque.hpp"
#include "cest/list.hpp"
#include "cest/forward_list.hpp"
#include "cest/set.hpp"
#include "cest/map.hpp"
#include "cest/queue.hpp"
#include "cest/functional.hpp"
#include "cest/shared_ptr.hpp"
#include "cest/memory.hpp"
#include "mon.hpp"
#include <any>
#include <deque>
#include <functional>
#include <memory>
#include <variant>
using namespace mon;

struct Greedy { int v; bool ok = true;      // anything at all converts to it: only the right constructor leaves ok set
  Greedy(int x) : v(x) {} template <class T> Greedy(T&&) : v(-7), ok(false) {} template <class... T> Greedy(T&&...) : v(-8), ok(false) {}
  Greedy(const Greedy& o) : v(o.v), ok(o.ok) {} Greedy(Greedy& o) : v(o.v), ok(o.ok) {} Greedy(Greedy&& o) noexcept : v(o.v), ok(o.ok) {}
  Greedy& operator=(const Greedy&) = default; Greedy& operator=(Greedy&&) = default; template <class T> Greedy& operator=(T&&) { ok = false; return *this; } };
struct Fwd { int v; bool ok = true;         // copies only what is constant; anything else is swallowed by the template
  Fwd(int x) : v(x) {} template <class T> Fwd(T&&) : v(-7), ok(false) {} Fwd(const Fwd& o) : v(o.v), ok(o.ok) {} Fwd(Fwd&& o) : v(o.v), ok(o.ok) {}
  Fwd& operator=(const Fwd& o) { v = o.v; ok = o.ok; return *this; } Fwd& operator=(Fwd&& o) { v = o.v; ok = o.ok; return *this; } template <class T> Fwd& operator=(T&&) { ok = false; return *this; } };
struct Steal { mutable int v; Steal(int x = 0) : v(x) {} Steal(Steal& o) : v(o.v) { o.v = -5; } Steal(const Steal& o) : v(o.v) {} Steal(Steal&& o) noexcept : v(o.v) {} Steal& operator=(Steal& o) { v = o.v; o.v = -6; return *this; } Steal& operator=(const Steal& o) { v = o.v; return *this; } Steal& operator=(Steal&& o) { v = o.v; return *this; } };
struct Listy { int v; Listy(int x = 0) : v(x) {} Listy(const Listy&) = default; Listy& operator=(const Listy&) = default; Listy(std::initializer_list<Listy>) : v(-9) {} Listy(std::initializer_list<int>) : v(-10) {} };
struct NewDel { int v; NewDel(int x = 0) : v(x) {} static void* operator new(std::size_t) = delete; static void* operator new(std::size_t, void*) = delete; static void operator delete(void*) = delete; static void* operator new[](std::size_t) = delete; };
struct ConstMem { const int v; ConstMem(int x = 0) : v(x) {} };
struct Explic { int v; explicit Explic(int x = 0) : v(x) {} explicit Explic(const Explic& o) : v(o.v) {} Explic& operator=(const Explic&) = default; };
struct VBase { int v; virtual ~VBase() {} VBase(int x) : v(x) {} }; struct VMid : virtual VBase { VMid(int x) : VBase(x) {} };
struct Virt : VMid, virtual VBase { long pad = 5; Virt(int x = 0) : VBase(x), VMid(x) {} };
struct Bits { int v : 20; unsigned f : 3; Bits(int x = 0) : v(x), f(5) {} };
struct Self { Self* me; int v; Self(int x = 0) : me(this), v(x) {} Self(const Self& o) : me(this), v(o.v) {} Self& operator=(const Self& o) { v = o.v; return *this; } };  // knows its own address
struct Comma { int v; Comma(int x = 0) : v(x) {} template <class T> friend void operator,(Comma, T&&) = delete; template <class T> friend void operator,(T&&, Comma) = delete; void operator&() const = delete; };
struct AnyE : std::any { AnyE(int x) : std::any(x) {} AnyE(const AnyE&) = default; AnyE(AnyE&&) = default; AnyE& operator=(const AnyE&) = default; AnyE& operator=(AnyE&&) = default; };
struct Pm { int a[8]; }; using Mp = int Pm::*;    // its null is not all zero bits
enum class En : unsigned char {};
struct Empty {};
struct Raw { int v; };                       // value-initialised, not default-initialised
struct __attribute__((packed)) Packed { char c = 1; int v; Packed(int x = 0) : v(x) {} };
struct Vast { int v; char fill[70000]; Vast(int x = 0) : v(x) { fill[0] = fill[69999] = 3; } };
struct Dtor { int v; Dtor(int x = 0) : v(x) {} ~Dtor() noexcept(false) {} };
struct Vol { volatile int v; Vol(int x = 0) : v(x) {} Vol(const Vol& o) : v((int)o.v) {} Vol& operator=(const Vol& o) { v = (int)o.v; return *this; } };
struct Throwy { int v; Throwy(int x = 0) : v(x) {} Throwy(const Throwy& o) : v(o.v) {} Throwy(Throwy&& o) noexcept(false) : v(o.v) { o.v = -1; } Throwy& operator=(const Throwy&) = default; Throwy& operator=(Throwy&& o) noexcept(false) { v = o.v; o.v = -1; return *this; } };
struct Refq { int v; Refq(int x = 0) : v(x) {} Refq(const Refq&) = default; Refq(Refq&&) = default; Refq& operator=(const Refq&) & = default; Refq& operator=(Refq&&) & = default; };
union Uni { int v; double d; Uni(int x = 0) : v(x) {} };

template <class E> E mk(int k) { if constexpr (std::is_same_v<E, Mp>) { static const Mp t[] = { nullptr }; int Pm::* p; long off = (k % 8) * 4; memcpy(&p, &off, sizeof p); return p; } else if constexpr (std::is_same_v<E, Empty>) return E(); else if constexpr (std::is_same_v<E, Raw>) return E{ k }; else if constexpr (std::is_same_v<E, int*>) { static int t[1000]; return k == 0 ? nullptr : t + k; } else if constexpr (std::is_same_v<E, std::string>) return std::string(k % 40, char('a' + k % 26)); else return E(k); }
template <class E> int get(const E& e)
{
  if constexpr (std::is_same_v<E, Greedy> || std::is_same_v<E, Fwd>) return e.ok ? e.v : -100; else if constexpr (std::is_same_v<E, Self>) return e.me == &e ? e.v : -101;
  else if constexpr (std::is_same_v<E, AnyE>) { const int* p = std::any_cast<int>(static_cast<const std::any*>(&e)); return p ? *p : -102; }
  else if constexpr (std::is_same_v<E, Mp>) { long off = 0; memcpy(&off, &e, sizeof e); return off < 0 ? -1 : off / 4; }
  else if constexpr (std::is_same_v<E, Empty>) return 0; else if constexpr (std::is_same_v<E, Packed>) return e.c == 1 ? (int)e.v : -103; else if constexpr (std::is_same_v<E, Vast>) return e.fill[69999] == 3 ? e.v : -104;
  else if constexpr (std::is_same_v<E, Virt>) return e.pad == 5 ? e.v : -105; else if constexpr (std::is_same_v<E, int*>) return e ? (int)(e - mk<E>(1)) + 1 : 0;
  else if constexpr (std::is_class_v<E> || std::is_union_v<E>) return e.v; else return (int)e;
}
template <class E> int norm(int k) { return get<E>(mk<E>(k)); }   // what get gives for k
template <class E> struct Less { bool operator()(const E& a, const E& b) const { return get(a) < get(b); } };
template <class E> struct FinalLess final { bool operator()(const E& a, const E& b) const { return get(a) < get(b); } void operator,(int) = delete; };
template <class E> constexpr bool lax = std::is_same_v<E, Greedy> || std::is_same_v<E, Fwd>;
template <class E> constexpr bool assignable = std::is_copy_assignable_v<E>;
template <class E> constexpr bool implicit = std::is_convertible_v<const E&, E>;

using M = std::deque<int>;
template <class C> static void same(const C& c, const M& m, const char* w, unsigned t = MODEL)
{
  if constexpr (requires { c.size(); }) CHECK(t, c.size() == m.size() && c.empty() == m.empty(), w, "%s: size %zu, expected %zu", w, c.size(), m.size());
  size_t i = 0; for (const auto& e : c) { CHECK(t, i < m.size(), w, "%s: more than %zu elements", w, m.size()); int g = get(e); CHECK(t, g == m[i], w, "%s: element %zu of %zu is %d, expected %d", w, i, m.size(), g, m[i]); i++; }
  CHECK(t, i == m.size(), w, "%s: %zu elements of %zu", w, i, m.size());
}
static size_t bound(size_t big) { return R.chance(1, 3) ? big : R.chance(1, 2) ? 40 : 6; }
template <class E> static size_t top() { return sizeof(E) > 4000 ? 12 : 600; }

template <class E> static void vec()
{
  op("vector", sizeof(E)); using V = cest::vector<E>; V v; M m; size_t lim = bound(top<E>()), steps = 20 + R.below(lim * 2 + 40); const int zero = [] { if constexpr (std::is_same_v<E, Mp>) return -1; else if constexpr (std::is_default_constructible_v<E> && !lax<E>) { E e{}; return get(E()); } else return 0; }();
  for (size_t s = 0; s < steps; s++) { int k = (int)R.below(120);
    switch (R.below(12)) {
      case 0: case 1: { const E e(mk<E>(k)); op("push", k); v.push_back(e); m.push_back(norm<E>(k)); break; }
      case 2: case 3: op("pushm", k); v.push_back(mk<E>(k)); m.push_back(norm<E>(k)); break;
      case 4: if constexpr (!std::is_same_v<E, Steal>) { E e(mk<E>(k)); op("pushl", k); v.push_back(e); m.push_back(norm<E>(k)); break; }
      case 5: if (!m.empty()) { op("pop"); v.pop_back(); m.pop_back(); } break;
      case 6: if constexpr (assignable<E>) if (!m.empty()) { size_t a = R.below(m.size()), b = a + R.below(m.size() - a + 1); op("erase", a, b); auto it = v.erase(v.begin() + a, v.begin() + b); m.erase(m.begin() + a, m.begin() + b); CHECK(MODEL, it == v.begin() + a, "erase", "erase returned another place"); } break;
      case 7: if constexpr (std::is_default_constructible_v<E> && !lax<E>) { size_t n = R.below(lim + 1); op("resize", n); v.resize(n); m.resize(n, zero); } break;
      case 8: op("reserve"); v.reserve(R.below(lim * 2)); break;
      case 9: { op("copy"); V w(v); same(w, m, "copy", MODEL | COPY); w.push_back(mk<E>(k)); same(v, m, "original", MODEL | COPY); if constexpr (assignable<E>) { v = w; m.push_back(norm<E>(k)); same(w, m, "source", MODEL | COPY); } else { v.swap(w); m.push_back(norm<E>(k)); } break; }
      case 10: { op("move"); V w(std::move(v)); same(w, m, "moved", MODEL | COPY); v = std::move(w); break; }
      case 11: if (R.chance(1, 5)) { op("clear"); v.clear(); m.clear(); } else if (!m.empty()) { size_t i = R.below(m.size()); op("at", i); CHECK(MODEL, get(v.at(i)) == m[i] && get(v[i]) == m[i] && get(v.front()) == m.front() && get(v.back()) == m.back(), "at", "element %zu", i); }
    }
    if (m.size() > lim) { while (m.size() > lim / 2) { v.pop_back(); m.pop_back(); } }
    same(v, m, "vector");
  } state(m.size(), steps);
}
template <class E> static void deq()
{
  op("deque", sizeof(E)); using D = cest::deque<E>; D d; M m; size_t lim = bound(sizeof(E) > 4000 ? 30 : 3000), steps = 20 + R.below(60);
  for (size_t s = 0; s < steps; s++) { int k = (int)R.below(120); size_t n = lim > 100 && R.chance(1, 4) ? R.below(1500) : 1 + R.below(3);
    switch (R.below(9)) {
      case 0: op("push_back", n); while (n--) { const E e(mk<E>(k)); d.push_back(e); m.push_back(norm<E>(k)); k = (k + 7) % 120; } break;
      case 1: op("push_backm", n); while (n--) { d.push_back(mk<E>(k)); m.push_back(norm<E>(k)); k = (k + 7) % 120; } break;
      case 2: op("push_front", n); while (n--) { E e(mk<E>(k)); d.push_front(e); m.push_front(norm<E>(k)); k = (k + 7) % 120; } break;
      case 3: op("push_frontm", n); while (n--) { d.push_front(mk<E>(k)); m.push_front(norm<E>(k)); k = (k + 7) % 120; } break;
      case 4: op("pop_front", n); while (n-- && !m.empty()) { d.pop_front(); m.pop_front(); } break;
      case 5: op("pop_back", n); while (n-- && !m.empty()) { d.pop_back(); m.pop_back(); } break;
      case 6: { op("copy"); D w(d); same(w, m, "copy", MODEL | COPY); if constexpr (assignable<E> && implicit<E>) { w.push_back(mk<E>(k)); d = w; m.push_back(norm<E>(k)); same(w, m, "source", MODEL | COPY); } break; }
      case 7: if (R.chance(1, 6)) { op("clear"); d.clear(); m.clear(); } break;
      case 8: if (!m.empty()) { size_t i = R.below(m.size()); CHECK(MODEL, get(d[i]) == m[i] && get(d.front()) == m.front() && get(d.back()) == m.back() && get(*(d.begin() + i)) == m[i], "index", "element %zu", i); } break;
    }
    while (m.size() > lim + 1500) { d.pop_front(); m.pop_front(); }
    same(d, m, "deque");
  } state(m.size(), steps);
}
template <class E> static void lst()
{
  op("list", sizeof(E)); using L = cest::list<E>; L l; M m; size_t lim = bound(sizeof(E) > 4000 ? 20 : 200), steps = 20 + R.below(80);
  for (size_t s = 0; s < steps; s++) { int k = (int)R.below(120); size_t p = R.below(m.size() + 1); auto it = l.begin(); for (size_t i = 0; i < p; i++) ++it;
    switch (R.below(13)) {
      case 0: { const E e(mk<E>(k)); op("push_back"); l.push_back(e); m.push_back(norm<E>(k)); break; }
      case 1: op("push_backm"); l.push_back(mk<E>(k)); m.push_back(norm<E>(k)); break;
      case 2: { E e(mk<E>(k)); op("push_front"); l.push_front(e); m.push_front(norm<E>(k)); break; }
      case 3: op("push_frontm"); l.push_front(mk<E>(k)); m.push_front(norm<E>(k)); break;
      case 4: { const E e(mk<E>(k)); op("insert", p); auto r = l.insert(it, e); m.insert(m.begin() + p, norm<E>(k)); CHECK(MODEL, get(*r) == norm<E>(k), "insert", "insert returned another place"); break; }
      case 5: { op("insertm", p); auto r = l.insert(it, mk<E>(k)); m.insert(m.begin() + p, norm<E>(k)); CHECK(MODEL, get(*r) == norm<E>(k), "insert", "insert returned another place"); break; }
      case 6: if constexpr (std::is_constructible_v<E, int> && !std::is_same_v<E, int*>) { op("emplace", p); auto r = l.emplace(it, k); m.insert(m.begin() + p, norm<E>(k)); CHECK(MODEL, get(*r) == norm<E>(k), "emplace", "emplace returned another place"); } break;
      case 7: if constexpr (std::is_constructible_v<E, int> && !std::is_same_v<E, int*>) { op("emplaces"); l.emplace_back(k); m.push_back(norm<E>(k)); l.emplace_front(k); m.push_front(norm<E>(k)); } break;
      case 8: if (p < m.size()) { op("erase", p); l.erase(it); m.erase(m.begin() + p); } break;
      case 9: if (!m.empty()) { op("pops"); l.pop_back(); m.pop_back(); if (!m.empty()) { l.pop_front(); m.pop_front(); } } break;
      case 10: { op("copy"); L w(l); same(w, m, "copy", MODEL | COPY); if constexpr (assignable<E>) { w.push_back(mk<E>(k)); l = w; m.push_back(norm<E>(k)); same(w, m, "source", MODEL | COPY); } break; }
      case 11: { op("move"); L w(std::move(l)); same(w, m, "moved", MODEL | COPY); l = std::move(w); break; }
      case 12: if (R.chance(1, 6)) { op("clear"); l.clear(); m.clear(); } else if (!m.empty()) CHECK(MODEL, get(l.front()) == m.front() && get(l.back()) == m.back(), "ends", "the ends of a list of %zu", m.size()); break;
    }
    while (m.size() > lim) { l.pop_front(); m.pop_front(); }
    same(l, m, "list");
  } state(m.size(), steps);
}
template <class E> static void flst()
{
  op("flist", sizeof(E)); using L = cest::forward_list<E>; L l; M m; size_t steps = 20 + R.below(80);
  for (size_t s = 0; s < steps; s++) { int k = (int)R.below(120);
    switch (R.below(7)) {
      case 0: { const E e(mk<E>(k)); op("push_front"); l.push_front(e); m.push_front(norm<E>(k)); break; }
      case 1: op("push_frontm"); l.push_front(mk<E>(k)); m.push_front(norm<E>(k)); break;
      case 2: if (!m.empty()) { size_t p = R.below(m.size()); auto it = l.begin(); for (size_t i = 0; i < p; i++) ++it; op("insert_after", p); const E e(mk<E>(k)); auto r = l.insert_after(it, e); m.insert(m.begin() + p + 1, norm<E>(k)); CHECK(MODEL, get(*r) == norm<E>(k), "insert_after", "insert_after returned another place"); } break;
      case 3: if (m.size() > 1) { size_t p = R.below(m.size() - 1); auto it = l.begin(); for (size_t i = 0; i < p; i++) ++it; op("erase_after", p); l.erase_after(it); m.erase(m.begin() + p + 1); } break;
      case 4: { op("copy"); L w(l); same(w, m, "copy", MODEL | COPY); if constexpr (assignable<E>) { w.push_front(mk<E>(k)); l = w; m.push_front(norm<E>(k)); same(w, m, "source", MODEL | COPY); } break; }
      case 5: { op("move"); L w(std::move(l)); same(w, m, "moved", MODEL | COPY); l = std::move(w); break; }
      case 6: if (R.chance(1, 6)) { op("clear"); l.clear(); m.clear(); } else if (!m.empty()) { CHECK(MODEL, get(l.front()) == m.front(), "front", "front"); l.pop_front(); m.pop_front(); } break;
    }
    same(l, m, "forward_list");
  } state(m.size(), steps);
}
template <class E, template <class> class Cmp> static void tree()
{
  op("tree", sizeof(E)); using S = cest::set<E, Cmp<E>>; using Mp_ = cest::map<E, E, Cmp<E>>; S s; Mp_ p; std::map<int, int> m; size_t steps = 10 + R.below(sizeof(E) > 4000 ? 20 : 150);
  auto look = [](const S& s, const Mp_& p, const std::map<int, int>& m, const char* w, unsigned t = MODEL) {
    CHECK(t, s.size() == m.size() && p.size() == m.size(), w, "%s: sizes %zu, %zu, expected %zu", w, s.size(), p.size(), m.size());
    auto i = m.begin(); for (const auto& e : s) { int g = get(e); CHECK(t, i != m.end() && g == i->first, w, "%s: a key of a set is %d", w, g); ++i; } CHECK(t, i == m.end(), w, "%s: too few in the set", w);
    i = m.begin(); for (const auto& e : p) { int a = get(e.first), b = get(e.second); CHECK(t, i != m.end() && a == i->first && b == i->second, w, "%s: a map holds %d, %d", w, a, b); ++i; } CHECK(t, i == m.end(), w, "%s: too few in the map", w); };
  for (size_t q = 0; q < steps; q++) { int k = (int)R.below(120), x = (int)R.below(120), g = norm<E>(k);
    switch (R.below(6)) {
      case 0: case 1: { op("insert", k); const E e(mk<E>(k)); const std::pair<const E, E> pr(std::piecewise_construct, std::forward_as_tuple(e), std::forward_as_tuple(mk<E>(x))); bool nw = !m.count(g); auto r = s.insert(e); auto r2 = p.insert(pr); m.emplace(g, norm<E>(x));
        CHECK(MODEL, r.second == nw && r2.second == nw && get(*r.first) == g && get(r2.first->first) == g && get(r2.first->second) == m[g], "insert", "insert reported wrongly"); break; }
      case 2: { op("insertm", k); std::pair<const E, E> pr(std::piecewise_construct, std::forward_as_tuple(mk<E>(k)), std::forward_as_tuple(mk<E>(x))); bool nw = !m.count(g); auto r = s.insert(mk<E>(k)); auto r2 = p.insert(std::move(pr)); m.emplace(g, norm<E>(x)); CHECK(MODEL, r.second == nw && r2.second == nw && get(*r.first) == g && get(r2.first->second) == m[g], "insert", "insert reported wrongly"); break; }
      case 3: { op("find", k); const E e(mk<E>(k)); auto i = s.find(e); auto j = p.find(e); bool in = m.count(g); CHECK(MODEL, (i != s.end()) == in && (j != p.end()) == in && (!in || (get(*i) == g && get(j->second) == m[g])), "find", "find of %d", g); break; }
      case 4: { op("copy"); S a(s); Mp_ b(p); look(a, b, m, "copy", MODEL | COPY); s = a; p = b; break; }
      case 5: if (R.chance(1, 12)) { op("clear"); s.clear(); p.clear(); m.clear(); } else { op("move"); S a(std::move(s)); Mp_ b(std::move(p)); look(a, b, m, "moved", MODEL | COPY); s = std::move(a); p = std::move(b); } break;
    }
    look(s, p, m, "set and map");
  } state(m.size(), steps);
}
template <class E> static void que()
{
  op("queue", sizeof(E)); cest::queue<E> q; M m; size_t steps = 20 + R.below(100);
  for (size_t s = 0; s < steps; s++) { int k = (int)R.below(120);
    switch (R.below(5)) { case 0: { const E e(mk<E>(k)); op("push"); q.push(e); m.push_back(norm<E>(k)); break; } case 1: op("pushm"); q.push(mk<E>(k)); m.push_back(norm<E>(k)); break;
      case 2: if (!m.empty()) { op("pop"); q.pop(); m.pop_front(); } break; case 3: { op("copy"); auto r = q; M n = m; while (!n.empty()) { CHECK(ORDER | MODEL | COPY, r.size() == n.size() && get(r.front()) == n.front() && get(r.back()) == n.back(), "copy", "a copy of a queue of %zu", m.size()); r.pop(); n.pop_front(); } break; } case 4: break; }
    CHECK(ORDER | MODEL, q.size() == m.size() && q.empty() == m.empty() && (m.empty() || (get(q.front()) == m.front() && get(q.back()) == m.back())), "queue", "a queue of %zu", m.size());
  } state(m.size(), steps);
}
template <class E> static void fun()
{
  op("function", sizeof(E)); int k = (int)R.below(120), g = norm<E>(k); const unsigned t = MODEL | COPY;
  cest::function<int(const E&)> f = [](const E& e) { return get(e); }; CHECK(t, f(mk<E>(k)) == g, "reference", "a reference argument");
  cest::function<E*(E&)> h = [](E& e) { return std::addressof(e); }; E e(mk<E>(k)); CHECK(t, h(e) == std::addressof(e), "address", "another object was passed");
  struct T { E e; int operator()() { return get(e); } }; cest::function<int()> c(T{ mk<E>(k) }); auto d = c; CHECK(t, c() == g && d() == g, "target", "a stored %d", g); c = d; CHECK(t, c() == g, "target", "a stored %d", g);
  cest::function<E()> r = [k] { return mk<E>(k); }; CHECK(t, get(r()) == g, "result", "a result");
  cest::function<const E&(const E&)> i = [](const E& e) -> const E& { return e; }; CHECK(t, std::addressof(i(e)) == std::addressof(e), "address", "another object was returned");
  if constexpr (std::is_move_constructible_v<E> && implicit<E>) { cest::function<int(E)> v = [](E e) { return get(e); }; CHECK(t, v(mk<E>(k)) == g && v(e) == g, "value", "a value argument"); cest::function<E(E)> w = [](E e) { return e; }; CHECK(t, get(w(e)) == g, "value", "a value returned"); }
  if constexpr (!std::is_same_v<E, NewDel> && std::is_class_v<E>) {
    cest::shared_ptr<E> p(new E(mk<E>(k))); auto q = p; CHECK(t, get(*q) == g && q.get() == p.operator->() && std::addressof(*p) == p.get() && q.use_count() == 2, "shared", "an owned %d", g);
    cest::unique_ptr<E> u(new E(mk<E>(k))); auto w = std::move(u); CHECK(t, !u && get(*w) == g && std::addressof(*w) == w.get(), "unique", "an owned %d", g);
    cest::function<int()> o([p] { return get(*p); }); q = cest::shared_ptr<E>(); CHECK(t, p.use_count() == 2 && o() == g, "shared", "owned by a target"); }
  op("done", g); op("done", sizeof(E)); state(g, sizeof(E));
}

template <template <class> class F, class... E> static void each() { run_cases([](long i) { size_t n = 0; ((n++ == (size_t)i % sizeof...(E) ? F<E>::run() : void()), ...); }); }
#define FUN_ONLY(name) (#name[0] == 'f' && #name[1] == 'u')
#define RUN(name) template <class E> struct R_##name { static void run() { if constexpr (!(FUN_ONLY(name)) || !(std::is_same_v<E, Fwd> || std::is_same_v<E, Steal> || std::is_same_v<E, Greedy>)) name<E>(); } };
RUN(vec) RUN(deq) RUN(lst) RUN(flst) RUN(que) RUN(fun)
template <class E> struct R_tree { static void run() { if (R.chance(1, 2)) tree<E, Less>(); else tree<E, FinalLess>(); } };
#define KINDS Greedy, Fwd, Steal, Listy, NewDel, ConstMem, Explic, Virt, Bits, Self, Comma, AnyE, int*, Packed, Vast, Vol, Throwy, Refq, Uni
#define PLAIN , Mp, En, Empty, Raw, bool, short, double

int main(int argc, char** argv)
{
  init(argc, argv, "odd"); const std::string& c = S().config;
#if PART == 0
  if (c == "vec") each<R_vec, KINDS PLAIN>(); else if (c == "deq") each<R_deq, KINDS PLAIN>(); else if (c == "fun") each<R_fun, KINDS PLAIN>();
#else
  if (c == "lst") each<R_lst, KINDS PLAIN>(); else if (c == "flst") each<R_flst, KINDS PLAIN>(); else if (c == "que") each<R_que, KINDS PLAIN>(); else if (c == "tree") each<R_tree, KINDS>();
#endif
  else return 3;
  leaks("all cases"); finish(0);
}
