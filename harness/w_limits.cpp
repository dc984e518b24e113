// The end of storage: requests larger than can exist, and a shared budget that runs out and is replenished while
// containers of every kind are used. Contents are compared with models after every operation.
#include <stdexcept>
#include "cest/vector.hpp"
#include "cest/deque.hpp"
#include "cest/list.hpp"
#include "cest/forward_list.hpp"
#include "cest/set.hpp"
#include "cest/map.hpp"
#include "cest/queue.hpp"
#include "cest/string.hpp"
#include "cest/sstream.hpp"
#include "mon.hpp"
#include <deque>
#include <list>
#include <map>
#include <set>
using namespace mon;

static MON_TLS long in_use, budget; static MON_TLS unsigned long refused;
template <class T> struct BA {            // refuses what the budget does not hold
  using value_type = T; BA() = default; template <class U> BA(const BA<U>&) {}
  T* allocate(size_t n)
  {
    if (n > (size_t)budget / sizeof(T) || in_use + (long)(n * sizeof(T)) > budget) { refused++; throw std::bad_alloc(); }
    in_use += n * sizeof(T); return std::allocator<T>().allocate(n);
  }
  void deallocate(T* p, size_t n) { in_use -= n * sizeof(T); std::allocator<T>().deallocate(p, n); }
  template <class U> friend bool operator==(const BA&, const BA<U>&) { return true; }
};
static MON_TLS long alive;
template <size_t N> struct Blk {
  long v; char pad[N ? N : 1];
  Blk(long x = 7) : v(x) { alive++; } Blk(const Blk& o) : v(o.v) { alive++; } Blk(Blk&& o) noexcept : v(o.v) { alive++; o.v = -1; }
  Blk& operator=(const Blk&) = default; Blk& operator=(Blk&& o) noexcept { v = o.v; o.v = -1; return *this; } ~Blk() { alive--; }
  friend bool operator<(const Blk& a, const Blk& b) { return a.v < b.v; } friend bool operator==(const Blk& a, const Blk& b) { return a.v == b.v; }
};
static long val(long x) { return x; } static long val(char x) { return (unsigned char)x; } template <size_t N> long val(const Blk<N>& b) { return b.v; }

// 0 returned, 1 a refusal (bad_alloc, length_error), 2 something else
template <class F> int tried(F f) { try { f(); } catch (const std::bad_alloc&) { return 1; } catch (const std::length_error&) { return 1; } catch (const std::exception&) { return 2; } return 0; }

// ---- requests larger than can exist ----------------------------------------------------------------------------
static std::vector<size_t> sizes(size_t sz)
{
  std::vector<size_t> r; size_t base[] = { SIZE_MAX, SIZE_MAX / 2 + 1, SIZE_MAX / sz, SIZE_MAX / sz / 2, SIZE_MAX / 2 / sz, SIZE_MAX / (sz * 2), (size_t)1 << 32, (size_t)1 << 31, (size_t)1 << 40, (size_t)1 << 62, SIZE_MAX / 4, SIZE_MAX / sz + SIZE_MAX / sz / 3 };
  for (size_t b : base) for (long d = -3; d <= 3; d++) if (b + d > ((size_t)1 << 30)) r.push_back(b + d);
  for (int k = 0; k < 20; k++) { size_t x = R.next() >> R.below(30); if (x > ((size_t)1 << 30)) r.push_back(x); } return r;
}
template <class T, class A> void huge_vec(const char* nm, bool std_alloc)
{
  using V = cest::vector<T, A>; size_t len = R.chance(1, 3) ? 0 : R.below(40); V v; for (size_t i = 0; i < len; i++) v.push_back(T((long)i)); if (R.chance(1, 3)) v.reserve(len + 5);
  for (size_t n : sizes(sizeof(T))) {
    if (std_alloc && n <= PTRDIFF_MAX / sizeof(T)) continue;      // would be asked of the sanitizer's allocator
    size_t cap = v.capacity(), before = alive; const T* p = v.data(); long use = in_use; unsigned w = R.below(3); op(nm, (long)n, w); const char* what = w == 0 ? "reserve" : w == 1 ? "resize" : "construction";
    int r = w == 0 ? tried([&] { v.reserve(n); }) : w == 1 ? tried([&] { v.resize(n); }) : tried([&] { V u(n); CHECK(MODEL, u.size() == n, "vector-limit", "vector(%zu) has %zu elements", n, u.size()); });
    CHECK(MODEL, r == 1, "vector-limit", "%s: %s of %zu elements of %zu bytes %s", nm, what, n, sizeof(T), r ? "fails with another exception" : "returns");
    CHECK(MODEL, v.size() == len && v.capacity() == cap && v.data() == p, "vector-changed", "%s: the refused %s of %zu changed the vector: size %zu, was %zu, capacity %zu, was %zu", nm, what, n, v.size(), len, v.capacity(), cap);
    for (size_t i = 0; i < len; i++) CHECK(MODEL, val(v[i]) == val(T((long)i)), "vector-changed", "%s: the refused %s of %zu changed element %zu", nm, what, n, i);
    CHECK(MODEL, in_use == use && alive == (long)before, "left", "%s: the refused %s of %zu left %ld bytes and %ld elements behind", nm, what, n, in_use - use, alive - (long)before); count("refusals"); state(hstr(nm), w, n > SIZE_MAX / 2, n % 7);
  }
  v.push_back(T(5)); CHECK(MODEL, v.size() == len + 1 && val(v.back()) == 5, "usable", "%s: an insertion after the refusals", nm);
}
template <class Ch, class A> void huge_str(const char* nm, bool std_alloc)
{
  using S = cest::basic_string<Ch, std::char_traits<Ch>, A>; size_t len = R.chance(1, 3) ? 0 : R.below(60); S s; std::basic_string<Ch> m; for (size_t i = 0; i < len; i++) { s.push_back((Ch)('a' + i % 26)); m.push_back((Ch)('a' + i % 26)); }
  for (size_t n : sizes(sizeof(Ch))) {
    if (std_alloc && n <= PTRDIFF_MAX / sizeof(Ch)) continue;
    size_t cap = s.capacity(); const Ch* p = s.data(); long use = in_use; op(nm, (long)n); int r = tried([&] { s.reserve(n); });
    CHECK(MODEL, r == 1, "string-limit", "%s: reserve(%zu) %s", nm, n, r ? "fails with another exception" : "returns"); CHECK(MODEL, s.size() == len && s.capacity() == cap && s.data() == p && !memcmp(s.c_str(), m.c_str(), (len + 1) * sizeof(Ch)), "string-changed", "%s: the refused reserve(%zu) changed the string", nm, n); CHECK(MODEL, in_use == use, "left", "%s: the refused reserve(%zu) left %ld bytes behind", nm, n, in_use - use); count("refusals"); state(hstr(nm), n > SIZE_MAX / 2, n % 7);
  }
  s.push_back((Ch)'!'); CHECK(MODEL, s.size() == len + 1 && s[len] == (Ch)'!' && s.c_str()[len + 1] == 0, "usable", "%s: an insertion after the refusals", nm);
  // positions and lengths beyond the end in searches
  for (size_t n : sizes(1)) { op("find", (long)n); CHECK(MODEL, s.find((Ch)'!', n) == S::npos && s.find(s, n) == S::npos && s.find(s.c_str(), n) == S::npos, "find-limit", "%s: a search from %zu in %zu characters finds something", nm, n, s.size()); }
  CHECK(MODEL, s.find(s.c_str(), S::npos) == S::npos && s.find(S(), S::npos) == S::npos, "find-limit", "%s: a search from the last position", nm);
}
static void huge(long)
{
  in_use = 0; budget = 1 << 24; alive = 0;
  huge_vec<Blk<1>, BA<Blk<1>>>("vector", false); huge_vec<Blk<4000>, BA<Blk<4000>>>("vector of large elements", false); huge_vec<char, BA<char>>("vector of char", false); huge_vec<Blk<1>, std::allocator<Blk<1>>>("vector, usual allocator", true); huge_vec<Blk<100>, std::allocator<Blk<100>>>("vector of larger elements, usual allocator", true); huge_vec<char, std::allocator<char>>("vector of char, usual allocator", true);
  huge_str<char, BA<char>>("string", false); huge_str<wchar_t, BA<wchar_t>>("wstring", false); huge_str<char16_t, BA<char16_t>>("u16string", false); huge_str<char, std::allocator<char>>("string, usual allocator", true); huge_str<char32_t, std::allocator<char32_t>>("u32string, usual allocator", true);
  CHECK(MODEL, in_use == 0 && alive == 0, "left", "%ld bytes and %ld elements are left", in_use, alive);
}

// ---- a budget that runs out -----------------------------------------------------------------------------------------
using E = Blk<16>;
struct Box { virtual ~Box() {} virtual void step() = 0; virtual void same(const char*) = 0; virtual void drop() = 0; virtual bool renew() = 0; virtual size_t n() = 0; };
static MON_TLS const char* last;
template <class D> struct Boxed : Box {
  // an operation that may be refused: on success apply to the model; on refusal strong means unchanged
  template <class F, class G> void may(const char* nm, bool strong, F f, G model)
  {
    last = nm; op(nm, (long)self().model_size(), in_use, budget); unsigned long r0 = refused; int r = tried(f); bool ref = refused != r0;
    CHECK(MODEL, r == (ref ? 1 : 0), "refusal", "%s %s: %s", D::kind(), nm, ref ? r == 0 ? "the allocator refused, and the operation returned" : "the refusal arrived as another exception" : "an exception without a refusal");
    if (!r) model(); else { count("refused_operations"); if (!strong) self().take(); }
  }
  D& self() { return static_cast<D&>(*this); }
  void same(const char* when) override
  {
    std::vector<long> got = self().read(); auto& want = self().m;
    CHECK(MODEL, got.size() == want.size(), "contents", "%s, %s (%s): %zu elements, expected %zu", D::kind(), last, when, got.size(), want.size());
    for (size_t i = 0; i < got.size(); i++) CHECK(MODEL, got[i] == want[i], "contents", "%s, %s (%s): element %zu is %ld, expected %ld", D::kind(), last, when, i, got[i], want[i]);
  }
};
#define COMMON(K) static const char* kind() { return K; } std::vector<long> m; size_t model_size() { return m.size(); } void take() { m = read(); } size_t n() override { return m.size(); }
static MON_TLS long next_v;
struct BVec : Boxed<BVec> {
  COMMON("vector") using C = cest::vector<E, BA<E>>; C c;
  std::vector<long> read() { std::vector<long> r; for (auto& x : c) r.push_back(x.v); CHECK(MODEL, r.size() == c.size() && c.capacity() >= c.size(), "size", "vector: %zu visited, size %zu, capacity %zu", r.size(), c.size(), c.capacity()); return r; }
  void drop() override { last = "clear"; op("v.clear"); if (R.chance(1, 2)) { c.clear(); m.clear(); } else { C d; c = std::move(d); m.clear(); } }
  bool renew() override { return tried([&] { C d(c); c.push_back(E(1)); c = d; }) == 0; }
  void step() override
  {
    long x = next_v++; switch (R.below(8)) {
      case 0: case 1: case 2: may("push_back", true, [&] { c.push_back(E(x)); }, [&] { m.push_back(x); }); break;
      case 3: if (m.size()) may("push_back of its own", true, [&] { c.push_back(c.front()); }, [&] { m.push_back(m[0]); }); break;
      case 4: { size_t k = R.below(3 * m.size() + 5); may("reserve", true, [&] { c.reserve(k); }, [] {}); break; }
      case 5: { size_t k = R.below(2 * m.size() + 5); may("resize", true, [&] { c.resize(k); }, [&] { m.resize(k, 7); }); break; }
      case 6: { may("copy", true, [&] { C d(c); CHECK(MODEL, d.size() == m.size(), "contents", "copy of a vector"); }, [] {}); C o; std::vector<long> om; for (int k = R.below(12); k--;) if (!tried([&] { o.push_back(E(k)); })) om.push_back(k); may("assign", false, [&] { c = o; }, [&] { m = om; }); break; }
      default: if (m.size()) { last = "pop_back"; op("v.pop_back"); c.pop_back(); m.pop_back(); } break;
    }
  }
};
struct BDeq : Boxed<BDeq> {
  COMMON("deque") using C = cest::deque<E, BA<E>>; C c;
  std::vector<long> read() { std::vector<long> r; for (auto& x : c) r.push_back(x.v); CHECK(MODEL, r.size() == c.size(), "size", "deque: %zu visited, size %zu", r.size(), c.size()); return r; }
  void drop() override { last = "clear"; op("d.clear"); c.clear(); m.clear(); }
  bool renew() override { return tried([&] { C d(c); c.push_back(E(1)); c.pop_back(); }) == 0; }
  void step() override
  {
    switch (R.below(6)) {
      case 0: { int k = R.chance(1, 4) ? R.below(3000) : 1; while (k--) { long x = next_v++; may("push_back", true, [&] { c.push_back(E(x)); }, [&] { m.push_back(x); }); } break; }
      case 1: { int k = R.chance(1, 4) ? R.below(3000) : 1; std::vector<long> f; while (k--) { long x = next_v++; bool ok = false; may("push_front", true, [&] { c.push_front(E(x)); }, [&] { ok = true; }); if (ok) f.push_back(x); } m.insert(m.begin(), f.rbegin(), f.rend()); break; }
      case 2: if (m.size()) { size_t k = 1 + R.below(m.size()); last = "pop_front"; op("d.pop_front", k); for (size_t j = 0; j < k; j++) c.pop_front(); m.erase(m.begin(), m.begin() + k); } break;
      case 3: if (m.size()) { size_t k = 1 + R.below(m.size()); last = "pop_back"; op("d.pop_back", k); for (size_t j = 0; j < k; j++) c.pop_back(); m.resize(m.size() - k); } break;
      default: may("copy", true, [&] { C d(c); CHECK(MODEL, d.size() == m.size(), "contents", "copy of a deque"); }, [] {}); if (R.chance(1, 3)) { unsigned long r0 = refused; (void)r0; int t = tried([&] { C o; may("assign", false, [&] { o.push_back(E(3)); c = o; }, [&] { m.assign(1, 3); }); }); (void)t; } break;
    }
  }
};
struct BQue : Boxed<BQue> {
  COMMON("queue") cest::queue<E, cest::deque<E, BA<E>>> c; size_t gone = 0;
  std::vector<long> read() { CHECK(MODEL, c.size() == m.size() && c.empty() == m.empty(), "size", "queue: size %zu, expected %zu", (size_t)c.size(), m.size()); if (!m.empty()) CHECK(MODEL, c.front().v == m.front() && c.back().v == m.back(), "ends", "queue: front or back"); return m; }
  void drop() override { last = "pop"; op("q.drain"); while (!c.empty()) { CHECK(MODEL, c.front().v == m[gone], "order", "queue delivers %ld, expected %ld", c.front().v, m[gone]); c.pop(); gone++; } CHECK(MODEL, gone == m.size(), "order", "queue delivered %zu of %zu", gone, m.size()); m.clear(); gone = 0; }
  bool renew() override { return tried([&] { c.push(E(next_v)); m.push_back(next_v++); }) == 0; }
  void step() override { if (R.chance(1, 30)) { drop(); return; } int k = R.chance(1, 6) ? R.below(2500) : 1; while (k--) { long x = next_v++; may("push", true, [&] { c.push(E(x)); }, [&] { m.push_back(x); }); } if (m.size() && R.chance(1, 3)) { op("q.pop"); size_t p = R.below(m.size() + 1); for (size_t j = 0; j < p; j++) { CHECK(MODEL, c.front().v == m[j], "order", "queue delivers %ld, expected %ld", c.front().v, m[j]); c.pop(); } m.erase(m.begin(), m.begin() + p); } }
};
struct BLst : Boxed<BLst> {
  COMMON("list") using C = cest::list<E, BA<E>>; C c;
  std::vector<long> read() { std::vector<long> r; for (auto& x : c) r.push_back(x.v); std::vector<long> b; for (auto it = c.end(); it != c.begin();) b.push_back((--it)->v); std::reverse(b.begin(), b.end()); CHECK(MODEL, r.size() == c.size() && b == r, "size", "list: %zu visited, size %zu, backwards %zu", r.size(), (size_t)c.size(), b.size()); return r; }
  void drop() override { last = "clear"; op("l.clear"); if (R.chance(1, 2)) c.clear(); else while (!c.empty()) c.erase(c.begin()); m.clear(); }
  bool renew() override { return tried([&] { C d(c); c.push_back(E(1)); c.pop_back(); }) == 0; }
  void step() override
  {
    long x = next_v++; size_t at = R.below(m.size() + 1); auto it = c.begin(); for (size_t k = 0; k < at; k++) ++it; switch (R.below(7)) {
      case 0: may("push_back", true, [&] { c.push_back(E(x)); }, [&] { m.push_back(x); }); break; case 1: may("push_front", true, [&] { c.push_front(E(x)); }, [&] { m.insert(m.begin(), x); }); break;
      case 2: may("insert", true, [&] { E e(x); c.insert(it, e); }, [&] { m.insert(m.begin() + at, x); }); break; case 3: may("emplace", true, [&] { c.emplace(it, x); }, [&] { m.insert(m.begin() + at, x); }); break;
      case 4: if (at < m.size()) { last = "erase"; op("l.erase", at); c.erase(it); m.erase(m.begin() + at); } break;
      case 5: { C o; std::vector<long> om; for (int k = R.below(12); k--;) if (!tried([&] { o.push_back(E(k)); })) om.push_back(k); may("assign", false, [&] { c = o; }, [&] { m = om; }); break; }
      default: may("copy", true, [&] { C d(c); CHECK(MODEL, d.size() == m.size(), "contents", "copy of a list"); }, [] {}); break;
    }
  }
};
struct BFls : Boxed<BFls> {
  COMMON("forward_list") using C = cest::forward_list<E, BA<E>>; C c;
  std::vector<long> read() { std::vector<long> r; for (auto& x : c) { r.push_back(x.v); if (r.size() > 100000) break; } return r; }
  void drop() override { last = "clear"; op("f.clear"); c.clear(); m.clear(); }
  bool renew() override { return tried([&] { c.push_front(E(1)); c.pop_front(); }) == 0; }
  void step() override
  {
    long x = next_v++; size_t at = R.below(m.size() + 1); auto it = c.before_begin(); for (size_t k = 0; k < at; k++) ++it; switch (R.below(5)) {
      case 0: case 1: may("push_front", true, [&] { c.push_front(E(x)); }, [&] { m.insert(m.begin(), x); }); break; case 2: may("insert_after", true, [&] { E e(x); c.insert_after(it, e); }, [&] { m.insert(m.begin() + at, x); }); break;
      case 3: if (m.size()) { last = "pop_front"; op("f.pop"); c.pop_front(); m.erase(m.begin()); } break; default: if (at < m.size()) { last = "erase_after"; op("f.erase_after", at); c.erase_after(it); m.erase(m.begin() + at); } break;
    }
  }
};
struct BSet : Boxed<BSet> {
  COMMON("set") using C = cest::set<E, std::less<E>, BA<E>>; C c;
  std::vector<long> read() { std::vector<long> r; for (auto it = c.begin(); it != c.end(); ++it) r.push_back(it->v); CHECK(MODEL, r.size() == c.size(), "size", "set: %zu visited, size %zu", r.size(), (size_t)c.size()); return r; }
  void drop() override { last = "clear"; op("s.clear"); c.clear(); m.clear(); }
  bool renew() override { return tried([&] { C d(c); }) == 0; }
  void step() override
  {
    long x = (long)R.below(400); auto put = [&] { auto p = std::lower_bound(m.begin(), m.end(), x); if (p == m.end() || *p != x) m.insert(p, x); }; switch (R.below(8)) {
      case 0: may("copy", true, [&] { C d(c); CHECK(MODEL, d.size() == m.size(), "contents", "copy of a set"); }, [] {}); break;
      case 1: if (R.chance(1, 4)) { C o; std::vector<long> om; for (int k = R.below(12); k--;) if (!tried([&] { o.insert(E(k)); })) om.insert(om.begin(), k); may("assign", false, [&] { c = o; }, [&] { std::sort(om.begin(), om.end()); m = om; }); } break;
      case 2: may("insert_copy", true, [&] { E e(x); c.insert(e); }, put); break; default: may("insert", true, [&] { c.insert(E(x)); }, put); break;
    }
    CHECK(MODEL, (c.find(E(x)) != c.end()) == std::binary_search(m.begin(), m.end(), x), "find", "set, %s: element %ld is %s", last, x, c.find(E(x)) != c.end() ? "there" : "not there");
  }
};
struct BMap : Boxed<BMap> {
  COMMON("map") using C = cest::map<E, E, std::less<E>, BA<std::pair<const E, E>>>; C c;
  std::vector<long> read() { std::vector<long> r; for (auto it = c.begin(); it != c.end(); ++it) { CHECK(MODEL, it->second.v == it->first.v * 3 + 1, "value", "map, %s: key %ld holds %ld", last, it->first.v, it->second.v); r.push_back(it->first.v); } CHECK(MODEL, r.size() == c.size(), "size", "map: %zu visited, size %zu", r.size(), (size_t)c.size()); return r; }
  void drop() override { last = "clear"; op("m.clear"); c.clear(); m.clear(); }
  bool renew() override { return tried([&] { C d(c); }) == 0; }
  void step() override { long x = (long)R.below(400); if (R.chance(1, 8)) may("copy", true, [&] { C d(c); CHECK(MODEL, d.size() == m.size(), "contents", "copy of a map"); }, [] {}); else may("insert", true, [&] { c.insert({ E(x), E(x * 3 + 1) }); }, [&] { auto p = std::lower_bound(m.begin(), m.end(), x); if (p == m.end() || *p != x) m.insert(p, x); }); }
};
template <class Ch> struct BStr : Boxed<BStr<Ch>> {
  COMMON("string") using C = cest::basic_string<Ch, std::char_traits<Ch>, BA<Ch>>; C c; template <class F, class G> void may(const char* a, bool b, F f, G g) { Boxed<BStr<Ch>>::may(a, b, f, g); }
  std::vector<long> read() { std::vector<long> r; for (auto x : c) r.push_back((long)x); CHECK(MODEL, r.size() == c.size() && c.capacity() >= c.size() && c.c_str()[c.size()] == 0, "size", "string: size, capacity or end"); return r; }
  void drop() override { last = "clear"; op("t.clear"); c.clear(); m.clear(); }
  bool renew() override { return tried([&] { C d(c); d.push_back('x'); }) == 0; }
  void step() override
  {
    long x = 'a' + next_v++ % 26; Ch buf[80]; size_t k = R.below(80); for (auto& b : buf) b = (Ch)x; switch (R.below(9)) {
      case 0: case 1: may("push_back", true, [&] { c.push_back((Ch)x); }, [&] { m.push_back(x); }); break; case 2: may("append", true, [&] { c.append(buf, k); }, [&] { m.insert(m.end(), k, x); }); break;
      case 3: may("append itself", true, [&] { c += c; }, [&] { auto t = m; m.insert(m.end(), t.begin(), t.end()); }); if (m.size() > 20000) drop(); break; case 4: may("reserve", true, [&] { c.reserve(m.size() + k * 20); }, [] {}); break;
      case 5: may("assign", true, [&] { C o(buf, k); c = o; }, [&] { m.assign(k, x); }); break; case 6: may("copy", true, [&] { C d(c); CHECK(MODEL, d.size() == m.size() && d == c, "contents", "copy of a string"); }, [] {}); break;
      case 7: if (m.size()) { last = "pop_back"; op("t.pop_back"); c.pop_back(); m.pop_back(); } break; default: may("a stream over it", true, [&] { cest::basic_istringstream<Ch, std::char_traits<Ch>, BA<Ch>> in(c); Ch y; size_t g = 0; while (in.get(y)) g++; CHECK(MODEL, g == m.size(), "contents", "a stream over a string delivers %zu of %zu", g, m.size()); }, [] {}); break;
    }
  }
};
static void exhaust(long i)
{
  in_use = 0; alive = 0; refused = 0; budget = 1 << 30; next_v = 1; {
    std::vector<std::unique_ptr<Box>> v; auto add = [&] { switch (R.below(9)) { case 0: v.emplace_back(new BVec); break; case 1: v.emplace_back(new BDeq); break; case 2: v.emplace_back(new BLst); break; case 3: v.emplace_back(new BFls); break; case 4: v.emplace_back(new BSet); break; case 5: v.emplace_back(new BMap); break; case 6: v.emplace_back(new BQue); break; case 7: v.emplace_back(new BStr<char>); break; default: v.emplace_back(new BStr<char32_t>); break; } };
    for (int k = R.range(2, 5); k--;) add();
    for (int phase = R.range(2, 6); phase--;) {
      // a little storage is left
      budget = in_use + (long)R.below(R.chance(1, 3) ? 200000 : R.chance(1, 2) ? 60000 : 3000);
      for (int st = R.range(5, 60); st--;) { size_t k = R.below(v.size()); v[k]->step(); if (R.chance(1, 25)) { size_t n0 = v[k]->n(); long u0 = in_use; unsigned long r0 = refused; v[k]->drop(); CHECK(MODEL, refused == r0, "release", "emptying a container of %zu asked for storage", n0); CHECK(MODEL, in_use <= u0, "release", "emptying a container of %zu raised the storage in use", n0); } v[k]->same("storage short"); if (R.chance(1, 10)) for (auto& b : v) b->same("another was used"); }
      // nothing at all is left: whatever needs no storage still works
      budget = in_use; for (int st = R.range(1, 15); st--;) { size_t k = R.below(v.size()); v[k]->step(); v[k]->same("storage exhausted"); }
      // plenty again: everything works
      budget = in_use + (1 << 28); last = "renewed use"; for (auto& b : v) { CHECK(MODEL, b->renew(), "renewed", "a container refuses although storage is there again"); b->same("storage back"); }
      for (int st = R.range(1, 30); st--;) { size_t k = R.below(v.size()); v[k]->step(); v[k]->same("storage back"); }
      if (v.size() > 2 && R.chance(1, 2)) { op("destroy"); unsigned long r0 = refused; v.erase(v.begin() + R.below(v.size())); CHECK(MODEL, refused == r0, "release", "destruction asked for storage"); } if (R.chance(1, 2)) add();
      state(v.size(), refused > 40 ? 40 : refused, phase);
    }
    budget = in_use; last = "destruction"; unsigned long r0 = refused; op("destroy_all"); v.clear(); CHECK(MODEL, refused == r0, "release", "destruction asked for storage");
  }
  CHECK(MODEL, in_use == 0 && alive == 0, "left", "%ld bytes and %ld elements are left", in_use, alive); count("budget_histories"); count("refusals", refused);
}
int main(int argc, char** argv)
{
  init(argc, argv, "w_limits"); std::string c = S().config;
  if (c == "huge") run_cases(huge);
  if (c == "exhaust") run_cases(exhaust);
  return 3;
}
