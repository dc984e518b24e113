// set and map: lockstep, order, node stability, lifetimes, copies, comparison counts
#include <stdexcept>
#include <utility>
#include "cest/set.hpp"
#include "cest/map.hpp"
#include "elems.hpp"
#include <cmath>
#include <ctime>
#include <map>
#include <set>
#include <string_view>
using namespace mon;

static MON_TLS unsigned long g_cmp;   // comparator calls

struct Less  { template <class A> bool operator()(const A& a, const A& b) const { g_cmp++; return a < b; } };
struct Great { template <class A> bool operator()(const A& a, const A& b) const { g_cmp++; return b < a; } };
// equivalence coarser than equality
struct Coarse { bool operator()(int a, int b) const { g_cmp++; return a / 3 < b / 3; } };
// finer structure: by last digit first
struct Digit { bool operator()(int a, int b) const { g_cmp++; return std::pair(a % 10, a) < std::pair(b % 10, b); } };
struct Rev { bool operator()(const std::string& a, const std::string& b) const { g_cmp++; return std::lexicographical_compare(a.rbegin(), a.rend(), b.rbegin(), b.rend()); } };
struct Ci { bool operator()(const std::string& a, const std::string& b) const { g_cmp++; return strcasecmp(a.c_str(), b.c_str()) < 0; } };
// heterogeneous: keys are strings, lookups by string_view
struct Het {
  using is_transparent = void;
  bool operator()(const std::string& a, const std::string& b) const { g_cmp++; return a < b; }
  bool operator()(const std::string& a, std::string_view b) const { g_cmp++; return std::string_view(a) < b; }
  bool operator()(std::string_view a, const std::string& b) const { g_cmp++; return a < std::string_view(b); }
};
// heterogeneous over ints: key int, lookups by a bucket of ten; only the two mixed orders exist
struct Bucket { int b; };
struct HetInt {
  using is_transparent = void;
  bool operator()(int a, int b) const { g_cmp++; return a < b; }
  bool operator()(int a, Bucket b) const { g_cmp++; return a < b.b * 10; }
  bool operator()(Bucket a, int b) const { g_cmp++; return a.b * 10 + 9 < b; }
};

template <class K> struct Kx { static K make(long v) { return K(v); } static long get(const K& k) { return (long)k; } static constexpr bool trk = false; };
template <> struct Kx<Trk> { static Trk make(long v) { return Trk(v); } static long get(const Trk& k) { return k.v(); } static constexpr bool trk = true; };
template <> struct Kx<Al64> { static Al64 make(long v) { return Al64(v); } static long get(const Al64& k) { k.chk(); return k.x; } static constexpr bool trk = false; };
template <> struct Kx<NoDef> { static NoDef make(long v) { return NoDef(v); } static long get(const NoDef& k) { return k.x; } static constexpr bool trk = false; };
template <> struct Kx<std::string> {
  static std::string make(long v)
  {
    std::string r; const char* al = "abAB"; unsigned long u = (unsigned long)v;
    do { r += al[u % 4]; u /= 4; } while (u); return v % 5 == 0 ? r + "_suffix_that_is_long" : r;
  }
  static const std::string& get(const std::string& k) { return k; }
  static constexpr bool trk = false;
};

// one interface over set and map
template <class C, bool Map> struct Acc {
  using K = typename C::key_type;
  template <class It> static const K& key(const It& it) { if constexpr (Map) return it->first; else return *it; }
  template <class It> static long val(const It& it) { if constexpr (Map) return Kx<typename C::mapped_type>::get(it->second); else return 0; }
  static auto mk(const K& k, long v) { if constexpr (Map) return typename C::value_type(k, Kx<typename C::mapped_type>::make(v)); else { (void)v; return K(k); } }
};

enum Dist { Small, Wide, Up, Down, Zig, Organ, Bits, Inward, NDist };
static long keyof(int d, long i, long n)
{
  switch (d) {
    case Small: return R.below(std::max<long>(n / 3, 4));
    case Wide: return R.below(1 << 20);
    case Up: return i;
    case Down: return n - i;
    case Zig: return i & 1 ? n + i : n - i;
    case Organ: return i < n / 2 ? 2 * i : 2 * (n - i) + 1;
    case Bits: { long r = 0; for (int b = 0; b < 17; b++) if (i >> b & 1) r |= 1 << (16 - b); return r; }
    default: return i & 1 ? 4 * n - i : i;
  }
}

template <class C, bool Map> struct W {
  using Ac = Acc<C, Map>;
  using K = typename C::key_type; using Cmp = typename C::key_compare;
  using It = typename C::iterator; using CIt = typename C::const_iterator;
  static constexpr bool trk = Kx<K>::trk;
  struct Ent { long v; CIt it; const K* ad; };
  struct Slot { C* c; std::map<K, Ent, Cmp> m; unsigned fl = 0; };
  std::vector<Slot> s;
  unsigned tg(const Slot& x, unsigned t = MODEL) const { return t | x.fl; }
  template <class A> static bool keq(const A& a, const A& b) { return Kx<A>::get(a) == Kx<A>::get(b); }

  // from the end to the beginning, with both forms of the decrement, and a step forward again from each element
  template <class I> void back(Slot& x, I b, I e, const char* w, const char* key)
  {
    size_t n = x.m.size(), i = n; I it = e; auto mi = x.m.end(); unsigned long c0 = g_cmp;
    while (it != b) {
      CHECK(tg(x, MODEL | ITER), i > 0, key, "%s: backward iteration goes past the %zu elements", w, n); if (!i) return;
      --mi; --i; I was = it;
      if (i & 1) { I o = it--; CHECK(tg(x, MODEL | ITER), o == was, key, "%s: it-- at %zu of %zu does not return the old place", w, i, n); }
      else { I& r = --it; CHECK(tg(x, MODEL | ITER), &r == &it, key, "%s: --it does not return itself", w); }
      CHECK(tg(x, MODEL | ITER), it != e, key, "%s: backward iteration ends at element %zu of %zu", w, i, n); if (it == e) return;
      CHECK(tg(x, MODEL | ITER), keq(Ac::key(it), mi->first) && &Ac::key(it) == mi->second.ad && Ac::val(it) == mi->second.v, key, "%s: backward iteration at element %zu of %zu", w, i, n);
      I f = it; ++f; CHECK(tg(x, MODEL | ITER), f == was, key, "%s: ++ does not undo -- at element %zu of %zu", w, i, n);
    }
    CHECK(tg(x, MODEL | ITER), i == 0, key, "%s: backward iteration leaves out the first %zu of %zu", w, i, n);
    CHECK(tg(x, MODEL | COST), g_cmp == c0, "iteration-compares", "%s: backward iteration called the comparator %lu times", w, g_cmp - c0);
  }
  void observe(Slot& x, const char* w)
  {
    C& c = *x.c; const C& k = c; size_t n = x.m.size(), i = 0;
    CHECK(tg(x), c.size() == n, "size", "%s: size %zu, expected %zu", w, c.size(), n);
    CHECK(tg(x), c.empty() == (n == 0), "empty", "%s: empty() at size %zu", w, n);
    auto mi = x.m.begin();
    unsigned long c0 = g_cmp;
    for (auto it = c.begin(); it != c.end(); ++it, ++mi, ++i) {
      CHECK(tg(x), mi != x.m.end(), "iteration-long", "%s: iteration goes past the %zu elements", w, n); if (mi == x.m.end()) return;
      CHECK(tg(x), keq(Ac::key(it), mi->first), "order", "%s: element %zu of %zu has another key than expected", w, i, n);
      CHECK(tg(x), Ac::val(it) == mi->second.v, "value", "%s: element %zu maps to %ld, expected %ld", w, i, Ac::val(it), mi->second.v);
      CHECK(tg(x, ADDR), &Ac::key(it) == mi->second.ad, "address", "%s: element %zu moved in storage", w, i);
      CHECK(tg(x, ADDR | CMP), CIt(it) == mi->second.it && !(CIt(it) != mi->second.it), "iterator-place", "%s: the iterator to element %zu is no longer in place", w, i);
    }
    CHECK(tg(x, MODEL | COST), g_cmp == c0, "iteration-compares", "%s: iteration called the comparator %lu times", w, g_cmp - c0);
    CHECK(tg(x), mi == x.m.end(), "iteration-short", "%s: iteration visits %zu of %zu", w, i, n);
    mi = x.m.begin(); i = 0;
    for (CIt it = k.cbegin(); it != k.cend(); ++mi, ++i) {
      CHECK(tg(x, MODEL | ITER), mi != x.m.end(), "const-long", "%s: const iteration", w); if (mi == x.m.end()) return;
      CIt o = it++;
      CHECK(tg(x, MODEL | ITER), keq(Ac::key(o), mi->first) && &Ac::key(o) == mi->second.ad, "post-incr", "%s: it++ at element %zu", w, i);
      CIt h = mi->second.it; ++h; CHECK(tg(x, ADDR), h == it, "held-next", "%s: successor of a held iterator (element %zu)", w, i);
      CHECK(tg(x, ADDR), keq(*mi->second.ad, mi->first) && keq(Ac::key(mi->second.it), mi->first), "held-value", "%s: element %zu through its held address", w, i);
    }
    CHECK(tg(x, MODEL | ITER), mi == x.m.end() && k.begin() == k.cbegin() && (n == 0) == (k.begin() == k.end()), "const-short", "%s: const iteration visits %zu of %zu", w, i, n);
    back<It>(x, c.begin(), c.end(), w, "back"); back<CIt>(x, k.begin(), k.end(), w, "const-back"); back<CIt>(x, k.cbegin(), k.cend(), w, "const-back");
    state(Map ? 6 : 7, n > 300 ? 300 : n, S().hist % 5);
  }
  template <class It2> void found(Slot& x, It2 it, typename std::map<K, Ent, Cmp>::iterator mi, bool end, const char* w)
  {
    bool present = mi != x.m.end();
    CHECK(tg(x), end == !present, present ? "not-found" : "found-absent", "%s: find of a key which is %spresent (size %zu)", w, present ? "" : "not ", x.m.size());
    if (present && !end) CHECK(tg(x), &Ac::key(it) == mi->second.ad && Ac::val(it) == mi->second.v, "found-other", "%s: find designates another element", w);
  }
  void lookup(Slot& x, const K& k, const char* w)
  {
    C& c = *x.c; const C& q = c; auto mi = x.m.find(k);
    { auto it = c.find(k); found(x, it, mi, it == c.end(), w); }
    { auto it = q.find(k); found(x, it, mi, it == q.end(), w); }
    count("lookups", 2);
  }
  void het(Slot& x, long kv, const char* w)
  {
    C& c = *x.c; const C& q = c; (void)c; (void)q; (void)kv; (void)w;
    if constexpr (std::is_same_v<Cmp, Het>) {
      std::string key = Kx<std::string>::make(kv); std::string buf = "<" + key + ">";
      std::string_view v(buf.data() + 1, key.size());
      auto mi = x.m.find(key);
      auto a = c.find(v); found(x, a, mi, a == c.end(), w); auto b = q.find(v); found(x, b, mi, b == q.end(), w);
      count("het_lookups", 2);
    } else if constexpr (std::is_same_v<Cmp, HetInt>) {
      Bucket bk{ (int)(kv / 10) };
      auto lo = x.m.lower_bound((int)(bk.b * 10)); bool any = lo != x.m.end() && lo->first <= bk.b * 10 + 9;
      auto a = c.find(bk); auto b = q.find(bk);
      CHECK(tg(x), (a != c.end()) == any && (b != q.end()) == any, "het-find", "%s: lookup by equivalent of another type, expected %d", w, any);
      if (any && a != c.end()) CHECK(tg(x), Ac::key(a) / 10 == bk.b && Ac::key(b) / 10 == bk.b, "het-other", "%s: lookup by another type designates an element that is not equivalent", w);
      count("het_lookups", 2);
    }
  }
  void insert(Slot& x, const K& k, long v, int how)
  {
    C& c = *x.c; size_t n = x.m.size(); bool hint = how == 1 && !Map;
    auto value = Ac::mk(k, v); const auto& cv = value;
    auto mi = x.m.find(k); bool fresh = mi == x.m.end();
    CIt it; bool added = fresh;
    if constexpr (!Map) if (hint) { CIt h = R.chance(1, 2) ? c.begin() : c.end(); it = c.insert(h, cv); added = c.size() == n + 1; }
    if (!hint) { auto p = c.insert(cv); it = p.first; added = p.second; }
    CHECK(tg(x), added == fresh, "insert-flag", "insert of a key which is %s reports added=%d", fresh ? "new" : "present", added);
    CHECK(tg(x), it != c.cend(), "insert-end", "insert returned the end iterator"); if (it == c.cend()) return;
    if (fresh) { CHECK(tg(x), keq(Ac::key(it), k) && (!Map || Ac::val(it) == v), "insert-return", "insert designates another element"); x.m.emplace(k, Ent{ Map ? v : 0, it, &Ac::key(it) }); }
    else CHECK(tg(x), &Ac::key(it) == mi->second.ad, "insert-return", "insert of a present key designates another element");
    CHECK(tg(x), c.size() == x.m.size(), "size", "size %zu after insert, expected %zu", c.size(), x.m.size());
  }
  void rebuild(Slot& x, const std::map<K, Ent, Cmp>& src)
  {
    std::map<K, Ent, Cmp> m; auto it = x.c->begin(); size_t i = 0;
    for (auto& [k, e] : src) {
      CHECK(tg(x), it != x.c->end(), "copy-short", "a copy has %zu of %zu elements", i, src.size()); if (it == x.c->end()) break;
      m.emplace(k, Ent{ e.v, it, &Ac::key(it) }); ++it; ++i;
    }
    x.m = m;
  }
  static constexpr bool usable = true;
  void live(const char* w)
  {
    if constexpr (trk) { // the model holds one tracked key per element too
      size_t t = 0; for (auto& x : s) t += x.m.size();
      size_t per = 1; if constexpr (Map) per += Kx<typename C::mapped_type>::trk;
      live_is(t * per + t, w);
    }
  }

  void run(long idx)
  {
    int ns = 2; for (int i = 0; i < ns; i++) s.push_back(Slot{ new C(), {} });
    long nops = R.range(15, 140); int dist = R.below(NDist); long i = 0;
    long maxn = R.chance(1, 8) ? 1200 : 80;
    for (long kk = 0; kk < nops; kk++) {
      Slot& x = s[R.below(ns)]; Slot& y = s[R.below(ns)]; C& c = *x.c; long id = &x - &s[0];
      long kv = keyof(dist, i++, nops); if (R.chance(1, 5)) kv = R.below(nops + 2);
      if constexpr (std::is_same_v<K, std::string>) kv %= 300; else if (R.chance(1, 20)) kv = -kv;
      if constexpr (std::is_same_v<Cmp, HetInt> || std::is_same_v<Cmp, Coarse> || std::is_same_v<Cmp, Digit> || std::is_same_v<K, std::string>) kv = std::labs(kv);
      switch (R.below(16)) {
        case 0: case 1: case 2: case 3: case 4: { long v = next_val(); op("insert", id, kv, v); insert(x, Kx<K>::make(kv), v, 0); break; }
        case 5: case 6: { op("insert_hint", id, kv); insert(x, Kx<K>::make(kv), next_val(), 1); break; }
        case 7: case 8: op("find", id, kv); lookup(x, Kx<K>::make(kv), "find"); het(x, std::labs(kv), "find"); break;
        case 9: if (!x.m.empty()) { auto mi = x.m.begin(); std::advance(mi, R.below(x.m.size())); op("find_own", id); x.fl |= ALIAS; flag(ALIAS);
            auto it = c.find(*mi->second.ad); found(x, it, mi, it == c.end(), "find of its own key");
            auto q = c.insert(*mi->second.it); CHECK(tg(x), !q.second && &Ac::key(q.first) == mi->second.ad, "insert-own", "insert of an own element"); } break;
        case 10: if (R.chance(1, 4)) { op("clear", id); c.clear(); x.m.clear(); } break;
        case 11: { op("assign", id, &y - &s[0]); x.fl |= COPY; y.fl |= COPY; flag(COPY); auto m = y.m; if (&x == &y) { x.fl |= ALIAS; flag(ALIAS); }
          C& r = (c = *y.c); CHECK(tg(x), &r == &c, "assign-return", "assignment does not return its target"); rebuild(x, m); break; }
        case 12: { op("copy_construct", id, &y - &s[0]); x.fl |= COPY; y.fl |= COPY; flag(COPY); auto m = y.m; C* t = new C(*y.c); delete x.c; x.c = t; rebuild(x, m); break; }
        case 13: if (&x != &y) { op("move", id, &y - &s[0]); x.fl |= COPY; y.fl |= COPY; flag(COPY); auto m = y.m;
          if (R.chance(1, 2)) { C* t = new C(std::move(*y.c)); delete x.c; x.c = t; } else *x.c = std::move(*y.c);
          rebuild(x, m); size_t k = 0; for (auto it = y.c->begin(); it != y.c->end(); ++it) k++;
          CHECK(tg(y), k == y.c->size(), "moved-from", "a moved-from container iterates over %zu of %zu", k, y.c->size());
          y.c->clear(); y.m.clear(); insert(y, Kx<K>::make(kv), 7, 0); } break;
        case 14: if constexpr (Map) if (!x.m.empty()) { auto mi = x.m.begin(); std::advance(mi, R.below(x.m.size())); long v = next_val(); op("write_value", id, v);
            It it = c.find(mi->first); CHECK(tg(x), it != c.end(), "not-found", "find of a present key"); if (it != c.end()) { it->second = Kx<typename C::mapped_type>::make(v); mi->second.v = v; } } break;
        default: { long b = R.range(1, maxn); op("bulk", id, b, dist); int d2 = R.below(NDist);
          if ((long)x.m.size() + b < maxn * 2) for (long j = 0; j < b; j++) { long q = keyof(d2, j, b); if constexpr (std::is_same_v<K, std::string>) q %= 3000; insert(x, Kx<K>::make(std::labs(q)), j, j & 1); S().ops++; } break; }
      }
      long tot = 0; for (auto& z : s) tot += z.m.size();
      if (tot < 150 || kk % 6 == 0) for (auto& z : s) observe(z, S().ring[(S().nops - 1) % 4096].op);
      live("an operation");
    }
    for (auto& z : s) for (auto& [k, e] : z.m) lookup(z, k, "final find");
    while (!s.empty()) { size_t q = R.below(s.size()); op("destroy", q); delete s[q].c; s.erase(s.begin() + q); for (auto& z : s) observe(z, "destroying another"); live("destroy"); }
    all_gone("destroying all");
  }
};

// every insertion order of n keys, exhaustively for small n: all tree shapes
template <class C, bool Map> void perms(int n)
{
  using Ac = Acc<C, Map>;
  std::vector<int> p; for (int i = 0; i < n; i++) p.push_back(i * 2);
  do {
    C c; S().ops++; std::vector<std::pair<int, const int*>> held;
    for (int i = 0; i < n; i++) {
      auto r = c.insert(Ac::mk(p[i], i)); CHECK(MODEL, r.second && Ac::key(r.first) == p[i], "perm-insert", "insert %d", p[i]);
      held.push_back({ p[i], &Ac::key(r.first) });
      auto d = c.insert(Ac::mk(p[R.below(i + 1)], 99)); CHECK(MODEL, !d.second, "perm-dup", "duplicate added");
      std::vector<int> q(p.begin(), p.begin() + i + 1); std::sort(q.begin(), q.end()); size_t j = 0;
      for (auto it = c.begin(); it != c.end(); ++it) { CHECK(MODEL, j < q.size() && Ac::key(it) == q[j], "perm-order", "element %zu after inserting %d keys", j, i + 1); if (++j > q.size()) break; }
      CHECK(MODEL, j == q.size(), "perm-count", "iterates over %zu of %d", j, i + 1);
      for (int k = -1; k < 2 * n + 1; k++) { bool in = std::binary_search(q.begin(), q.end(), k); CHECK(MODEL, (c.find(k) != c.end()) == in, "perm-find", "find(%d) expected %d", k, in); }
      for (auto [k, ad] : held) CHECK(ADDR, *ad == k && &Ac::key(c.find(k)) == ad, "perm-address", "element %d moved", k);
    }
    C d(c), e; e = c; CHECK(MODEL | COPY, d.size() == (size_t)n && e.size() == (size_t)n, "perm-copy", "copy");
    size_t j = 0; for (auto it = d.begin(); it != d.end() && j <= (size_t)n; ++it) j++; CHECK(MODEL | COPY, j == (size_t)n, "perm-copy", "copy iterates over %zu", j);
    count("permutations");
  } while (std::next_permutation(p.begin(), p.end()));
}

// costs
static int keyof_gap(const std::set<int>& have)  // a free key right next to an existing one, or between two
{
  auto it = have.begin(); std::advance(it, R.below(have.size())); auto nx = std::next(it);
  if (nx == have.end()) return *it + 1000; if (R.chance(1, 8) && it == have.begin()) return *it - 1000; return *it + (*nx - *it) / 2;
}
template <class C, bool Map> void cost(long idx)
{
  using Ac = Acc<C, Map>;
  long sizes[] = { 100, 1000, 5000, 20000, 60000 };
  long n = sizes[R.below(S().scale > 1 ? 5 : 4)]; int dist = idx / 6 % NDist;
  // five cases in six: small blocks of keys, each inserted in the same inner order, the blocks themselves placed in some order,
  // so that every local rebalancing case is met again and again on one side of the tree; or an adversary that looks for the costliest gap
  const long block = idx % 6 == 0 ? 0 : idx % 6 == 5 ? -1 : 2 + (long)R.below(idx % 3 ? 4 : 15), place = R.below(5); std::vector<int> inner;
  if (block) { long small[] = { 130, 500, 1000, 2500 }; n = small[R.below(block < 0 ? 3 : 4)]; dist = NDist + (block < 0 ? 5 : place); }
  for (long j = 0; j < block; j++) inner.insert(inner.begin() + R.below(j + 1), (int)j);
  op("cost", n, dist, block); for (int j : inner) op("inner_order", j); std::set<int> have;
  C c; const C& k = c; double worst_ratio = 0;
  auto blockkey = [&](long i) { long nb = (n + block - 1) / block, j = i / block, q;
    switch (place) { case 0: q = j; break; case 1: q = nb - 1 - j; break; case 2: q = j % 2 ? nb - 1 - j / 2 : j / 2; break; case 3: q = j % 2 ? nb / 2 + j / 2 : nb / 2 - 1 - j / 2; break; default: q = (j * 7919) % nb; }
    return (int)(q * block + inner[i % block]); };
  auto costly = [&](long i) -> int { // of several gaps next to existing keys, the one whose search costs most
    if (i < 4) return (int)(i * 100000); int best = 0; unsigned long bc = 0;
    for (int t = 0; t < 10; t++) { int key = keyof_gap(have); if (have.count(key)) continue; unsigned long c0 = g_cmp; (void)k.find(key); if (g_cmp - c0 > bc) { bc = g_cmp - c0; best = key; } }
    have.insert(best); return best; }; std::vector<int> keys; unsigned long worst = 0, worstf = 0, total = 0;
  auto bound = [](double m) { return (unsigned long)(2 * 2 * std::log2(m + 2) + 6); };
  for (long i = 0; i < n; i++) {
    int key = block > 0 ? blockkey(i) : block < 0 ? costly(i) : (int)(dist == Wide ? (long)R.below(1 << 30) : keyof(dist, i, n));
    unsigned long c0 = g_cmp; auto r = c.insert(Ac::mk(key, i)); unsigned long d = g_cmp - c0; total += d; S().ops++;
    if (r.second) keys.push_back(key);
    if (d > worst) worst = d; if (c.size() > 60) worst_ratio = std::max(worst_ratio, d / std::log2((double)c.size()));
    if (block < 0 && i < 4) have.insert(key);
    CHECK(COST, d <= bound(c.size()), "insert-cost", "insert number %ld of order %d used %lu comparisons in a container of %zu (bound %lu)", i, dist, d, c.size(), bound(c.size()));
    if (i % 64 == 0) {
      for (int q = 0; q < 3; q++) {
        int fk = q == 0 ? keys[R.below(keys.size())] : q == 1 ? key : (int)R.below(1 << 30);
        c0 = g_cmp; bool in = q == 2 ? k.find(fk) != k.end() : c.find(fk) != c.end(); d = g_cmp - c0; if (d > worstf) worstf = d; (void)in;
        CHECK(COST, d <= bound(c.size()), "find-cost", "find used %lu comparisons in a container of %zu (order %d, bound %lu)", d, c.size(), dist, bound(c.size()));
      }
    }
  }
  for (int key : keys) { unsigned long c0 = g_cmp; bool in = c.find(key) != c.end(); unsigned long d = g_cmp - c0; if (d > worstf) worstf = d;
    CHECK(COST, in && d <= bound(c.size()), "find-cost", "find of a present key used %lu comparisons in a container of %zu (order %d, bound %lu)", d, c.size(), dist, bound(c.size())); }
  C cc(c);
  for (size_t i = 0; i < keys.size(); i += 7) { unsigned long c0 = g_cmp; (void)cc.find(keys[i]); CHECK(COST, g_cmp - c0 <= bound(cc.size()), "find-cost-copy", "find in a copy used %lu comparisons (size %zu)", g_cmp - c0, cc.size()); }
  // iteration: no comparisons, and time proportional to the number of elements
  clock_t t0 = clock(); unsigned long c0 = g_cmp; size_t seen = 0;
  for (auto it = c.begin(); it != c.end(); ++it) if (++seen > c.size()) break;
  double us = 1e6 * (double)(clock() - t0) / CLOCKS_PER_SEC / (double)(seen ? seen : 1);
  CHECK(COST, seen == c.size() && g_cmp == c0, "iteration-cost", "iteration visits %zu of %zu with %lu comparisons", seen, c.size(), g_cmp - c0);
  CHECK(COST, us < 40 || n < 5000, "iteration-time", "iteration takes %.1f us per element at size %zu", us, c.size());
  c0 = g_cmp; for (auto it = c.begin(); it != c.end(); ++it) {} CHECK(COST, g_cmp == c0, "iteration-cost", "comparisons in iteration");
  if (S().counters["worst_insert"] < worst) S().counters["worst_insert"] = worst;
  if (S().counters["worst_find"] < worstf) S().counters["worst_find"] = worstf;
  count("inserted", keys.size()); count(block < 0 ? "adversary_cases" : block ? "block_order_cases" : "plain_order_cases");
  state(40 + dist, block, (long)(worst_ratio * 10));
  state(8, dist, n);
}

template <class C, bool Map> void go() { run_cases([](long i) { W<C, Map> w; w.run(i); }); }
template <class V> using MA = MonAlloc<V>;
template <class K, class Cmp> using MS = cest::set<K, Cmp, MA<K>>;
template <class K, class T, class Cmp> using MM = cest::map<K, T, Cmp, MA<std::pair<const K, T>>>;

int main(int argc, char** argv)
{
  init(argc, argv, "w_tree");
  std::string c = S().config;
#ifndef PART
#define PART 0
#endif
#if PART == 0
  if (c == "s_trk") go<MS<Trk, Less>, false>();
  if (c == "s_int") go<cest::set<int, std::less<int>>, false>();
  if (c == "s_greater") go<MS<int, Great>, false>();
  if (c == "s_coarse") go<MS<int, Coarse>, false>();
  if (c == "s_digit") go<MS<int, Digit>, false>();
  if (c == "s_rev") go<MS<std::string, Rev>, false>();
  if (c == "s_het") go<MS<std::string, Het>, false>();
  if (c == "s_hetint") go<MS<int, HetInt>, false>();
  if (c == "s_perms") run_cases([](long i) { for (int n = 1; n <= (S().scale > 1 ? 8 : 6); n++) perms<cest::set<int, Less>, false>(n); });
#elif PART == 1
  if (c == "m_trk") go<MM<Trk, Trk, Less>, true>();
  if (c == "m_int") go<cest::map<int, int>, true>();
  if (c == "m_greater") go<MM<int, long, Great>, true>();
  if (c == "m_coarse") go<MM<int, NoDef, Coarse>, true>();
  if (c == "m_digit") go<MM<int, int, Digit>, true>();
  if (c == "m_ci") go<MM<std::string, Al64, Ci>, true>();
  if (c == "m_het") go<MM<std::string, int, Het>, true>();
  if (c == "m_hetint") go<MM<int, int, HetInt>, true>();
  if (c == "m_perms") run_cases([](long i) { for (int n = 1; n <= (S().scale > 1 ? 8 : 6); n++) perms<cest::map<int, int, Less>, true>(n); });
#else
  if (c == "s_cost") run_cases([](long i) { cost<cest::set<int, Less>, false>(i); });
  if (c == "m_cost") run_cases([](long i) { cost<cest::map<int, int, Great>, true>(i); });
#endif
  return 3;
}
