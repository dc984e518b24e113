// Work and storage in proportion to content: elements, character traits and allocators that count what is done to
// them; after each operation the counts are compared with a generous multiple of what the operation needs.
#include <stdexcept>
#include "cest/vector.hpp"
#include "cest/deque.hpp"
#include "cest/list.hpp"
#include "cest/forward_list.hpp"
#include "cest/set.hpp"
#include "cest/map.hpp"
#include "cest/queue.hpp"
#include "cest/string.hpp"
#include "cest/sstream.hpp"
#include "mon.hpp"
using namespace mon;

struct Cnt { unsigned long made = 0, copied = 0, moved = 0, assigned = 0, died = 0, cmp = 0, chars = 0, allocs = 0, bytes = 0; };
static MON_TLS Cnt N; static MON_TLS long live_bytes, peak_bytes;
struct Ct {
  long v;
  Ct(long x = 0) : v(x) { N.made++; }
  Ct(const Ct& o) : v(o.v) { N.copied++; }
  Ct(Ct&& o) noexcept : v(o.v) { N.moved++; o.v = -1; }
  Ct& operator=(const Ct& o) { v = o.v; N.assigned++; return *this; }
  Ct& operator=(Ct&& o) noexcept { v = o.v; o.v = -1; N.assigned++; return *this; }
  ~Ct() { N.died++; }
  friend bool operator==(const Ct& a, const Ct& b) { N.cmp++; return a.v == b.v; }
  friend bool operator<(const Ct& a, const Ct& b) { N.cmp++; return a.v < b.v; }
};
static unsigned long work(const Cnt& a) { return (N.made - a.made) + (N.copied - a.copied) + (N.moved - a.moved) + (N.assigned - a.assigned) + (N.died - a.died); }
template <class T> struct CA {
  using value_type = T; CA() = default; template <class U> CA(const CA<U>&) {}
  T* allocate(size_t n) { N.allocs++; N.bytes += n * sizeof(T); live_bytes += n * sizeof(T); peak_bytes = std::max(peak_bytes, live_bytes); return std::allocator<T>().allocate(n); }
  void deallocate(T* p, size_t n) { live_bytes -= n * sizeof(T); std::allocator<T>().deallocate(p, n); }
  template <class U> friend bool operator==(const CA&, const CA<U>&) { return true; }
};
template <class Ch> struct CT : std::char_traits<Ch> {
  using B = std::char_traits<Ch>;
  static void assign(Ch& a, const Ch& b) { N.chars++; B::assign(a, b); }
  static Ch* assign(Ch* p, size_t n, Ch c) { N.chars += n; return B::assign(p, n, c); }
  static Ch* copy(Ch* a, const Ch* b, size_t n) { N.chars += n; return B::copy(a, b, n); }
  static Ch* move(Ch* a, const Ch* b, size_t n) { N.chars += n; return B::move(a, b, n); }
  static int compare(const Ch* a, const Ch* b, size_t n) { N.chars += n; return B::compare(a, b, n); }
  static const Ch* find(const Ch* p, size_t n, const Ch& c) { const Ch* r = B::find(p, n, c); N.chars += r ? r - p + 1 : n; return r; }
  static size_t length(const Ch* p) { size_t n = B::length(p); N.chars += n; return n; }
};
using Vec = cest::vector<Ct, CA<Ct>>; using Deq = cest::deque<Ct, CA<Ct>>; using Lst = cest::list<Ct, CA<Ct>>; using Flst = cest::forward_list<Ct, CA<Ct>>;
using Set = cest::set<Ct, std::less<Ct>, CA<Ct>>; using Map = cest::map<Ct, Ct, std::less<Ct>, CA<std::pair<const Ct, Ct>>>; using Que = cest::queue<Ct, Deq>;

static MON_TLS std::string where;
// at most w element operations, a allocator requests of b bytes together, since c
static void most(const Cnt& c, unsigned long w, unsigned long a, unsigned long b = ~0ul)
{
  CHECK(COST, work(c) <= w, "work", "%s: %lu element operations (%lu copies, %lu moves, %lu assignments, %lu destructions), at most %lu are reasonable", where.c_str(), work(c), N.copied - c.copied, N.moved - c.moved, N.assigned - c.assigned, N.died - c.died, w);
  CHECK(COST, N.allocs - c.allocs <= a, "requests", "%s: %lu requests to the allocator, at most %lu are reasonable", where.c_str(), N.allocs - c.allocs, a);
  CHECK(COST, N.bytes - c.bytes <= b, "bytes", "%s: %lu bytes requested from the allocator, at most %lu are reasonable", where.c_str(), N.bytes - c.bytes, b);
}
static void held(unsigned long b) { CHECK(COST, live_bytes <= (long)b, "storage", "%s: %ld bytes are held, at most %lu are reasonable for what the container holds or has held", where.c_str(), live_bytes, b); }
static constexpr unsigned long SLACK = 1 << 18;      // blocks, directories, sentinels
static size_t lg(size_t n) { size_t k = 0; while (n >>= 1) k++; return k; }

// ---- growth: n elements one after another --------------------------------------------------------------------
template <class C, class F> void grow(const char* nm, size_t n, F add, unsigned per, bool contiguous)
{
  op(nm, n); live_bytes = peak_bytes = 0; Cnt c = N; {
    C x; for (size_t i = 0; i < n; i++) { add(x, i); S().ops++; }
    where = std::string(nm) + " of " + std::to_string(n) + " elements";
    most(c, (unsigned long)per * n + 64, contiguous ? 24 + 8 * lg(n + 1) : 2 * n + 32, contiguous ? 32 * n * sizeof(Ct) + SLACK : ~0ul);
    held(contiguous ? 8 * n * sizeof(Ct) + SLACK : n * (2 * sizeof(Ct) + 128) + SLACK);
    c = N; { where += ", copied"; C y(x); most(c, 2ul * per * n + 64, contiguous ? 24 + 8 * lg(n + 1) : 2 * n + 32); c = N; }
    where = std::string(nm) + ", destruction"; most(c, 2 * n + 16, 0); c = N;
  }
  where = std::string(nm) + ", destruction"; most(c, 2 * n + 16, 0);
  CHECK(COST | LEAK, live_bytes == 0, "left", "%s: %ld bytes left", nm, live_bytes);
  state(hstr(nm), n); count("elements_added", n);
}
template <class Ch> void text_growth(size_t n)
{
  using Str = cest::basic_string<Ch, CT<Ch>, CA<Ch>>; Ch piece[40]; for (int i = 0; i < 40; i++) piece[i] = (Ch)('a' + i % 26);
  for (int how = 0; how < 6; how++) {
    static const char* nm[] = { "push_back", "+= character", "append of one", "+= string", "append of pieces", "append of a string" }; op(nm[how], n); live_bytes = 0; Cnt c = N; {
      Str s; Str one(piece, 1), some(piece, 3); size_t k = 0;
      while (s.size() < n) { k++; switch (how) { case 0: s.push_back(piece[k % 26]); break; case 1: s += piece[k % 26]; break; case 2: s.append(piece + k % 26, 1); break; case 3: s += one; break; case 4: s.append(piece, 1 + k % 39); break; default: s.append(some); } }
      where = std::string("building a text of ") + std::to_string(n) + " characters by " + nm[how]; S().ops += k;
      CHECK(COST, N.allocs - c.allocs <= 40 + 8 * lg(n + 1), "requests", "%s: %lu requests to the allocator", where.c_str(), N.allocs - c.allocs);
      CHECK(COST, N.bytes - c.bytes <= (32 * n + 4096) * sizeof(Ch), "bytes", "%s: %lu bytes requested", where.c_str(), N.bytes - c.bytes);
      CHECK(COST, N.chars - c.chars <= 64 * n + 4096, "characters", "%s: %lu characters handled", where.c_str(), N.chars - c.chars);
      held((8 * n + 4096) * sizeof(Ch)); c = N; size_t sum = 0;
      for (size_t i = 0; i < s.size(); i++) sum += (size_t)s[i] + (size_t)s.c_str()[i] + (s.begin() + i < s.end()) + s.empty() + s.length(); CHECK(COST, N.chars - c.chars == 0 && N.allocs == c.allocs, "reading", "%s: reading it handles %lu characters elsewhere", where.c_str(), N.chars - c.chars);
      c = N; { Str t(s); CHECK(COST, t == s, "copy", "copy"); CHECK(COST, N.chars - c.chars <= 8 * n + 256 && N.allocs - c.allocs <= 2 && N.bytes - c.bytes <= (4 * n + 256) * sizeof(Ch), "copy", "%s: a copy and a comparison: %lu characters handled, %lu requests, %lu bytes", where.c_str(), N.chars - c.chars, N.allocs - c.allocs, N.bytes - c.bytes); c = N; t.clear(); CHECK(COST, N.chars - c.chars <= 4 && N.allocs == c.allocs, "clear", "clear of %zu characters handles %lu", n, N.chars - c.chars); }
      c = N; s.find((Ch)'#'); CHECK(COST, N.chars - c.chars <= 2 * n + 64, "find", "finding a character in %zu handles %lu", n, N.chars - c.chars);
      c = N; Ch pat[4] = { '#', '#', '#', 0 }; s.find(pat); CHECK(COST, N.chars - c.chars <= 8 * n + 64, "find", "finding an absent pattern in %zu handles %lu", n, N.chars - c.chars);
      c = N; size_t len = s.size(); while (!s.empty()) s.pop_back(); CHECK(COST, N.chars - c.chars <= 4 * len + 16 && N.allocs == c.allocs, "pop_back", "removing %zu characters handles %lu", len, N.chars - c.chars);
    }
    CHECK(COST | LEAK, live_bytes == 0, "left", "text: %ld bytes left", live_bytes); state(77, how, lg(n), sizeof(Ch)); count("characters_added", n);
  }
  { // streams over a text hold a small number of copies of it, and reading does not copy
    using Str = cest::basic_string<Ch, CT<Ch>, CA<Ch>>; using IS = cest::basic_istringstream<Ch, CT<Ch>, CA<Ch>>; op("stream", n); std::basic_string<Ch> t(n, (Ch)'x'); Cnt c = N; live_bytes = 0; {
      Str s(t.data(), n); IS in(s); where = "a stream over a text"; held((16 * n + 4096) * sizeof(Ch)); c = N; Ch ch; size_t k = 0; while (in.get(ch)) k++; CHECK(COST, k == n && N.allocs == c.allocs && N.chars - c.chars <= 4 * n + 64, "reading", "reading %zu characters one by one handles %lu, with %lu requests", n, N.chars - c.chars, N.allocs - c.allocs);
      in.clear(); c = N; for (int j = 0; j < 5; j++) in.str(s); CHECK(COST, N.bytes - c.bytes <= 5 * (8 * n + 256) * sizeof(Ch), "reseat", "str(text) five times requests %lu bytes", N.bytes - c.bytes); held((16 * n + 4096) * sizeof(Ch)); }
    CHECK(COST | LEAK, live_bytes == 0, "left", "stream: %ld bytes left", live_bytes); }
}
static void growth(long i)
{
  static const size_t fixed[] = { 0, 1, 2, 100, 1023, 1024, 1025, 2048, 5000, 20000 }; size_t n = i < 10 ? fixed[i] : 100 + R.below(S().scale > 1 ? 120000 : 12000);
  grow<Vec>("vector push_back of a constant", n, [](Vec& x, size_t k) { static const Ct v(5); x.push_back(v); (void)k; }, 20, true);
  grow<Vec>("vector push_back of a temporary", n, [](Vec& x, size_t k) { x.push_back(Ct(k)); }, 20, true);
  grow<Deq>("deque push_back", n, [](Deq& x, size_t k) { x.push_back(Ct(k)); }, 20, false);
  grow<Deq>("deque push_front", n, [](Deq& x, size_t k) { x.push_front(Ct(k)); }, 20, false);
  grow<Deq>("deque push at both ends", n, [](Deq& x, size_t k) { if (k % 2) x.push_front(Ct(k)); else x.push_back(Ct(k)); }, 20, false);
  grow<Que>("queue push", n, [](Que& x, size_t k) { x.push(Ct(k)); }, 20, false);
  grow<Lst>("list push", n, [](Lst& x, size_t k) { if (k % 3) x.push_front(Ct(k)); else x.emplace_back((long)k); }, 24, false);
  grow<Flst>("forward_list push", n, [](Flst& x, size_t k) { x.push_front(Ct(k)); }, 20, false);
  size_t m = n / 4; grow<Set>("set insert", m, [](Set& x, size_t k) { x.insert(Ct((long)mix(k))); }, 28, false); grow<Map>("map insert", m, [](Map& x, size_t k) { x.insert({ Ct((long)mix(k)), Ct(1) }); }, 40, false);
  text_growth<char>(n); if (i % 3 == 0) text_growth<wchar_t>(n / 2);
}

// ---- windows: content stays small while much passes through -----------------------------------------------------
static void windows(long i)
{
  size_t w = i % 5 == 0 ? 1 : 1 + R.below(i % 2 ? 40 : 3000), total = S().scale > 1 ? 400000 : 60000; int way = R.below(4);
  auto pass = [&](auto& x, auto in, auto out, const char* nm, size_t passes) {
    op(nm, w, passes); size_t in_n = 0, mx = 0; Cnt c = N; where = std::string(nm) + ", a window of " + std::to_string(w) + " elements moving on";
    for (size_t k = 0; k < passes;) { size_t to = R.chance(1, 3) ? 1 + R.below(w) : w; while (in_n < to && k < passes) { in(x, (long)k); in_n++; k++; } mx = std::max(mx, in_n); size_t down = R.below(in_n + 1); if (R.chance(1, 2)) down = 0; while (in_n > down) { out(x); in_n--; } if (k % 16 == 0) held(8 * mx * sizeof(Ct) + 160 * mx + SLACK); S().ops += 2; }
    held(8 * mx * sizeof(Ct) + 160 * mx + SLACK); most(c, 8 * passes + 64, 2 * passes + 64); count("elements_passed", passes); state(hstr(nm), lg(w), way);
  };
  live_bytes = 0; { Que q; pass(q, [](Que& x, long k) { x.push(Ct(k)); }, [](Que& x) { x.pop(); }, "queue", total); }
  { Deq q; switch (way) {
      case 0: pass(q, [](Deq& x, long k) { x.push_back(Ct(k)); }, [](Deq& x) { x.pop_front(); }, "deque, back to front", total); break;
      case 1: pass(q, [](Deq& x, long k) { x.push_front(Ct(k)); }, [](Deq& x) { x.pop_back(); }, "deque, front to back", total); break;
      case 2: pass(q, [](Deq& x, long k) { x.push_front(Ct(k)); }, [](Deq& x) { if (R.chance(1, 2)) x.pop_back(); else x.pop_front(); }, "deque, out at both ends", total); break;
      default: { long dir = 0; pass(q, [&](Deq& x, long k) { dir = k / 7001 % 2; if (dir) x.push_back(Ct(k)); else x.push_front(Ct(k)); }, [&](Deq& x) { if (dir) x.pop_front(); else x.pop_back(); }, "deque, in changing directions", total); } } }
  { Vec v; pass(v, [](Vec& x, long k) { x.push_back(Ct(k)); }, [](Vec& x) { x.pop_back(); }, "vector as a stack", total / 4); }
  { Lst l; pass(l, [](Lst& x, long k) { x.push_back(Ct(k)); }, [](Lst& x) { x.pop_front(); }, "list", total / 8); }
  { Flst l; pass(l, [](Flst& x, long k) { x.push_front(Ct(k)); }, [](Flst& x) { x.pop_front(); }, "forward_list", total / 8); }
  // filled and emptied as a whole, again and again
  { Deq d; Vec v; Lst l; Set s; cest::basic_string<char, CT<char>, CA<char>> t; op("cycles", w); where = "containers filled and cleared again and again"; size_t m = std::min<size_t>(w, 1500);
    for (int k = 0; k < 12; k++) { for (size_t j = 0; j < m; j++) { if (k % 2) d.push_back(Ct(j)); else d.push_front(Ct(j)); v.push_back(Ct(j)); l.push_back(Ct(j)); if (j % 8 == 0) s.insert(Ct(j)); t.push_back('x'); } held(5 * (8 * m * sizeof(Ct) + 160 * m) + SLACK); if (k % 3 == 2) { Deq e; d = e; Vec f; v = f; Lst g; l = g; Set h; s = h; t = ""; } else { d.clear(); v.clear(); l.clear(); s.clear(); t.clear(); } } }
  CHECK(COST | LEAK, live_bytes == 0, "left", "windows: %ld bytes left", live_bytes);
}

// ---- single operations in random histories ------------------------------------------------------------------------
static const unsigned long K = 8;              // any operation on single elements
static void vec_ops()
{
  Vec v, u; size_t top = R.chance(1, 3) ? 2000 : 60; auto val = [] { return Ct((long)R.below(4)); };
  for (int st = R.range(20, 150); st--;) {
    size_t s = v.size(), t = u.size(), cap = v.capacity(); Ct x = val(); Cnt c = N; unsigned long gb = 40 * (s + 8) * sizeof(Ct);
    switch (R.below(15)) {
      case 0: case 1: where = "vector push_back"; op("v.push_back", s); v.push_back(x); if (s < cap) most(c, K, 0); else most(c, 6 * s + K, 3, gb); break;
      case 2: { size_t n = R.below(top); op("v.resize", s, n); where = "vector resize"; v.resize(n); most(c, (n > cap ? 6 : 2) * std::max(n, s) + K, n > cap ? 3 : 0); if (n <= cap) most(c, 2 * (n > s ? n - s : s - n) + K, 0); break; }
      case 3: { size_t n = R.below(2 * top); op("v.reserve", s, n); where = "vector reserve"; v.reserve(n); if (n <= cap) most(c, 0, 0); else most(c, 4 * s + K, 2, (4 * n + 40 * s + 64) * sizeof(Ct)); break; }
      case 4: if (s) { op("v.pop_back", s); where = "vector pop_back"; v.pop_back(); most(c, 2, 0); } break;
      case 5: if (s) { size_t a = R.below(s), b = a + R.below(s - a + 1); op("v.erase", a, b, s); where = "vector erase of a range"; v.erase(v.begin() + a, v.begin() + b); most(c, 3 * (s - a) + K, 0); } break;
      case 6: op("v.clear", s); where = "vector clear"; if (R.chance(1, 4)) { v.clear(); most(c, 2 * s + K, 0); } break;
      case 7: { op("v.copy", s); where = "vector copy"; Vec w(v); most(c, 2 * s + K, 3, (4 * cap + 64) * sizeof(Ct)); break; }
      case 8: { op("v.move", s); where = "vector move construction"; Vec w(std::move(v)); most(c, 4, 1); c = N; where = "vector move assignment"; v = std::move(w); most(c, 4 + 2 * v.size(), 1); break; }
      case 9: op("v.assign", s, t); where = "vector copy assignment"; u = v; most(c, 4 * (s + t) + K, 3); break;
      case 10: op("v.swap", s, t); where = "vector swap"; v.swap(u); most(c, 0, 0); break;
      case 11: { op("v.equal", s, t); where = "vector comparison"; bool e = v == u; (void)e; most(c, 0, 0); CHECK(COST, N.cmp - c.cmp <= std::max(s, t) + 2, "comparisons", "comparing vectors of %zu and %zu elements takes %lu comparisons", s, t, N.cmp - c.cmp); break; }
      case 12: { op("v.init", s); where = "vector from a list"; Vec w{ x, x, x, x }; most(c, 64, 6); break; }
      default: { op("v.read", s); where = "reading a vector"; const Vec& r = v; long sum = 0; for (size_t i = 0; i < s; i++) sum += v[i].v + r[i].v + v.at(i).v + v.data()[i].v; for (auto& y : v) sum += y.v; for (auto it = r.rbegin(); it != r.rend(); ++it) sum += it->v; if (s) sum += v.front().v + v.back().v; sum += v.size() + v.empty() + v.capacity(); most(c, 0, 0); S().counters["read_sum"] = sum & 1; break; }
    }
    state(1, lg(v.size() + 1), lg(v.capacity() + 1));
  }
}
static void deq_ops()
{
  Deq d, e; size_t top = R.chance(1, 2) ? 3000 : 40;
  for (int st = R.range(20, 120); st--;) {
    size_t s = d.size(), t = e.size(); Ct x((long)R.below(4)); Cnt c = N;
    switch (R.below(14)) {
      case 0: case 1: op("d.push_back", s); where = "deque push_back"; d.push_back(x); most(c, K, 3); break;
      case 2: case 3: op("d.push_front", s); where = "deque push_front"; d.push_front(std::move(x)); most(c, K, 3); break;
      case 4: op("d.pop_back", s); where = "deque pop_back"; if (s) { d.pop_back(); most(c, 2, 0); } break;
      case 5: op("d.pop_front", s); where = "deque pop_front"; if (s) { d.pop_front(); most(c, 2, 0); } break;
      case 6: { size_t n = R.below(top); bool f = R.chance(1, 2); op("d.run", n, f); where = "deque, a run of pushes"; for (size_t k = 0; k < n; k++) if (f) d.push_front(x); else d.push_back(x); most(c, 3 * n + K, 2 * n + K); break; }
      case 7: { size_t n = R.below(s + 1); bool f = R.chance(1, 2); op("d.drain", n, f); where = "deque, a run of pops"; for (size_t k = 0; k < n; k++) if (f) d.pop_front(); else d.pop_back(); most(c, 2 * n, 0); break; }
      case 8: if (R.chance(1, 3)) { op("d.clear", s); where = "deque clear"; d.clear(); most(c, 2 * s + K, 0); } break;
      case 9: { op("d.copy", s); where = "deque copy"; Deq f(d); most(c, 3 * s + K, 2 * s + 16, (8 * s + SLACK) * sizeof(Ct)); break; }
      case 10: op("d.assign", s, t); where = "deque assignment"; e = d; most(c, 4 * (s + t) + K, 2 * s + 16); break;
      default: { op("d.read", s); where = "reading a deque"; const Deq& r = d; long sum = 0; for (size_t i = 0; i < s; i++) sum += d[i].v + r[i].v + d.begin()[i].v; for (auto& y : d) sum += y.v; for (auto it = r.end(); it != r.begin();) sum += (--it)->v; if (s) sum += d.front().v + d.back().v; sum += d.end() - d.begin() + d.size() + d.empty(); most(c, 0, 0); S().counters["read_sum"] = sum & 1; break; }
    }
    state(2, lg(d.size() + 1), lg(e.size() + 1));
  }
}
static void lst_ops()
{
  Lst l, m; Flst f, g; size_t fs = 0, gs = 0; size_t top = R.chance(1, 3) ? 500 : 30; for (size_t k = R.below(top); k--;) { l.push_back(Ct(k)); f.push_front(Ct(k)); fs++; }
  for (int st = R.range(20, 120); st--;) {
    size_t s = l.size(), t = m.size(); Ct x((long)R.below(4)); auto it = l.begin(); size_t at = R.below(s + 1); for (size_t k = 0; k < at; k++) ++it; auto ft = f.before_begin(); size_t fa = R.below(fs + 1); for (size_t k = 0; k < fa; k++) ++ft; Cnt c = N;
    switch (R.below(18)) {
      case 0: op("l.insert", at); where = "list insert"; l.insert(it, x); most(c, K, 2); break;
      case 1: op("l.insert_move", at); where = "list insert"; l.insert(it, std::move(x)); most(c, K, 2); break;
      case 2: op("l.emplace", at); where = "list emplace"; l.emplace(it, 7); most(c, K, 2); break;
      case 3: op("l.ends"); where = "list push"; l.push_back(x); l.push_front(x); l.emplace_back(1); l.emplace_front(2); most(c, 4 * K, 8); break;
      case 4: case 5: if (at < s) { op("l.erase", at); where = "list erase"; l.erase(it); most(c, 2, 0); } break;
      case 6: if (s) { op("l.pop"); where = "list pop"; if (R.chance(1, 2)) l.pop_back(); else l.pop_front(); most(c, 2, 0); } break;
      case 7: if (R.chance(1, 3)) { op("l.clear", s); where = "list clear"; l.clear(); most(c, 2 * s, 0); } break;
      case 8: { op("l.copy", s); where = "list copy"; Lst k(l); most(c, 4 * s + K, 2 * s + 4, s * (sizeof(Ct) + 64) + 256); break; }
      case 9: op("l.assign", s, t); where = "list assignment"; m = l; most(c, 5 * (s + t) + K, 2 * s + 4); break;
      case 10: op("f.insert_after", fa); where = "forward_list insert_after"; f.insert_after(ft, x); fs++; most(c, K, 2); break;
      case 11: op("f.push_front"); where = "forward_list push_front"; f.push_front(std::move(x)); fs++; most(c, K, 2); break;
      case 12: if (fa < fs) { op("f.erase_after", fa); where = "forward_list erase_after"; f.erase_after(ft); fs--; most(c, 2, 0); } break;
      case 13: if (fs) { op("f.pop"); where = "forward_list pop_front"; f.pop_front(); fs--; most(c, 2, 0); } break;
      case 14: op("f.swap"); where = "forward_list swap"; f.swap(g); std::swap(fs, gs); most(c, 0, 0); break;
      case 15: { op("f.copy", fs); where = "forward_list copy"; Flst k(f); most(c, 4 * fs + K, 2 * fs + 4); break; }
      case 16: op("f.assign", fs, gs); where = "forward_list assignment"; g = f; gs = fs; most(c, 5 * (fs + gs) + K + 4 * 600, 2 * fs + 4); break;
      default: { op("l.read", s); where = "reading lists"; const Lst& r = l; long sum = 0; for (auto& y : l) sum += y.v; for (auto q = r.end(); q != r.begin();) sum += (--q)->v; for (auto& y : f) sum += y.v; if (s) sum += l.front().v + l.back().v; sum += l.size() + l.empty() + f.empty(); most(c, 0, 0); S().counters["read_sum"] = sum & 1; break; }
    }
    state(3, lg(l.size() + 1), lg(fs + 1));
  }
  where = "lists"; held((l.size() + m.size() + fs + gs) * (sizeof(Ct) + 64) + 1024);
}
static void tree_ops()
{
  Set s, s2; Map m; size_t keys = R.chance(1, 2) ? 30 : 3000;
  for (int st = R.range(30, 300); st--;) {
    size_t n = s.size(), t = s2.size(); Ct k((long)R.below(keys)); std::pair<const Ct, Ct> kv(k, Ct(3)); Cnt c = N;
    switch (R.below(12)) {
      case 0: case 1: case 2: case 3: { op("s.insert", k.v); where = "set insert"; bool a = s.insert(k).second; most(c, a ? 2 * K : 0, a ? 2 : 0); break; }
      case 4: case 5: case 6: { op("m.insert", k.v); where = "map insert"; bool a = m.insert(kv).second; most(c, a ? 4 * K : 0, a ? 2 : 0); break; }
      case 7: { op("find", k.v); where = "set and map find"; const Set& r = s; const Map& q = m; long f = (s.find(k) == s.end()) + (r.find(k) == r.end()) + (m.find(k) == m.end()) + (q.find(k) == q.end()); most(c, 0, 0); S().counters["read_sum"] = f & 1; break; }
      case 8: if (R.chance(1, 6)) { op("s.clear", n); where = "set clear"; s.clear(); most(c, 2 * n, 0); } break;
      case 9: if (R.chance(1, 4)) { op("s.copy", n); where = "set copy"; Set w(s); most(c, 2 * K * n + K, 2 * n + 4, n * (sizeof(Ct) + 128) + 256); } break;
      case 10: if (R.chance(1, 4)) { op("s.assign", n, t); where = "set assignment"; s2 = s; most(c, 2 * K * (n + t) + K, 2 * n + 4); } break;
      default: { op("read", n); where = "walking a set and a map"; long sum = 0; for (auto& x : s) sum += x.v; for (auto& x : m) sum += x.second.v; for (auto it = s.end(); it != s.begin();) sum += (--it)->v; sum += s.size() + m.size() + s.empty(); most(c, 0, 0); CHECK(COST, N.cmp == c.cmp, "comparisons", "walking compares %lu times", N.cmp - c.cmp); S().counters["read_sum"] = sum & 1; break; }
    }
    where = "set and map"; held((s.size() + s2.size()) * (sizeof(Ct) + 128) + m.size() * (2 * sizeof(Ct) + 128) + 1024); state(4, lg(s.size() + 1), lg(m.size() + 1));
  }
}
template <class Ch> void str_ops()
{
  using Str = cest::basic_string<Ch, CT<Ch>, CA<Ch>>; Str a, b; size_t top = R.chance(1, 3) ? 3000 : 50; std::basic_string<Ch> buf(top + 1, (Ch)0); for (auto& c : buf) c = (Ch)('a' + R.below(3));
  for (int st = R.range(20, 150); st--;) {
    size_t s = a.size(), t = b.size(), cap = a.capacity(), n = R.below(R.chance(1, 2) ? 6 : top); Cnt c = N; auto cost = [&](unsigned long ch, unsigned long al, unsigned long by) {
      CHECK(COST, N.chars - c.chars <= ch, "characters", "%s (%zu characters, argument %zu, capacity %zu): %lu characters handled, at most %lu are reasonable", where.c_str(), s, n, cap, N.chars - c.chars, ch);
      CHECK(COST, N.allocs - c.allocs <= al, "requests", "%s: %lu requests to the allocator, at most %lu are reasonable", where.c_str(), N.allocs - c.allocs, al);
      CHECK(COST, N.bytes - c.bytes <= by * sizeof(Ch), "bytes", "%s: %lu bytes requested, at most %lu are reasonable", where.c_str(), N.bytes - c.bytes, by * sizeof(Ch)); };
    switch (R.below(14)) {
      case 0: case 1: op("push_back", s); where = "string push_back"; if (s < cap) { a.push_back('q'); cost(8, 0, 0); } else { a.push_back('q'); cost(8 * s + 64, 2, 16 * s + 256); } break;
      case 2: op("append", s, n); where = "string append"; a.append(buf.data(), n); if (s + n <= cap) cost(4 * n + 16, 0, 0); else cost(8 * (s + n) + 64, 2, 16 * (s + n) + 256); if (a.size() > 4 * top) a.clear(); break;
      case 3: op("assign", s, t); where = "string assignment"; b = a; if (t >= s) cost(4 * s + 16, 1, 16 * s + 256); else cost(4 * s + 64, 2, 16 * s + 256); break;
      case 4: op("reserve", s, n); where = "string reserve"; a.reserve(n); if (n <= cap) cost(0, 0, 0); else cost(4 * s + 64, 2, 4 * n + 256); break;
      case 5: if (s) { op("pop_back", s); where = "string pop_back"; a.pop_back(); cost(4, 0, 0); } break;
      case 6: if (R.chance(1, 4)) { op("clear", s); where = "string clear"; a.clear(); cost(4, 0, 0); } break;
      case 7: { op("compare", s, t); where = "string comparison"; int r = a.compare(b); cost(2 * std::min(s, t) + 16, 0, 0); c = N; bool e = a == b; cost(2 * std::min(s, t) + 16, 0, 0); c = N; bool l = a < b; cost(2 * std::min(s, t) + 16, 0, 0); S().counters["read_sum"] = (r != 0) ^ e ^ l; break; }
      case 8: { op("find", s); where = "finding a character"; a.find((Ch)'Z'); cost(2 * s + 16, 0, 0); c = N; where = "finding a text"; a.find(b); cost(8 + 4 * (s + 1) * (t + 2), 0, 0); break; }
      case 9: { op("copy", s); where = "string copy"; Str k(a); cost(4 * s + 64, 2, 4 * s + 256); break; }
      case 10: { op("from_pointer", n); where = "string from a pointer"; Ch old = buf[n]; buf[n] = 0; Str k(buf.data()); buf[n] = old; cost(4 * n + 64, 2, 4 * n + 256); break; }
      default: { op("read", s); where = "reading a string"; const Str& r = a; long sum = 0; for (size_t i = 0; i < s; i++) sum += a[i] + r[i] + a.data()[i] + r.c_str()[i]; for (auto y : r) sum += y; sum += a.size() + a.length() + a.capacity() + a.empty(); if (s) sum += a.front() + a.back(); cost(0, 0, 0); S().counters["read_sum"] = sum & 1; break; }
    }
    where = "strings"; held((8 * std::max(cap, a.capacity()) + 8 * (b.capacity() + 1) + 1024) * sizeof(Ch)); state(5, lg(a.size() + 1), lg(a.capacity() + 1));
  }
}
static void ops(long i)
{
  live_bytes = 0; vec_ops(); deq_ops(); lst_ops(); tree_ops(); if (i % 2) str_ops<char>(); else str_ops<char16_t>();
  CHECK(COST | LEAK, live_bytes == 0, "left", "%ld bytes left", live_bytes);
}
// ---- rounds: a few objects of bounded content copied, assigned, moved, swapped, emptied and refilled again and again ------
static void rounds(long i)
{
  size_t M = i % 4 == 0 ? 1 + R.below(8) : 1 + R.below(i % 3 ? 60 : 900); long steps = S().scale > 1 ? 3000 : 900;
  auto room = [&](size_t cap, const char* nm) { CHECK(COST | CAP, cap <= 4 * M + 64, "capacity", "%s: %s of never more than %zu elements has a capacity of %zu", where.c_str(), nm, M, cap); };
  live_bytes = 0; op("rounds", M, steps);
  int only = R.below(12); // sometimes one operation over and over
  { Vec v[3]; where = "vectors used in rounds"; for (auto& x : v) for (size_t k = R.below(M + 1); k--;) x.push_back(Ct(k));
    for (long st = 0; st < steps; st++) { Vec& a = v[R.below(3)]; Vec& b = v[R.below(3)]; size_t n = R.below(M + 1); S().ops++;
      switch (only < 6 && R.chance(7, 8) ? only : R.below(10)) {
        case 0: { size_t s = b.size(); a = b; CHECK(COST, a.size() == s, "size", "assignment"); break; }
        case 1: { Vec c(b); a = std::move(c); break; }
        case 2: a.swap(b); break;
        case 3: { Vec c; c = a; a = c; break; }
        case 4: a.clear(); while (a.size() < n) a.push_back(Ct(st)); break;
        case 5: { Vec c(std::move(a)); a = c; break; }
        case 6: a.resize(n); break;
        case 7: if (a.size()) { size_t f = R.below(a.size()), l = f + R.below(a.size() - f + 1); a.erase(a.begin() + f, a.begin() + l); } break;
        case 8: a.reserve(n); break;
        default: if (a.size()) a.pop_back(); if (a.size() < M) a.push_back(Ct(1)); }
      for (auto& x : v) room(x.capacity(), "a vector"); }
    held(3 * (4 * M + 64) * sizeof(Ct)); }
  { using Str = cest::basic_string<char, CT<char>, CA<char>>; Str v[3]; std::string text(M, 'x'); where = "strings used in rounds"; for (auto& x : v) x.append(text.data(), R.below(M + 1));
    for (long st = 0; st < steps; st++) { Str& a = v[R.below(3)]; Str& b = v[R.below(3)]; size_t n = R.below(M + 1); S().ops++;
      switch (only < 6 && R.chance(7, 8) ? only : R.below(10)) {
        case 0: a = b; break;
        case 1: { Str c(b); a = std::move(c); break; }
        case 2: std::swap(a, b); break;
        case 3: { Str c; c = a; a = c; break; }
        case 4: a.clear(); while (a.size() < n) a.push_back('y'); break;
        case 5: { Str c(a.data(), a.size()); a = c; break; }
        case 6: if (a.size() + n <= M) a.append(text.data(), n); else a.clear(); break;
        case 7: a = text.c_str() + n; break;
        case 8: a.reserve(n); break;
        default: if (a.size()) a.pop_back(); if (a.size() < M) a += 'z'; }
      for (auto& x : v) room(x.capacity(), "a string"); }
    held(3 * (4 * M + 66)); }
  { Deq v[2]; where = "deques used in rounds"; Lst l[2]; Flst f[2]; Set s[2]; Que q[2]; size_t qn[2] = {}, fn[2] = {}; long bound = 0; size_t m = std::min<size_t>(M, 300);
    for (long st = 0; st < steps / 3; st++) { int x = R.below(2), y = R.below(2); size_t n = R.below(m + 1); S().ops++;
      switch (only < 6 && R.chance(7, 8) ? only : R.below(8)) {
        case 0: v[x] = v[y]; l[x] = l[y]; f[x] = f[y]; fn[x] = fn[y]; s[x] = s[y]; q[x] = q[y]; qn[x] = qn[y]; break;
        case 1: { Deq c(v[y]); v[x] = std::move(c); Lst d(l[y]); l[x] = std::move(d); Flst e(f[y]); f[x] = std::move(e); fn[x] = fn[y]; Set g(s[y]); s[x] = std::move(g); Que h(q[y]); q[x] = std::move(h); qn[x] = qn[y]; break; }
        case 2: std::swap(v[x], v[y]); std::swap(l[x], l[y]); if (x != y) { f[x].swap(f[y]); std::swap(fn[x], fn[y]); } break;
        case 3: v[x].clear(); while (v[x].size() < n) v[x].push_front(Ct(1)); while (l[x].size() > n) l[x].pop_front(); while (fn[x] > n) { f[x].pop_front(); fn[x]--; } while (qn[x] > n) { q[x].pop(); qn[x]--; } break;
        case 4: v[x].clear(); while (v[x].size() < n) v[x].push_back(Ct(1)); l[x].clear(); f[x].clear(); fn[x] = 0; s[x].clear(); break;
        case 5: while (v[x].size() > n) v[x].pop_front(); while (v[x].size() < n) v[x].push_back(Ct(2)); while (qn[x]) { q[x].pop(); qn[x]--; } break;
        case 6: while (v[x].size() > n) v[x].pop_back(); while (v[x].size() < n) v[x].push_front(Ct(2)); break;
        default: while (l[x].size() < n) l[x].push_back(Ct(1)); while (fn[x] < n) { f[x].push_front(Ct(1)); fn[x]++; } for (size_t k = 0; k < n / 4; k++) s[x].insert(Ct((long)k)); while (qn[x] < n) { q[x].push(Ct(1)); qn[x]++; } }
      bound = std::max(bound, live_bytes); held(10 * (8 * m * sizeof(Ct) + 160 * m) + 2 * SLACK); }
    count("round_bytes", bound); }
  CHECK(COST | LEAK, live_bytes == 0, "left", "rounds: %ld bytes left", live_bytes); state(6, lg(M), only); count("round_steps", steps);
}
int main(int argc, char** argv)
{
  init(argc, argv, "w_costs"); std::string c = S().config;
  if (c == "growth") run_cases(growth);
  if (c == "windows") run_cases(windows);
  if (c == "ops") run_cases(ops);
  if (c == "rounds") run_cases(rounds);
  return 3;
}
