// Threads on distinct objects, threads only reading shared objects, and threads on distinct shared pointers that own
// one object. Built with the thread sanitizer, which is the oracle for races; every thread also computes a digest of
// all results, compared with the digest of the same work done alone.
#include "cest/algorithm.hpp"
#include "cest/cctype.hpp"
#include "cest/cmath.hpp"
#include "cest/complex.hpp"
#include "cest/cstdio.hpp"
#include "cest/deque.hpp"
#include "cest/forward_list.hpp"
#include "cest/functional.hpp"
#include "cest/fstream.hpp"
#include "cest/iostream.hpp"
#include "cest/list.hpp"
#include "cest/map.hpp"
#include "cest/memory.hpp"
#include "cest/numeric.hpp"
#include "cest/queue.hpp"
#include "cest/set.hpp"
#include "cest/sstream.hpp"
#include "cest/string.hpp"
#include "cest/swap.hpp"
#include "cest/vector.hpp"
#include "mon.hpp"
#include <atomic>
#include <sstream>
#include <thread>
#include <sched.h>
#include <sys/mman.h>
using namespace mon;

struct Dig { uint64_t h = 7; void operator()(long x) { h = mix(h ^ (uint64_t)x); } template <class I> void range(I b, I e) { long n = 0; for (; b != e; ++b) { (*this)((long)*b); n++; } (*this)(n); } };
struct Barrier { // all threads leave together; no library code involved
  std::atomic<int> in{ 0 }; int n; explicit Barrier(int n) : n(n) {}
  void wait() { in.fetch_add(1); while (in.load() < n) sched_yield(); }
};
static thread_local uint64_t jit = 1;
static void jitter() { jit = mix(jit); switch (jit % 8) { case 0: sched_yield(); break; case 1: for (volatile int i = 0; i < (int)(jit >> 8 & 255); ++i); break; default: break; } }

// ---- work on private objects --------------------------------------------------
static const char* kinds[] = { "vector", "string", "deque", "list", "forward_list", "set", "map", "queue", "shared_ptr", "unique_ptr", "function", "istringstream", "cmath", "complex", "cctype", "memfile", "swap", "algorithm", "wstring" };
enum { NKIND = 19 };
static uint64_t work(int kind, uint64_t seed, int n)
{
  Rng r(seed); Dig d;
  switch (kind) {
    case 0: { cest::vector<int> v, w; for (int i = 0; i < n; i++) { switch (r.below(6)) { case 0: case 1: case 2: v.push_back((int)r.below(1000)); break; case 3: if (!v.empty()) { auto b = v.begin() + r.below(v.size()); v.erase(b, b + 1); } break; case 4: if (!v.empty()) v.pop_back(); break; default: w = v; v.resize(r.below(20)); } } d.range(v.begin(), v.end()); d.range(w.begin(), w.end()); try { (void)v.at(v.size()); } catch (const std::out_of_range&) { d(3); } break; }
    case 1: { cest::string s, t; for (int i = 0; i < n; i++) switch (r.below(5)) { case 0: s.push_back((char)r.below(256)); break; case 1: s += "ab"; break; case 2: t = s; break; case 3: d(s.find((char)r.below(256), r.below(9))); break; default: s = t; } d.range(s.begin(), s.end()); d(strlen(t.c_str())); d(s < t); break; }
    case 2: { cest::deque<int> q; for (int i = 0; i < n * 6; i++) switch (r.below(5)) { case 0: case 1: q.push_back((int)r.below(1000)); break; case 2: q.push_front((int)r.below(1000)); break; case 3: if (!q.empty()) q.pop_front(); break; default: if (!q.empty()) q.pop_back(); } auto c = q; d.range(c.begin(), c.end()); break; }
    case 3: { cest::list<int> l; for (int i = 0; i < n; i++) switch (r.below(4)) { case 0: case 1: l.push_back((int)r.below(1000)); break; case 2: l.push_front((int)r.below(1000)); break; default: if (!l.empty()) l.erase(l.begin()); } auto c = l; d.range(c.begin(), c.end()); break; }
    case 4: { cest::forward_list<int> l; for (int i = 0; i < n; i++) switch (r.below(3)) { case 0: case 1: l.push_front((int)r.below(1000)); break; default: if (!l.empty()) l.pop_front(); } auto c = l; d.range(c.begin(), c.end()); break; }
    case 5: { cest::set<int> s; for (int i = 0; i < n; i++) d(s.insert((int)r.below(60)).second); auto c = s; d.range(c.begin(), c.end()); d(c.find((int)r.below(60)) != c.end()); break; }
    case 6: { cest::map<int, int> m; for (int i = 0; i < n; i++) d(m.insert(std::make_pair((int)r.below(60), i)).second); auto c = m; for (auto i = c.begin(); i != c.end(); ++i) { d(i->first); d(i->second); } break; }
    case 7: { cest::queue<int> q; for (int i = 0; i < n; i++) if (r.chance(2, 3)) q.push((int)r.below(1000)); else if (!q.empty()) { d(q.front()); q.pop(); } d(q.size()); break; }
    case 8: { cest::shared_ptr<int> a(new int(4)), b; for (int i = 0; i < n; i++) { switch (r.below(4)) { case 0: b = a; break; case 1: a = cest::shared_ptr<int>(new int((int)r.below(99))); break; case 2: { auto c = a; d(c.use_count()); } break; default: d(*a); } } d(a.use_count()); d(b.use_count()); break; }
    case 9: { cest::unique_ptr<int> a(new int(4)), b; for (int i = 0; i < n; i++) switch (r.below(3)) { case 0: b = std::move(a); a.reset(new int((int)r.below(99))); break; case 1: a = std::move(b); break; default: d(a ? *a : -1); } break; }
    case 10: { long acc = 0; cest::function<int(int)> f = [=](int x) mutable { acc += x; return (int)(acc % 1000); }; for (int i = 0; i < n; i++) { d(f((int)r.below(50))); if (i % 9 == 0) { auto g = f; d(g(3)); } } break; }
    case 11: { cest::string t; for (int i = 0; i < n; i++) t.push_back((char)(32 + r.below(90))); cest::basic_istringstream<char> is(t); char buf[16]; while (is) { if (r.chance(1, 2)) { char ch = 0; is.get(ch); d(ch); } else { is.read(buf, r.below(16)); d(is.gcount()); } } d(is.rdstate()); break; }
    case 12: for (int i = 0; i < n; i++) { double x = (double)r.below(1000) / 50.0; d((long)(cest::sqrt(x) * 1e6)); d((long)(cest::sin(x) * 1e6)); d((long)(cest::cos(x) * 1e6)); d((long)(cest::log(x + .1) * 1e6)); d((long)(cest::exp(-x) * 1e6)); d((long)(cest::atan(x) * 1e6)); d((long)(cest::atan2(x, 1.5) * 1e6)); d((long)(cest::sinh(x / 9) * 1e6)); d((long)(cest::pow(x, 3) * 1e3)); d(cest::floor(x)); d(cest::ceil(x)); } break;
    case 13: for (int i = 0; i < n; i++) { cest::complex<double> z((double)r.below(100) / 9, (double)r.below(100) / 7); z *= cest::complex<double>(0.5, 0.25); z += z / cest::complex<double>(1.5, 2); d((long)(z.real() * 1e6)); d((long)(z.imag() * 1e6)); d((long)(cest::abs(z) * 1e6)); d((long)(cest::exp(cest::complex<double>(0.1, z.real())).real() * 1e3)); } break;
    case 14: for (int i = 0; i < n; i++) { int c = (int)r.below(300) - 20; d(!!cest::isalnum(c)); d(!!cest::isupper(c)); } break;
    case 15: { char src[64], out[80]; for (int i = 0; i < 64; i++) src[i] = (char)r.below(256); cest::FILE* f = cest::fmemopen(src, 64, "r"); size_t k; do { k = cest::fread(out, 1, 1 + r.below(20), f); for (size_t i = 0; i < k; i++) d(out[i]); } while (k); d(cest::fclose(f)); break; }
    case 16: { int a = (int)r.below(9), b = (int)r.below(9), c = (int)r.below(9); for (int i = 0; i < n; i++) if (r.chance(1, 2)) nary::swap(a, b, c); else nary::swapr(a, b, c); d(a); d(b); d(c); break; }
    case 17: { cest::vector<int> v; for (int i = 0; i < n; i++) v.push_back((int)r.below(500)); cest::sort(v.begin(), v.end()); d.range(v.begin(), v.end()); d(cest::accumulate(v.begin(), v.end(), 0L)); cest::deque<int> q; cest::copy(v.begin(), v.end(), std::back_inserter(q)); d.range(q.begin(), q.end()); break; }
    default: { cest::wstring s; for (int i = 0; i < n; i++) s.push_back((wchar_t)r.below(70000)); cest::wstring t = s; t += s; d.range(t.begin(), t.end()); d(t == s); }
  }
  return d.h;
}
template <class F> static void threads(int nt, F f)
{
  Barrier b(nt); std::vector<std::thread> ts; uint64_t js = R.next();
  for (int t = 0; t < nt; t++) ts.emplace_back([&, t] { jit = mix(js + t); b.wait(); f(t); });
  for (auto& t : ts) t.join();
}
static void distinct(long)
{
  int nt = (int)R.range(2, 6), rounds = (int)R.range(2, 6); std::vector<std::vector<std::pair<int, uint64_t>>> plan(nt); int same = R.chance(1, 2) ? (int)R.below(NKIND) : -1;
  for (auto& p : plan) for (int i = 0; i < rounds; i++) p.push_back({ same >= 0 ? same : (int)R.below(NKIND), R.next() });
  std::vector<std::vector<uint64_t>> got(nt); for (auto& g : got) g.resize(rounds);
  op("distinct", nt, rounds, same); for (auto& p : plan) for (auto& q : p) { op(kinds[q.first], (long)(q.second % 1000)); count(kinds[q.first]); }
  threads(nt, [&](int t) { for (int i = 0; i < rounds; i++) { got[t][i] = work(plan[t][i].first, plan[t][i].second, 40); jitter(); } });
  for (int t = 0; t < nt; t++) for (int i = 0; i < rounds; i++) { uint64_t alone = work(plan[t][i].first, plan[t][i].second, 40); CHECK(MODEL, alone == got[t][i], kinds[plan[t][i].first], "thread %d of %d: %s gave another result than alone", t, nt, kinds[plan[t][i].first]); }
  count("threads", nt);
}
// ---- reading shared objects ---------------------------------------------------
struct Shared {
  cest::vector<int> v; cest::string s; cest::deque<int> q; cest::list<int> l; cest::forward_list<int> f; cest::set<int> st; cest::map<int, int> m; cest::queue<int> qu;
  cest::shared_ptr<int> sp{ new int(5) }; cest::unique_ptr<int> up{ new int(6) }; cest::function<int(int)> fn{ [](int x) { return x; } }; cest::complex<double> z{ 1.5, -2 };
  cest::set<cest::string, std::less<>> sh; cest::map<cest::string, int, std::less<>> mh; cest::shared_ptr<int[]> ap{ new int[4]{ 1, 2, 3, 4 } }; cest::unique_ptr<int> up2{ new int(7) }; cest::complex<float> zf{ 0.5f, 2 };
  cest::vector<cest::string> vs; cest::map<int, cest::string> ms; cest::wstring ws; cest::basic_istringstream<char> is{ cest::string("shared text") };
};
static uint64_t read_all(const Shared& o, uint64_t seed)
{
  Rng r(seed); Dig d; const Shared& k = o;
  for (int i = 0; i < 12; i++) {
    jitter();
    switch (r.below(24)) {
      case 0: { d.range(k.v.begin(), k.v.end()); d(k.v.size() + k.v.capacity()); if (!k.v.empty()) { d(k.v.front() + k.v.back() + k.v.at(0) + k.v.data()[0]); } auto c = k.v; d.range(c.begin(), c.end()); d(c == k.v); } break;
      case 1: { d.range(k.s.begin(), k.s.end()); d(k.s.size()); d(strlen(k.s.c_str())); d(k.s.find('c', 2)); d(k.s == "abc"); auto c = k.s; c += k.s; d.range(c.begin(), c.end()); cest::string t(k.s); d(t == k.s); } break;
      case 2: { d.range(k.q.begin(), k.q.end()); d(k.q.size()); if (!k.q.empty()) d(k.q.front() + k.q.back() + k.q[k.q.size() / 2]); auto c = k.q; d.range(c.begin(), c.end()); d(k.q.cend() - k.q.cbegin()); } break;
      case 3: { d.range(k.l.begin(), k.l.end()); d(k.l.size()); if (!k.l.empty()) d(k.l.front() + k.l.back()); auto c = k.l; d.range(c.begin(), c.end()); } break;
      case 4: { d.range(k.f.begin(), k.f.end()); d(k.f.empty()); auto c = k.f; d.range(c.begin(), c.end()); } break;
      case 5: { d.range(k.st.begin(), k.st.end()); d(k.st.size()); for (int j = 0; j < 10; j++) d(k.st.find((int)r.below(90)) != k.st.end()); auto c = k.st; d.range(c.begin(), c.end()); } break;
      case 6: { for (auto i = k.m.begin(); i != k.m.end(); ++i) d(i->second); for (int j = 0; j < 10; j++) { auto i = k.m.find((int)r.below(90)); d(i == k.m.end() ? -1 : i->second); } auto c = k.m; d(c.size()); } break;
      case 7: { d(k.qu.size()); d(k.qu.empty()); if (!k.qu.empty()) d(k.qu.front() + k.qu.back()); auto c = k.qu; while (!c.empty()) { d(c.front()); c.pop(); } } break;
      case 8: { auto c = k.sp; d(*c); d(*k.sp); d(c == k.sp); d(k.sp.use_count() > 1); cest::shared_ptr<int> e(k.sp, k.sp.get()); d(*e); d(*k.up); d((bool)k.up); } break;
      case 9: { cest::function<int(int)> g = k.fn; d(g(4)); } break;
      case 10: { auto y = k.z * k.z + k.z; d((long)(y.real() * 1000)); d((long)(cest::abs(k.z) * 1000)); d(k.z == y); } break;
      case 11: { for (auto i = k.vs.begin(); i != k.vs.end(); ++i) d(i->size()); auto c = k.vs; d(c.size()); d(c == k.vs); } break;
      case 12: { for (auto i = k.ms.begin(); i != k.ms.end(); ++i) d.range(i->second.begin(), i->second.end()); auto c = k.ms; d(c.size()); } break;
      case 13: { for (auto i = k.v.rbegin(); i != k.v.rend(); ++i) d(*i); d.range(k.v.cbegin(), k.v.cend()); for (size_t j = 0; j < k.v.size(); j += 3) d(k.v[j]); try { (void)k.v.at(k.v.size()); } catch (const std::out_of_range&) { d(9); } cest::vector<int> c; c.push_back(3); c = k.v; d(c != k.v); c = cest::vector<int>(k.v); d.range(c.begin(), c.end()); d(k.v.empty()); break; }
      case 14: { d(k.s.find(k.s)); d(k.s.find("bc")); d(k.s.find("zz", 1, 2)); d(k.s.compare("abc") > 0); d(k.s.compare(k.s)); d(k.s < "m"); d("m" < k.s); d(k.s != "abc"); d("abc" == k.s); d(k.s.capacity() >= k.s.length()); d(k.s.empty()); if (!k.s.empty()) d(k.s.front() + k.s.back() + k.s[0] + k.s.data()[0]); cest::string c("x"); c = k.s; c += k.s; c += k.s.c_str(); d.range(c.cbegin(), c.cend()); (void)k.s.get_allocator(); break; }
      case 15: { auto i = k.q.begin(); d(k.q.end() - i); if (k.q.size() > 3) { i += 3; d(*i); d(i[-1]); d(*(i - 2)); d(k.q.begin() < i); } for (auto j = k.q.end(); j != k.q.begin();) { --j; d(*j); } for (size_t j = 0; j < k.q.size(); j += 7) d(k.q[j]); cest::deque<int> c; c.push_front(1); c = k.q; d.range(c.begin(), c.end()); d(k.q.empty()); break; }
      case 16: { for (auto j = k.l.end(); j != k.l.begin();) { --j; d(*j); } d.range(k.l.cbegin(), k.l.cend()); d(k.l.empty()); d(k.l.max_size() > 0); cest::list<int> c; c.push_back(1); c = k.l; d.range(c.begin(), c.end()); if (!k.f.empty()) d(k.f.front()); cest::forward_list<int> g; g.push_front(2); g = k.f; d.range(g.begin(), g.end()); d.range(k.f.cbegin(), k.f.cend()); break; }
      case 17: { for (auto j = k.st.end(); j != k.st.begin();) { --j; d(*j); } for (auto j = k.m.end(); j != k.m.begin();) { --j; d(j->first); } d(k.st.empty()); d(k.m.empty()); cest::set<int> c; c.insert(-4); c = k.st; d.range(c.begin(), c.end()); cest::map<int, int> g; g.insert(std::make_pair(-4, 4)); g = k.m; d(g.size()); break; }
      case 18: { for (int j = 0; j < 6; j++) { char t[2] = { (char)('a' + r.below(26)), 0 }; d(k.sh.find(t) != k.sh.end()); auto i = k.mh.find(t); d(i == k.mh.end() ? -1 : i->second); d(k.sh.find(cest::string(t)) != k.sh.end()); } for (auto i = k.sh.cbegin(); i != k.sh.cend(); i++) d(i->size()); for (auto i = k.mh.cbegin(); i != k.mh.cend(); i++) d(i->second); break; }
      case 19: { d(k.ap[2]); auto c = k.ap; d(c[3]); cest::shared_ptr<int> e; e = k.sp; d(*e); d(e.get() == k.sp.get()); d(e < k.sp); d(e <= k.sp); d((bool)k.sp); d(k.up == k.up); d(k.up != k.up2); d(k.up < k.up); d(*k.up2); d(k.up.get() != nullptr); d(*k.up.operator->()); std::vector<cest::shared_ptr<int>> many(r.below(9), k.sp); d(many.size()); break; }
      case 20: { auto y = cest::exp(k.z) + cest::conj(k.z) - k.z / 2.0; d((long)(y.real() * 1000)); d((long)(cest::norm(k.z) * 100)); d((long)(cest::arg(k.z) * 1000)); auto w = k.z; w *= k.z; w /= k.z; w -= k.z; d((long)(w.imag() * 1000)); d((long)(cest::sqrt(k.z).real() * 1000)); d((long)(cest::pow(k.z, 3).real() * 1000)); d((long)(cest::log(k.z).imag() * 1000)); d((long)(cest::sin(k.zf).real() * 1000)); d((long)(cest::cos(k.z).real() * 1000)); d((long)(cest::tan(k.z).real() * 1000)); d(k.z != y); break; }
      case 21: { d(k.is.eof()); d(k.is.fail()); d(!k.is); d((bool)k.is); d((long)k.is.exceptions()); d((long)k.is.flags()); auto t = k.is.str(); d.range(t.begin(), t.end()); d(k.is.tie() == nullptr); d(k.is.rdbuf() != nullptr); break; }
      case 22: { cest::vector<int> c; cest::copy(k.q.begin(), k.q.end(), std::back_inserter(c)); cest::sort(c.begin(), c.end()); d.range(c.begin(), c.end()); d(cest::accumulate(k.l.begin(), k.l.end(), 0L)); d(cest::equal(k.v.begin(), k.v.end(), k.l.begin())); d(std::distance(k.st.begin(), k.st.end())); break; }
      default: d.range(k.ws.begin(), k.ws.end()); d(k.is.rdstate()); d(k.is.good()); d(k.is.gcount());
    }
  }
  return d.h;
}
static void readers(long)
{
  Shared o; int n = (int)R.skew(60); if (R.chance(1, 6)) n = 700; for (int i = 0; i < n; i++) { int x = (int)R.below(90); o.v.push_back(x); o.s.push_back((char)('a' + x % 26)); o.q.push_back(x); o.q.push_front(x + 1); o.l.push_back(x); o.f.push_front(x); o.st.insert(x); o.m.insert(std::make_pair(x, i)); o.qu.push(x); o.vs.push_back(cest::string("e", 1)); o.ms.insert(std::make_pair(x, cest::string("value"))); o.ws.push_back((wchar_t)x); char t[2] = { (char)('a' + x % 26), 0 }; o.sh.insert(cest::string(t)); o.mh.insert(std::make_pair(cest::string(t), x)); }
  int add = n; o.fn = cest::function<int(int)>([add](int x) { return x * 2 + add; });
  int nt = (int)R.range(2, 6); std::vector<uint64_t> seeds(nt), got(nt); for (auto& s : seeds) s = R.next(); op("readers", nt, n);
  for (auto s : seeds) op("reader", (long)(s % 100000));
  threads(nt, [&](int t) { got[t] = read_all(o, seeds[t]); });
  for (int t = 0; t < nt; t++) CHECK(MODEL, got[t] == read_all(o, seeds[t]), "reader", "thread %d of %d read something else than alone", t, nt);
  count("threads", nt); state(1, nt, n);
}
// ---- distinct shared pointers to one object ------------------------------------
static std::atomic<long> born{ 0 }, died{ 0 }, deleted{ 0 };
struct Obj { long payload[4]; Obj() { born++; for (long i = 0; i < 4; i++) payload[i] = 100 + i; } virtual ~Obj() { for (long i = 0; i < 4; i++) if (payload[i] != 100 + i) died += 1000; for (auto& p : payload) p = -1; died++; } };
struct Der : Obj { long more = 5; };
struct Del { void operator()(Obj* p) const { deleted++; delete p; } };
static void owners(long)
{
  int nt = (int)R.range(2, 7), rounds = (int)R.range(3, 40), nobj = (int)R.range(1, 3); long b0 = born, d0 = died, x0 = deleted; int style = (int)R.below(3);
  op("owners", nt, rounds, nobj * 10 + style); for (int i = 0; i < nt; i++) op("owner", i);
  {
    std::vector<cest::shared_ptr<Obj>> roots; long withdel = 0;
    for (int i = 0; i < nobj; i++) switch (style) { case 0: roots.push_back(cest::shared_ptr<Obj>(new Obj)); break; case 1: roots.push_back(cest::shared_ptr<Obj>(new Obj, Del{})); withdel++; break; default: roots.push_back(cest::shared_ptr<Obj>(new Der)); }
    std::vector<std::vector<cest::shared_ptr<Obj>>> own(nt); uint64_t seed = R.next(); std::atomic<long> bad{ 0 };
    for (int t = 0; t < nt; t++) for (int k = 0; k < 3; k++) own[t].push_back(roots[R.below(nobj)]);
    bool keep = R.chance(1, 3); if (!keep) roots.clear(); // then the last owner is in some thread
    threads(nt, [&](int t) {
      Rng r(seed + t); auto& m = own[t];
      for (int i = 0; i < rounds; i++) {
        jitter(); auto& p = m[r.below(m.size())]; auto& q = m[r.below(m.size())];
        if (p && p->payload[1] != 101) bad++;
        switch (r.below(8)) {
          case 0: { auto c = p; if (c && c->payload[2] != 102) bad++; if (c && c.use_count() < 2) bad++; } break;
          case 1: p = q; break;
          case 2: p = cest::shared_ptr<Obj>(); break;
          case 3: { auto c = std::move(p); p = std::move(c); } break;
          case 4: m.push_back(p); break;
          case 5: if (m.size() > 1) m.erase(m.begin() + r.below(m.size())); break;
          case 6: { cest::shared_ptr<long> a(p, p ? &p->payload[3] : nullptr); if (a && *a != 103) bad++; } break;
          default: p = p; if (p && p.use_count() < 1) bad++; break;
        }
      }
      if (r.chance(3, 4)) m.clear();
    });
    CHECK(MODEL, bad == 0, "owner-view", "%ld times a living owner saw a destroyed or altered object or too small a count", bad.load());
    std::map<Obj*, long> cnt; for (auto& m : own) for (auto& p : m) if (p) cnt[p.get()]++; for (auto& p : roots) if (p) cnt[p.get()]++;
    for (auto& m : own) for (auto& p : m) if (p) CHECK(MODEL, p.use_count() == cnt[p.get()], "use-count", "use count %ld, %ld owners after the threads joined", (long)p.use_count(), cnt[p.get()]);
    CHECK(MODEL, (born - b0) - (died - d0) == (long)cnt.size(), "alive", "%ld objects alive, %zu owned", (born - b0) - (died - d0), cnt.size());
    own.clear(); roots.clear(); CHECK(MODEL, deleted - x0 == withdel, "deleter", "deleter ran %ld times for %ld objects", deleted - x0, withdel);
  }
  CHECK(MODEL, born - b0 == nobj && died - d0 == nobj, "once", "%d objects, %ld destructions", nobj, died - d0);
  count("threads", nt); state(2, nt, rounds, nobj * 3 + style);
}
// ---- the standard output objects are distinct from each other --------------------
static std::string drain(int fd) { std::string s; char b[4096]; lseek(fd, 0, SEEK_SET); ssize_t k; while ((k = ::read(fd, b, sizeof b)) > 0) s.append(b, k); return s; }
// every kind of insertion; lower-case letters, digits and blanks only, so that what other threads send to the same file is told apart
template <class O> static void emit(O& os, int i, std::string& want)
{
  std::ostringstream w; static const int cell[4] = {}; const void* p = cell + i % 4; cest::shared_ptr<int> sp(new int(i)); cest::unique_ptr<int> up(new int(i));
  switch (i % 8) {
    case 0: os << "text " << i << ' ' << (long)i * 1000000007l << '\n'; w << "text " << i << ' ' << (long)i * 1000000007l << '\n'; break;
    case 1: os << (short)(i + 3) << ' ' << (unsigned)i * 77u << ' ' << p << '\n'; w << (short)(i + 3) << ' ' << (unsigned)i * 77u << ' ' << p << '\n'; break;
    case 2: os << (signed char)'s' << (unsigned char)'u' << (const signed char*)"sc " << (const unsigned char*)"uc\n"; w << "susc uc\n"; break;
    case 3: os << sp << ' ' << up << cest::endl; w << (const void*)sp.get() << ' ' << (const void*)up.get() << '\n'; break;
    case 4: os << cest::string("a string ") << cest::hex << i << ' ' << cest::oct << i << ' ' << cest::dec << i << "\n"; w << "a string " << std::hex << i << ' ' << std::oct << i << ' ' << std::dec << i << '\n'; break;
    case 5: cest::fprintf(&os, "%d %s\n", i, "formatted"); w << i << " formatted\n"; break;
    case 6: cest::fprintf(&os, "plain\n"); w << "plain\n"; break;
    default: os << i; os.flush(); os << ' ' << cest::endl; w << i << " \n"; break; }
  want += w.str();
}
static void outputs(long)
{
  int f1 = memfd_create("o1", 0), f2 = memfd_create("o2", 0); fflush(::stdout); fflush(::stderr); int s1 = dup(1), s2 = dup(2); dup2(f1, 1); dup2(f2, 2);
  int n = (int)R.range(3, 40); op("outputs", n); op("cout", n); op("cerr", n); op("clog", n); op("printf", n);
  uint64_t seed = R.next(); std::string wa, wb, wc, wd;
  threads(6, [&](int t) { Rng r(seed + t);
    for (int i = 0; i < n; i++) { jitter(); int k = (int)r.below(64);
      if (t == 0) emit(cest::cout, k, wa); else if (t == 1) emit(cest::cerr, k, wb);
      else if (t == 2) { cest::clog << "LOG" << (char)('A' + k % 26) << (unsigned char)'U' << cest::string("STRING\t"); std::string x = "LOG"; x += (char)('A' + k % 26); wc += x + "USTRING\t"; }
      else if (t == 3) { if (k % 2) { int q = cest::printf("PRINT\t"); CHECK(MODEL, q == 6, "printf", "%d", q); wd += "PRINT\t"; } else { int q = cest::printf("%s%c\t", "TEXT", 'A' + k % 26); CHECK(MODEL, q == 6, "printf", "%d", q); wd += "TEXT"; wd += (char)('A' + k % 26); wd += '\t'; } }
      else work(t == 4 ? 11 : 15, r.next(), 20); } });
  cest::cout.flush(); fflush(::stdout); std::clog.flush(); fflush(::stderr); dup2(s1, 1); dup2(s2, 2); close(s1); close(s2);
  auto split = [](const std::string& s, std::string& lo, std::string& up) { for (char c : s) ((c >= 'A' && c <= 'Z') || c == '\t' ? up : lo) += c; };
  std::string a, b, c, d; split(drain(f1), a, d); split(drain(f2), b, c); close(f1); close(f2);
  CHECK(MODEL, a == wa, "cout", "standard output has %zu bytes, expected %zu", a.size(), wa.size()); CHECK(MODEL, b == wb, "cerr", "standard error has %zu bytes, expected %zu", b.size(), wb.size());
  CHECK(MODEL, c == wc, "clog", "the log has %zu bytes, expected %zu", c.size(), wc.size()); CHECK(MODEL, d == wd, "printf", "printf wrote %zu bytes, expected %zu", d.size(), wd.size());
  count("threads", 6);
}
int main(int argc, char** argv)
{
  init(argc, argv, "w_threads"); std::string c = S().config;
  if (c == "distinct") run_cases(distinct);
  if (c == "readers") run_cases(readers);
  if (c == "owners") run_cases(owners);
  if (c == "outputs") run_cases(outputs);
  return 3;
}
