// Contents longer than 2^31 and 2^32: a size, position, count or difference kept in 32 bits anywhere shows here and nowhere else.
// Built with optimisation and without sanitizers; one process at a time (some gigabytes each).
#include <stdexcept>
#include "cest/vector.hpp"
#include "cest/deque.hpp"
#include "cest/list.hpp"
#include "cest/queue.hpp"
#include "cest/string.hpp"
#include "cest/sstream.hpp"
#include "cest/cstdio.hpp"
#include "cest/shared_ptr.hpp"
#include "mon.hpp"
#include <sys/mman.h>
using namespace mon;
using std::size_t;
static const size_t T31 = size_t(1) << 31, T32 = size_t(1) << 32;

// zero pages, with marks; costs memory only where marks are
struct Text {
  char* p; size_t n, bytes; std::vector<size_t> at;
  Text(size_t len) : n(len), bytes(len + 1) {
    p = (char*)mmap(nullptr, bytes, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == (char*)MAP_FAILED) { fprintf(::stderr, "no address space\n"); _exit(4); }
    for (size_t k : { size_t(0), size_t(1), n / 3, T31 - 1, T31, T31 + 1, T32 - 1, T32, T32 + 1, n - 3, n - 2, n - 1 }) if (k < n) at.push_back(k);
    for (size_t k : at) p[k] = mark(k);
  }
  ~Text() { munmap(p, bytes); }
  static char mark(size_t k) { return (char)(1 + mix(k) % 60); }
};
static size_t len(int i) { return i == 0 ? T31 + 7 + R.below(50) : T32 + 9 + R.below(50); }

static void str()
{
  run_cases([](long i) {
    size_t n = len(i & 1); Text t(n); op("string", n); state(n);
    using C = cest::string; const unsigned M = MODEL, L = MODEL | CMP;
    C a(t.p, n); const C& k = a;
    CHECK(M, a.size() == n && a.length() == n && !a.empty(), "size", "a string of %zu characters has size %zu", n, a.size());
    CHECK(M | CAP, a.capacity() >= n, "capacity", "%zu characters, capacity %zu", n, a.capacity());
    CHECK(M, a.c_str()[n] == 0, "terminator", "%zu characters are not terminated", n);
    CHECK(M, !memcmp(a.data(), t.p, n), "contents", "the characters of a string of %zu differ", n);
    CHECK(M, a.end() - a.begin() == (long)n && k.cend() - k.cbegin() == (long)n, "distance", "end - begin = %ld of %zu", (long)(a.end() - a.begin()), n);
    for (size_t m : t.at) { CHECK(M, a[m] == Text::mark(m) && k[m] == Text::mark(m), "index", "character %zu of %zu", m, n); count("positions"); }
    CHECK(M, a.back() == Text::mark(n - 1) && k.back() == Text::mark(n - 1), "back", "back of %zu", n);
    op("compare");
    { C e; char h[4] = { Text::mark(0), Text::mark(1), 0, 0 }; C s(h, 2);
      CHECK(L, a.compare(e) > 0 && e.compare(a) < 0 && a.compare("") > 0 && !(a < e) && e < a && "" < a && !(a < "") && a != e && a != "" && !(a == e), "compare-empty", "%zu characters against none: %d, %d", n, a.compare(e), e.compare(a));
      CHECK(L, a.compare(s) > 0 && s.compare(a) < 0 && a.compare(s.c_str()) > 0 && s < a && !(a < s) && s != a && s.c_str() < a && !(a < s.c_str()), "compare-prefix", "%zu characters against their first two: %d, %d", n, a.compare(s), s.compare(a));
      CHECK(L, a.compare(a) == 0 && a == a, "compare-self", "%zu characters against themselves", n); }
    op("find"); count("searches", 8);
    { C nd(t.p + n - 3, 3); a[n - 2] = 'Z'; size_t f;
      CHECK(M, (f = a.find('Z')) == n - 2, "find", "character at %zu found at %zu", n - 2, f);
      CHECK(M, (f = a.find('Z', n - 2)) == n - 2 && a.find('Z', n - 1) == C::npos && a.find('Q', n / 2) == C::npos && a.find('Z', n) == C::npos && a.find('Z', n + 1) == C::npos, "find-from", "character at %zu found at %zu", n - 2, f);
      char z[4] = { Text::mark(n - 3), 'Z', Text::mark(n - 1), 0 };
      CHECK(M, (f = a.find(C(z))) == n - 3 && (f = a.find(z, n / 2)) == n - 3 && (f = a.find(z, 3, 2)) == n - 3 && a.find(z, n - 2) == C::npos, "find-text", "text at %zu found at %zu", n - 3, f);
      CHECK(M, a.find("", n) == n && a.find("", n + 1) == C::npos, "find-nothing", "nothing in %zu", n);
      a[n - 2] = Text::mark(n - 2); }
    op("change");
    { a.pop_back(); CHECK(M, a.size() == n - 1 && a.c_str()[n - 1] == 0, "pop", "size %zu after a pop of %zu", a.size(), n);
      const char* d = a.data(); a.push_back('+'); CHECK(M | ADDR, a.size() == n && a[n - 1] == '+' && a.data() == d && a.c_str()[n] == 0, "push", "size %zu", a.size());
      a[n - 1] = t.p[n - 1]; }
    if (i & 1) { op("reserve"); a.reserve(n + 64); CHECK(M | CAP, a.capacity() >= n + 64 && a.size() == n && !memcmp(a.data(), t.p, n), "reserve", "capacity %zu", a.capacity());
      a.append("tail", 4); CHECK(M, a.size() == n + 4 && !strcmp(a.c_str() + n, "tail") && !memcmp(a.data(), t.p, n), "append", "size %zu", a.size()); }
    else { op("copy"); C b(a); CHECK(M | COPY, b.size() == n && b == a && !b.compare(a) && !memcmp(b.data(), t.p, n), "copy", "a copy of %zu", n);
      b[n - 1]++; CHECK(L, b != a && a < b && !(b < a) && a.compare(b) < 0, "last-differs", "%zu characters that differ in the last", n);
      b = a; CHECK(M | COPY, b.size() == n && b[n - 1] == a[n - 1] && b.c_str()[n] == 0, "assign", "assigned %zu", n);
      b.clear(); b = C("x"); CHECK(M, b.size() == 1 && b == "x", "assign-small", "a small one assigned over %zu", n);
      C c("ab"); c = a; CHECK(M | COPY, c.size() == n && !memcmp(c.data(), t.p, n), "assign", "assigned %zu over a small one", n); }
    a.clear(); CHECK(M, a.empty() && a.c_str()[0] == 0, "clear", "size %zu", a.size()); a.push_back('q'); CHECK(M, a == "q", "after-clear", "size %zu", a.size());
  });
}

static void vec()
{
  run_cases([](long i) {
    size_t n = len(i & 1); op("vector", n); state(n); using V = cest::vector<unsigned char>; const unsigned M = MODEL;
    auto mk = [](size_t k) { return (unsigned char)Text::mark(k); };
    std::vector<size_t> at; for (size_t k : { size_t(0), n / 3, T31 - 1, T31, T31 + 1, T32 - 1, T32, T32 + 1, n - 2, n - 1 }) if (k < n) at.push_back(k);
    V v; v.reserve(n + 8); CHECK(M | CAP, v.capacity() >= n + 8, "reserve", "capacity %zu after reserve(%zu)", v.capacity(), n + 8);
    const unsigned char* d = v.data();
    v.push_back(9); v.resize(n); const V& k = v;
    CHECK(M, v.size() == n && v[0] == 9 && v[n / 2] == 0 && v[n - 1] == 0, "resize", "size %zu after resize(%zu)", v.size(), n);
    for (size_t m : at) v[m] = mk(m);
    for (size_t m : at) { CHECK(M, k[m] == mk(m) && v.at(m) == mk(m) && k.at(m) == mk(m) && v.begin()[m] == mk(m) && *(v.begin() + m) == mk(m), "index", "element %zu of %zu", m, n); count("positions"); }
    for (size_t m : { n, n + 1, n + T32, ~size_t(0) }) { bool th = false; try { (void)k.at(m); } catch (const std::out_of_range&) { th = true; } CHECK(M, th, "at", "at(%zu) of %zu", m, n); th = false; try { (void)v.at(m); } catch (const std::out_of_range&) { th = true; } CHECK(M, th, "at", "at(%zu) of %zu", m, n); }
    CHECK(M, v.front() == mk(0) && v.back() == mk(n - 1) && *(v.end() - 1) == mk(n - 1) && *v.rbegin() == mk(n - 1) && *(v.rend() - 1) == mk(0), "ends", "ends of %zu", n);
    CHECK(M, v.end() - v.begin() == (long)n && k.end() - k.begin() == (long)n && v.rend() - v.rbegin() == (long)n, "distance", "end - begin = %ld of %zu", (long)(v.end() - v.begin()), n);
    op("push"); v.push_back(77); v.push_back(78); CHECK(M, v.size() == n + 2 && v.back() == 78 && v[n] == 77, "push", "size %zu", v.size());
    CHECK(M | ADDR | CAP, v.data() == d, "relocated", "moved within the capacity at size %zu", n);
    v.pop_back(); CHECK(M, v.size() == n + 1 && v.back() == 77, "pop", "size %zu", v.size());
    op("erase"); auto it = v.erase(v.begin() + (n - 2), v.begin() + n); CHECK(M, v.size() == n - 1 && it - v.begin() == (long)n - 2 && *it == 77, "erase", "size %zu", v.size());
    if (!(i & 1)) {
      it = v.erase(v.begin() + 1, v.begin() + 3); CHECK(M, v.size() == n - 3 && it == v.begin() + 1 && v[T31 - 2] == mk(T31) && v[T31 - 3] == mk(T31 - 1) && v.back() == 77, "erase-front", "size %zu", v.size());
      op("copy"); V w(v); CHECK(M | COPY, w.size() == v.size() && w == v && w[T31 - 2] == mk(T31), "copy", "a copy of %zu", v.size());
      w.back()++; CHECK(M | CMP, !(w == v) && w != v, "last-differs", "%zu elements that differ in the last", v.size()); w.pop_back(); CHECK(M | CMP, !(w == v), "length-differs", "one element fewer than %zu", v.size());
      w = v; CHECK(M | COPY, w.size() == v.size() && w.back() == v.back(), "assign", "%zu assigned", v.size());
    } else { // a long one emptied from its front but for a few
      size_t s = v.size(); it = v.erase(v.begin() + 2, v.end() - 3); CHECK(M, v.size() == 5 && it == v.begin() + 2 && v.back() == 77, "erase-most", "%zu left of %zu", v.size(), s); v.resize(n); CHECK(M, v.size() == n && v[4] == 77 && !v[5] && !v[n - 1], "resize", "size %zu", v.size()); }
    v.resize(10); CHECK(M, v.size() == 10, "resize-small", "size %zu", v.size()); V z; z.push_back(3); v = z; CHECK(M | COPY, v.size() == 1 && v[0] == 3, "assign-small", "size %zu", v.size());
  });
}

static void deq()
{
  run_cases([](long i) {
    size_t n = T31 + 5000 + R.below(50), f = (i & 1) ? 0 : 1 + R.below(4000); op("deque", n, f); state(n, f); using D = cest::deque<unsigned char>; const unsigned M = MODEL;
    auto mk = [](size_t k) { return (unsigned char)((k * 0x9e3779b97f4a7c15ull) >> 56); };
    D d; for (size_t k = f; k < n; k++) d.push_back(mk(k)); for (size_t k = f; k--;) d.push_front(mk(k));
    auto want = mk; const D& c = d;
    CHECK(M, d.size() == n && !d.empty() && d.front() == want(0) && d.back() == want(n - 1), "size", "%zu pushed, size %zu", n, d.size());
    CHECK(M, d.end() - d.begin() == (long)n && c.end() - c.begin() == (long)n, "distance", "end - begin = %ld of %zu", (long)(d.end() - d.begin()), n);
    for (int q = 0; q < 20000; q++) { size_t k = q == 0 ? 0 : q == 1 ? n - 1 : q < 50 ? T31 - 20 + q : R.below(n); CHECK(M, d[k] == want(k) && c[k] == want(k), "index", "element %zu of %zu", k, n);
      auto x = d.begin() + k; auto y = c.begin() + k; CHECK(M | ITER, *x == want(k) && *y == want(k) && x - d.begin() == (long)k && d.end() - x == (long)(n - k) && *(d.end() - (n - k)) == want(k) && c.end() - y == (long)(n - k), "step", "stepping by %zu in %zu", k, n); }
    count("positions", 20000);
    for (int q = 0; q < 3000; q++) { d.pop_front(); d.pop_back(); } CHECK(M, d.size() == n - 6000 && d.front() == want(3000) && d.back() == want(n - 3001) && d[T31 - 4000] == want(T31 - 1000), "pop", "size %zu", d.size());
    d.clear(); CHECK(M, d.empty() && d.begin() == d.end(), "clear", "size %zu", d.size()); d.push_back(4); d.push_front(3); CHECK(M, d.size() == 2 && d[0] == 3 && d[1] == 4, "after-clear", "size %zu", d.size());
  });
}

// as many elements pass through as 32 bits can count, and more
template <class Q> static void pass(size_t n, size_t w)
{
  op("pass", n, w); state(n, w); Q q; size_t in = 0, out = 0; auto mk = [](size_t k) { return (int)(k * 2654435761u >> 3); };
  for (; in < w; in++) q.push(mk(in));
  CHECK(ORDER | MODEL, q.size() == w, "size", "size %zu of %zu", q.size(), w);
  while (in < n) { q.push(mk(in++)); if (q.front() != mk(out)) viol(ORDER | MODEL, "order", "element %zu of a queue %zu long was another", out, w); q.pop(); out++; if (!(in & 0xfffff)) { S().checks++; CHECK(ORDER | MODEL, q.size() == w && q.back() == mk(in - 1), "size", "size %zu, %zu expected", q.size(), w); } }
  count("elements_passed", n);
  while (out < n) { CHECK(ORDER | MODEL, !q.empty() && q.front() == mk(out), "order", "element %zu at the end", out); q.pop(); out++; } CHECK(ORDER | MODEL, q.empty() && q.size() == 0, "empty", "size %zu", q.size());
}

static void strm(bool file)
{
  run_cases([file](long) {
    size_t n = T31 + 7 + R.below(50); Text t(n); op("read", n); state(n); const unsigned M = MODEL;
    std::unique_ptr<char[]> out(new char[n + 16]);
    if (file) {
      size_t first = T31 + 3, r; cest::FILE* f = cest::fmemopen(t.p, n, "r"); op("fread", first);
      r = cest::fread(out.get(), 1, first, f); CHECK(M, r == first && !memcmp(out.get(), t.p, first), "fread", "fread of %zu gave %zu", first, r);
      out[n - first] = 'E'; r = cest::fread(out.get(), 1, 100, f); CHECK(M, r == n - first && !memcmp(out.get(), t.p + first, r) && out[r] == 'E', "fread-rest", "the last %zu: %zu", n - first, r);
      r = cest::fread(out.get(), 1, 5, f); CHECK(M, r == 0, "fread-end", "%zu after the end", r); cest::fclose(f); return;
    }
    cest::istringstream s(cest::string(t.p, n)); size_t first = T31 + 2;
    s.read(out.get(), first); CHECK(M, s.good() && s.gcount() == (long)first && !memcmp(out.get(), t.p, first), "read", "read of %zu: gcount %ld", first, (long)s.gcount());
    s.unget(); char c = 0; s.get(c); CHECK(M, s.good() && c == t.p[first - 1], "unget", "after %zu", first);
    size_t rest = n - first; out[rest] = 'E'; s.read(out.get(), rest + 5); CHECK(M, s.eof() && s.fail() && s.gcount() == (long)rest && !memcmp(out.get(), t.p + first, rest) && out[rest] == 'E', "read-rest", "the last %zu: gcount %ld", rest, (long)s.gcount());
    s.clear(); s.str(cest::string("again")); s.read(out.get(), 5); CHECK(M, s.gcount() == 5 && !memcmp(out.get(), "again", 5), "reseat", "gcount %ld", (long)s.gcount());
  });
}

static void own()
{
  run_cases([](long) {
    // copies whose destructors never run are owners for good, and need no room
    size_t n = T31 + 5 + R.below(50); op("own", n); state(n); struct D { bool* b; ~D() { *b = true; } }; static bool gone; gone = false;
    using P = cest::shared_ptr<D>; P* p = new P(new D{ &gone }); alignas(P) unsigned char room[sizeof(P)];
    for (size_t k = 1; k < n; k++) { ::new (room) P(*p); }
    P* last = reinterpret_cast<P*>(room);
    CHECK(MODEL, p->use_count() == (long)n && last->use_count() == (long)n, "use_count", "%zu owners, use_count %ld", n, p->use_count()); count("owners", n);
    { P q(*p); CHECK(MODEL, q.use_count() == (long)n + 1, "use_count", "%zu owners, use_count %ld", n + 1, q.use_count()); }
    CHECK(MODEL, p->use_count() == (long)n && !gone, "use_count", "%zu owners, use_count %ld", n, p->use_count());
    last->~P(); CHECK(MODEL | LIFE, p->use_count() == (long)n - 1 && !gone, "use_count", "%zu owners, use_count %ld", n - 1, p->use_count());
    op("owned", n);
  });
}

int main(int argc, char** argv)
{
  init(argc, argv, "vast"); const std::string& c = S().config;
  if (c == "str") str(); else if (c == "vec") vec(); else if (c == "deq") deq(); else if (c == "strm") strm(false); else if (c == "memf") strm(true); else if (c == "own") own();
  else if (c == "que") run_cases([](long i) { pass<cest::queue<int>>((i ? T32 : T31) + 50, 1 + R.below(3000)); });
  else if (c == "quel") run_cases([](long i) { pass<cest::queue<int, cest::list<int>>>((i ? T32 : T31) + 50, 1 + R.below(3000)); });
  else return 3;
  finish(0);
}
