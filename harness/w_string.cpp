// string: lockstep with std::basic_string for every character type and custom traits
#include <stdexcept>
#include "cest/string.hpp"
#include "elems.hpp"
#include <sstream>
#include <string>
using namespace mon;

// case-insensitive traits
struct ci : std::char_traits<char> {
  static char up(char c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
  static bool eq(char a, char b) { return up(a) == up(b); }
  static bool lt(char a, char b) { return up(a) < up(b); }
  static int compare(const char* a, const char* b, size_t n)
  { for (; n--; ++a, ++b) { if (lt(*a, *b)) return -1; if (lt(*b, *a)) return 1; } return 0; }
  static const char* find(const char* s, size_t n, char a) { for (; n--; ++s) if (eq(*s, a)) return s; return nullptr; }
};
// reversed order, and a comparison whose magnitude is large
struct rev : std::char_traits<char> {
  static bool lt(char a, char b) { return (unsigned char)b < (unsigned char)a; }
  static int compare(const char* a, const char* b, size_t n)
  { for (; n--; ++a, ++b) if (*a != *b) return (unsigned char)*a < (unsigned char)*b ? 1000000 : -1000000; return 0; }
};

// input iterator over an array, single pass
template <class Ch> struct InIt {
  using iterator_category = std::input_iterator_tag; using value_type = Ch; using difference_type = ptrdiff_t;
  using pointer = const Ch*; using reference = Ch;
  const std::basic_string<Ch>* s = nullptr; size_t* pos = nullptr; size_t at = 0;
  Ch operator*() const { CHECK(MODEL, *pos == at, "input-iterator-reread", "an input iterator was read after a copy of it had advanced"); return (*s)[at]; }
  InIt& operator++() { at = ++*pos; return *this; }
  InIt operator++(int) { InIt o = *this; ++*this; return o; }
  friend bool operator==(const InIt& a, const InIt& b)
  { bool ea = !a.s || a.at >= a.s->size(), eb = !b.s || b.at >= b.s->size(); return ea == eb; }
  friend bool operator!=(const InIt& a, const InIt& b) { return !(a == b); }
};

template <class Ch, class Tr, class Al> struct W {
  using C = cest::basic_string<Ch, Tr, Al>;
  using M = std::basic_string<Ch, Tr>;
  struct Slot { C* c; M m; unsigned fl = 0; };
  std::vector<Slot> s;
  Ch alpha[8]; int na;
  unsigned tg(const Slot& x, unsigned t = MODEL) const { return t | x.fl; }
  static int sgn(int x) { return (x > 0) - (x < 0); }

  Ch ch()
  {
    if (R.chance(1, 12)) return Ch();
    if (R.chance(1, 10)) return (Ch)R.next();
    return alpha[R.below(na)];
  }
  M rnd(size_t maxn) { M m; size_t n = R.skew(maxn); for (size_t i = 0; i < n; i++) m += ch(); return m; }
  M rndz(size_t maxn) { M m; size_t n = R.skew(maxn); for (size_t i = 0; i < n; i++) { Ch c = ch(); m += Tr::eq(c, Ch()) ? alpha[0] : c; } return m; }
  // same characters exactly (traits equality may be coarser)
  static bool same(const Ch* a, const Ch* b, size_t n) { for (; n--; ++a, ++b) if (!(*a == *b)) return false; return true; }

  void observe(Slot& x, const char* w)
  {
    C& c = *x.c; const C& k = c; size_t n = x.m.size();
    CHECK(tg(x), c.size() == n && c.length() == n, "size", "%s: size %zu, expected %zu", w, c.size(), n);
    if (c.size() != n) return;
    CHECK(tg(x), c.empty() == (n == 0), "empty", "%s: empty() at size %zu", w, n);
    CHECK(tg(x, MODEL | CAP), c.capacity() >= n, "capacity", "%s: capacity %zu below size %zu", w, c.capacity(), n);
    CHECK(tg(x), k.data() == c.data() && k.c_str() == k.data() && &*c.begin() == c.data() && k.begin() == k.data() && k.cbegin() == k.data(), "pointers", "%s: data, c_str and begin differ", w);
    CHECK(tg(x), (size_t)(c.end() - c.begin()) == n && (size_t)(k.end() - k.begin()) == n && k.cend() == k.end(), "iter-distance", "%s: end-begin", w);
    CHECK(tg(x), c.c_str()[n] == Ch(), "terminator", "%s: no null character at index %zu (capacity %zu)", w, n, c.capacity());
    CHECK(tg(x), c[n] == Ch() && k[n] == Ch(), "index-size", "%s: [size()] is not the null character", w);
    for (size_t i = 0; i < n; i++)
      CHECK(tg(x), c[i] == x.m[i] && k[i] == x.m[i] && c.data()[i] == x.m[i] && k.c_str()[i] == x.m[i] && *(k.begin() + i) == x.m[i],
            "char", "%s: character %zu of %zu is %lu, expected %lu", w, i, n, (unsigned long)c[i], (unsigned long)x.m[i]);
    if (n) CHECK(tg(x), c.front() == x.m.front() && k.front() == x.m.front() && c.back() == x.m.back() && k.back() == x.m.back(), "front-back", "%s: front or back", w);
    state(9, n > 60 ? 60 : n, c.capacity() > 128 ? 128 : c.capacity());
  }
  void observe_all(const char* w) { for (auto& x : s) observe(x, w); }

  void search(Slot& x, Slot& y)
  {
    const C& c = *x.c; const M& m = x.m; size_t n = m.size();
    auto ps = [&] { size_t r = R.below(8); return r == 0 ? (size_t)0 : r == 1 ? n : r == 2 ? n + 1 + R.below(3) : r == 3 ? (size_t)-1 : r == 4 && n ? n - 1 : R.below(n + 1); };
    for (int i = 0; i < 5; i++) {
      size_t p = ps(); Ch q = R.chance(1, 2) && n ? m[R.below(n)] : ch();
      CHECK(tg(x), c.find(q, p) == m.find(q, p), "find-char", "find(char %lu, %zu) is %zu, expected %zu (size %zu)", (unsigned long)q, p, c.find(q, p), m.find(q, p), n);
      CHECK(tg(x), c.find(q) == m.find(q), "find-char", "find(char) is %zu, expected %zu", c.find(q), m.find(q));
      // needles: a substring, a substring altered, random, longer than the string
      M nd;
      switch (R.below(6)) {
        case 0: nd = rnd(4); break;
        case 1: nd = m + rnd(2); break;
        case 2: if (n) { size_t a = R.below(n); nd = m.substr(a, 1 + R.below(std::min<size_t>(n - a, 5))); } break;
        case 3: if (n) { size_t a = R.below(n); nd = m.substr(a); nd[R.below(nd.size())] = ch(); } break;
        case 4: if (n) { size_t a = R.below(n); nd = m.substr(a); } break;
        default: nd = M(1 + R.below(3), alpha[0]); break;
      }
      C cn(nd.data(), nd.size());
      CHECK(tg(x), c.find(cn, p) == m.find(nd, p), "find-string", "find(string of %zu, %zu) is %zu, expected %zu (size %zu)", nd.size(), p, c.find(cn, p), m.find(nd, p), n);
      CHECK(tg(x), c.find(cn) == m.find(nd), "find-string", "find(string of %zu) is %zu, expected %zu", nd.size(), c.find(cn), m.find(nd));
      size_t k = R.below(nd.size() + 1);
      std::vector<Ch> exact(nd.begin(), nd.begin() + k);   // no terminator: reading past it is an error
      if (k) CHECK(tg(x), c.find(exact.data(), p, k) == m.find(nd.data(), p, k), "find-n", "find(ptr, %zu, %zu) is %zu, expected %zu (size %zu)", p, k, c.find(exact.data(), p, k), m.find(nd.data(), p, k), n);
      CHECK(tg(x), c.find(nd.c_str(), p) == m.find(nd.c_str(), p) && c.find(nd.c_str()) == m.find(nd.c_str()), "find-cstr", "find(C string, %zu) is %zu, expected %zu", p, c.find(nd.c_str(), p), m.find(nd.c_str(), p));
    }
    { // searching for a part of itself, and itself
      size_t a = R.below(n + 1), l = R.below(n - a + 1), p = ps();
      CHECK(tg(x) | ALIAS, c.find(c.data() + a, p, l) == m.find(m.data() + a, p, l), "find-own", "find of its own [%zu,+%zu) from %zu is %zu, expected %zu", a, l, p, c.find(c.data() + a, p, l), m.find(m.data() + a, p, l));
      CHECK(tg(x) | ALIAS, c.find(c, p) == m.find(m, p), "find-self", "find of itself from %zu", p);
    }
    count("searches", 25);
  }

  void compare(Slot& x, Slot& y)
  {
    const C& a = *x.c; M mb = y.m; 
    switch (R.below(6)) { // relatives of a
      case 0: mb = x.m; if (!mb.empty()) mb.pop_back(); break;
      case 1: mb = x.m; mb += ch(); break;
      case 2: mb = x.m; if (!mb.empty()) mb[R.below(mb.size())] = ch(); break;
      case 3: mb = x.m; break;
      default: break;
    }
    C b(mb.data(), mb.size()); const M& ma = x.m; unsigned t = tg(x, MODEL | CMP);
    int e = sgn(ma.compare(mb));
    CHECK(t, sgn(a.compare(b)) == e && sgn(b.compare(a)) == -e, "compare", "compare gives %d, expected %d (sizes %zu, %zu)", a.compare(b), e, ma.size(), mb.size());
    CHECK(t, (a == b) == (e == 0) && (b == a) == (e == 0) && (a != b) == (e != 0) && (b != a) == (e != 0), "equal", "== gives %d, != gives %d, compare is %d", a == b, a != b, e);
    CHECK(t, (a < b) == (e < 0) && (b < a) == (e > 0), "less", "< gives %d/%d, compare is %d", a < b, b < a, e);
    const Ch* z = mb.c_str(); int ez = sgn(ma.compare(z));
    CHECK(t, sgn(a.compare(z)) == ez, "compare-cstr", "compare with a C string gives %d, expected %d", a.compare(z), ez);
    CHECK(t, (a == z) == (ez == 0) && (z == a) == (ez == 0) && (a != z) == (ez != 0) && (z != a) == (ez != 0), "equal-cstr", "==/!= with a C string: %d %d %d %d, compare is %d", a == z, z == a, a != z, z != a, ez);
    CHECK(t, (a < z) == (ez < 0) && (z < a) == (ez > 0), "less-cstr", "< with a C string: %d %d, compare is %d", a < z, z < a, ez);
    CHECK(t, a == a && !(a < a) && !(a != a) && a.compare(a) == 0, "reflexive", "a string differs from itself");
    // transitivity over three
    const C& c = *s[R.below(s.size())].c;
    if (a < b && b < c) CHECK(t, a < c, "transitive", "a<b, b<c but not a<c");
    if (a == b && b == c) CHECK(t, a == c, "transitive", "a==b, b==c but not a==c");
    if (!(a < b) && !(b < a)) CHECK(t, a == b, "equivalence", "neither is less, but not equal");
    count("comparisons");
  }

  void run(long)
  {
    na = R.range(1, 5);
    for (int i = 0; i < 8; i++) {
      static const unsigned long picks[] = { 'a', 'b', 'A', 'z', 0x80, 0xff, 0x7f, 0x100, 0xD800, 0x10FFFF, 0xFFFF, 1 };
      alpha[i] = (Ch)(R.chance(1, 2) ? picks[R.below(4)] : picks[R.below(12)]);
      if (alpha[i] == Ch()) alpha[i] = (Ch)'q';
    }
    for (int i = 0; i < 3; i++) s.push_back(Slot{ new C(), M() });
    observe_all("default construction");
    long nops = R.range(15, 120); size_t limit = R.chance(1, 10) ? 600 : R.chance(1, 2) ? 20 : 70;
    for (long kk = 0; kk < nops; kk++) {
      Slot& x = s[R.below(3)]; Slot& y = s[R.below(3)]; C& c = *x.c; M& m = x.m; long id = &x - &s[0], iy = &y - &s[0];
      size_t n = m.size(), cap = c.capacity(); const Ch* d = c.data(); bool keep = false; size_t need = 0;
      auto repl = [&](C* t, const M& v) { delete x.c; x.c = t; x.m = v; };
      int o = R.below(24); if (n >= limit && o < 9) o = 9 + R.below(15);
      switch (o) {
        case 0: case 1: { Ch q = ch(); op("push_back", id, (long)q); c.push_back(q); m.push_back(q); keep = true; need = n + 1; break; }
        case 2: { Ch q = ch(); op("+=ch", id, (long)q); C& r = (c += q); CHECK(tg(x), &r == &c, "return", "+="); m += q; keep = true; need = n + 1; break; }
        case 3: case 4: { M v = rnd(std::min<size_t>(limit, R.chance(1, 3) ? cap - n + 2 : 30)); op("append_n", id, v.size(), cap - n);
          std::vector<Ch> exact(v.begin(), v.end()); C& r = c.append(exact.data(), exact.size()); CHECK(tg(x), &r == &c, "return", "append"); m.append(v); keep = true; need = n + v.size(); break; }
        case 5: { op("append", id, iy); if (&x == &y) { x.fl |= ALIAS; flag(ALIAS); } M v = y.m; if (R.chance(1, 2)) c.append(*y.c); else c += *y.c; m.append(v); keep = true; need = m.size(); break; }
        case 6: if (n) { size_t i = R.chance(1, 3) ? n - 1 : R.below(n); op("push_own", id, i); x.fl |= ALIAS; flag(ALIAS); Ch v = m[i];
          switch (R.below(3)) { case 0: c.push_back(c[i]); break; case 1: c += c[i]; break; default: c.push_back(c.data()[i]); } m.push_back(v); keep = true; need = n + 1; } break;
        case 7: case 8: { size_t a = R.below(n + 1), l = R.below(n - a + 1); op("append_own", id, a, l); x.fl |= ALIAS; flag(ALIAS); M v = m.substr(a, l); c.append(c.data() + a, l); m += v; keep = true; need = m.size(); break; }
        case 9: if (n) { op("pop_back", id); c.pop_back(); m.pop_back(); keep = true; } break;
        case 10: if (R.chance(1, 3)) { op("clear", id); c.clear(); m.clear(); keep = true; CHECK(tg(x, MODEL | CAP), c.capacity() >= cap, "capacity", "clear shrank the capacity"); } break;
        case 11: { size_t r = R.below(limit + 5); if (R.chance(1, 3)) r = cap + R.below(3); op("reserve", id, r); c.reserve(r); CHECK(tg(x, MODEL | CAP), c.capacity() >= r, "reserve", "capacity %zu after reserve(%zu)", c.capacity(), r); keep = true; need = r; break; }
        case 12: case 13: { op("assign", id, iy); x.fl |= COPY; y.fl |= COPY; flag(COPY); if (&x == &y) { x.fl |= ALIAS; flag(ALIAS); }
          C& r = (c = *y.c); CHECK(tg(x), &r == &c, "return", "assignment"); m = M(y.m); break; }
        case 14: { M v = rndz(limit); op("assign_cstr", id, v.size()); std::vector<Ch> z(v.begin(), v.end()); z.push_back(Ch()); c = z.data(); m = v; break; }
        case 15: { size_t a = R.below(n + 1); op("assign_own", id, a); x.fl |= ALIAS; flag(ALIAS); M v(m.c_str() + a); c = c.c_str() + a; m = v; break; }
        case 16: { M v = rnd(limit); op("ctor_n", id, v.size()); std::vector<Ch> exact(v.begin(), v.end()); repl(new C(exact.data(), exact.size()), v); break; }
        case 17: { M v = rndz(limit); op("ctor_cstr", id, v.size()); std::vector<Ch> z(v.begin(), v.end()); z.push_back(Ch()); repl(new C(z.data()), v); break; }
        case 18: { op("copy_construct", id, iy); x.fl |= COPY; y.fl |= COPY; flag(COPY); M v = y.m; repl(new C(*y.c), v); break; }
        case 19: { op("move", id, iy); x.fl |= COPY; y.fl |= COPY; flag(COPY); M v = y.m;
          if (&x != &y) { if (R.chance(1, 2)) repl(new C(std::move(*y.c)), v); else { *x.c = std::move(*y.c); x.m = v; }
            size_t q = y.c->size(); CHECK(tg(y), y.c->c_str()[q] == Ch(), "moved-from", "a moved-from string is not terminated"); y.m = rndz(9); *y.c = y.m.c_str(); } break; }
        case 20: { std::basic_string<Ch> v; { M t = rnd(limit); v.assign(t.begin(), t.end()); } size_t pos = 0; op("ctor_range", id, v.size());
          InIt<Ch> b{ &v, &pos, 0 }, e; repl(new C(b, e), M(v.begin(), v.end())); CHECK(tg(x), pos == v.size(), "range-read", "construction read %zu of %zu characters", pos, v.size()); break; }
        case 21: if (n) { size_t i = R.below(n); Ch q = ch(); op("write", id, i);
          switch (R.below(5)) { case 0: c[i] = q; break; case 1: *(c.begin() + i) = q; break; case 2: c.data()[i] = q; break; case 3: i = 0; c.front() = q; break; default: i = n - 1; c.back() = q; }
          m[i] = q; keep = true; } break;
        case 22: op("search", id, iy); search(x, y); break;
        default: op("compare", id, iy); compare(x, y); break;
      }
      if (keep && need <= cap) CHECK(tg(x, ADDR), c.data() == d, "relocated", "an operation that fits in capacity %zu (size %zu) moved the characters", cap, n);
      if (keep) CHECK(tg(x, MODEL | CAP | ADDR), c.capacity() >= cap, "capacity-shrank", "capacity went from %zu to %zu", cap, c.capacity());
      observe_all(S().ring[(S().nops - 1) % 4096].op);
    }
    while (!s.empty()) { size_t i = R.below(s.size()); op("destroy", i); delete s[i].c; s.erase(s.begin() + i); observe_all("destroying another string"); }
    all_gone("destroying all strings");
  }
};

// stream input range, stateful allocators, growth
void misc(long)
{
  { std::string v; size_t n = R.skew(300); for (size_t i = 0; i < n; i++) v += (char)R.next(); op("istreambuf", n);
    std::istringstream is(v); cest::string c{ std::istreambuf_iterator<char>(is), std::istreambuf_iterator<char>() };
    CHECK(MODEL, c.size() == n && !memcmp(c.data(), v.data(), n) && c.c_str()[n] == 0, "istreambuf", "string built from a stream of %zu has %zu", n, c.size()); }
  { using SA = cest::basic_string<char, std::char_traits<char>, MonAlloc<char>>;
    SA a(MonAlloc<char>(1)), b("hello", MonAlloc<char>(2)), c("abc", 2, MonAlloc<char>(3)); op("stateful");
    bool ids[4] = {}; for (auto& [p, bl] : A().out) if (bl.id < 4) ids[bl.id] = true;
    CHECK(ALLOC, ids[1] && ids[2] && ids[3] && !ids[0], "allocator-ignored", "a string given an allocator obtained storage elsewhere");
    CHECK(ALLOC, b.get_allocator().id == 2, "get_allocator", "get_allocator returns another allocator");
    SA* all[] = { &a, &b, &c };
    for (int i = 0; i < 40; i++) { SA& x = *all[R.below(3)]; SA& y = *all[R.below(3)];
      switch (R.below(5)) { case 0: x = y; break; case 1: x.append(y.data(), std::min<size_t>(y.size(), 40)); break; case 2: x.push_back('c'); break; case 3: x.clear(); break; default: { SA t(y); t.push_back('x'); x = t; } } }
  }
  all_gone("strings with stateful allocators");
  { cest::string s; size_t n = 1 + R.below(20000), re = 0; const char* d = s.data(); op("grow", n);
    for (size_t i = 0; i < n; i++) { size_t cp = s.capacity(), sz = s.size(); s.push_back((char)i); if (sz + 1 <= cp) CHECK(ADDR, s.data() == d, "relocated", "push_back at %zu of %zu moved the characters", sz, cp); if (s.data() != d) { d = s.data(); re++; } }
    double lg = 1; for (size_t x = n; x; x >>= 1) lg++;
    CHECK(MODEL | CAP, re <= 4 * lg + 20 && s.capacity() >= n, "growth", "%zu reallocations for %zu appended characters", re, n);
    for (size_t i = 0; i < n; i++) CHECK(MODEL, s[i] == (char)i, "order", "character %zu", i);
    CHECK(MODEL, s.c_str()[n] == 0, "terminator", "at %zu", n);
    CHECK(MODEL, cest::string::npos == std::string::npos, "npos", "npos"); }
}

template <class Ch, class Tr = std::char_traits<Ch>, class Al = std::allocator<Ch>> void go() { run_cases([](long i) { W<Ch, Tr, Al> w; w.run(i); }); }

int main(int argc, char** argv)
{
  init(argc, argv, "w_string");
  std::string c = S().config;
#ifndef PART
#define PART 0
#endif
#if PART == 0
  if (c == "char") go<char>();
  if (c == "charmon") go<char, std::char_traits<char>, MonAlloc<char>>();
  if (c == "ci") go<char, ci>();
  if (c == "rev") go<char, rev>();
  if (c == "misc") run_cases([](long i) { misc(i); });
#else
  if (c == "wchar") go<wchar_t>();
  if (c == "char8") go<char8_t>();
  if (c == "char16") go<char16_t>();
  if (c == "char32") go<char32_t, std::char_traits<char32_t>, MonAlloc<char32_t>>();
#endif
  return 3;
}
