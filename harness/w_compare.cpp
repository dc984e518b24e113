// Comparisons: every ordered pair (and triples for the laws) of a pool of values, against the
// standard counterparts: strings (strings and C strings, either order), vectors, pointers, iterators.
#include "cest/string.hpp"
#include "cest/vector.hpp"
#include "cest/memory.hpp"
#include "cest/deque.hpp"
#include "cest/list.hpp"
#include "cest/forward_list.hpp"
#include "cest/set.hpp"
#include "cest/map.hpp"
#include "elems.hpp"
#include <string>
#include <limits>
#include <cmath>
#include <functional>
#include <memory>
using namespace mon;

struct ci : std::char_traits<char> {
  static char up(char c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
  static bool eq(char a, char b) { return up(a) == up(b); }
  static bool lt(char a, char b) { return (unsigned char)up(a) < (unsigned char)up(b); }
  static int compare(const char* a, const char* b, size_t n)
  { for (; n--; ++a, ++b) { if (lt(*a, *b)) return -1; if (lt(*b, *a)) return 1; } return 0; }
  static const char* find(const char* s, size_t n, char a) { for (; n--; ++s) if (eq(*s, a)) return s; return nullptr; }
};
struct rev : std::char_traits<char> {
  static bool lt(char a, char b) { return (unsigned char)b < (unsigned char)a; }
  static int compare(const char* a, const char* b, size_t n)
  { for (; n--; ++a, ++b) if (*a != *b) return (unsigned char)*a < (unsigned char)*b ? 1000000 : -1000000; return 0; }
};

template <class M> std::string dump(const M& m)
{
  std::string r = "\""; char b[24];
  for (size_t i = 0; i < m.size() && i < 40; i++) { unsigned long c = (unsigned long)m[i] & 0xffffffff; if (c >= 32 && c < 127) r += (char)c; else { snprintf(b, sizeof b, "\\x%lx.", c); r += b; } }
  return r + "\"";
}

template <class Ch, class Tr> void strings(long cs)
{
  using C = cest::basic_string<Ch, Tr>; using M = std::basic_string<Ch, Tr>;
  std::vector<M> m; size_t N = 26;
  Ch al[5] = { (Ch)'a', (Ch)'b', (Ch)'A', Ch(), (Ch)-1 }; int na = 2 + (int)R.below(4);
  if (cs % 3 == 1) { al[0] = (Ch)127; al[1] = (Ch)128; al[2] = (Ch)255; }
  if (cs == 0) { // every string of length <= 2 over the alphabet: 31 values
    m.push_back(M()); for (int i = 0; i < 5; i++) { m.push_back(M(1, al[i])); for (int j = 0; j < 5; j++) m.push_back(M{ al[i], al[j] }); }
    N = m.size();
  }
  while (m.size() < N) {
    M x; size_t mode = R.below(5);
    if (mode == 0 && !m.empty()) { x = m[R.below(m.size())]; if (R.chance(1, 2)) x += al[R.below(na)]; else if (!x.empty()) x.resize(R.below(x.size() + 1)); }
    else if (mode == 1 && !m.empty()) { x = m[R.below(m.size())]; if (!x.empty()) x[R.below(x.size())] = (Ch)R.next(); }
    else if (mode == 2) { x = M(R.below(70) + 10, al[0]); x += al[R.below(na)]; }
    else { size_t n = R.below(7); for (size_t i = 0; i < n; i++) x += al[R.below(na)]; }
    m.push_back(x);
  }
  std::vector<C*> c;
  for (auto& x : m) {
    C* p = new C(x.data(), x.size());
    // the same value held in storage with a history
    if (R.chance(1, 3)) { p->push_back(al[0]); p->pop_back(); }
    if (R.chance(1, 3)) p->reserve(x.size() + R.below(50));
    if (R.chance(1, 4)) { C t(x.data(), x.size()); M q(200, (Ch)'q'); *p = C(q.data(), 200); *p = t; }
    c.push_back(p);
  }
  op("pool", (long)N, na);
  for (size_t i = 0; i < N; i++) for (size_t j = 0; j < N; j++) {
    const C &a = *c[i], &b = *c[j]; const M &x = m[i], &y = m[j];
    op("pair", (long)i, (long)j);
    bool e = a == b, ne = a != b, l = a < b;
    CHECK(CMP | MODEL, e == (x == y), "string==", "%s == %s is %d", dump(x).c_str(), dump(y).c_str(), e);
    CHECK(CMP | MODEL, ne == (x != y), "string!=", "%s != %s is %d", dump(x).c_str(), dump(y).c_str(), ne);
    CHECK(CMP | MODEL, l == (x < y), "string<", "%s < %s is %d", dump(x).c_str(), dump(y).c_str(), l);
    CHECK(CMP, !(l && (b < a)), "antisymmetry", "%s and %s are each less than the other", dump(x).c_str(), dump(y).c_str());
    CHECK(CMP, e == !(l || (b < a)), "trichotomy", "%s and %s", dump(x).c_str(), dump(y).c_str());
    int k = a.compare(b), kr = x.compare(y);
    CHECK(CMP | MODEL, (k > 0) - (k < 0) == (kr > 0) - (kr < 0), "compare", "compare(%s,%s) is %d", dump(x).c_str(), dump(y).c_str(), k);
    const Ch* q = y.c_str(); // as a C string: up to its first null
    CHECK(CMP | MODEL, (a == q) == (x == q) && (q == a) == (q == x), "cstring==", "%s with C string %s: %d %d", dump(x).c_str(), dump(y).c_str(), a == q, q == a);
    CHECK(CMP | MODEL, (a != q) == (x != q) && (q != a) == (q != x), "cstring!=", "%s with C string %s: %d %d", dump(x).c_str(), dump(y).c_str(), a != q, q != a);
    CHECK(CMP | MODEL, (a < q) == (x < q) && (q < a) == (q < x), "cstring<", "%s with C string %s: %d %d", dump(x).c_str(), dump(y).c_str(), a < q, q < a);
    int kc = a.compare(q), kcr = x.compare(q);
    CHECK(CMP | MODEL, (kc > 0) - (kc < 0) == (kcr > 0) - (kcr < 0), "cstring-compare", "compare(%s, C string %s) is %d", dump(x).c_str(), dump(y).c_str(), kc);
    state(hstr("s"), std::hash<std::string>()(dump(x)), std::hash<std::string>()(dump(y)));
  }
  count("string_pairs", N * N);
  for (int t = 0; t < 3000; t++) {
    const C &a = *c[R.below(N)], &b = *c[R.below(N)], &d = *c[R.below(N)];
    if (a < b && b < d) CHECK(CMP, a < d, "transitive", "string < is not transitive");
    if (a == b && b == d) CHECK(CMP, a == d, "eq-transitive", "string == is not transitive");
    if (a == b) CHECK(CMP, (a < d) == (b < d) && (d < a) == (d < b), "eq-order", "equal strings are ordered differently against a third");
  }
  // the buffers themselves, with themselves
  for (size_t i = 0; i < N; i++) {
    const C& a = *c[i];
    CHECK(CMP, a == a && !(a != a) && !(a < a) && a.compare(a) == 0, "reflexive", "%s compared with itself", dump(m[i]).c_str());
    CHECK(CMP, (a == a.c_str()) == (m[i] == m[i].c_str()) && (a < a.c_str()) == (m[i] < m[i].c_str()) && (a.c_str() < a) == (m[i].c_str() < m[i]), "own-buffer", "%s compared with its own buffer", dump(m[i]).c_str());
    // unchanged by having been compared
    CHECK(CMP, a.size() == m[i].size() && std::equal(m[i].begin(), m[i].end(), a.data(), [](Ch u, Ch v) { return u == v; }), "changed", "a string changed when it was compared");
  }
  for (auto p : c) delete p;
}

template <class E, class G> void vecs(const char* tn, G gen)
{
  size_t N = 22; std::vector<std::vector<E>> m; std::vector<cest::vector<E>*> c;
  for (size_t i = 0; i < N; i++) {
    std::vector<E> x; size_t mode = R.below(4);
    if (mode == 0 && i) { x = m[R.below(i)]; if (R.chance(1, 2)) x.push_back(gen()); else if (!x.empty()) x.pop_back(); }
    else if (mode == 1 && i) { x = m[R.below(i)]; if (!x.empty()) x[R.below(x.size())] = gen(); }
    else if (mode == 2) { size_t n = 16 + R.below(40); for (size_t k = 0; k < n; k++) x.push_back(gen()); }
    else { size_t n = R.below(4); for (size_t k = 0; k < n; k++) x.push_back(gen()); }
    m.push_back(x);
    auto* p = new cest::vector<E>(); if (R.chance(1, 2)) p->reserve(x.size() + R.below(40));
    for (auto& e : x) p->push_back(e);
    if (R.chance(1, 3)) { p->push_back(gen()); p->pop_back(); }
    c.push_back(p);
  }
  op(tn, (long)N);
  for (size_t i = 0; i < N; i++) for (size_t j = 0; j < N; j++) {
    const auto &a = *c[i], &b = *c[j];
    bool w = m[i] == m[j];
    CHECK(CMP | MODEL, (a == b) == w, "vector==", "vector<%s> of %zu elements == one of %zu: %d", tn, m[i].size(), m[j].size(), a == b);
    CHECK(CMP | MODEL, (a != b) == !w, "vector!=", "vector<%s> of %zu elements != one of %zu: %d", tn, m[i].size(), m[j].size(), a != b);
    CHECK(CMP, (a == b) == (b == a), "vector-sym", "vector == is not symmetric");
    state(hstr(tn), m[i].size(), m[j].size(), w);
  }
  count("vector_pairs", N * N);
  for (auto p : c) delete p;
}

// equality by value, ordering unavailable; counts calls with dead or foreign objects through the registry
struct Key { int k; int shade; friend bool operator==(const Key& a, const Key& b) { return a.k == b.k; } };

struct B0 { virtual ~B0() {} int x = 0; }; struct B1 { virtual ~B1() {} int y = 0; }; struct D : B0, B1 { int z = 0; };
void pointers()
{
  size_t N = 14; std::vector<cest::shared_ptr<int>*> s; std::vector<int*> raw;
  for (size_t i = 0; i < N; i++) {
    cest::shared_ptr<int>* p;
    switch (R.below(4)) {
      case 0: p = new cest::shared_ptr<int>(); raw.push_back(nullptr); break;
      case 1: if (i) { size_t k = R.below(i); p = new cest::shared_ptr<int>(*s[k]); raw.push_back(raw[k]); break; } [[fallthrough]];
      default: { int* q = new int((int)R.below(3)); p = new cest::shared_ptr<int>(q); raw.push_back(q); }
    }
    s.push_back(p);
  }
  std::less<int*> lt;
  for (size_t i = 0; i < N; i++) for (size_t j = 0; j < N; j++) {
    auto &a = *s[i], &b = *s[j]; int *x = raw[i], *y = raw[j]; op("sp", i, j);
    CHECK(CMP, (a == b) == (x == y), "shared==", "== of shared pointers at %p and %p", (void*)x, (void*)y);
    CHECK(CMP, (a != b) == (x != y), "shared!=", "!= of shared pointers at %p and %p", (void*)x, (void*)y);
    CHECK(CMP, (a < b) == lt(x, y), "shared<", "< of shared pointers at %p and %p", (void*)x, (void*)y);
    CHECK(CMP, (a > b) == lt(y, x), "shared>", "> of shared pointers at %p and %p", (void*)x, (void*)y);
    CHECK(CMP, (a <= b) == !lt(y, x), "shared<=", "<= of shared pointers at %p and %p", (void*)x, (void*)y);
    CHECK(CMP, (a >= b) == !lt(x, y), "shared>=", ">= of shared pointers at %p and %p", (void*)x, (void*)y);
    CHECK(CMP, bool(a) == (x != nullptr) && a.get() == x, "shared-bool", "state of a shared pointer at %p", (void*)x);
    state(1, x == y, lt(x, y), !x * 2 + !y);
  }
  for (auto p : s) delete p;
  std::vector<cest::unique_ptr<int>> u; std::vector<int*> ur;
  for (size_t i = 0; i < N; i++) { int* q = R.chance(1, 3) ? nullptr : new int((int)R.below(3)); u.emplace_back(q); ur.push_back(q); }
  for (size_t i = 0; i < N; i++) for (size_t j = 0; j < N; j++) {
    auto &a = u[i], &b = u[j]; int *x = ur[i], *y = ur[j]; op("up", i, j);
    CHECK(CMP, (a == b) == (x == y), "unique==", "== of unique pointers at %p and %p", (void*)x, (void*)y);
    CHECK(CMP, (a != b) == (x != y), "unique!=", "!= of unique pointers at %p and %p", (void*)x, (void*)y);
    CHECK(CMP, (a < b) == lt(x, y), "unique<", "< of unique pointers at %p and %p", (void*)x, (void*)y);
    CHECK(CMP, (a > b) == lt(y, x), "unique>", "> of unique pointers at %p and %p", (void*)x, (void*)y);
    CHECK(CMP, (a <= b) == !lt(y, x), "unique<=", "<= of unique pointers at %p and %p", (void*)x, (void*)y);
    CHECK(CMP, (a >= b) == !lt(x, y), "unique>=", ">= of unique pointers at %p and %p", (void*)x, (void*)y);
    state(2, x == y, lt(x, y), !x * 2 + !y);
  }
  count("pointer_pairs", 2 * N * N);
}

// position matrix of a container: iterators equal exactly when they designate the same position
template <class Cn> void positions(const char* tn, Cn& c, size_t n)
{
  using I = typename Cn::iterator; using K = typename Cn::const_iterator;
  std::vector<I> it; std::vector<K> ck; const Cn& kc = c;
  I x = c.begin(); for (size_t i = 0; i < n; i++) { it.push_back(x); ++x; } it.push_back(c.end());
  K y = kc.begin(); for (size_t i = 0; i < n; i++) { ck.push_back(y); y++; } ck.push_back(kc.end());
  CHECK(CMP, x == c.end() && y == kc.end(), "end", "%s: %zu steps from begin is not the end", tn, n);
  op(tn, (long)n);
  for (size_t i = 0; i <= n; i++) for (size_t j = 0; j <= n; j++) {
    bool w = i == j;
    CHECK(CMP, (it[i] == it[j]) == w && (it[i] != it[j]) == !w, "iter==", "%s: positions %zu and %zu of %zu", tn, i, j, n);
    CHECK(CMP, (ck[i] == ck[j]) == w && (ck[i] != ck[j]) == !w, "citer==", "%s const: positions %zu and %zu of %zu", tn, i, j, n);
    CHECK(CMP, ((K)it[i] == ck[j]) == w && (ck[j] != (K)it[i]) == !w, "mixed==", "%s mutable to const: positions %zu and %zu of %zu", tn, i, j, n);
    if constexpr (requires(I a, K b) { a == b; b == a; a != b; b != a; })
      CHECK(CMP, (it[i] == ck[j]) == w && (ck[j] == it[i]) == w && (it[i] != ck[j]) == !w && (ck[j] != it[i]) == !w, "mixed-direct==", "%s mutable and const: positions %zu and %zu of %zu", tn, i, j, n);
    if constexpr (requires(I a, I b) { a < b; b - a; }) {
      CHECK(CMP, (it[i] < it[j]) == (i < j) && (it[i] > it[j]) == (i > j) && (it[i] <= it[j]) == (i <= j) && (it[i] >= it[j]) == (i >= j), "iter<", "%s: order of positions %zu and %zu of %zu", tn, i, j, n);
      CHECK(CMP, (ck[i] < ck[j]) == (i < j) && (ck[i] > ck[j]) == (i > j) && (ck[i] <= ck[j]) == (i <= j) && (ck[i] >= ck[j]) == (i >= j), "citer<", "%s const: order of positions %zu and %zu of %zu", tn, i, j, n);
      CHECK(CMP, it[j] - it[i] == (long)j - (long)i && ck[j] - ck[i] == (long)j - (long)i, "iter-", "%s: distance of positions %zu and %zu of %zu", tn, i, j, n);
    }
    state(hstr(tn), n, i, j);
  }
  count("iterator_pairs", (n + 1) * (n + 1));
}
void iterators(long cs)
{
  size_t n = cs < 40 ? (size_t)cs : R.below(60);
  { cest::deque<int> d; size_t f = R.below(n + 1); for (size_t i = 0; i < f; i++) d.push_front((int)i); for (size_t i = f; i < n; i++) d.push_back((int)i);
    for (size_t k = R.below(40); k--;) { d.push_back(7); if (d.size() > n) d.pop_front(); } positions("deque", d, d.size()); }
  { cest::list<int> d; for (size_t i = 0; i < n; i++) if (R.chance(1, 2)) d.push_back(1); else d.push_front(1); positions("list", d, n); }
  { cest::forward_list<int> d; for (size_t i = 0; i < n; i++) d.push_front(1); positions("forward_list", d, n); }
  { cest::vector<int> d; for (size_t i = 0; i < n; i++) d.push_back(1); positions("vector", d, n); }
  { cest::string d; for (size_t i = 0; i < n; i++) d.push_back('a'); positions("string", d, n); }
  { cest::set<int> d; while (d.size() < n) d.insert((int)R.below(1000)); positions("set", d, n); }
  { cest::map<int, int> d; while (d.size() < n) d.insert({ (int)R.below(1000), 1 }); positions("map", d, n); }
}

int main(int argc, char** argv)
{
  init(argc, argv, "compare");
  std::string c = S().config;
  if (c == "char") run_cases([](long i) { strings<char, std::char_traits<char>>(i); });
  else if (c == "wchar") run_cases([](long i) { strings<wchar_t, std::char_traits<wchar_t>>(i); });
  else if (c == "char8") run_cases([](long i) { strings<char8_t, std::char_traits<char8_t>>(i); });
  else if (c == "char16") run_cases([](long i) { strings<char16_t, std::char_traits<char16_t>>(i); });
  else if (c == "char32") run_cases([](long i) { strings<char32_t, std::char_traits<char32_t>>(i); });
  else if (c == "ci") run_cases([](long i) { strings<char, ci>(i); });
  else if (c == "rev") run_cases([](long i) { strings<char, rev>(i); });
  else if (c == "vectors") run_cases([](long) {
    vecs<int>("int", [] { return (int)R.below(3); });
    vecs<double>("double", [] { static const double v[] = { 0.0, -0.0, 1.5, std::numeric_limits<double>::quiet_NaN(), INFINITY }; return v[R.below(5)]; });
    vecs<std::string>("string", [] { return std::string(R.below(30), 'x'); });
    vecs<Key>("key", [] { return Key{ (int)R.below(2), (int)R.below(9) }; });
    vecs<Trk>("tracked", [] { return El<Trk>::make((long)R.below(3)); });
    vecs<signed char>("schar", [] { return (signed char)(R.below(3) * 127); });
    vecs<std::vector<int>>("nested", [] { return std::vector<int>(R.below(3), (int)R.below(2)); });
    all_gone("vectors");
  });
  else if (c == "pointers") run_cases([](long) { pointers(); });
  else if (c == "iterators") run_cases([](long i) { iterators(i); });
  else return 3;
}
