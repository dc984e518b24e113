// Every re-exported algorithm and numeric fold over every library container, in lockstep with the standard
// algorithm over the standard container: results, returned positions, contents and output sequences.
// Also iterator operations of each declared category, and insert iterators.
#include "cest/algorithm.hpp"
#include "cest/numeric.hpp"
#include "cest/iterator.hpp"
#include "cest/vector.hpp"
#include "cest/deque.hpp"
#include "cest/list.hpp"
#include "cest/forward_list.hpp"
#include "cest/set.hpp"
#include "cest/map.hpp"
#include "cest/string.hpp"
#include "mon.hpp"
#include <deque>
#include <forward_list>
#include <iterator>
#include <list>
#include <numeric>
#include <random>
using namespace mon;

template <class C> struct is_cest : std::true_type {};
template <class... T> struct is_cest<std::vector<T...>> : std::false_type {};
template <class... T> struct is_cest<std::deque<T...>> : std::false_type {};
template <class... T> struct is_cest<std::list<T...>> : std::false_type {};
template <class... T> struct is_cest<std::forward_list<T...>> : std::false_type {};
template <class... T> struct is_cest<std::set<T...>> : std::false_type {};
template <class... T> struct is_cest<std::map<T...>> : std::false_type {};
template <class... T> struct is_cest<std::basic_string<T...>> : std::false_type {};
template <class C, class T> using OutV = std::conditional_t<is_cest<C>::value, cest::vector<T>, std::vector<T>>;
template <class C, class T> using OutL = std::conditional_t<is_cest<C>::value, cest::list<T>, std::list<T>>;
template <class C, class T> using OutD = std::conditional_t<is_cest<C>::value, cest::deque<T>, std::deque<T>>;
template <class C, class T> using OutS = std::conditional_t<is_cest<C>::value, cest::set<T>, std::set<T>>;

template <class C> long length(C& c) { long n = 0; for (auto i = c.begin(); i != c.end(); ++i) n++; return n; }
template <class C, class I> long pos(C& c, I it) { long n = 0; auto i = c.begin(); for (; !(i == it); ++i) { if (i == c.end()) return -1; n++; } return n; }
template <class C> auto at(C& c, long n) { auto i = c.begin(); for (; n > 0; n--) ++i; return i; }
template <class E> long num(const E& e) { if constexpr (requires { e.first; }) return e.first * 1000L + e.second; else return (long)e; }
template <class C> void dump(C& c, std::vector<long>& r) { r.push_back(-4242); for (auto i = c.begin(); i != c.end(); ++i) r.push_back(num(*i)); }

struct Par { long n, k, k2, m, v, v2; uint64_t seed; }; // parameters of one call, the same on both sides
static MON_TLS Par P;
static void draw(long n) { P.n = n; P.k = R.below(n + 1); P.k2 = P.k + R.below(n - P.k + 1); P.m = 1 + R.below(4); P.v = R.below(9); P.v2 = R.below(9); P.seed = R.next(); }

static void judge(const char* name, const char* cont, const std::vector<long>& a, const std::vector<long>& b)
{
  if (a != b) {
    size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) i++;
    CHECK(MODEL | ITER, false, name, "%s over %s of %ld elements: item %zu of the outcome is %ld, standard %ld (%zu and %zu items)", name, cont, P.n, i, i < a.size() ? a[i] : -1, i < b.size() ? b[i] : -1, a.size(), b.size());
  }
  S().checks++; count("algorithm_runs");
}
#define RUN(name, ...) do { draw(nn); op(name, nn, P.k, P.v); std::vector<long> r1, r2; C x1 = makec(); ST y1 = makes(); \
    { namespace N = cest; auto f = [&](auto& c, std::vector<long>& r) { using CC = std::remove_cvref_t<decltype(c)>; [[maybe_unused]] typedef CC CC_; __VA_ARGS__ }; f(x1, r1); dump(x1, r1); } \
    { namespace N = std;  auto f = [&](auto& c, std::vector<long>& r) { using CC = std::remove_cvref_t<decltype(c)>; [[maybe_unused]] typedef CC CC_; __VA_ARGS__ }; f(y1, r2); dump(y1, r2); } \
    judge(name, cn, r1, r2); state(hstr(name), nn > 30 ? 30 : nn, P.k % 7); } while (0)
#define ALLC c.begin(), c.end()
#define OUT(o) OutV<CC, T> o

template <class T> struct Pred { long m, v; bool operator()(const T& e) const { return (num(e) % m + m) % m == v % m; } };

template <class C, class ST, class T> struct W {
  const char* cn; std::vector<T> src, other; long nn;
  template <class X> X fill(const std::vector<T>& v)
  {
    X x;
    if constexpr (requires { x.push_back(v[0]); }) for (auto& e : v) x.push_back(e);
    else if constexpr (requires { x.push_front(v[0]); }) for (size_t i = v.size(); i--;) x.push_front(v[i]);
    else for (auto& e : v) x.insert(e);
    return x;
  }
  C makec() { return fill<C>(src); }
  ST makes() { return fill<ST>(src); }
  void gen(bool sorted)
  {
    long n = R.below(10) == 0 ? R.below(1400) : R.skew(60); int range = R.chance(1, 2) ? 9 : 120; src.clear(); other.clear();
    for (long i = 0; i < n; i++) src.push_back((T)R.below(range)); for (long i = R.below(12); i--;) other.push_back((T)R.below(9));
    if (sorted) std::sort(src.begin(), src.end()), std::sort(other.begin(), other.end());
    C c = makec(); nn = length(c);
  }
  // ---- algorithms that only read, for forward iterators ----
  void reading()
  {
    Pred<T> p{ (long)(1 + R.below(5)), (long)R.below(5) };
    RUN("all_of", r.push_back(N::all_of(ALLC, p)); r.push_back(N::any_of(ALLC, p)); r.push_back(N::none_of(ALLC, p)););
    RUN("for_each", long s = 0; N::for_each(ALLC, [&](const T& e) { s = (s * 31 + num(e)) % 1000003; }); r.push_back(s););
    RUN("find", r.push_back(pos(c, N::find(ALLC, (T)P.v))););
    RUN("find_if", r.push_back(pos(c, N::find_if(ALLC, p))); r.push_back(pos(c, N::find_if_not(ALLC, p))););
    RUN("find_end", r.push_back(pos(c, N::find_end(ALLC, other.begin(), other.begin() + std::min<size_t>(other.size(), 2)))); r.push_back(pos(c, N::find_end(ALLC, at(c, P.k), at(c, P.k2)))););
    RUN("find_first_of", r.push_back(pos(c, N::find_first_of(ALLC, other.begin(), other.end()))););
    RUN("adjacent_find", r.push_back(pos(c, N::adjacent_find(ALLC))); r.push_back(pos(c, N::adjacent_find(ALLC, [](const T& a, const T& b) { return num(a) > num(b); }))););
    RUN("count", r.push_back(N::count(ALLC, (T)P.v)); r.push_back(N::count_if(ALLC, p)););
    RUN("mismatch", auto m = N::mismatch(ALLC, src.begin(), src.end()); r.push_back(pos(c, m.first)); r.push_back(m.second - src.begin()); auto q = N::mismatch(at(c, P.k), c.end(), c.begin(), c.end()); r.push_back(pos(c, q.first)); r.push_back(pos(c, q.second)););
    RUN("equal", r.push_back(N::equal(ALLC, src.begin(), src.end())); r.push_back(N::equal(ALLC, other.begin(), other.end())); r.push_back(N::equal(ALLC, c.begin())););
    RUN("search", r.push_back(pos(c, N::search(ALLC, at(c, P.k), at(c, P.k2)))); r.push_back(pos(c, N::search(ALLC, other.begin(), other.begin() + std::min<size_t>(2, other.size())))););
    RUN("search_n", r.push_back(pos(c, N::search_n(ALLC, P.m - 1, (T)P.v))););
    RUN("min_element", if (P.n) { r.push_back(pos(c, N::min_element(ALLC))); r.push_back(pos(c, N::max_element(ALLC))); auto mm = N::minmax_element(ALLC); r.push_back(pos(c, mm.first)); r.push_back(pos(c, mm.second)); });
    RUN("lexicographical_compare", r.push_back(N::lexicographical_compare(ALLC, other.begin(), other.end())); r.push_back(N::lexicographical_compare(other.begin(), other.end(), ALLC)); r.push_back(N::lexicographical_compare(ALLC, ALLC)););
    RUN("is_sorted", r.push_back(N::is_sorted(ALLC)); r.push_back(pos(c, N::is_sorted_until(ALLC))); r.push_back(N::is_partitioned(ALLC, p)););
    if (nn < 90) RUN("is_permutation", r.push_back(N::is_permutation(ALLC, src.rbegin(), src.rend())); r.push_back(N::is_permutation(ALLC, other.begin(), other.end())););
    RUN("copy", OUT(o); N::copy(ALLC, N::back_inserter(o)); N::copy_n(c.begin(), P.k, N::back_inserter(o)); N::copy_if(ALLC, N::back_inserter(o), p); dump(o, r););
    RUN("move", OUT(o); N::move(at(c, P.k), at(c, P.k2), N::back_inserter(o)); dump(o, r););
    RUN("remove_copy", OUT(o); N::remove_copy(ALLC, N::back_inserter(o), (T)P.v); N::remove_copy_if(ALLC, N::back_inserter(o), p); dump(o, r););
    RUN("replace_copy", OUT(o); N::replace_copy(ALLC, N::back_inserter(o), (T)P.v, (T)P.v2); N::replace_copy_if(ALLC, N::back_inserter(o), p, (T)P.v); dump(o, r););
    RUN("unique_copy", OUT(o); N::unique_copy(ALLC, N::back_inserter(o)); dump(o, r););
    RUN("rotate_copy", OUT(o); N::rotate_copy(c.begin(), at(c, P.k), c.end(), N::back_inserter(o)); dump(o, r););
    RUN("partition_copy", OUT(o); OUT(q); N::partition_copy(ALLC, N::back_inserter(o), N::back_inserter(q), p); dump(o, r); dump(q, r););
    RUN("transform", OUT(o); N::transform(ALLC, N::back_inserter(o), [](const T& e) { return (T)(e + 1); }); N::transform(at(c, P.k), at(c, P.k2), c.begin(), N::back_inserter(o), [](const T& a, const T& b) { return (T)((a + 2 * b) % 100); }); dump(o, r););
    RUN("partial_sort_copy", OUT(o); o.resize(P.k); auto e = N::partial_sort_copy(ALLC, o.begin(), o.end()); r.push_back(e - o.begin()); dump(o, r););
    // insert iterators into the other kinds
    RUN("inserters", { OutL<CC, T> l; N::copy(ALLC, N::back_inserter(l)); auto i = l.begin(); if (P.n) ++i; N::copy(ALLC, N::inserter(l, i)); dump(l, r); } { OutD<CC, T> d; N::copy(ALLC, N::back_inserter(d)); dump(d, r); } { OutS<CC, T> s; N::copy(ALLC, N::inserter(s, s.begin())); N::transform(ALLC, N::inserter(s, s.end()), [](const T& e) { return (T)(e / 2); }); dump(s, r); });
    // numeric folds
    RUN("accumulate", r.push_back(N::accumulate(ALLC, 5L)); r.push_back(N::accumulate(ALLC, 1L, [](long a, const T& e) { return (a * 3 + num(e)) % 1000003; })););
    RUN("reduce", r.push_back(N::reduce(ALLC, 7L)); r.push_back(N::reduce(ALLC, 7L, std::plus<long>())););
    RUN("inner_product", r.push_back(N::inner_product(ALLC, c.begin(), 3L)); r.push_back(N::transform_reduce(ALLC, c.begin(), 4L)); r.push_back(N::transform_reduce(ALLC, 0L, std::plus<long>(), [](const T& e) { return num(e) * 2; })););
    RUN("scans", OutV<CC, long> o; N::partial_sum(ALLC, N::back_inserter(o)); N::exclusive_scan(ALLC, N::back_inserter(o), 3L); N::inclusive_scan(ALLC, N::back_inserter(o)); N::transform_exclusive_scan(ALLC, N::back_inserter(o), 1L, std::plus<long>(), [](const T& e) { return num(e) + 1; }); N::transform_inclusive_scan(ALLC, N::back_inserter(o), std::plus<long>(), [](const T& e) { return num(e) + 1; }); N::adjacent_difference(ALLC, N::back_inserter(o)); dump(o, r););
    RUN("minmax", r.push_back(num(N::min((T)P.v, (T)P.v2))); r.push_back(num(N::max((T)P.v, (T)P.v2))); auto mm = N::minmax((long)P.v, (long)P.v2); (void)mm;);
    // over constant access
    RUN("const access", const CC& k = c; r.push_back(N::accumulate(k.begin(), k.end(), 0L)); r.push_back(N::count_if(c.cbegin(), c.cend(), p)); OUT(o); N::copy(c.cbegin(), c.cend(), N::back_inserter(o)); dump(o, r););
    if constexpr (requires(typename C::iterator i) { --i; }) backward_reading();
  }
  void backward_reading()
  {
    RUN("reverse_copy", OUT(o); N::reverse_copy(ALLC, N::back_inserter(o)); dump(o, r););
    RUN("reverse_iterator", OUT(o); std::reverse_iterator<typename CC::iterator> b(c.end()), e(c.begin()); N::copy(b, e, N::back_inserter(o)); dump(o, r););
    RUN("copy_backward_out", OUT(o); o.resize(P.n + 3); N::copy_backward(ALLC, o.end()); dump(o, r););
  }
  // ---- on sorted contents ----
  void ordered()
  {
    RUN("lower_bound", r.push_back(pos(c, N::lower_bound(ALLC, (T)P.v))); r.push_back(pos(c, N::upper_bound(ALLC, (T)P.v))); r.push_back(N::binary_search(ALLC, (T)P.v2)); auto q = N::equal_range(ALLC, (T)P.v); r.push_back(pos(c, q.first)); r.push_back(pos(c, q.second)););
    RUN("partition_point", r.push_back(pos(c, N::partition_point(ALLC, [](const T& e) { return num(e) < P.v; }))););
    RUN("includes", r.push_back(N::includes(ALLC, other.begin(), other.end())); r.push_back(N::includes(ALLC, at(c, P.k), at(c, P.k2))););
    RUN("merge", OUT(o); N::merge(ALLC, other.begin(), other.end(), N::back_inserter(o)); dump(o, r););
    RUN("set operations", OUT(o); N::set_union(ALLC, other.begin(), other.end(), N::back_inserter(o)); N::set_intersection(ALLC, other.begin(), other.end(), N::back_inserter(o)); N::set_difference(ALLC, other.begin(), other.end(), N::back_inserter(o)); N::set_symmetric_difference(ALLC, other.begin(), other.end(), N::back_inserter(o)); N::set_union(at(c, P.k), c.end(), c.begin(), at(c, P.k2), N::back_inserter(o)); dump(o, r););
  }
  // ---- algorithms that write ----
  void writing()
  {
    Pred<T> p{ (long)(1 + R.below(5)), (long)R.below(5) };
    RUN("for_each_write", N::for_each(ALLC, [](T& e) { e = (T)(e + 2); }););
    RUN("swap_ranges", long h = P.n / 2; r.push_back(pos(c, N::swap_ranges(c.begin(), at(c, h), at(c, P.n - h)))); if (P.n) N::iter_swap(c.begin(), at(c, P.n - 1)););
    RUN("transform_in_place", N::transform(ALLC, c.begin(), [](const T& e) { return (T)(e * 2 % 100); }););
    RUN("replace", N::replace(ALLC, (T)P.v, (T)P.v2); N::replace_if(ALLC, p, (T)1););
    RUN("fill", N::fill(at(c, P.k), at(c, P.k2), (T)P.v); r.push_back(pos(c, N::fill_n(c.begin(), P.k, (T)P.v2))););
    RUN("generate", int g = 0; N::generate(at(c, P.k), at(c, P.k2), [&] { return (T)(g++ % 90); }); N::generate_n(c.begin(), P.k, [&] { return (T)(g++ % 90); }););
    RUN("remove", r.push_back(pos(c, N::remove(ALLC, (T)P.v))); auto e = c.begin(); (void)e; N::fill(at(c, r.back()), c.end(), (T)0););
    RUN("remove_if", r.push_back(pos(c, N::remove_if(ALLC, p))); N::fill(at(c, r.back()), c.end(), (T)0););
    RUN("unique", r.push_back(pos(c, N::unique(ALLC))); N::fill(at(c, r.back()), c.end(), (T)0););
    RUN("rotate", r.push_back(pos(c, N::rotate(c.begin(), at(c, P.k), c.end()))););
    RUN("partition", r.push_back(pos(c, N::partition(ALLC, p))););
    RUN("iota", N::iota(at(c, P.k), c.end(), (T)3););
    RUN("partial_sum_in_place", N::partial_sum(ALLC, c.begin(), [](const T& a, const T& b) { return (T)((a + b) % 100); }););
    RUN("copy_within", N::copy(at(c, P.k), c.end(), c.begin()););
    if constexpr (requires(C c) { --c.begin(); }) {
      RUN("reverse", N::reverse(ALLC); N::reverse(at(c, P.k), at(c, P.k2)););
      RUN("stable_partition", r.push_back(pos(c, N::stable_partition(ALLC, p))););
      RUN("copy_backward", N::copy_backward(c.begin(), at(c, P.k), c.end()); N::move_backward(c.begin(), at(c, P.n - P.k), c.end()););
      RUN("permutations", r.push_back(N::next_permutation(ALLC)); r.push_back(N::next_permutation(ALLC)); r.push_back(N::prev_permutation(ALLC)););
      RUN("inplace_merge", std::vector<T> a(src.begin(), src.begin() + P.k), b(src.begin() + P.k, src.end()); std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); N::copy(b.begin(), b.end(), N::copy(a.begin(), a.end(), c.begin())); N::inplace_merge(c.begin(), at(c, P.k), c.end()););
    }
    if constexpr (requires(C c) { c.begin() + 1; }) {
      RUN("sort", N::sort(ALLC);); RUN("sort_part", N::sort(c.begin() + P.k, c.begin() + P.k2, [](const T& a, const T& b) { return num(b) < num(a); }););
      RUN("stable_sort", N::stable_sort(ALLC, [](const T& a, const T& b) { return num(a) / 4 < num(b) / 4; }););
      RUN("partial_sort", N::partial_sort(c.begin(), c.begin() + P.k, c.end()); N::sort(c.begin() + P.k, c.end()););
      RUN("nth_element", if (P.k < P.n) { N::nth_element(c.begin(), c.begin() + P.k, c.end()); r.push_back(num(c.begin()[P.k])); N::sort(ALLC); });
      RUN("heap", N::make_heap(ALLC); r.push_back(N::is_heap(ALLC)); if (P.n) { N::pop_heap(ALLC); r.push_back(num(*(c.end() - 1))); r.push_back(pos(c, N::is_heap_until(c.begin(), c.end() - 1))); N::push_heap(ALLC); } N::sort_heap(ALLC););
      RUN("shuffle", std::mt19937 g(P.seed); N::shuffle(ALLC, g););
    }
  }
  // ---- iterator operations ----
  static T& v0(C& c, long q) { return c[q]; }
  void iterators()
  {
    C c = makec(); const C& k = c; using I = typename C::iterator; using K = typename C::const_iterator; op("iterators", nn);
    std::vector<T> v; for (I i = c.begin(); i != c.end(); ++i) v.push_back(*i); long n = v.size();
    I i = c.begin(); K j = k.begin(); long walked = 0;
    for (long q = 0; q < n; q++, walked++) {
      CHECK(ITER | MODEL, num(*i) == num(v[q]) && num(*j) == num(v[q]) && &*i == &*j, "deref", "%s: position %ld", cn, q);
      CHECK(ITER | CMP, K(i) == j && j == K(i) && i == j && !(i != j) && j == i && !(j != i), "mixed-equal", "%s: iterators of both kinds at position %ld differ", cn, q);
      CHECK(ITER | CMP, (i == c.end()) == false && i != c.end() && j != k.end(), "not-end", "%s: position %ld compares equal to the end", cn, q);
      I copy = i; I post = i++; CHECK(ITER, post == copy && !(post == i) && post != i, "post-increment", "%s: post-increment at %ld", cn, q); I pre = copy; I& ref = ++pre; CHECK(ITER, &ref == &pre && pre == i, "pre-increment", "%s: pre-increment at %ld", cn, q);
      K kcopy = j; K kpost = j++; CHECK(ITER, kpost == kcopy && kpost != j, "post-increment", "%s: const post-increment at %ld", cn, q); K kpre = kcopy; K& kref = ++kpre; CHECK(ITER, &kref == &kpre && kpre == j, "pre-increment", "%s: const pre-increment at %ld", cn, q);
      if constexpr (requires { --i; }) {
        I d = i; I dp = d--; CHECK(ITER, dp == i && d == copy, "post-decrement", "%s: post-decrement at %ld", cn, q); I e = i; I& er = --e; CHECK(ITER, &er == &e && e == copy, "pre-decrement", "%s: pre-decrement at %ld", cn, q);
        K kd = j; K kdp = kd--; CHECK(ITER, kdp == j && kd == kcopy, "post-decrement", "%s: const post-decrement at %ld", cn, q); K ke = j; K& ker = --ke; CHECK(ITER, &ker == &ke && ke == kcopy, "pre-decrement", "%s: const pre-decrement at %ld", cn, q);
      }
      if constexpr (requires { i + 1; }) {
        I b = c.begin(), ie = c.end(); K kb = k.begin(), ke = k.end();
        CHECK(ITER, post - b == q && i - b == q + 1 && post + 1 == i && ie - post == n - q && &post[0] == &v0(c, q) && post < i && pre - b == q + 1, "post-increment", "%s: the positions that incrementing yields at %ld", cn, q);
        CHECK(ITER, kpost - kb == q && j - kb == q + 1 && kpost + 1 == j && ke - kpost == n - q && &kpost[0] == &v0(c, q) && kpost < j && kpre - kb == q + 1, "post-increment", "%s: the positions that incrementing a const iterator yields at %ld", cn, q);
        I d = i, od = d--; K kd = j, okd = kd--; I e = i; --e; K f = j; --f;
        CHECK(ITER, d - b == q && od - b == q + 1 && e - b == q && d + 1 == od && ie - od == n - q - 1 && &od[-1] == &v0(c, q) && kd - kb == q && okd - kb == q + 1 && f - kb == q && kd + 1 == okd && ke - okd == n - q - 1 && &okd[-1] == &v0(c, q), "post-decrement", "%s: the positions that decrementing yields at %ld", cn, q);
      }
      { K conv = copy; CHECK(ITER | CMP, conv == kcopy, "convert", "%s: conversion to a const iterator at %ld", cn, q); K asg; asg = copy; CHECK(ITER | CMP, asg == kcopy, "convert", "%s: assignment to a const iterator", cn); I sw = i, sw2 = copy; std::swap(sw, sw2); CHECK(ITER, sw == copy && sw2 == i, "swap", "%s: swapped iterators", cn); }
      if (walked > 400 && q < n - 3) {
        long left = n - q - 1; for (; left > 2; left--, q++) {
          I o = i++; K ko = j++; CHECK(ITER, o != i && ko != j && K(o) == ko, "post-increment", "%s: post-increment at %ld", cn, q + 1);
          if constexpr (requires { i + 1; }) CHECK(ITER, o - c.begin() == q + 1 && ko - k.begin() == q + 1 && o + 1 == i && ko + 1 == j && c.end() - o == n - q - 1 && k.end() - ko == n - q - 1, "post-increment", "%s: the positions that incrementing yields at %ld", cn, q + 1);
        }
      }
    }
    CHECK(ITER, i == c.end() && j == k.end() && K(i) == j, "end", "%s: %ld steps do not lead to the end", cn, n);
    CHECK(ITER, (n == 0) == (c.begin() == c.end()) && (n == 0) == (k.cbegin() == k.cend()), "end", "%s: begin and end of an empty range", cn);
    CHECK(ITER, std::distance(c.begin(), c.end()) == n && std::distance(k.begin(), k.end()) == n, "distance", "%s: distance is %ld, %ld elements", cn, (long)std::distance(c.begin(), c.end()), n);
    if (n) { long q = R.below(n); CHECK(ITER | MODEL, num(*std::next(c.begin(), q)) == num(v[q]), "next", "%s: next", cn); I t = c.begin(); std::advance(t, q); CHECK(ITER, K(t) == std::next(k.begin(), q), "advance", "%s: advance", cn); }
    if constexpr (requires { i + 1; }) random_access(c, v);
    // what the declared category promises must exist
    using cat = typename std::iterator_traits<I>::iterator_category; using kcat = typename std::iterator_traits<K>::iterator_category;
    constexpr bool fwd = std::forward_iterator<I> && std::forward_iterator<K>; CHECK(ITER, fwd, "category-forward", "%s: an iterator is no forward iterator", cn);
    constexpr bool bi = !std::is_base_of_v<std::bidirectional_iterator_tag, cat> || (std::bidirectional_iterator<I> && std::bidirectional_iterator<K>);
    CHECK(ITER, bi, "category-bidirectional", "%s: iterators declare bidirectional_iterator_tag without being bidirectional iterators", cn);
    constexpr bool ra = !std::is_base_of_v<std::random_access_iterator_tag, cat> || (std::random_access_iterator<I> && std::random_access_iterator<K>); CHECK(ITER, ra, "category-random", "%s: iterators declare random access without it", cn);
    CHECK(ITER, (std::is_same_v<cat, kcat>), "category-same", "%s: iterators of both kinds declare different categories", cn);
    static_assert(std::is_same_v<std::remove_cv_t<typename std::iterator_traits<I>::value_type>, std::remove_cv_t<typename C::value_type>>);
  }
  void random_access(C& c, const std::vector<T>& v)
  {
    const C& k = c; long n = v.size(); using I = typename C::iterator; using K = typename C::const_iterator; I b = c.begin(), e = c.end(); K kb = k.begin(), ke = k.end();
    CHECK(ITER, e - b == n && b - e == -n && ke - kb == n, "difference", "%s: end - begin is %ld, %ld elements", cn, (long)(e - b), n);
    for (int t = 0; t < 30; t++) {
      long p = R.below(n + 1), q = R.below(n + 1); I i = b + p; I j = q + b; K ki = kb + p, kj = q + kb;
      CHECK(ITER, i - b == p && e - i == n - p && j - i == q - p && i - j == p - q && kj - ki == q - p && b + (i - b) == i && i + (j - i) == j && j - (j - i) == i, "arithmetic", "%s: positions %ld and %ld of %ld", cn, p, q, n);
      CHECK(ITER, e - (n - p) == i && ke - (n - p) == ki, "minus", "%s: end minus %ld", cn, n - p);
      I s = i; I& sr = s += q - p; CHECK(ITER, &sr == &s && s == j, "plus-assign", "%s: %ld += %ld", cn, p, q - p); I& sm = s -= q - p; CHECK(ITER, &sm == &s && s == i, "minus-assign", "%s: %ld -= %ld", cn, q, q - p);
      K ks = ki; ks += q - p; CHECK(ITER, ks == kj, "plus-assign", "%s: const +=", cn); ks -= q - p; CHECK(ITER, ks == ki, "minus-assign", "%s: const -=", cn);
      CHECK(ITER | CMP, (i < j) == (p < q) && (i > j) == (p > q) && (i <= j) == (p <= q) && (i >= j) == (p >= q) && (i == j) == (p == q) && (i != j) == (p != q), "order", "%s: comparison of positions %ld and %ld", cn, p, q);
      CHECK(ITER | CMP, (ki < kj) == (p < q) && (ki > kj) == (p > q) && (ki <= kj) == (p <= q) && (ki >= kj) == (p >= q) && (ki == kj) == (p == q), "order", "%s: const comparison of positions %ld and %ld", cn, p, q);
      CHECK(ITER | CMP, (i == kj) == (p == q) && (ki != j) == (p != q) && (i < kj) == (p < q) && (ki <= j) == (p <= q), "order", "%s: mixed comparison of positions %ld and %ld", cn, p, q);
      if (n) { long x = R.below(n); CHECK(ITER | MODEL, num(b[x]) == num(v[x]) && num(kb[x]) == num(v[x]) && num(*(b + x)) == num(v[x]) && &b[x] == &c[x] && &i[x - p] == &c[x], "subscript", "%s: iterator subscript %ld from %ld", cn, x, p);
        I w = b + x; T old = *w; w[0] = (T)(old + 1); CHECK(ITER | MODEL, num(c[x]) == num((T)(old + 1)), "write", "%s: write through an iterator", cn); *w = old; }
      state(20, p > 40 ? 40 : p, q > 40 ? 40 : q);
    }
  }
  void run(long i, bool w)
  {
    gen(false); reading(); if constexpr (requires(C c) { *c.begin() = T(); }) if (w) writing(); iterators();
    gen(true); ordered(); if (i % 4 == 0) iterators();
  }
};
static void maps()
{
  cest::map<int, int> c; std::map<int, int> s; int n = R.skew(80); for (int i = 0; i < n; i++) { int k = R.below(100), v = R.below(9); c.insert(std::make_pair(k, v)); s.insert({ k, v }); }
  op("map", n); P.n = n; auto f = [](auto& c, std::vector<long>& r) { r.push_back(std::count_if(c.begin(), c.end(), [](auto& e) { return e.second > 4; })); r.push_back(std::accumulate(c.begin(), c.end(), 0L, [](long a, auto& e) { return (a * 7 + num(e)) % 1000003; })); r.push_back(std::distance(c.begin(), c.end())); r.push_back(pos(c, std::find_if(c.begin(), c.end(), [](auto& e) { return e.second == 3; }))); std::for_each(c.begin(), c.end(), [](auto& e) { e.second++; }); r.push_back(pos(c, std::max_element(c.begin(), c.end(), [](auto& a, auto& b) { return a.second < b.second; }))); dump(c, r); };
  std::vector<long> a, b; f(c, a); f(s, b); judge("map algorithms", "map", a, b);
  using I = cest::map<int, int>::iterator; using K = cest::map<int, int>::const_iterator; const auto& k = c; K j = k.begin(); long q = 0;
  for (I i = c.begin(); i != c.end(); q++) { CHECK(ITER | CMP, K(i) == j && i == j && &i->first == &j->first, "mixed-equal", "map iterators at %ld", q); I cp = i; I po = i++; CHECK(ITER, po == cp && po != i, "post-increment", "map: post-increment at %ld", q); K kc = j; K kp = j++; CHECK(ITER, kp == kc && kp != j && ++kc == j && ++cp == i, "post-increment", "map: const increment at %ld", q); }
  CHECK(ITER, j == k.end() && q == (long)s.size(), "end", "map: %ld steps", q);
  constexpr bool bi = !std::is_base_of_v<std::bidirectional_iterator_tag, std::iterator_traits<I>::iterator_category> || std::bidirectional_iterator<I>;
  CHECK(ITER, bi, "category-bidirectional", "map: iterators declare bidirectional_iterator_tag without being bidirectional iterators");
  if constexpr (bi) { auto e = c.end(); const auto& kc = c; auto ke = kc.end(); std::vector<long> back, fwd; dump(c, fwd); for (long n = s.size(); n--;) { auto o = e--; (void)o; --ke; CHECK(ITER, e == ke && ke == e, "mixed-equal", "map: stepping back"); back.push_back(num(*e)); } back.push_back(-4242); std::reverse(back.begin(), back.end()); CHECK(ITER | MODEL, back == fwd && e == c.begin() && ke == kc.begin(), "backward", "map of %zu: stepping back does not visit the elements in reverse", s.size()); }
}
template <class C, class ST, class T> void go(const char* n, bool w) { run_cases([=](long i) { W<C, ST, T> x; x.cn = n; x.run(i, w); }); }
int main(int argc, char** argv)
{
  init(argc, argv, "w_algo"); std::string c = S().config;
#ifndef PART
#define PART 0
#endif
#if PART == 0
  if (c == "vector") go<cest::vector<int>, std::vector<int>, int>("vector", true);
  if (c == "deque") go<cest::deque<int>, std::deque<int>, int>("deque", true);
#elif PART == 1
  if (c == "list") go<cest::list<int>, std::list<int>, int>("list", true);
  if (c == "flist") go<cest::forward_list<int>, std::forward_list<int>, int>("forward_list", true);
#else
  if (c == "string") go<cest::string, std::string, char>("string", true);
  if (c == "set") go<cest::set<int>, std::set<int>, int>("set", false);
  if (c == "map") run_cases([](long) { for (int i = 0; i < 5; i++) maps(); });
#endif
  return 3;
}
