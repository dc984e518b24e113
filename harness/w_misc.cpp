// n-ary swap against a rotation of the values; character classification against the C library.
#include "cest/swap.hpp"
#include "cest/cctype.hpp"
#include "cest/utility.hpp"
#include "elems.hpp"
#include <cctype>
#include <clocale>
#include <array>
#include <memory>
using namespace mon;

// when denied, no storage is to be had
static MON_TLS bool denied;
#ifndef MON_THREADS
void* operator new(size_t n) { if (!denied) if (void* p = malloc(n ? n : 1)) return p; throw std::bad_alloc(); }
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
#endif

template <class T, size_t... I> void call(std::vector<T>& v, bool rev, std::index_sequence<I...>) { if (rev) nary::swapr(v[I]...); else nary::swap(v[I]...); }
template <class T, size_t N> void swap_n(const char* tn)
{
  for (int round = 0; round < 3; round++) {
    bool rev = R.chance(1, 2); std::vector<T> v; std::vector<long> want; v.reserve(N);
    for (size_t i = 0; i < N; i++) { long x = R.chance(1, 4) ? 5 : next_val(); v.push_back(El<T>::make(x)); want.push_back(x); }
    unsigned long c0 = L().copies, b0 = L().live.size(); int reps = (int)R.below(4) + 1; op(rev ? "swapr" : "swap", N, reps);
    for (int k = 0; k < reps; k++) {
      call(v, rev, std::make_index_sequence<N>{});
      if (N > 1) { if (rev) std::rotate(want.rbegin(), want.rbegin() + 1, want.rend()); else std::rotate(want.begin(), want.begin() + 1, want.end()); }
      for (size_t i = 0; i < N; i++) CHECK(MODEL, El<T>::get(v[i]) == want[i], "rotation", "%s of %zu %s: position %zu holds %ld, expected %ld", rev ? "swapr" : "swap", N, tn, i, El<T>::get(v[i]), want[i]);
      CHECK(MODEL | LIFE, L().copies == c0, "copied", "%s of %zu %s made %lu copies", rev ? "swapr" : "swap", N, tn, L().copies - c0);
      CHECK(MODEL | LIFE, L().live.size() == b0, "objects", "%s of %zu %s: %zu objects alive, %zu before", rev ? "swapr" : "swap", N, tn, L().live.size(), (size_t)b0);
    }
    state(hstr(tn), N, rev, reps); count("rotations", reps);
  }
}
template <class T, size_t... I> void all_n(const char* tn, std::index_sequence<I...>) { (swap_n<T, I>(tn), ...); }
// moves that may throw: MC in construction, MA in assignment
static MON_TLS long th_left = -1, th_live; struct SwapFault {};
static void th_tick() { if (th_left > 0 && --th_left == 0) throw SwapFault(); }
template <bool MC, bool MA> struct Thr {
  long v; Thr(long x) : v(x) { th_live++; } Thr(Thr&& o) noexcept(!MC) : v(o.v) { if (MC) th_tick(); th_live++; } Thr& operator=(Thr&& o) noexcept(!MA) { if (MA) th_tick(); v = o.v; return *this; } ~Thr() { th_live--; }
};
template <bool MC, bool MA, size_t... I> void throwing(const char* nm, std::index_sequence<I...>)
{
  constexpr size_t N = sizeof...(I); using T = Thr<MC, MA>;
  for (int rev = 0; rev < 2; rev++) {
    { T x[N] = { T((long)I)... }; bool ne = rev ? noexcept(nary::swapr(x[I]...)) : noexcept(nary::swap(x[I]...)); CHECK(MODEL, !((MC || MA) && ne) || N < 2, "noexcept", "%s of %zu variables whose %s promises not to throw", rev ? "swapr" : "swap", N, nm); }
    for (long k = 1; k < 3 * (long)N + 4; k++) {
      { T x[N] = { T((long)I)... }; op("throwing_swap", N, k, rev); th_left = k; bool threw = false; try { if (rev) nary::swapr(x[I]...); else nary::swap(x[I]...); } catch (const SwapFault&) { threw = true; }
        bool fired = th_left == 0; th_left = -1; CHECK(MODEL | FATAL, threw == fired, "swallowed", "%s of %zu whose %s: the move's exception %s", rev ? "swapr" : "swap", N, nm, threw ? "arrived without having been thrown" : "did not reach the caller"); if (fired) count("throwing_moves");
        if (!fired) for (size_t i = 0; i < N; i++) CHECK(MODEL, x[i].v == (long)((i + (rev ? N - 1 : 1)) % N), "rotation", "%s of %zu throwing types: position %zu holds %ld", rev ? "swapr" : "swap", N, i, x[i].v); }
      CHECK(MODEL | LIFE, th_live == 0, "objects", "%s of %zu whose %s: %ld objects left", rev ? "swapr" : "swap", N, nm, th_live);
    }
  }
}
template <size_t N> void throwing_n()
{ throwing<true, false>("move construction may throw", std::make_index_sequence<N>{}); throwing<false, true>("move assignment may throw", std::make_index_sequence<N>{}); throwing<true, true>("moves may throw", std::make_index_sequence<N>{}); throwing<false, false>("moves do not throw", std::make_index_sequence<N>{}); }
struct Pod { int a; char b[12]; double d; };
static void swaps(long)
{
  using S13 = std::make_index_sequence<11>;
  all_n<long>("long", S13{}); all_n<Trk>("Trk", S13{}); all_n<TrkMove>("TrkMove", S13{}); all_n<Mo>("move-only", S13{}); all_n<std::string>("string", S13{}); all_n<Big>("Big", S13{}); all_n<Al64>("aligned", S13{});
  // values that live in unrelated places, and pointers
  { int a = 1, b = 2; int* pa = &a; int* pb = &b; int* pc = nullptr; nary::swap(pa, pb, pc); CHECK(MODEL, pa == &b && pb == nullptr && pc == &a, "pointers", "swap of three pointers"); nary::swapr(pa, pb, pc); CHECK(MODEL, pa == &a && pb == &b && pc == nullptr, "pointers", "swapr of three pointers"); nary::swap(pa, pb); CHECK(MODEL, pa == &b && pb == &a, "pointers", "swap of two pointers"); }
  { auto p = std::make_unique<int>(1); auto q = std::make_unique<int>(2); int* rp = p.get(); nary::swapr(p, q); CHECK(MODEL, q.get() == rp && *p == 2, "pointers", "swapr of two owners"); nary::swap(p); CHECK(MODEL, *p == 2, "one", "swap of one"); nary::swapr(q); CHECK(MODEL, *q == 1, "one", "swapr of one"); nary::swap(); nary::swapr(); }
  { Pod x[3] = { { 1, "one", .5 }, { 2, "two", 1.5 }, { 3, "three", 2.5 } }; nary::swap(x[0], x[1], x[2]); CHECK(MODEL, x[0].a == 2 && !strcmp(x[1].b, "three") && x[2].d == .5, "pod", "swap of three aggregates"); nary::swap(x[0], x[2]); CHECK(MODEL, x[0].a == 1 && !strcmp(x[2].b, "two"), "pod", "swap of two aggregates"); }
  { bool a = true, b = false, c = false; nary::swap(a, b, c); CHECK(MODEL, !a && !b && c, "bool", "swap of three flags"); nary::swapr(a, b, c); CHECK(MODEL, a && !b && !c, "bool", "swapr of three flags"); }
  throwing_n<2>(); throwing_n<3>(); throwing_n<4>(); throwing_n<6>();
  all_gone("the swaps");
}
static void one_char(long c)
{
  bool in = c >= -1 && c <= 255; bool wa = in && c >= 0 && ((c >= '0' && c <= '9') || (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z')), wu = in && c >= 'A' && c <= 'Z';
  CHECK(MODEL, (cest::isalnum((int)c) != 0) == wa, "isalnum", "isalnum(%ld) is %d", c, cest::isalnum((int)c)); CHECK(MODEL, (cest::isupper((int)c) != 0) == wu, "isupper", "isupper(%ld) is %d", c, cest::isupper((int)c));
}
static void chars(long i)
{
  static const char* locs[] = { "C", "POSIX", "C.UTF-8", "" }; const char* loc = locs[i % 4]; bool set = setlocale(LC_ALL, loc); op("locale", i % 4, set); op("codes"); op("others", i);
  setlocale(LC_ALL, "C"); for (int c = -1; c <= 255; c++) { CHECK(MODEL, (cest::isalnum(c) != 0) == (isalnum(c) != 0), "isalnum", "isalnum(%d) is %d, the C library's %d", c, cest::isalnum(c), isalnum(c)); CHECK(MODEL, (cest::isupper(c) != 0) == (isupper(c) != 0), "isupper", "isupper(%d) is %d, the C library's %d", c, cest::isupper(c), isupper(c)); state(c); }
  if (set) setlocale(LC_ALL, loc); for (int c = -1; c <= 255; c++) one_char(c); setlocale(LC_ALL, "C");
  long codes[] = { 'A', '0', 'z', 0, 255 }; for (int b = 8; b < 32; b++) for (long c : codes) for (int d = -1; d <= 1; d++) { one_char((int)((1u << b) + c + d)); one_char((int)(c + d - (1L << b))); one_char((int)(~0u << b | (unsigned)c)); }
  for (int c = -200 - 300 * (int)i; c < -1; c += 1 + (int)i) one_char(c); for (int c = 256; c < 1200; c++) one_char(c); for (int k = 0; k < 600; k++) one_char((int)R.next()); one_char(INT32_MAX); one_char(INT32_MIN); count("codes", 257); count("other_integers", 4000);
}
// the answer depends on the argument only: not on whether there is storage
static void starved(long i)
{
  op("starved", i); for (long k = 0; k < 400; k++) {
    int c = k < 258 ? (int)k - 1 : (int)R.next(), a = 0, u = 0; bool threw = false; denied = true; try { a = cest::isalnum(c); u = cest::isupper(c); } catch (const std::bad_alloc&) { threw = true; } denied = false;
    CHECK(MODEL, !threw, "needs-storage", "classifying %d throws when no storage is available", c); if (threw) return;
    CHECK(MODEL, (a != 0) == (c >= 0 && c <= 255 && (bool)::isalnum(c)) && (u != 0) == (c >= 0 && c <= 255 && (bool)::isupper(c)), "starved", "without storage, isalnum(%d) is %d and isupper %d", c, a, u); }
  count("starved_codes", 400); state(9, i);
}
// a slice of all integers: --scale is the slice of 64, cases the number of its 64 pieces
static void sweep(long i)
{
  uint64_t piece = 1ull << 20, from = ((uint64_t)S().scale * 64 + (uint64_t)i) * piece; op("sweep", (long)(from >> 20)); op("isalnum"); op("isupper");
  for (uint64_t k = from; k < from + piece; k++) { int c = (int)(uint32_t)k; bool wa = (c >= '0' && c <= '9') || (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z'), wu = c >= 'A' && c <= 'Z'; if ((cest::isalnum(c) != 0) != wa) CHECK(MODEL, false, "isalnum", "isalnum(%d) is %d", c, cest::isalnum(c)); if ((cest::isupper(c) != 0) != wu) CHECK(MODEL, false, "isupper", "isupper(%d) is %d", c, cest::isupper(c)); }
  S().checks += 2 * piece; count("integers_swept", piece); state(from);
}
int main(int argc, char** argv)
{
  init(argc, argv, "w_misc"); std::string c = S().config;
  if (c == "swap") run_cases(swaps);
  if (c == "cctype") run_cases(chars);
  if (c == "starved") run_cases(starved);
  if (c == "sweep") run_cases(sweep);
  return 3;
}
