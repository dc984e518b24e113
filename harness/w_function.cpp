// Function wrappers: a call ledger. Every stored target carries a tag and a private call counter; the model
// predicts which target a call must reach, with which state, which arguments, and what it returns.
#include "cest/functional.hpp"
#include "cest/vector.hpp"
#include "elems.hpp"
#include <functional>
using namespace mon;

static MON_TLS long calls_seen, last_tag, last_arg;   // written by the targets
static long hit(long tag, long arg) { calls_seen++; last_tag = tag; last_arg = arg; return tag; }

static long fptr1(long a) { hit(1, a); return a * 3 + 1; }
static long fptr2(long a) { hit(2, a); return a - 7; }
struct Counter {                               // keeps state; tracked, so that loss and double destruction show
  Trk t; long n = 0;
  explicit Counter(long tag) : t(tag) {}
  long operator()(long a) { n++; hit(t.v(), a); return t.v() * 1000 + n * 10 + a; }
};
struct ConstF { Trk t; explicit ConstF(long tag) : t(tag) {} long operator()(long a) const { hit(t.v(), a); return t.v() + a; } };
struct Both { Trk t; long n = 0; explicit Both(long tag) : t(tag) {}
  long operator()(long a) { n++; hit(t.v(), a); return t.v() + 2 * a + n; } long operator()(long a) const { return -1 - a; } };
struct BigF { long pad[40]; std::string s; long n = 0; explicit BigF(long tag) : s("heap text of some length " + std::to_string(tag)) { for (int i = 0; i < 40; i++) pad[i] = tag + i; }
  long operator()(long a) { for (int i = 0; i < 40; i++) if (pad[i] != pad[0] + i) return -5; n += pad[39] - pad[0]; hit(pad[0], a); return (long)s.size() + n + a; } };
struct Thrower { Trk t; long n = 0; explicit Thrower(long tag) : t(tag) {} long operator()(long a) { n++; hit(t.v(), a); if (a % 3 == 0) throw a; return n; } };

static MON_TLS long ret_seen;                   // what a target behind a void wrapper computed
static void vptr1(long a) { ret_seen = fptr1(a); }
static void vptr2(long a) { ret_seen = fptr2(a); }
template <class T> struct Silent { T t; Silent(const T& x) : t(x) {}   // the same target, returning nothing
  void operator()(long a) { ret_seen = -77; ret_seen = t(a); } void operator()(long a) const { ret_seen = -78; ret_seen = const_cast<T&>(t)(a); } };
template <class F> struct Nest { F f; Trk t; long n = 0; Nest(const F& g, long tag) : f(g), t(tag) {}
  auto operator()(long a) { n++; if constexpr (std::is_void_v<decltype(f(a))>) { f(a + 1); ret_seen = ret_seen * 2 + n; } else { long r = f(a + 1); return r * 2 + n; } } };

struct Tgt { int kind = 0; long tag = 0, n = 0; std::vector<Tgt> sub; // the model's copy of a target
  long call(long a, long& tg, long& ar, bool& thr)
  {
    n++; thr = false; tg = tag; ar = a;
    switch (kind) {
      case 1: tg = 1; return a * 3 + 1; case 2: tg = 2; return a - 7;
      case 3: return tag * 1000 + n * 10 + a; case 4: return tag + a; case 5: return tag + 2 * a + n;
      case 6: return (long)(std::string("heap text of some length ") + std::to_string(tag)).size() + n * 39 + a;
      case 7: thr = a % 3 == 0; return n; case 8: tg = 8; return tag * 7 + n + a;
      case 9: { long r = sub[0].call(a + 1, tg, ar, thr); return r * 2 + n; }
    }
    return 0;
  }
  long tracked() const { return (kind >= 3 && kind != 6 && kind != 8) + (sub.empty() ? 0 : sub[0].tracked()); }
};

// VD: the wrappers are void functions, their targets leave the result in ret_seen
template <bool VD> struct FW {
  using F = std::conditional_t<VD, cest::function<void(long)>, cest::function<long(long)>>;
  template <class T> static F* neu(T&& t) { if constexpr (VD) { const Silent<std::decay_t<T>> q(t); if (R.chance(1, 2)) return new F(q); Silent<std::decay_t<T>> p(t); return R.chance(1, 2) ? new F(p) : new F(std::move(p)); } else return new F(std::forward<T>(t)); }
  static F* ptr(int k, bool amp) { if constexpr (VD) return k == 1 ? (amp ? new F(&vptr1) : new F(vptr1)) : new F(vptr2); else return k == 1 ? (amp ? new F(&fptr1) : new F(fptr1)) : new F(fptr2); }
  static long ask(F& f, long a) { if constexpr (VD) { ret_seen = -99; f(a); return ret_seen; } else return f(a); }
  struct Slot { F* f; Tgt m; bool empty = false; };
  std::vector<Slot> s; cest::vector<F> vec; std::vector<Tgt> mv;
  F* make(Tgt& m)
  {
    long tag = next_val(); m = Tgt(); m.tag = tag; m.kind = R.range(1, 9); F* r = nullptr;
    switch (m.kind) {
      case 1: r = ptr(1, R.chance(1, 2)); break;
      case 2: r = ptr(2, false); break;
      case 3: { Counter c(tag); if (R.chance(1, 2)) c(5), m.n = 1; r = neu(c); long b = c.n; c(9); CHECK(MODEL, c.n == b + 1, "original", "the original callable is shared with the wrapper"); break; }
      case 4: { const ConstF c(tag); r = neu(c); break; }
      case 5: r = R.chance(1, 2) ? neu(Both(tag)) : [&] { const Both c(tag); return neu(c); }(); break;
      case 6: r = neu(BigF(tag)); break;
      case 7: r = neu(Thrower(tag)); break;
      case 8: r = neu([tag, n = 0L](long a) mutable { n++; hit(8, a); return tag * 7 + n + a; }); break;
      default: { // a wrapper stored inside another one's target
        Slot* y = &s[R.below(s.size())];
        if (s.empty() || y->empty || y->m.kind == 9) { m.kind = 2; r = ptr(2, false); break; }
        m.sub.push_back(y->m); Nest<F> n(*y->f, tag); r = new F(n); break; }
    }
    return r;
  }
  void call(F& f, Tgt& m, const char* w)
  {
    long a = R.range(-50, 50), tg, ar; bool thr, threw = false; long before = calls_seen, got = 0;
    long exp = m.call(a, tg, ar, thr);
    try { got = ask(f, a); } catch (long x) { threw = true; CHECK(MODEL, x == (m.kind == 9 ? a + 1 : a), "exception", "%s: another exception came out", w); }
    CHECK(MODEL, calls_seen == before + 1, "calls", "%s: one call reached %ld targets", w, calls_seen - before);
    CHECK(MODEL, last_tag == tg, "target", "%s: the call reached target %ld, expected %ld (kind %d)", w, last_tag, tg, m.kind);
    CHECK(MODEL, last_arg == ar, "argument", "%s: the target got argument %ld, expected %ld", w, last_arg, ar);
    CHECK(MODEL, threw == thr, "exception", "%s: exception %s", w, thr ? "lost" : "from nowhere");
    if (!thr) CHECK(MODEL, got == exp, "result", "%s: result %ld, expected %ld (kind %d, call %ld of this target)", w, got, exp, m.kind, m.n);
    count("calls"); state(m.kind, m.n, m.sub.size() ? m.sub[0].kind : 0);
  }
  void live(const char* w) { size_t n = 0; for (auto& x : s) if (!x.empty) n += x.m.tracked(); for (auto& m : mv) n += m.tracked(); live_is(n, w); }
  void run(long)
  {
    for (int i = 0; i < 5; i++) { Tgt m; m.kind = 1; s.push_back({ ptr(1, false), m }); }
    for (int st = R.range(15, 120); st--;) {
      Slot& x = s[R.below(s.size())]; Slot& y = R.chance(1, 5) ? x : s[R.below(s.size())];
      switch (R.below(11)) {
        case 0: case 1: { op("new"); Tgt m; F* f = make(m); if (R.chance(1, 2)) { *x.f = *f; Tgt m2 = m; if (R.chance(1, 2)) call(*f, m2, "source after assignment"); delete f; } else { delete x.f; x.f = f; } x.m = m; x.empty = false; break; }
        case 2: op("copy_assign", x.m.kind, y.m.kind, &x == &y); { F& r = *x.f = *y.f; CHECK(MODEL, &r == x.f, "result", "assignment returns another object"); } { Tgt t = y.m; bool e = y.empty; x.m = t; x.empty = e; } break;
        case 3: { op("copy_construct", x.m.kind, y.m.kind); F* t = new F(*y.f); Tgt m = y.m; bool e = y.empty; delete x.f; x = { t, m, e }; break; }
        case 4: op("move_assign", x.m.kind, y.m.kind, &x == &y); *x.f = std::move(*y.f); if (&x != &y) { x.m = y.m; x.empty = y.empty; y.empty = true; } break;
        case 5: { op("move_construct"); if (&x == &y) break; F* t = new F(std::move(*y.f)); Tgt m = y.m; bool e = y.empty; y.empty = true; delete x.f; x = { t, m, e }; break; }
        case 6: op("vec"); switch (R.below(3)) {
            case 0: if (!x.empty) { vec.push_back(*x.f); mv.push_back(x.m); } break;
            case 1: if (vec.size()) { vec.pop_back(); mv.pop_back(); } break;
            default: if (vec.size()) { size_t i = R.below(vec.size()); call(vec[i], mv[i], "wrapper in a vector"); } } break;
        case 7: { op("by_value"); if (x.empty) break; auto g = [](F f, long a) { return ask(f, a); }; long tg, ar; bool thr; Tgt m = x.m; long e = m.call(4, tg, ar, thr); if (thr) break; long got = 0; try { got = g(*x.f, 4); } catch (long) { break; } CHECK(MODEL, got == e, "by-value", "a wrapper passed by value gave %ld, expected %ld", got, e); break; }
        case 8: if (x.empty) { op("refill"); Tgt m; F* f = make(m); *x.f = std::move(*f); delete f; x.m = m; x.empty = false; } break;
        default: op("call", x.m.kind); if (!x.empty) for (int k = R.range(1, 4); k--;) call(*x.f, x.m, "call");
      }
      live("after");
      if (R.chance(1, 3)) for (auto& z : s) if (!z.empty) call(*z.f, z.m, "sweep");
    }
    while (!s.empty()) { size_t i = R.below(s.size()); if (!s[i].empty) call(*s[i].f, s[i].m, "teardown"); delete s[i].f; s.erase(s.begin() + i); live("destroying a wrapper"); }
    vec.clear(); mv.clear(); all_gone("destroying all wrappers");
  }
};

// ---- arguments and results: what a target receives, compared with a standard wrapper around the same target
struct Arg {
  static inline MON_TLS long copies, moves; long v; long* h;
  Arg(long x) : v(x), h(new long(x)) {} Arg(const Arg& o) : v(o.v), h(new long(*o.h)) { copies++; } Arg(Arg&& o) noexcept : v(o.v), h(o.h) { o.h = nullptr; o.v = -1; moves++; }
  Arg& operator=(Arg o) { std::swap(v, o.v); std::swap(h, o.h); return *this; } ~Arg() { delete h; }
};
struct Qual { // which of its call operators is chosen: that of a modifiable lvalue, every time
  long n = 0, spent = 0; std::string s = "a text that lives on the heap, surely";
  long operator()(long a) & { n++; return spent ? -1 : (long)s.size() + n + a; }
  long operator()(long a) const & { return -2 - a; }
  long operator()(long a) && { std::string t(std::move(s)); s.clear(); spent = 1; return (long)t.size() + 1000 + a; }
  long operator()(long a) const && { return -3 - a; } };
struct VQual { long* to; long n = 0; void operator()(long a) & { *to = ++n + a; } void operator()(long) const & { *to = -2; } void operator()(long) && { *to = -3; n = 500; } };
struct Conv { long v; Conv(long x) : v(x) {} operator double() const { return v / 2.0; } };
static void args(long)
{
  long k = R.range(-100000, 100000); op("args", k);
  { op("qualified"); cest::function<long(long)> f{ Qual() }, g(f); for (int i = 1, n = R.range(2, 6); i <= n; i++) { long r = f(k); CHECK(MODEL, r == 37 + i + k, "qualifier", "call %d of the stored target: %ld, expected %ld", i, r, 37 + i + k); }
    CHECK(MODEL, g(k) == 38 + k, "qualifier", "a copy made before the calls"); cest::function<long(long)> h(f); f = g; CHECK(MODEL, f(0) == 39 && h(0) > 38, "qualifier", "after assignment");
    long to = -9; cest::function<void(long)> v{ VQual{ &to } }; for (int i = 1; i < 4; i++) { v(k); CHECK(MODEL, to == i + k, "qualifier", "call %d of a void target: %ld, expected %ld", i, to, i + k); } }
  { op("conversions", k % 128); // of arguments to the declared and then to the target's parameters; and of results
    cest::function<double(int)> f([](long a) { return Conv(a); }); CHECK(MODEL, f((int)k) == k / 2.0, "conversion", "a converted result"); cest::function<long(double)> g([](Conv c) { return c.v; }); CHECK(MODEL, g(k + 0.25) == (long)(k + 0.25), "conversion", "a converted argument: %ld", g(k + 0.25));
    cest::function<std::string(const char*)> h([](const std::string& s) { return s.c_str() + 1; }); CHECK(MODEL, h("xyz") == "yz", "conversion", "a text"); cest::function<void(signed char)> w([&](int c) { CHECK(MODEL, c == (signed char)k, "conversion", "narrowed to %d", c); return 7; }); w((signed char)k);
    cest::function<unsigned char(int)> u([](int a) { return a; }); CHECK(MODEL, u((int)k) == (unsigned char)k, "conversion", "narrowed result %d", (int)u((int)k)); bool b = k & 1; cest::function<bool(long)> e([](long a) { return a & 1; }); CHECK(MODEL, e(k) == b, "conversion", "a truth value"); }
  { op("many", k); long a[10]; for (auto& x : a) x = R.range(-999, 999); long seen[10] = {}; cest::function<long(long, long&, const long&, short, char, unsigned long, float, double, long*, bool)> f([&](long p, long& q, const long& r, short s, char t, unsigned long u, float v, double w, long* x, bool y) {
      long z[10] = { p, q, r, s, t, (long)u, (long)v, (long)w, *x, y }; for (int i = 0; i < 10; i++) seen[i] = z[i]; q++; return p - r; });
    long q = a[1]; long r = f(a[0], q, a[2], (short)a[3], (char)a[4], (unsigned long)a[5], (float)a[6], (double)a[7], &a[8], a[9] & 1);
    long e[10] = { a[0], a[1], a[2], (short)a[3], (char)a[4], a[5], a[6], a[7], a[8], a[9] & 1 }; for (int i = 0; i < 10; i++) CHECK(MODEL, seen[i] == e[i], "arguments", "argument %d of ten: %ld, expected %ld", i, seen[i], e[i]); CHECK(MODEL, q == a[1] + 1 && r == a[0] - a[2], "arguments", "ten arguments: result %ld", r); }
  { cest::function<long(Arg)> f([](Arg a) { return a.h ? *a.h + a.v : -1; }); std::function<long(Arg)> g([](Arg a) { return a.h ? *a.h + a.v : -1; });
    auto both = [&](auto call, const char* w) { Arg::copies = 0; long r1 = call(f); long c1 = Arg::copies; Arg::copies = 0; long r2 = call(g); long c2 = Arg::copies;
      CHECK(MODEL, r1 == r2, "argument", "%s: result %ld, expected %ld", w, r1, r2); CHECK(MODEL, c1 <= c2, "copies", "%s: the argument was copied %ld times, %ld expected", w, c1, c2); };
    both([&](auto& h) { Arg a(k); long r = h(a); return r + (a.h ? 0 : 1000000); }, "lvalue to a value parameter");
    both([&](auto& h) { return h(Arg(k)); }, "temporary to a value parameter");
    both([&](auto& h) { Arg a(k); long r = h(std::move(a)); return r + (a.h ? 1000000 : 0); }, "moved argument"); }
  { cest::function<Arg(Arg)> f([](Arg a) { a.v++; return a; }); Arg::copies = 0; Arg r = f(f(Arg(k))); CHECK(MODEL, r.v == k + 2 && r.h && *r.h == k && Arg::copies == 0, "result-move", "value through two calls: %ld, %ld copies", r.v, Arg::copies); }
  { long x = k; cest::function<void(long&)> f([](long& a) { a += 5; }); f(x); f(x); CHECK(MODEL, x == k + 10, "reference", "a reference argument was not the caller's object: %ld", x); }
  { const Arg a(k); const Arg* seen = nullptr; cest::function<long(const Arg&)> f([&](const Arg& b) { seen = &b; return b.v; }); Arg::copies = 0; CHECK(MODEL, f(a) == k && seen == &a && Arg::copies == 0, "const-reference", "a const reference argument was copied"); }
  { Arg a(k); cest::function<long(Arg&&)> f([](Arg&& b) { Arg c(std::move(b)); return c.v; }); Arg::copies = 0; CHECK(MODEL, f(std::move(a)) == k && !a.h && Arg::copies == 0, "rvalue-reference", "an rvalue reference argument was copied"); }
  { Arg a(k); cest::function<long(Arg&&)> f([](Arg&& b) { return b.v; }); CHECK(MODEL, f(std::move(a)) == k && a.h, "rvalue-reference", "an argument the target did not take was moved from"); }
  { cest::function<long(Mo)> f([](Mo m) { return *m.p; }); CHECK(MODEL, f(Mo(k)) == k, "move-only", "a move-only argument"); Mo m(k + 1); CHECK(MODEL, f(std::move(m)) == k + 1 && !m.p, "move-only", "a move-only argument was not moved"); }
  { cest::function<Mo(Mo, long)> f([](Mo m, long d) { *m.p += d; return m; }); Mo r = f(Mo(k), 3); CHECK(MODEL, *r.p == k + 3, "move-only", "a move-only result"); }
  { long arr[3] = { k, k + 1, k + 2 }; cest::function<long&(int)> f([&](int i) -> long& { return arr[i]; }); f(1) = 9; CHECK(MODEL, arr[1] == 9 && &f(2) == &arr[2], "reference-result", "a reference result designates another object"); }
  { long a = k % 1000, b = R.range(-9, 9); char c = (char)R.below(128); double d = R.range(-99, 99) / 4.0; std::string s(R.below(40), 'q'), t;
    auto body = [&](long p, long q, char r, double u, std::string v, const std::string& w, long* z) { *z += 1; return std::to_string(p) + ";" + std::to_string(q) + ";" + r + ";" + std::to_string(u) + ";" + v + ";" + w; };
    long z1 = 0, z2 = 0; cest::function<std::string(long, long, char, double, std::string, const std::string&, long*)> f(body); std::string w = "w" + s;
    CHECK(MODEL, f(a, b, c, d, s, w, &z1) == body(a, b, c, d, s, w, &z2) && z1 == 1, "arguments", "arguments in another order or changed"); CHECK(MODEL, s.size() == w.size() - 1, "arguments", "a caller's argument changed"); }
  { long n = 0; cest::function<void()> f([&] { n++; }); f(); f(); cest::function<void()> g(f); g(); CHECK(MODEL, n == 3, "no-arguments", "%ld calls arrived, 3 were made", n);
    cest::function<void(std::string, Mo)> h([&](std::string s, Mo m) { n += s.size() + *m.p; }); h(std::string(30, 'x'), Mo(k)); CHECK(MODEL, n == 33 + k, "void-arguments", "arguments of a void wrapper"); }
  { cest::function f(fptr1); CHECK(MODEL, f(k) == k * 3 + 1, "deduced", "a deduced wrapper"); }
  { // recursion: a target that calls its own wrapper
    cest::function<long(long)>* self = nullptr; cest::function<long(long)> f([&self](long n) -> long { return n <= 1 ? 1 : n + (*self)(n - 1); }); self = &f; long n = 1 + R.below(60); CHECK(MODEL, f(n) == n * (n + 1) / 2, "recursion", "recursive call through the wrapper"); }
  { // reassignment to another kind of target, and from itself called
    cest::function<std::string(long)> f([](long a) { return std::to_string(a); }), g([](long a) { return "g" + std::to_string(a); }); auto h = f; f = g; g = h; CHECK(MODEL, f(k) == "g" + std::to_string(k) && g(k) == std::to_string(k), "exchange", "exchanged wrappers"); }
  state(k);
}

// targets of every size and alignment: each keeps a pattern it can check, knows its own address, and counts its calls
template <size_t N, size_t A, bool VD> struct alignas(A) alignas(8) Sized {
  static constexpr bool tracked = true; unsigned char pad[N]; Trk t; long n = 0;
  explicit Sized(long tag) : t(tag) { for (size_t i = 0; i < N; i++) pad[i] = (unsigned char)(tag + i * 7); }
  auto operator()(long a) { long tag = t.v(); n++; long r = tag + 3 * n + a; if ((uintptr_t)this % A) r = -1; for (size_t i = 0; i < N; i++) if (pad[i] != (unsigned char)(tag + i * 7 + n - 1)) r = -2; else pad[i]++; if constexpr (VD) ret_seen = r; else return r; } };
template <size_t N, size_t A, bool VD> struct Plain {   // a target that is nothing but N bytes, trivially copied
  static constexpr bool tracked = false; alignas(A) unsigned char pad[N];
  explicit Plain(long tag) { for (size_t i = 0; i < N; i++) pad[i] = (unsigned char)(tag + i * 7); }
  auto operator()(long a) { long r = (unsigned char)(pad[0] += 3) + a; if ((uintptr_t)this % A) r = -1; for (size_t i = 1; i < N; i++) if ((pad[i] += 3) != (unsigned char)(pad[0] + i * 7)) r = -2; if constexpr (VD) ret_seen = r; else return r; } };
template <class T, bool VD> static void sized_run(size_t N, size_t A)
{
  op("target of size, alignment", N * 1000 + A);
  using F = std::conditional_t<VD, cest::function<void(long)>, cest::function<long(long)>>; long live = L().live.size();
  auto ask = [](F& f, long a) { if constexpr (VD) { ret_seen = -99; f(a); return ret_seen; } else return f(a); };
  { long tag = R.range(1, 60); T orig(tag); struct Held { F f; long n; long tag; bool empty = false; }; std::vector<std::unique_ptr<Held>> v; v.push_back(std::unique_ptr<Held>(new Held{ F(orig), 0, tag }));
    for (int i = 0; i < 14; i++) { size_t k = R.below(v.size()); Held& h = *v[k]; long a = R.range(-50, 50);
      switch (R.below(7)) {
        case 0: case 1: if (!h.empty) { h.n++; long r = ask(h.f, a); CHECK(MODEL, r == h.tag + 3 * h.n + a, "sized", "a target of %zu bytes aligned to %zu: %ld, expected %ld", sizeof(T), A, r, h.tag + 3 * h.n + a); } break;
        case 2: v.push_back(std::unique_ptr<Held>(new Held{ F((const F&)h.f), h.n, h.tag, h.empty })); break;
        case 3: if (!h.empty) { v.push_back(std::unique_ptr<Held>(new Held{ F(std::move(h.f)), h.n, h.tag })); h.empty = true; } break;
        case 4: { Held& o = *v[R.below(v.size())]; o.f = h.f; o.n = h.n; o.tag = h.tag; o.empty = h.empty; } break;
        case 5: { long t2 = R.range(1, 60); h.f = F(T(t2)); h.n = 0; h.tag = t2; h.empty = false; } break;
        default: if (v.size() > 1) v.erase(v.begin() + k); }
      long full = 0; for (auto& x : v) full += !x->empty; CHECK(LIFE, (long)L().live.size() == live + (T::tracked ? 1 + full : 0), "sized", "%ld targets of %zu bytes alive, expected %ld", (long)L().live.size() - live - 1, sizeof(T), full); }
    { T o2(tag); CHECK(MODEL, !memcmp(orig.pad, o2.pad, sizeof o2.pad), "sized", "the original was called"); } }
  CHECK(LIFE, (long)L().live.size() == live, "sized", "targets of %zu bytes left", N); count("targets"); state(N * 256 + A);
}
template <size_t N, size_t A, bool VD> static void sized() { sized_run<Sized<N, A, VD>, VD>(N, A); }
template <bool VD, size_t A, size_t B, size_t S, size_t... I> static void plain_from(std::index_sequence<I...>) { (sized_run<Plain<B + S * I, A, VD>, VD>(B + S * I, A), ...); }
static void sizes(long i)
{
  switch (i % 8) {
    case 0: plain_from<false, 1, 1, 1>(std::make_index_sequence<34>{}); break; case 1: plain_from<true, 1, 1, 3>(std::make_index_sequence<24>{}); break;
    case 2: plain_from<false, 8, 40, 8>(std::make_index_sequence<28>{}); break; case 3: plain_from<false, 1, 510, 1>(std::make_index_sequence<4>{}); plain_from<true, 16, 1024, 1008>(std::make_index_sequence<4>{}); plain_from<false, 64, 64, 64>(std::make_index_sequence<6>{}); break;
    case 4: sized<1, 16, false>(); sized<1, 32, false>(); sized<1, 64, true>(); sized<1, 128, false>(); sized<200, 64, false>(); sized<1, 256, true>(); break;
    case 5: sized<1, 1, false>(); sized<9, 1, false>(); sized<17, 1, false>(); sized<25, 1, true>(); sized<33, 1, false>(); sized<41, 1, false>(); sized<49, 1, true>(); sized<57, 1, false>(); break;
    case 6: sized<65, 1, false>(); sized<73, 1, false>(); sized<97, 1, true>(); sized<105, 1, false>(); sized<113, 1, false>(); sized<121, 1, false>(); sized<249, 1, true>(); break;
    default: sized<300, 1, false>(); sized<500, 1, true>(); sized<1000, 1, false>(); sized<4096, 1, true>(); sized<20000, 1, false>(); }
}

int main(int argc, char** argv)
{
  init(argc, argv, "w_function");
  std::string c = S().config;
  if (c == "ledger") run_cases([](long i) { FW<false> w; w.run(i); });
  if (c == "ledgervoid") run_cases([](long i) { FW<true> w; w.run(i); });
  if (c == "args") run_cases(args);
  if (c == "sizes") run_cases(sizes);
  return 3;
}
