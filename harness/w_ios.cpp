// Formatting flags, open modes and stream states: the algebra of the constants, and histories on several streams at
// once in lockstep with the standard ones (flags, states, exceptions, manipulators, flush, sentry).
#include "cest/sstream.hpp"
#include "cest/iostream.hpp"
#include "mon.hpp"
#include <sstream>
#include <iostream>
#include <memory>
using namespace mon;
using CB = cest::ios_base; using SB = std::ios_base;

template <class A, class B> struct Pair { const char* n; A a; B b; };
#define FF(x) { #x, CB::x, SB::x }
static const Pair<CB::fmtflags, SB::fmtflags>* fmts(size_t& n)
{
  static const Pair<CB::fmtflags, SB::fmtflags> t[] = { FF(boolalpha), FF(dec), FF(fixed), FF(hex), FF(internal), FF(left), FF(oct), FF(right), FF(scientific), FF(showbase), FF(showpoint), FF(showpos), FF(skipws), FF(unitbuf), FF(uppercase), FF(adjustfield), FF(basefield), FF(floatfield) };
  n = sizeof t / sizeof *t; return t;
}
static const Pair<CB::iostate, SB::iostate>* states(size_t& n) { static const Pair<CB::iostate, SB::iostate> t[] = { FF(badbit), FF(eofbit), FF(failbit), FF(goodbit) }; n = 4; return t; }
static const Pair<CB::openmode, SB::openmode>* modes(size_t& n) { static const Pair<CB::openmode, SB::openmode> t[] = { FF(app), FF(ate), FF(binary), FF(in), FF(out), FF(trunc) }; n = 6; return t; }

// the same set of named bits: intersections with every constant agree, and nothing outside them is set
template <class A, class B> unsigned long set_of(const Pair<A, B>* t, size_t n, A v)
{ unsigned long r = 0; for (size_t i = 0; i < n; i++) { if ((v & t[i].a) != A(0)) r |= 1ul << i; if ((v & t[i].a) == t[i].a) r |= 1ul << (i + 32); } return r; }
template <class A, class B> unsigned long set_of(const Pair<A, B>* t, size_t n, B v, int)
{ unsigned long r = 0; for (size_t i = 0; i < n; i++) { if ((v & t[i].b) != B(0)) r |= 1ul << i; if ((v & t[i].b) == t[i].b) r |= 1ul << (i + 32); } return r; }
template <class A, class B> void algebra(const char* kind, const Pair<A, B>* t, size_t n)
{
  for (size_t i = 0; i < n; i++) {
    CHECK(MODEL, (t[i].a == A(0)) == (t[i].b == B(0)), "zero", "%s %s is %s", kind, t[i].n, t[i].a == A(0) ? "empty" : "not empty");
    CHECK(MODEL, set_of(t, n, t[i].a) == set_of(t, n, t[i].b, 0), "overlap", "%s: %s overlaps other constants as %#lx, the standard one as %#lx", kind, t[i].n, set_of(t, n, t[i].a), set_of(t, n, t[i].b, 0));
  }
  A a = A(0); B b = B(0); A all = A(0); for (size_t i = 0; i < n; i++) all = all | t[i].a;
  for (int st = R.range(10, 80); st--;) {
    size_t i = R.below(n), j = R.below(n); unsigned w = R.below(9); A x = t[i].a | t[j].a; B y = t[i].b | t[j].b; if (R.chance(1, 3)) { x = ~x; y = ~y; } op(kind, w, i, j); A a0 = a; B b0 = b; (void)b0;
    switch (w) {
      case 0: a = a | x; b = b | y; break; case 1: a = a & x; b = b & y; break; case 2: a = a ^ x; b = b ^ y; break; case 3: a = ~a; b = ~b; break;
      case 4: { const A& r = (a |= x); b |= y; CHECK(MODEL, &r == &a, "result", "%s: |= results in another object", kind); break; }
      case 5: { const A& r = (a &= x); b &= y; CHECK(MODEL, &r == &a, "result", "%s: &= results in another object", kind); break; }
      case 6: { const A& r = (a ^= x); b ^= y; CHECK(MODEL, &r == &a, "result", "%s: ^= results in another object", kind); break; }
      case 7: a = (a & ~x) | (t[i].a & x); b = (b & ~y) | (t[i].b & y); break;
      default: a = x; b = y; break;
    }
    unsigned long u = set_of(t, n, a), v = set_of(t, n, b, 0);
    CHECK(MODEL, u == v, "algebra", "%s: operation %u with %s and %s leaves the set %#lx, with the standard type %#lx", kind, w, t[i].n, t[j].n, u, v);
    CHECK(MODEL, ((a & ~all) == A(0)) || ((a & ~all) == ~all), "foreign", "%s: operation %u leaves bits that no constant names", kind, w);
    CHECK(MODEL, ((a ^ a0) ^ a0) == a && (~~a) == a && (a | a) == a && (a & a) == a && (a ^ a) == A(0), "laws", "%s: operation %u leaves a value that breaks an identity", kind, w);
    state(hstr(kind), u);
  }
  count("bitmask_histories");
}

struct SyncFault { int at; };
template <class Base> struct Syncs : Base {       // a buffer that counts, and follows a plan: 0 fine, 1 fails, 2 throws
  using Tr = typename Base::traits_type; using Ch = typename Base::char_type;
  long syncs = 0, reads = 0; std::vector<int> plan; Ch text[5] = { 'a', ' ', 'b', '\n', 'c' };
  constexpr Syncs() { this->setg(text, text, text + 5); }
  constexpr int sync() override { int p = syncs < (long)plan.size() ? plan[syncs] : 0; syncs++; if (p == 2) throw SyncFault{ (int)syncs }; return p == 1 ? -1 : p == 3 ? 7 : 0; }
  constexpr typename Tr::int_type underflow() override { reads++; return Tr::eof(); }
};
template <class I> unsigned bits(const I& s)
{
  unsigned r = 0; auto q = s.rdstate(); if (q & I::badbit) r |= 1; if (q & I::eofbit) r |= 2; if (q & I::failbit) r |= 4; if (q == I::goodbit) r |= 2048;
  if (s.good()) r |= 8; if (s.eof()) r |= 16; if (s.fail()) r |= 32; if (!s) r |= 64; if (s) r |= 128;
  auto e = s.exceptions(); if (e & I::badbit) r |= 256; if (e & I::eofbit) r |= 512; if (e & I::failbit) r |= 1024; return r;
}
template <class I> auto mk(unsigned m) { using T = std::remove_cvref_t<decltype(I::goodbit)>; T r = T(I::goodbit); if (m & 1) r |= I::badbit; if (m & 2) r |= I::eofbit; if (m & 4) r |= I::failbit; return r; }

template <class Ch> struct W {
  using CI = cest::basic_ios<Ch>; using SI = std::basic_ios<Ch>; using CO = cest::basic_ostream<Ch>; using SO = std::basic_ostream<Ch>; using CIn = cest::basic_istream<Ch>; using SIn = std::basic_istream<Ch>;
  using CSB = Syncs<cest::basic_streambuf<Ch>>; using SSB = Syncs<std::basic_streambuf<Ch>>;
  struct One { const char* kind; CI* c = 0; SI* s = 0; CO* co = 0; SO* so = 0; CIn* ci = 0; SIn* si = 0; CSB* cb = 0; SSB* sb = 0; std::vector<std::shared_ptr<void>> keep; };
  std::vector<One> v; std::string where; const Pair<CB::fmtflags, SB::fmtflags>* ft; size_t fn;
  static inline MON_TLS CO* hook_o; static inline MON_TLS CI* hook_i; static inline MON_TLS CO* hook_other; static inline MON_TLS int hooks;
  static CO& fo(CO& o) { hook_o = &o; hooks++; return *hook_other; }
  static CI& fi(CI& o) { hook_i = &o; hooks++; return o; }
  static CB& fb(CB& o) { hook_i = static_cast<CI*>(&o); hooks++; return o; }
  void add()
  {
    One o; auto keep = [&](auto* p) { o.keep.push_back(std::shared_ptr<void>(std::shared_ptr<std::remove_pointer_t<decltype(p)>>(p))); return p; };
    std::vector<int> plan; for (int k = 0; k < 12; k++) plan.push_back(R.chance(1, 3) ? (int)R.below(4) : 0);
    auto bufs = [&] { o.cb = keep(new CSB); o.sb = keep(new SSB); o.cb->plan = o.sb->plan = plan; };
    switch (R.below(8)) {
      case 0: case 1: case 2: o.kind = "ostream"; bufs(); o.c = o.co = keep(new CO(o.cb)); o.s = o.so = keep(new SO(o.sb)); break;
      case 3: o.kind = "ostream without a buffer"; o.c = o.co = keep(new CO(nullptr)); o.s = o.so = keep(new SO(nullptr)); break;
      case 4: o.kind = "istream"; bufs(); o.c = o.ci = keep(new CIn(o.cb)); o.s = o.si = keep(new SIn(o.sb)); break;
      case 5: o.kind = "istringstream"; { Ch t[3] = { 'x', ' ', 0 }; o.c = o.ci = keep(new cest::basic_istringstream<Ch>(cest::basic_string<Ch>(t))); o.s = o.si = keep(new std::basic_istringstream<Ch>(std::basic_string<Ch>(t))); } break;
      case 6: o.kind = "stringstream"; { auto* p = keep(new cest::basic_stringstream<Ch>); auto* q = keep(new std::basic_stringstream<Ch>); o.c = p; o.s = q; } break;
      default: o.kind = "basic_ios"; bufs(); o.c = keep(new CI(o.cb)); o.s = keep(new SI(o.sb)); break;
    }
    v.push_back(std::move(o));
  }
  void same(size_t k)
  {
    One& o = v[k]; unsigned a = bits(*o.c), b = bits(*o.s);
    CHECK(MODEL, a == b, "state", "%s: %s %zu has state bits %#x, the standard stream %#x", where.c_str(), o.kind, k, a, b);
    unsigned long x = set_of(ft, fn, o.c->flags()), y = set_of(ft, fn, o.s->flags(), 0);
    CHECK(MODEL, x == y, "flags", "%s: %s %zu has the flags %#lx, the standard stream %#lx", where.c_str(), o.kind, k, x, y);
    if (o.cb) { CHECK(MODEL, o.c->rdbuf() == o.cb, "rdbuf", "%s: %s %zu has another buffer", where.c_str(), o.kind, k); CHECK(MODEL, o.cb->syncs == o.sb->syncs, "sync", "%s: the buffer of %s %zu was asked to synchronise %ld times, by the standard stream %ld times", where.c_str(), o.kind, k, o.cb->syncs, o.sb->syncs); CHECK(MODEL, o.cb->reads == o.sb->reads, "reads", "%s: the buffer of %s %zu was asked for characters %ld times, by the standard stream %ld", where.c_str(), o.kind, k, o.cb->reads, o.sb->reads); }
    CHECK(MODEL, o.c->tie() == nullptr, "tie", "%s: %s %zu is tied", where.c_str(), o.kind, k);
    if (o.ci) CHECK(MODEL, (long)o.ci->gcount() == (long)o.si->gcount(), "gcount", "%s: gcount %ld, the standard stream's %ld", where.c_str(), (long)o.ci->gcount(), (long)o.si->gcount());
  }
  template <class F, class G> void both(F f, G g)
  {
    int x = 0, y = 0; try { f(); } catch (const std::ios_base::failure&) { x = 1; } catch (const SyncFault& e) { x = 2 + e.at; }
    try { g(); } catch (const std::ios_base::failure&) { y = 1; } catch (const SyncFault& e) { y = 2 + e.at; }
    CHECK(MODEL, x == y, "exception", "%s: leaves with %d, the standard stream with %d (0 nothing, 1 a failure, 2+n the buffer's n-th)", where.c_str(), x, y); count(x ? "exceptions_compared" : "returns_compared");
  }
  void run(long)
  {
    ft = fmts(fn); for (int k = R.range(2, 5); k--;) add(); where = "fresh";
    for (size_t k = 0; k < v.size(); k++) { same(k); CHECK(MODEL, v[k].c->flags() == (CB::skipws | CB::dec), "initial", "a fresh %s has the flags %#x", v[k].kind, (unsigned)v[k].c->flags()); }
    auto coutf = cest::cout.flags(); auto scoutf = std::cout.flags(); auto st0 = std::cout.rdstate();
    for (int steps = R.range(10, 70); steps--;) {
      size_t k = R.below(v.size()); One& o = v[k]; unsigned w = R.below(16);
      switch (w) {
        case 0: case 1: case 2: { size_t i = R.below(fn), j = R.below(fn), l = R.below(fn); where = std::string("setf(") + ft[i].n + "|" + ft[l].n + ", " + ft[j].n + ")"; op("setf", k, i, j);
          auto a0 = o.c->flags(); auto r = o.c->setf(ft[i].a | ft[l].a, ft[j].a); o.s->setf(ft[i].b | ft[l].b, ft[j].b); CHECK(MODEL, r == a0, "setf", "%s results in other flags than those before", where.c_str()); break; }
        case 3: { auto m = (size_t)R.below(fn); where = std::string("clearing ") + ft[m].n; op("unset", k, m); CB::fmtflags none = CB::fmtflags(0); o.c->setf(none, ft[m].a); o.s->unsetf(ft[m].b); break; }
        case 4: { unsigned b = R.below(3); where = b == 0 ? "dec" : b == 1 ? "hex" : "oct"; op("base", k, b); CB& r = b == 0 ? cest::dec(*o.c) : b == 1 ? cest::hex(*o.c) : cest::oct(*o.c); if (b == 0) std::dec(*o.s); else if (b == 1) std::hex(*o.s); else std::oct(*o.s); CHECK(MODEL, &r == o.c, "result", "%s results in another stream", where.c_str()); break; }
        case 5: if constexpr (sizeof(Ch) == 1) { if (!o.co || o.co->exceptions() != CB::goodbit) break; unsigned b = R.below(3); where = b == 0 ? "<< dec" : b == 1 ? "<< hex" : "<< oct"; op("insert_base", k, b); CO* r = b == 0 ? &(*o.co << cest::dec) : b == 1 ? &(*o.co << cest::hex) : &(*o.co << cest::oct); if (b == 0) *o.so << std::dec; else if (b == 1) *o.so << std::hex; else *o.so << std::oct; CHECK(MODEL, r == o.co, "result", "%s results in another stream", where.c_str()); }
          break;
        case 6: { unsigned m = R.below(8); where = "clear(" + std::to_string(m) + ")"; op("clear", k, m); both([&] { if (m) o.c->clear(mk<CI>(m)); else o.c->clear(); }, [&] { if (m) o.s->clear(mk<SI>(m)); else o.s->clear(); }); break; }
        case 7: { unsigned m = R.below(8); where = "setstate(" + std::to_string(m) + ")"; op("setstate", k, m); both([&] { o.c->setstate(mk<CI>(m)); }, [&] { o.s->setstate(mk<SI>(m)); }); break; }
        case 8: { unsigned m = R.chance(1, 2) ? 0 : R.below(8); where = "exceptions(" + std::to_string(m) + ")"; op("exceptions", k, m); both([&] { o.c->exceptions(mk<CI>(m)); }, [&] { o.s->exceptions(mk<SI>(m)); }); break; }
        case 9: case 10: case 11: { // what flush does on a stream that has failed is not compared: the standard library asks for a working one
          if (!o.co || (!o.co->good() && o.cb) || bool(o.co->flags() & CB::unitbuf)) break; where = "flush"; op("flush", k); bool same_o = true; both([&] { same_o = &o.co->flush() == o.co; }, [&] { o.so->flush(); }); CHECK(MODEL, same_o, "result", "flush results in another stream"); count("flushes"); break; }
        case 12: { if (!o.co) break; where = "<< function"; op("insert_function", k); hooks = 0; hook_o = nullptr; hook_i = nullptr; One& z = v[R.below(v.size())]; hook_other = z.co ? z.co : o.co;
          CO& r1 = (*o.co << &W::fo); CHECK(MODEL, hooks == 1 && hook_o == o.co && &r1 == hook_other, "manipulator", "<< of a function of a stream: called %d times, on %s stream, results in %s", hooks, hook_o == o.co ? "this" : "another", &r1 == hook_other ? "its result" : "something else");
          hooks = 0; CO& r2 = (*o.co << &W::fi); CHECK(MODEL, hooks == 1 && hook_i == o.c && &r2 == o.co, "manipulator", "<< of a function of an ios: called %d times", hooks);
          if constexpr (sizeof(Ch) == 1) { hooks = 0; hook_i = nullptr; CO& r3 = (*o.co << &W::fb); CHECK(MODEL, hooks == 1 && hook_i == o.c && &r3 == o.co, "manipulator", "<< of a function of an ios_base: called %d times", hooks); } break; }
        case 13: { if (!o.ci) break; bool noskip = !bool(o.ci->flags() & CB::skipws) ? R.chance(1, 2) : true; where = noskip ? "sentry that does not skip" : "sentry, skipws off"; op("sentry", k, noskip); bool a = false, b = false;
          both([&] { typename CIn::sentry t(*o.ci, noskip); a = bool(t); }, [&] { typename SIn::sentry t(*o.si, noskip); b = bool(t); }); CHECK(MODEL, a == b, "sentry", "%s: %d, with the standard stream %d", where.c_str(), a, b); break; }
        case 14: { if (!o.ci) break; where = "get"; op("get", k); Ch a = 1, b = 1; both([&] { o.ci->get(a); }, [&] { o.si->get(b); }); CHECK(MODEL, a == b, "char", "get delivers %ld, the standard stream %ld", (long)a, (long)b); break; }
        default: if (R.chance(1, 3)) { where = "a new stream"; op("add"); if (v.size() < 7) add(); } else if (v.size() > 2) { where = "a stream destroyed"; op("drop", k); v.erase(v.begin() + k); } break;
      }
      for (size_t j = 0; j < v.size(); j++) same(j); state(bits(*v[0].c), set_of(ft, fn, v[0].c->flags()), w);
    }
    CHECK(MODEL, cest::cout.flags() == coutf && cest::cout.good(), "cout", "the flags or the state of cout changed through other streams"); CHECK(MODEL, std::cout.flags() == scoutf && std::cout.rdstate() == st0, "cout", "the process's output stream changed through other streams"); count("stream_histories");
  }
};
static void masks(long)
{
  size_t n; auto* a = fmts(n); algebra("fmtflags", a, n); auto* b = states(n); algebra("iostate", b, n); auto* c = modes(n); algebra("openmode", c, n);
}
int main(int argc, char** argv)
{
  init(argc, argv, "w_ios"); std::string c = S().config;
  if (c == "masks") run_cases(masks);
  if (c == "char") run_cases([](long i) { W<char> w; w.run(i); });
  if (c == "wchar") run_cases([](long i) { W<wchar_t> w; w.run(i); });
  return 3;
}
