// String input streams in lockstep with the standard ones: characters, counts, states, exceptions and the
// untouched part of every target buffer are compared after each operation.
#include "cest/sstream.hpp"
#include "cest/iostream.hpp"
#include "mon.hpp"
#include <sstream>
#include <memory>
using namespace mon;

template <class I> unsigned bits(const I& s)
{ return (s.good() ? 1 : 0) | (s.eof() ? 2 : 0) | (s.fail() ? 4 : 0) | (s.bad() ? 8 : 0); }
template <class I> auto bad_of(const I& s) { return (s.rdstate() & I::badbit) != I::goodbit; }
template <class I> unsigned st(const I& s)
{
  unsigned r = 0; auto q = s.rdstate();
  if (q & I::badbit) r |= 1; if (q & I::eofbit) r |= 2; if (q & I::failbit) r |= 4;
  if (s.good()) r |= 8; if (s.eof()) r |= 16; if (s.fail()) r |= 32; if (!s) r |= 64; if (s) r |= 128;
  auto e = s.exceptions(); if (e & I::badbit) r |= 256; if (e & I::eofbit) r |= 512; if (e & I::failbit) r |= 1024;
  return r;
}
template <class I> typename std::remove_cvref_t<decltype(I::goodbit)> mk(unsigned m)
{ auto r = std::remove_cvref_t<decltype(I::goodbit)>(I::goodbit); if (m & 1) r = r | I::badbit; if (m & 2) r = r | I::eofbit; if (m & 4) r = r | I::failbit; return r; }

// a buffer supplied by the user: delivers its text in pieces, and fails at one of its refills
struct BufFault { long at; };
template <class Base, class Ch> struct Pieces : Base {
  std::basic_string<Ch> t; std::vector<size_t> cuts; size_t at = 0; long refills = 0, fail_at = -1, pb = 0; bool back;
  using Tr = std::char_traits<Ch>;
  Pieces(const std::basic_string<Ch>& x, uint64_t seed, bool can_go_back) : t(x), back(can_go_back)
  { Rng r(seed); for (size_t p = 0; p < t.size();) { p += 1 + r.below(r.chance(1, 3) ? 3 : 40); cuts.push_back(std::min(p, t.size())); } if (r.chance(1, 3)) fail_at = (long)r.below(cuts.size() + 2); }
  constexpr typename Tr::int_type underflow() override
  {
    refills++; if (refills - 1 == fail_at) { fail_at = -1; throw BufFault{ refills }; }
    if (at >= cuts.size()) return Tr::eof();
    size_t a = at ? cuts[at - 1] : 0; at++; this->setg(&t[a], &t[a], &t[0] + cuts[at - 1]);
    return Tr::to_int_type(*this->gptr());
  }
  constexpr typename Tr::int_type pbackfail(typename Tr::int_type = Tr::eof()) override
  {
    pb++; if (!back || at < 2) return Tr::eof();
    at--; size_t a = at > 1 ? cuts[at - 2] : 0; this->setg(&t[a], &t[0] + cuts[at - 1] - 1, &t[0] + cuts[at - 1]);
    return Tr::to_int_type(*this->gptr());
  }
};

template <class Ch> struct W {
  using CS = cest::basic_string<Ch, std::char_traits<Ch>, std::allocator<Ch>>; using SS = std::basic_string<Ch>;
  using CI = cest::basic_istream<Ch, std::char_traits<Ch>>; using SI = std::basic_istream<Ch>;
  SS text(size_t n)
  {
    SS s; unsigned k = R.below(4);
    for (size_t i = 0; i < n; i++) switch (k) {
      case 0: s += (Ch)R.below(256); break;                      // any byte
      case 1: s += (Ch)(unsigned char)("\0\n\xff a"[R.below(5)]); break;         // awkward ones
      case 2: s += (Ch)(sizeof(Ch) > 1 ? R.below(0x10ffff) : 'a' + R.below(26)); break;
      default: s += (Ch)('A' + (i % 26)); }
    return s;
  }
  size_t len() { switch (R.below(8)) { case 0: return 0; case 1: return 1; case 2: return R.below(20000); default: return R.below(60); } }
  SS cur; std::string where;
  void same(CI& c, SI& s)
  {
    unsigned a = st(c), b = st(s);
    CHECK(MODEL, a == b, "state", "%s: state bits %#x, the standard stream has %#x", where.c_str(), a, b);
    CHECK(MODEL, (long)c.gcount() == (long)s.gcount(), "gcount", "%s: gcount %ld, the standard stream has %ld", where.c_str(), (long)c.gcount(), (long)s.gcount());
  }
  template <class F, class G> void both(CI& c, SI& s, F f, G g)
  {
    bool x = false, y = false;
    long fx = -1, fy = -1;
    try { f(); } catch (const std::ios_base::failure&) { x = true; } catch (const BufFault& e) { fx = e.at; }
    try { g(); } catch (const std::ios_base::failure&) { y = true; } catch (const BufFault& e) { fy = e.at; }
    CHECK(MODEL, fx == fy, "buffer-exception", "%s: the buffer's exception (at %ld) reaches the caller: %d, with the standard stream: %d", where.c_str(), std::max(fx, fy), fx >= 0, fy >= 0);
    if (fx >= 0) count("buffer_exceptions_propagated");
    CHECK(MODEL, x == y, "exception", "%s: failure exception %s, the standard stream %s", where.c_str(), x ? "thrown" : "not thrown", y ? "throws" : "does not throw");
    same(c, s);
    count(x ? "failure_exceptions" : "operations_returned");
  }
  // drive a pair of streams; reseat(text) re-seats both
  template <class Re, class Lo> void drive(CI& c, SI& s, Re reseat, Lo look, size_t n, bool raw = true)
  {
    where = "fresh"; same(c, s); size_t got = 0;
    for (int k = R.range(3, 60); k--;) {
      look();
      switch (R.below(18)) {
        case 16: case 17: if (raw && c.rdbuf()) { // the buffer itself
          auto* a = c.rdbuf(); auto* b = s.rdbuf(); long x = -7, y = -7; unsigned w = R.below(5); op("buffer_op", w); where = "operation on the buffer";
          Ch u[9], v[9]; std::fill_n(u, 9, (Ch)2); std::fill_n(v, 9, (Ch)2); long m = R.below(9);
          both(c, s, [&] { x = w == 0 ? (long)a->sgetc() : w == 1 ? (long)a->sbumpc() : w == 2 ? (long)a->snextc() : w == 3 ? (long)a->sungetc() : (long)a->sgetn(u, m); },
                     [&] { y = w == 0 ? (long)b->sgetc() : w == 1 ? (long)b->sbumpc() : w == 2 ? (long)b->snextc() : w == 3 ? (long)b->sungetc() : (long)b->sgetn(v, m); });
          CHECK(MODEL, x == y && !memcmp(u, v, sizeof u), "buffer", "operation %u on the buffer gives %ld, on the standard one %ld", w, x, y); count("buffer_operations"); } break;
        case 0: case 1: case 2: case 3: { op("get"); where = "get"; Ch a = (Ch)0x5a, b = (Ch)0x5a; bool ref = true;
          both(c, s, [&] { ref = &c.get(a) == &c; }, [&] { s.get(b); });
          CHECK(MODEL, a == b, "char", "get delivered %ld, the standard stream %ld", (long)a, (long)b); CHECK(MODEL, ref, "result", "get returns another stream"); got++; break; }
        case 4: case 5: case 6: case 7: case 8: { size_t m = R.below(4) == 0 ? 0 : R.below(3) == 0 ? R.below(n + 10) : R.below(12); op("read", m); where = "read(" + std::to_string(m) + ")";
          std::unique_ptr<Ch[]> a(new Ch[m]), b(new Ch[m]); std::fill_n(a.get(), m, (Ch)0x5b); std::fill_n(b.get(), m, (Ch)0x5b); // exactly m: a sanitizer sees one more
          both(c, s, [&] { c.read(a.get(), (long)m); }, [&] { s.read(b.get(), (long)m); });
          size_t i = 0; while (i < m && a[i] == b[i]) i++;
          CHECK(MODEL, i == m, "block", "read(%zu): character %zu of the target is %ld, with the standard stream %ld", m, i, i < m ? (long)a[i] : 0, i < m ? (long)b[i] : 0); break; }
        case 9: case 10: op("unget"); where = "unget"; both(c, s, [&] { c.unget(); }, [&] { s.unget(); }); break;
        case 11: op("clear"); where = "clear"; both(c, s, [&] { c.clear(); }, [&] { s.clear(); }); break;
        case 12: { unsigned m = R.below(8); op("clear_to", m); where = "clear(" + std::to_string(m) + ")"; both(c, s, [&] { c.clear(mk<CI>(m)); }, [&] { s.clear(mk<SI>(m)); }); break; }
        case 13: { unsigned m = R.below(8); op("setstate", m); where = "setstate(" + std::to_string(m) + ")"; both(c, s, [&] { c.setstate(mk<CI>(m)); }, [&] { s.setstate(mk<SI>(m)); }); break; }
        case 14: { unsigned m = R.chance(1, 2) ? 0 : R.below(8); op("exceptions", m); where = "exceptions(" + std::to_string(m) + ")"; both(c, s, [&] { c.exceptions(mk<CI>(m)); }, [&] { s.exceptions(mk<SI>(m)); }); break; }
        default: if (R.chance(1, 2)) { SS t = text(len()); op("str", t.size()); where = "str"; n = t.size(); both(c, s, [&] { reseat(t); }, [] {}); } break;
      }
      state(st(c), n > 100 ? 100 : n, (uint64_t)c.gcount() > 40 ? 40 : c.gcount());
    }
    // the rest, one by one and exactly once
    look(); op("drain"); where = "drain"; both(c, s, [&] { c.exceptions(CI::goodbit); c.clear(); }, [&] { s.exceptions(SI::goodbit); s.clear(); });
    bool blocks = R.chance(1, 2);
    for (size_t k = 0; k < n + 3; k++) {
      if (blocks) { Ch a[7], b[7]; std::fill_n(a, 7, (Ch)1); std::fill_n(b, 7, (Ch)1); c.read(a, 7); s.read(b, 7); CHECK(MODEL, !memcmp(a, b, sizeof a), "block", "drain: block %zu differs", k); }
      else { Ch a = 7, b = 7; c.get(a); s.get(b); CHECK(MODEL, a == b, "char", "drain: character %zu is %ld, expected %ld", k, (long)a, (long)b); }
      same(c, s); if (!s) break;
    }
    c.clear(); s.clear();
    for (size_t k = 0; k < 4; k++) { c.unget(); s.unget(); where = "unget at the end"; same(c, s); }
    count("streams");
  }
  void run(long)
  {
    SS t = text(len()); CS ct(t.data(), t.size()); size_t n = t.size();
    switch (R.below(9)) {
      case 0: { op("istringstream", n); cest::basic_istringstream<Ch> c(ct); std::basic_istringstream<Ch> s(t); ct = CS(); drive(c, s, [&](const SS& x) { c.str(CS(x.data(), x.size())); s.str(x); }, [&] { auto a = c.str(); auto b = s.str(); CHECK(MODEL, SS(a.data(), a.size()) == b, "text", "str() gives %zu characters, the standard stream %zu, or others", a.size(), b.size()); }, n); break; }
      case 1: { op("stringstream", n); cest::basic_stringstream<Ch> c(ct); std::basic_stringstream<Ch> s(t); for (auto& q : ct) q = (Ch)'!'; drive(c, s, [&](const SS& x) { CS y(x.data(), x.size()); c.str(y); s.str(x); y = CS(); }, [&] { auto a = c.str(); auto b = s.str(); CHECK(MODEL, SS(a.data(), a.size()) == b, "text", "str() gives %zu characters, the standard stream %zu, or others", a.size(), b.size()); }, n); break; }
      case 2: { op("empty_istringstream"); cest::basic_istringstream<Ch> c; std::basic_istringstream<Ch> s; drive(c, s, [&](const SS& x) { c.str(CS(x.data(), x.size())); s.str(x); }, [&] { auto a = c.str(); auto b = s.str(); CHECK(MODEL, SS(a.data(), a.size()) == b, "text", "str() gives %zu characters, the standard stream %zu, or others", a.size(), b.size()); }, 0); break; }
      case 3: { op("empty_stringstream"); cest::basic_stringstream<Ch> c; std::basic_stringstream<Ch> s; drive(c, s, [&](const SS& x) { c.str(CS(x.data(), x.size())); s.str(x); }, [&] { auto a = c.str(); auto b = s.str(); CHECK(MODEL, SS(a.data(), a.size()) == b, "text", "str() gives %zu characters, the standard stream %zu, or others", a.size(), b.size()); }, 0); break; }
      case 4: { unsigned m = R.below(5); op("mode", m, n); using C = cest::ios_base; using S = std::ios_base;
        auto cm = m == 0 ? C::in : m == 1 ? C::in | C::out : m == 2 ? C::in | C::ate : m == 3 ? C::in | C::binary : C::in | C::app;
        auto sm = m == 0 ? S::in : m == 1 ? S::in | S::out : m == 2 ? S::in | S::ate : m == 3 ? S::in | S::binary : S::in | S::app;
        cest::basic_istringstream<Ch> c(ct, cm); std::basic_istringstream<Ch> s(t, sm); drive(c, s, [&](const SS& x) { c.str(CS(x.data(), x.size())); s.str(x); }, [&] { auto a = c.str(); auto b = s.str(); CHECK(MODEL, SS(a.data(), a.size()) == b, "text", "str() gives %zu characters, the standard stream %zu, or others", a.size(), b.size()); }, n); break; }
      case 5: { op("buffer", n); cest::basic_stringbuf<Ch> cb(ct); std::basic_stringbuf<Ch> sb(t); CI c(&cb); SI s(&sb); drive(c, s, [&](const SS& x) { cb.str(CS(x.data(), x.size())); sb.str(x); }, [&] { auto a = cb.str(); CHECK(MODEL, SS(a.data(), a.size()) == sb.str(), "text", "str() of the buffer"); }, n); break; }
      case 6: case 7: { bool back = R.chance(1, 2); uint64_t sd = R.next(); op("pieces", n, back, (long)(sd % 1000)); Pieces<cest::basic_streambuf<Ch>, Ch> cb(t, sd, back); Pieces<std::basic_streambuf<Ch>, Ch> sb(t, sd, back); CI c(&cb); SI s(&sb);
        drive(c, s, [](const SS&) {}, [&] { CHECK(MODEL, cb.refills == sb.refills && cb.pb == sb.pb, "refills", "%s: the buffer was asked %ld times for more and %ld times to go back, by the standard stream %ld and %ld", where.c_str(), cb.refills, cb.pb, sb.refills, sb.pb); }, n); break; }
      default: { op("no_buffer"); CI c(nullptr); SI s(nullptr); where = "no buffer"; same(c, s);
        for (int k = 6; k--;) { Ch a = 1, b = 1; switch (R.below(4)) { case 0: c.get(a); s.get(b); break; case 1: c.read(&a, 1); s.read(&b, 1); break; case 2: c.unget(); s.unget(); break; default: c.clear(); s.clear(); } CHECK(MODEL, a == b, "char", "a stream without buffer delivered something"); same(c, s); } }
    }
    // two streams over the same text do not disturb each other
    if (R.chance(1, 5)) { op("pair"); CS u(t.data(), t.size()); cest::basic_istringstream<Ch> p(u), q(u); Ch a = 0, b = 0; for (size_t i = 0; i < n && i < 30; i++) { p.get(a); if (i % 2) { q.get(b); CHECK(MODEL, b == t[i / 2], "char", "a second stream over the same text"); } CHECK(MODEL, a == t[i], "char", "interleaved reading of two streams"); } }
  }
};
int main(int argc, char** argv)
{
  init(argc, argv, "w_streams");
  std::string c = S().config;
  if (c == "char") run_cases([](long i) { W<char> w; w.run(i); });
  if (c == "wchar") run_cases([](long i) { W<wchar_t> w; w.run(i); });
  return 3;
}
