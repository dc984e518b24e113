// Standard output objects and C-style I/O: descriptors 1 and 2 are redirected to files, every operation is also
// made on reference formatters, and the bytes that arrived on each descriptor are compared with the reference.
#include "cest/iostream.hpp"
#include "cest/memory.hpp"
#include "cest/cstdio.hpp"
#include "mon.hpp"
#include <sstream>
#include <sys/mman.h>
#include <sys/stat.h>
#include <memory>
using namespace mon;
extern "C" void __sanitizer_set_report_fd(void*) __attribute__((weak));

static int cap[3]; static std::string want[3]; static size_t checked[3];
static std::ostringstream ref[3]; static size_t taken[3];        // cout cerr clog
static cest::ostream* obj[3];
static void capture()
{
  int keep = dup(2);
  if (__sanitizer_set_report_fd) __sanitizer_set_report_fd((void*)(long)keep);
  for (int fd = 1; fd <= 2; fd++) { cap[fd] = memfd_create("cap", 0); if (cap[fd] < 0) { char t[] = "/tmp/capXXXXXX"; cap[fd] = mkstemp(t); unlink(t); } dup2(cap[fd], fd); }
}
// what the reference formatter of object i produced since the last time, in the order of the descriptor
static void settle(int i) { std::string s = ref[i].str(); want[i == 0 ? 1 : 2] += s.substr(taken[i]); taken[i] = s.size(); if (s.size() > 100000) { ref[i].str(""); taken[i] = 0; } }
static void compare(const char* w, int only = 0)
{
  if (!only) { std::cout.flush(); std::clog.flush(); fflush(::stdout); fflush(::stderr); }
  for (int fd = 1; fd <= 2; fd++) {
    if (only && only != fd) continue;
    struct stat st; fstat(cap[fd], &st); size_t n = st.st_size;
    std::string got(n > checked[fd] ? n - checked[fd] : 0, 0); if (!got.empty() && pread(cap[fd], &got[0], got.size(), checked[fd]) != (ssize_t)got.size()) exit(2);
    std::string exp = want[fd];
    if (got != exp) {
      size_t i = 0; while (i < got.size() && i < exp.size() && got[i] == exp[i]) i++;
      CHECK(MODEL, false, "bytes", "%s: descriptor %d got %zu bytes \"%s\", expected %zu bytes \"%s\" (first difference at %zu)", w, fd, got.size(), jesc(got.substr(i > 10 ? i - 10 : 0, 60)).c_str(), exp.size(), jesc(exp.substr(i > 10 ? i - 10 : 0, 60)).c_str(), i);
    }
    S().checks++; count("bytes_compared", got.size());
    if (n > 4000000) { if (ftruncate(cap[fd], 0)) {} lseek(cap[fd], 0, SEEK_SET); n = 0; }
    checked[fd] = n; want[fd].clear();
  }
}
static std::string text(size_t n, bool nul)
{
  std::string s; unsigned k = R.below(3);
  for (size_t i = 0; i < n; i++) { char c = k == 0 ? (char)R.below(256) : k == 1 ? "%\n\\x0 \xc3\t"[R.below(8)] : (char)('a' + R.below(26)); s += (!c && !nul) ? 'N' : c; }
  return s;
}
static size_t tlen() { return R.below(20) == 0 ? R.below(9000) : R.skew(70); }
template <class T> T num()
{
  switch (R.below(6)) { case 0: return std::numeric_limits<T>::max(); case 1: return std::numeric_limits<T>::min(); case 2: return (T)R.range(-20, 20); default: return (T)R.next(); }
}
template <class T, class U> static void ins(int i, const T& x, const U& y, const char* w)
{
  cest::ostream& r = *obj[i] << x; CHECK(MODEL, &r == obj[i], "result", "inserting %s returns another stream", w);
  ref[i] << y; settle(i);
}

static void out(long)
{
  static cest::basic_stringbuf<char> ub(cest::string("user")); static cest::ostream user(&ub);
  static const char* names[] = { "cout", "cerr", "clog" };
  bool nul = R.chance(1, 2); bool cmp_each = R.chance(1, 2);
  int fav = R.below(4);
  for (int k = R.range(5, 120); k--;) {
    int i = fav < 3 && R.chance(1, 2) ? fav : (int)R.below(3);
    int what = R.below(23); op(names[i], what);
    switch (what) {
      case 0: { char c = nul ? (char)R.below(256) : (char)R.range(1, 127); ins(i, c, c, "a character"); break; }
      case 1: { std::string s = text(tlen(), false); ins(i, s.c_str(), s.c_str(), "a C string"); break; }
      case 2: { char b[300]; std::string s = text(R.below(299), false); strcpy(b, s.c_str()); ins(i, b, b, "a character array"); break; }
      case 3: case 4: { std::string s = text(tlen(), nul); cest::string c(s.data(), s.size()); ins(i, c, s, "a string"); break; }
      case 5: case 6: { int v = num<int>(); ins(i, v, v, "an int"); break; }
      case 7: { unsigned v = num<unsigned>(); ins(i, v, v, "an unsigned int"); break; }
      case 8: { long v = num<long>(); ins(i, v, v, "a long"); break; }
      case 9: { short v = num<short>(); ins(i, v, v, "a short"); unsigned short u = num<unsigned short>(); ins(i, u, u, "an unsigned short"); break; }
      case 10: { signed char v = (signed char)R.range(1, 127); ins(i, v, v, "a signed char"); unsigned char u = (unsigned char)R.range(1, 255); ins(i, u, u, "an unsigned char"); break; }
      case 11: { const void* p = R.chance(1, 8) ? nullptr : (const void*)R.next(); ins(i, p, p, "a pointer"); long x; ins(i, &x, &x, "a pointer to long"); break; }
      case 12: { cest::shared_ptr<long> p(R.chance(1, 4) ? nullptr : new long(5)); ins(i, p, (const void*)p.get(), "a shared pointer"); cest::unique_ptr<int> q(R.chance(1, 4) ? nullptr : new int(5)); ins(i, q, (const void*)q.get(), "a unique pointer"); break; }
      case 13: { cest::ostream& r = *obj[i] << cest::endl; CHECK(MODEL, &r == obj[i], "result", "endl returns another stream"); ref[i] << std::endl; settle(i); if (i == 0) compare("right after endl", 1); break; }
      case 14: { *obj[i] << cest::hex; ref[i] << std::hex; break; }
      case 15: { cest::ostream& r = *obj[i] << cest::dec; CHECK(MODEL, &r == obj[i], "result", "dec returns another stream"); ref[i] << std::dec; break; }
      case 16: { *obj[i] << cest::oct; ref[i] << std::oct; break; }
      case 17: { cest::ostream& r = obj[i]->flush(); CHECK(MODEL, &r == obj[i], "result", "flush returns another stream"); if (i == 0) compare("right after flush", 1); break; }
      case 18: { // a chain over several kinds
        int a = num<int>(); unsigned b = num<unsigned>(); std::string s = text(R.below(20), nul); cest::string c(s.data(), s.size());
        *obj[i] << "[" << a << ',' << cest::hex << b << ' ' << a << cest::oct << b << c << cest::dec << a << "]" << cest::endl;
        ref[i] << "[" << a << ',' << std::hex << b << ' ' << a << std::oct << b << s << std::dec << a << "]" << std::endl; settle(i); break; }
      case 19: { // any other output object: nothing may appear anywhere
        user << "text" << 'c' << 12 << 13u << 14l << cest::string("s") << cest::endl << cest::hex << 255 << (const void*)&i; user.flush(); 
        cest::ostream tmp(&ub); tmp << cest::oct << "temporary" << 77 << cest::endl; break; }
      case 20: { // the program's own standard output interleaves in order
        std::string s = text(R.below(30), nul); if (i == 0) { if (R.chance(1, 2)) std::cout << s; else std::fwrite(s.data(), 1, s.size(), ::stdout); } else { if (R.chance(1, 2)) std::cerr << s; else std::fwrite(s.data(), 1, s.size(), ::stderr); } want[i == 0 ? 1 : 2] += s; break; }
      case 21: { // all three in turn
        for (int j = 0; j < 3; j++) { int v = num<int>(); ins(j, v, v, "an int in turn"); ins(j, ' ', ' ', "a blank"); } break; }
      default: { bool b = R.chance(1, 2); ins(i, b, b, "a bool"); break; }
    }
    if (cmp_each) compare(names[i]);
    auto base = [](std::ios_base& s) { return s.flags() & std::ios_base::basefield; }; state(base(ref[0]), base(ref[1]), base(ref[2]), what * 3 + i);
  }
  compare("end of the case");
}

// ---- printf and fprintf ------------------------------------------------------------
template <class... T> static std::string sf(const char* f, T... x)
{ int n = snprintf(nullptr, 0, f, x...); std::string s(n + 1, 0); snprintf(&s[0], n + 1, f, x...); s.resize(n); return s; }
static int target; // -1: printf, otherwise fprintf on an object
template <class... T> static void pf(const char* f, T... x)
{
  static cest::basic_stringbuf<char> ub(cest::string("user")); static cest::ostream user(&ub);
  std::string e = sf(f, x...); int r;
  switch (target) {
    case -1: r = cest::printf(f, x...); want[1] += e; break;
    case 0: r = cest::fprintf(cest::stdout, f, x...); want[1] += e; break;
    case 1: r = cest::fprintf(cest::stderr, f, x...); want[2] += e; break;
    case 2: r = cest::fprintf(&cest::clog, f, x...); want[2] += e; break;
    default: r = cest::fprintf(&user, f, x...); break;
  }
  CHECK(MODEL, r == (int)e.size(), "count", "printf family returned %d, %zu bytes are due (format \"%s\")", r, e.size(), jesc(f).c_str());
  count("formatted_calls");
}
static void printing(long)
{
  for (int k = R.range(3, 60); k--;) {
    target = R.range(-1, 3); int what = R.below(24); op("printf", target, what);
    std::string s = text(R.below(6) == 0 ? R.below(9000) : R.skew(60), false); int w = R.range(-40, 40), p = R.range(0, 30);
    switch (what) {
      case 0: pf("%d", num<int>()); break; case 1: pf("%*d|%-8d|%+d", w, num<int>(), num<int>(), num<int>()); break;
      case 2: pf("%u %x %X %o", num<unsigned>(), num<unsigned>(), num<unsigned>(), num<unsigned>()); break;
      case 3: pf("%ld %lu %llx", num<long>(), num<unsigned long>(), num<unsigned long long>()); break;
      case 4: pf("%s", s.c_str()); break; case 5: pf("<%-*.*s>", w, p, s.c_str()); break;
      case 6: pf("%c", (int)R.below(256)); break; case 7: pf("a%cb%cc\n", 0, (int)R.below(3)); break;
      case 8: pf("%f %e %g", (double)num<int>() / 7, (double)num<int>() * 1e-9, (double)R.range(-5, 5)); break;
      case 9: pf("%*.*f", w, p, (double)num<int>() / 3); break; case 10: pf("%p", (void*)R.next()); break;
      case 11: pf("%%"); break; case 12: pf("no conversions, 100%% text\n"); break; case 13: pf(""); break;
      case 14: pf("%s%s%s", s.c_str(), "", s.c_str()); break; case 15: pf("%5s|%-5s|%.0s", s.c_str(), "ab", "cd"); break;
      case 16: pf("%hhd %hd %zu", num<int>(), num<int>(), (size_t)R.next()); break;
      case 17: pf("%i %d %s %c %ld %g %u %x", num<int>(), 2, s.c_str(), 'c', 5L, 2.5, 7u, 8u); break;
      case 18: pf("%08.3f|%#x|% d", R.range(-1000, 1000) / 8.0, num<unsigned>(), num<int>()); break;
      case 19: pf("%*s", (int)R.below(20000), ""); break;
      case 20: { std::string f; for (char c : s) if (c != '%') f += c; pf(f.c_str()); break; }
      case 21: { int n1 = num<int>(); cest::cout << n1; want[1] += std::to_string(n1); pf(" %d ", n1); break; } // streams and printf in one order
      case 22: { std::fwrite("raw", 1, 3, ::stdout); want[1] += "raw"; pf("%c%c", 'x', 'y'); break; }
      default: pf("%d\n", (int)k); break;
    }
    if (R.chance(1, 3)) compare("printf");
    state(target + 1, what);
  }
  compare("end of the case");
}

// ---- fmemopen, fread, fclose ---------------------------------------------------------
static void memfile(long)
{
  struct F { cest::FILE* f; std::string data; size_t pos = 0; bool failed = false; };
  std::vector<F> fs; size_t total = 0;
  for (int k = R.range(5, 80); k--;) {
    if (fs.empty() || (fs.size() < 4 && R.chance(1, 6))) {
      size_t n = R.below(5) == 0 ? R.below(30000) : R.skew(80); std::string d = text(n, true); op("fmemopen", n);
      std::unique_ptr<char[]> b(new char[n]); memcpy(b.get(), d.data(), n);
      cest::FILE* f = cest::fmemopen(b.get(), n, R.chance(1, 2) ? "r" : "rb"); CHECK(MODEL, f != nullptr, "open", "fmemopen of %zu bytes gave a null pointer", n);
      CHECK(MODEL, !memcmp(b.get(), d.data(), n), "buffer", "fmemopen changed the buffer");
      if (R.chance(1, 2)) fs.push_back({ f, d }); else fs.insert(fs.begin(), { f, d });
      state(1, std::min<size_t>(n, 50)); count("files"); 
      // the buffer is kept alive with the file
      static std::vector<std::unique_ptr<char[]>> keep; if (keep.size() > 64) keep.erase(keep.begin(), keep.begin() + 32); keep.push_back(std::move(b));
      continue;
    }
    size_t i = R.below(fs.size()); F& x = fs[i];
    if (R.chance(1, 12)) { op("fclose", i); int r = cest::fclose(x.f); CHECK(MODEL, r == 0, "close", "fclose returned %d", r); fs.erase(fs.begin() + i); continue; }
    if (R.chance(1, 10)) { // the state changes under the reader's feet, as a FILE is a stream
      unsigned k = R.below(3);
      if (k == 0) { op("setstate", i); x.f->setstate(R.chance(1, 2) ? cest::ios_base::failbit : R.chance(1, 2) ? cest::ios_base::eofbit : cest::ios_base::badbit); x.failed = true; }
      else if (k == 1) { op("clear", i); x.f->clear(); x.failed = false; }
      else if (!x.failed && x.pos > 0) { op("unget", i); x.f->unget(); x.pos--; }
      CHECK(MODEL, x.f->good() == !x.failed, "state", "a memory file is %s", x.failed ? "good though a read or the caller made it fail" : "not good"); state(3, k, x.failed);
    }
    size_t left = x.failed ? 0 : x.data.size() - x.pos, m = R.below(4) == 0 ? left : R.below(4) == 0 ? R.below(x.data.size() + 20) : R.below(16); if (R.below(12) == 0) m = left + 1;
    op("fread", m, left);
    std::unique_ptr<char[]> b(new char[m]); memset(b.get(), 0x3c, m);
    size_t got = cest::fread(b.get(), 1, m, x.f), exp = std::min(m, left);
    CHECK(MODEL, got == exp, "count", "fread of %zu with %zu left returned %zu", m, left, got);
    size_t q = 0; while (q < exp && b[q] == x.data[x.pos + q]) q++;
    CHECK(MODEL, q == exp, "bytes", "fread: byte %zu is %d, expected %d", x.pos + q, q < exp ? b[q] : 0, q < exp ? x.data[x.pos + q] : 0);
    for (q = exp; q < m; q++) CHECK(MODEL, b[q] == 0x3c, "beyond", "fread wrote beyond the characters it delivered");
    if (m > left) x.failed = true; x.pos += exp; total += exp; state(2, std::min<size_t>(left, 40), std::min<size_t>(m, 40));
  }
  for (auto& x : fs) cest::fclose(x.f);
  count("bytes_read", total);
}

int main(int argc, char** argv)
{
  init(argc, argv, "w_out");
  obj[0] = &cest::cout; obj[1] = &cest::cerr; obj[2] = &cest::clog;
  std::string c = S().config;
  if (c == "out" || c == "printf") capture();
  if (c == "out") run_cases(out);
  if (c == "printf") run_cases(printing);
  if (c == "memfile") run_cases(memfile);
  return 3;
}
