// Shared monitoring machinery: randomness, operation log, verdicts, statistics, watchdog.
// Nothing here depends on how the library is written.
#ifndef MON_HPP
#define MON_HPP

#include <algorithm>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <map>
#include <set>
#include <stdexcept>
#include <string>
#include <unordered_set>
#include <unordered_map>
#include <vector>
#include <ctime>
#include <fcntl.h>
#include <sys/time.h>
#include <unistd.h>
// MON_THREADS: several threads run the same workload at once, each on objects and monitors of its own
#ifdef MON_THREADS
#include <atomic>
#include <thread>
#define MON_TLS thread_local
#else
#define MON_TLS
#endif

extern "C" {
void __sanitizer_set_death_callback(void (*cb)(void)) __attribute__((weak));
int  __lsan_do_recoverable_leak_check(void) __attribute__((weak));
int  __llvm_profile_write_file(void) __attribute__((weak));   // coverage builds (tools/coverage.sh)
}

namespace mon {

// ---- randomness -------------------------------------------------------------
inline uint64_t mix(uint64_t z)
{
  z += 0x9e3779b97f4a7c15ull;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
inline uint64_t hstr(const char* s)
{
  uint64_t h = 1469598103934665603ull;
  for (; *s; ++s) h = (h ^ (unsigned char)*s) * 1099511628211ull;
  return h;
}
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(mix(seed)) {}
  uint64_t next() { return s = mix(s + 0x1234567); }
  // [0,n)
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  long range(long a, long b) { return a + (long)below((uint64_t)(b - a + 1)); }
  bool chance(unsigned num, unsigned den) { return below(den) < num; }
  // small numbers mostly, large ones now and then
  unsigned long skew(unsigned long maxv)
  {
    switch (below(6)) {
      case 0: return 0;
      case 1: case 2: return below(std::min<unsigned long>(maxv, 4) + 1);
      case 3: case 4: return below(std::min<unsigned long>(maxv, 20) + 1);
      default: return below(maxv + 1);
    }
  }
};

// ---- tags -------------------------------------------------------------------
enum Tag : unsigned {
  MODEL = 1, LIFE = 2, ALLOC = 4, ADDR = 8, FATAL = 16, LEAK = 32, EXC = 64, COST = 128,
  COPY = 256, ALIAS = 512, CMP = 1024, HANG = 2048, ORDER = 4096, ITER = 8192, CAP = 16384
};
inline const char* tag_names[] = { "MODEL","LIFE","ALLOC","ADDR","FATAL","LEAK","EXC","COST",
                                   "COPY","ALIAS","CMP","HANG","ORDER","ITER","CAP" };
inline std::string tags_str(unsigned t)
{
  std::string r;
  for (unsigned i = 0; i < 15; i++)
    if (t & (1u << i)) { if (!r.empty()) r += ","; r += tag_names[i]; }
  return r;
}

// ---- state of the run ---------------------------------------------------------
struct OpRec { const char* op; long a, b, c; };

struct State {
  std::string program, config, out;     // out: prefix of files
  uint64_t seed = 1; long case_no = 0; long only_case = -1;
  unsigned accept = ~0u;                // tags that are verdicts in this run
  long ncases = 10;
  double scale = 1;
  long val_ctr = 0; unsigned case_flags = 0;              // COPY / ALIAS / EXC seen in this case
  OpRec ring[4096]; unsigned long nops = 0; unsigned long case_first = 0;
  unsigned long ops = 0, checks = 0, cases = 0, ignored = 0;
  std::map<std::string, unsigned long> counters;
  std::unordered_set<uint64_t> states;  // distinct abstract states seen
  std::unordered_set<uint64_t> hists;   // distinct histories
  uint64_t hist = 0;
  std::vector<std::string> samples;
  std::vector<std::string> args;
  std::map<std::string, std::string> softs; // violations that need not end the run
  double budget = 0;                    // stop starting new cases after so many seconds
  bool done = false, in_report = false;
  int cpu_limit = 40, threads = 4;
  std::string note;
};
inline State& S() { static MON_TLS State* s = new State; return *s; }
inline MON_TLS Rng R;

inline std::string jesc(const std::string& s)
{
  std::string r;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
    else r += (char)c;
  }
  return r;
}

inline void op(const char* name, long a = 0, long b = 0, long c = 0)
{
  State& s = S();
  OpRec& r = s.ring[s.nops++ % 4096];
  r.op = name; r.a = a; r.b = b; r.c = c;
  s.ops++;
  uint64_t nm = 0;
  for (const char* p = name; *p && p < name + 10; ++p) nm = nm * 131 + (unsigned char)*p;
  s.hist = mix(s.hist ^ nm ^ mix((uint64_t)a * 31 + (uint64_t)b * 7 + (uint64_t)c));
}

inline std::string history(unsigned maxn)
{
  State& s = S();
  std::string r;
  unsigned long n = s.nops - s.case_first;
  if (n > 4096) n = 4096;
  if (n > maxn) n = maxn;
  for (unsigned long i = s.nops - n; i < s.nops; i++) {
    OpRec& o = s.ring[i % 4096];
    char b[160];
    snprintf(b, sizeof b, "%s(%ld,%ld,%ld) ", o.op, o.a, o.b, o.c);
    r += b;
  }
  return r;
}

// a violation: written to <out>.viol; its tags decide whether it is this property's
inline void write_violation(unsigned tags, const char* key, const char* msg)
{
  State& s = S();
  std::string f = s.out + ".viol";
  FILE* fp = fopen(f.c_str(), "w");
  if (!fp) fp = ::stderr;
  fprintf(fp, "tags=%s\nkey=%s\nprogram=%s config=%s seed=%llu case=%ld\nmessage=%s\nhistory (last operations of the case):\n%s\n",
          tags_str(tags).c_str(), key, s.program.c_str(), s.config.c_str(),
          (unsigned long long)s.seed, s.case_no, msg, history(400).c_str());
  if (fp != ::stderr) fclose(fp);
}

[[noreturn]] inline void finish(int code);

inline void viol(unsigned tags, const char* key, const char* fmt, ...)
  __attribute__((format(printf, 3, 4)));
inline void viol(unsigned tags, const char* key, const char* fmt, ...)
{
  State& s = S();
  char b[1200];
  va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  tags |= s.case_flags;
  if (!(tags & s.accept)) { s.ignored++; return; }
  s.in_report = true;
  write_violation(tags, key, b);
  fflush(nullptr);
  _exit(10);
}

// a violation that does not prevent the run from going on: reported through the statistics
inline void soft(unsigned tags, const char* key, const char* msg)
{
  State& s = S();
  if (!(tags & s.accept)) { s.ignored++; return; }
  s.softs.emplace(key, msg);
}

#define CHECK(tags, cond, key, ...) \
  do { mon::S().checks++; if (!(cond)) mon::viol((tags), (key), __VA_ARGS__); } while (0)

inline void count(const char* name, unsigned long n = 1) { S().counters[name] += n; }
inline void state(uint64_t h) { if (S().states.size() < 400000) S().states.insert(h); }
inline void state(uint64_t a, uint64_t b, uint64_t c = 0, uint64_t d = 0)
{ state(mix(a * 1000003 + mix(b * 10007 + mix(c * 101 + d)))); }
inline void flag(unsigned f) { S().case_flags |= f; }

inline void begin_case(long i)
{
  State& s = S();
  s.case_no = i; s.case_flags = 0; s.val_ctr = 0; s.case_first = s.nops; s.hist = 0;
  R = Rng(mix(s.seed) ^ hstr(s.program.c_str()) ^ mix(hstr(s.config.c_str()) + (uint64_t)i));
  s.cases++;
#ifdef MON_THREADS
  return;
#endif
  // CPU-time watchdog
  struct itimerval tv{}; tv.it_value.tv_sec = s.cpu_limit;
  setitimer(ITIMER_VIRTUAL, &tv, nullptr);
}
inline void end_case()
{
  State& s = S();
  if (s.nops - s.case_first >= 3) s.hists.insert(s.hist);
  if (s.samples.size() < 2) s.samples.push_back(s.config + ": " + history(25));
}

inline void write_stats()
{
  State& s = S();
  std::string f = s.out + ".stats";
  FILE* fp = fopen(f.c_str(), "w");
  if (!fp) return;
  fprintf(fp, "{\"program\":\"%s\",\"config\":\"%s\",\"cases\":%lu,\"ops\":%lu,\"checks\":%lu,"
              "\"distinct_histories\":%lu,\"distinct_states\":%lu,\"ignored\":%lu,\"counters\":{",
          s.program.c_str(), s.config.c_str(), s.cases, s.ops, s.checks,
          (unsigned long)s.hists.size(), (unsigned long)s.states.size(), s.ignored);
  bool first = true;
  for (auto& [k, v] : s.counters) { fprintf(fp, "%s\"%s\":%lu", first ? "" : ",", k.c_str(), v); first = false; }
  fprintf(fp, "},\"samples\":[");
  first = true;
  for (auto& x : s.samples) { fprintf(fp, "%s\"%s\"", first ? "" : ",", jesc(x).c_str()); first = false; }
  fprintf(fp, "],\"soft\":{");
  first = true;
  for (auto& [k, v] : s.softs) { fprintf(fp, "%s\"%s\":\"%s\"", first ? "" : ",", jesc(k).c_str(), jesc(v).c_str()); first = false; }
  fprintf(fp, "}}\n");
  fclose(fp);
  f = s.out + ".hists"; // so that histories can be counted once across processes
  if ((fp = fopen(f.c_str(), "wb"))) { for (uint64_t h : s.hists) fwrite(&h, 8, 1, fp); fclose(fp); }
}

[[noreturn]] inline void finish(int code) { write_stats(); fflush(nullptr); if (__llvm_profile_write_file) __llvm_profile_write_file(); _exit(code); }

inline void on_death()
{
  State& s = S();
  if (s.done || s.in_report) return;
  s.in_report = true;
  write_violation(FATAL | s.case_flags, "sanitizer", "a sanitizer ended the run here");
}
inline void on_alarm(int)
{
  State& s = S();
  if (s.in_report) return;
  s.in_report = true;
  write_violation(HANG | FATAL | s.case_flags, "hang", "the case used its CPU time limit: an operation does not return");
  _exit(12);
}
inline void on_terminate()
{
  State& s = S();
  if (!s.in_report) {
    s.in_report = true;
    const char* what = "unknown exception";
    std::string w;
    try { if (auto e = std::current_exception()) std::rethrow_exception(e); else what = "std::terminate"; }
    catch (const std::exception& e) { w = e.what(); what = w.c_str(); }
    catch (...) {}
    std::string m = std::string("terminate: ") + what;
    write_violation(FATAL | s.case_flags, "terminate", m.c_str());
  }
  _exit(11);
}

inline bool leaks(const char* where)
{
  State& s = S();
  if (!__lsan_do_recoverable_leak_check || !(s.accept & LEAK)) return false;
  count("leak_scans");
  if (__lsan_do_recoverable_leak_check()) { viol(LEAK, "leak", "storage still allocated after %s", where); return true; }
  return false;
}

// usage: prog --out P --seed N --cases N --accept TAGS --config C [--only K]
inline void init(int argc, char** argv, const char* program)
{
  State& s = S();
  s.program = program;
  for (int i = 1; i + 1 < argc; i += 2) {
    std::string k = argv[i], v = argv[i + 1];
    if (k == "--out") s.out = v;
    else if (k == "--seed") s.seed = strtoull(v.c_str(), nullptr, 10);
    else if (k == "--cases") s.ncases = atol(v.c_str());
    else if (k == "--config") s.config = v;
    else if (k == "--only") s.only_case = atol(v.c_str());
    else if (k == "--cpu") s.cpu_limit = atoi(v.c_str());
    else if (k == "--budget") s.budget = atof(v.c_str());
    else if (k == "--threads") s.threads = atoi(v.c_str());
    else if (k == "--scale") s.scale = atof(v.c_str());
    else if (k == "--accept") {
      s.accept = 0;
      for (unsigned t = 0; t < 15; t++) {
        size_t p = 0;
        while ((p = v.find(tag_names[t], p)) != std::string::npos) {
          size_t e = p + strlen(tag_names[t]);
          if ((p == 0 || v[p - 1] == ',') && (e == v.size() || v[e] == ',')) s.accept |= 1u << t;
          p = e;
        }
      }
    }
  }
  if (s.out.empty()) s.out = "/tmp/mon_out";
  if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(on_death);
  std::set_terminate(on_terminate);
  struct sigaction sa{}; sa.sa_handler = on_alarm; sigaction(SIGVTALRM, &sa, nullptr);
}

#ifdef MON_THREADS
// every thread runs all cases; even and odd threads in step with each other, so that equal operations coincide
template <class F> void run_cases(F f)
{
  State& m = S();
  struct itimerval tv{}; tv.it_value.tv_sec = m.cpu_limit * 8; setitimer(ITIMER_VIRTUAL, &tv, nullptr);
  std::vector<State*> st(m.threads, nullptr); std::vector<std::thread> ts; std::atomic<int> ready{ 0 };
  for (int t = 0; t < m.threads; t++) ts.emplace_back([&, t] {
    State& s = S(); st[t] = &s;
    s.program = m.program; s.config = m.config; s.out = m.out; s.seed = m.seed + t / 2; s.accept = m.accept & ~LEAK; s.scale = m.scale; s.ncases = m.ncases;
    ready++; while (ready < m.threads) std::this_thread::yield();
    for (long i = 0; i < s.ncases; i++) {
      if (m.only_case >= 0 && i != m.only_case) continue;
      begin_case(i); f(i); end_case();
      if (mix(m.seed + t * 31 + i) % 5 == 0) { struct timespec ns{ 0, (long)(mix(i + t) % 50000) }; nanosleep(&ns, nullptr); }
    }
  });
  for (auto& t : ts) t.join();
  for (State* s : st) {
    m.ops += s->ops; m.checks += s->checks; m.cases += s->cases; m.ignored += s->ignored;
    for (auto& [k, v] : s->counters) m.counters[k] += v;
    m.states.insert(s->states.begin(), s->states.end()); m.hists.insert(s->hists.begin(), s->hists.end());
    if (m.samples.size() < 2) m.samples.insert(m.samples.end(), s->samples.begin(), s->samples.end());
    for (auto& x : s->softs) m.softs.insert(x);
  }
  count("threads", m.threads);
  m.done = true;
  finish(0);
}
#else
template <class F> void run_cases(F f)
{
  State& s = S();
  struct timespec t0, t1; clock_gettime(CLOCK_MONOTONIC, &t0);
  for (long i = 0; i < s.ncases; i++) {
    if (s.only_case >= 0 && i != s.only_case) continue;
    if (s.budget > 0 && i > 0) {
      clock_gettime(CLOCK_MONOTONIC, &t1);
      if ((double)(t1.tv_sec - t0.tv_sec) + (double)(t1.tv_nsec - t0.tv_nsec) * 1e-9 > s.budget) { count("stopped_by_time_budget"); break; }
    }
    begin_case(i);
    f(i);
    end_case();
    if (i % 64 == 63) leaks("a case");
  }
  leaks("the last case");
  s.done = true;
  finish(0);
}
#endif

} // namespace mon

#endif
