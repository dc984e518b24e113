// Element types and allocators with monitors attached.
#ifndef ELEMS_HPP
#define ELEMS_HPP
#include "mon.hpp"
#include <memory>
#include <new>

namespace mon {

// ---- tracked element: registry of live objects, fault injection ------------------
struct Fault : std::runtime_error { Fault() : std::runtime_error("injected") {} };

// one countdown over every point that may fail: element operations, allocator requests, operator new
struct Faults {
  long fuse = -1; unsigned long events = 0, fired = 0; int quiet = 0; bool on = false;
  template <class E> void tick()
  {
    if (!on || quiet) return;
    events++;
    if (fuse > 0 && --fuse == 0) { fuse = -1; fired++; throw E(); }
  }
};
inline MON_TLS Faults F_;
struct Quiet { Quiet() { F_.quiet++; } ~Quiet() { F_.quiet--; } };   // bookkeeping of the monitors never fails

struct Life {
  std::unordered_map<const void*, unsigned long> live;   // address -> construction number
  unsigned long born = 0, died = 0, copies = 0, moves = 0;
  void tick() { F_.tick<Fault>(); }
};
inline Life& L() { static MON_TLS Life* l = new Life; return *l; }

struct Trk {
  long* p;            // owned storage, so that sanitizers see loss and reuse
  const Trk* self;    // detects bitwise relocation
  static constexpr long moved = -777777;

  void reg()
  {
    Quiet q; Life& l = L();
    CHECK(LIFE, !l.live.count(this), "construct-over-live", "object constructed at %p over a live object", (const void*)this);
    l.live[this] = ++l.born;
    self = this;
  }
  void use(const char* how) const
  {
    Life& l = L();
    CHECK(LIFE, l.live.count(this), "use-of-dead", "%s of an object that is not alive at %p", how, (const void*)this);
    CHECK(LIFE, self == this, "relocated", "%s of an object moved without its move constructor", how);
  }
  static long* mk(long v) { Quiet q; return new long(v); }
  Trk() { L().tick(); p = mk(0); reg(); }
  Trk(long v) { L().tick(); p = mk(v); reg(); }
  Trk(const Trk& o) { o.use("copy"); L().tick(); L().copies++; p = mk(*o.p); reg(); }
  Trk(Trk&& o) noexcept { o.use("move"); L().moves++; p = mk(*o.p); *o.p = moved; reg(); }
  Trk& operator=(const Trk& o) { use("assignment"); o.use("assignment from"); L().tick(); L().copies++; *p = *o.p; return *this; }
  Trk& operator=(Trk&& o) noexcept
  { use("move assignment"); o.use("move assignment from"); L().moves++; if (this != &o) { *p = *o.p; *o.p = moved; } return *this; }
  ~Trk()
  {
    Quiet q; Life& l = L();
    auto it = l.live.find(this);
    if (it == l.live.end()) {
      S().checks++;
      viol(LIFE, "destroy-of-dead", "destructor called for an object that is not alive at %p", (const void*)this);
      return;
    }
    l.live.erase(it); l.died++;
    delete p; p = nullptr; self = nullptr;
  }
  long v() const { use("read"); return *p; }
  friend bool operator==(const Trk& a, const Trk& b) { return a.v() == b.v(); }
  friend bool operator<(const Trk& a, const Trk& b) { return a.v() < b.v(); }
};

// the same, whose move may throw (so containers must copy to keep the strong guarantee)
struct TrkCopy : Trk {
  TrkCopy() = default;
  TrkCopy(long v) : Trk(v) {}
  TrkCopy(const TrkCopy& o) : Trk(o) {}
  TrkCopy& operator=(const TrkCopy& o) { Trk::operator=(o); return *this; }
  friend bool operator==(const TrkCopy& a, const TrkCopy& b) { return a.v() == b.v(); }
  friend bool operator<(const TrkCopy& a, const TrkCopy& b) { return a.v() < b.v(); }
};

// copyable, and its moves may throw
struct TrkMove : Trk {
  TrkMove() = default;
  TrkMove(long v) : Trk(v) {}
  TrkMove(const TrkMove& o) : Trk(o) {}
  TrkMove(TrkMove&& o) : Trk((L().tick(), std::move((Trk&)o))) {}
  TrkMove& operator=(const TrkMove& o) { Trk::operator=(o); return *this; }
  TrkMove& operator=(TrkMove&& o) { L().tick(); Trk::operator=(std::move((Trk&)o)); return *this; }
  friend bool operator==(const TrkMove& a, const TrkMove& b) { return a.v() == b.v(); }
  friend bool operator<(const TrkMove& a, const TrkMove& b) { return a.v() < b.v(); }
};

// whose own operator& and comma give something else, as some handle classes' do
struct TrkAmp : Trk {
  TrkAmp() = default;
  TrkAmp(long v) : Trk(v) {}
  static TrkAmp* decoy() { alignas(16) static MON_TLS char raw[sizeof(Trk)]; return (TrkAmp*)raw; }
  TrkAmp* operator&() { return decoy(); }
  const TrkAmp* operator&() const { return decoy(); }
  template <class T> friend int operator,(const TrkAmp&, T&&) { CHECK(LIFE, false, "comma", "an element's own comma operator was called"); return 0; }
  friend bool operator==(const TrkAmp& a, const TrkAmp& b) { return a.v() == b.v(); }
  friend bool operator<(const TrkAmp& a, const TrkAmp& b) { return a.v() < b.v(); }
};

// no default constructor, not assignable from anything but its own kind
struct NoDef {
  long x;
  explicit NoDef(long v) : x(v) {}
  friend bool operator==(const NoDef& a, const NoDef& b) { return a.x == b.x; }
  friend bool operator<(const NoDef& a, const NoDef& b) { return a.x < b.x; }
};

struct Big {
  long x; long pad[20]; long check;
  Big(long v = 0) : x(v), check(~v) { for (int i = 0; i < 20; i++) pad[i] = v + i; }
  bool ok() const { for (int i = 0; i < 20; i++) if (pad[i] != x + i) return false; return check == ~x; }
  friend bool operator==(const Big& a, const Big& b) { return a.x == b.x; }
  friend bool operator<(const Big& a, const Big& b) { return a.x < b.x; }
};

struct alignas(64) Al64 {
  long x; const void* me;
  Al64(long v = 0) : x(v), me(this) { chk(); }
  Al64(const Al64& o) : x(o.x), me(this) { chk(); }
  Al64& operator=(const Al64& o) { chk(); x = o.x; return *this; }
  void chk() const { CHECK(FATAL, (uintptr_t)this % 64 == 0, "alignment", "object placed at %p, which is not 64-byte aligned", (const void*)this); }
  friend bool operator==(const Al64& a, const Al64& b) { return a.x == b.x; }
  friend bool operator<(const Al64& a, const Al64& b) { return a.x < b.x; }
};

// move-only
struct Mo {
  std::unique_ptr<long> p;
  explicit Mo(long v) : p(new long(v)) {}
  Mo() : p(new long(0)) {}
  friend bool operator==(const Mo& a, const Mo& b) { return *a.p == *b.p; }
};

template <class T> struct El {
  static T make(long v) { return T(v); }
  static long get(const T& x) { return (long)x; }
  static constexpr bool defcon = true, tracked = false, copyable = true;
};
template <> struct El<char> {
  static char make(long v) { return (char)v; }
  static long get(const char& x) { return x; }
  static constexpr bool defcon = true, tracked = false, copyable = true;
};
template <> struct El<Trk> {
  static Trk make(long v) { return Trk(v); }
  static long get(const Trk& x) { return x.v(); }
  static constexpr bool defcon = true, tracked = true, copyable = true;
};
template <> struct El<TrkAmp> {
  static TrkAmp make(long v) { return TrkAmp(v); }
  static long get(const TrkAmp& x) { return x.v(); }
  static constexpr bool defcon = true, tracked = true, copyable = true;
};
template <> struct El<TrkCopy> {
  static TrkCopy make(long v) { return TrkCopy(v); }
  static long get(const TrkCopy& x) { return x.v(); }
  static constexpr bool defcon = true, tracked = true, copyable = true;
};
template <> struct El<TrkMove> {
  static TrkMove make(long v) { return TrkMove(v); }
  static long get(const TrkMove& x) { return x.v(); }
  static constexpr bool defcon = true, tracked = true, copyable = true;
};
template <> struct El<NoDef> {
  static NoDef make(long v) { return NoDef(v); }
  static long get(const NoDef& x) { return x.x; }
  static constexpr bool defcon = false, tracked = false, copyable = true;
};
template <> struct El<Big> {
  static Big make(long v) { return Big(v); }
  static long get(const Big& x) { return x.ok() ? x.x : -31337; }
  static constexpr bool defcon = true, tracked = false, copyable = true;
};
template <> struct El<Al64> {
  static Al64 make(long v) { return Al64(v); }
  static long get(const Al64& x) { x.chk(); return x.me == &x ? x.x : -31337; }
  static constexpr bool defcon = true, tracked = false, copyable = true;
};
template <> struct El<Mo> {
  static Mo make(long v) { return Mo(v); }
  static long get(const Mo& x) { return x.p ? *x.p : -5; }
  static constexpr bool defcon = true, tracked = false, copyable = false;
};
template <> struct El<std::string> {
  static std::string make(long v) { return v == 0 ? std::string() : (v % 3 ? "s" : "a long string that is not stored in place ") + std::to_string(v); }
  static long get(const std::string& x)
  {
    if (x.empty()) return 0;
    size_t i = x.find_last_not_of("0123456789-");
    return i == std::string::npos || i + 1 >= x.size() ? -999 : atol(x.c_str() + i + 1);
  }
  static constexpr bool defcon = true, tracked = false, copyable = true;
};

// ---- allocator registry ---------------------------------------------------------
struct Block { size_t n, size; int id; };
struct AllocReg {
  std::unordered_map<const void*, Block> out;
  unsigned long allocs = 0, deallocs = 0;
};
inline AllocReg& A() { static MON_TLS AllocReg* a = new AllocReg; return *a; }

template <class T> struct MonAlloc {
  using value_type = T;
  using propagate_on_container_swap = std::true_type; using propagate_on_container_move_assignment = std::true_type; using is_always_equal = std::false_type;
  int id = 0;
  MonAlloc() = default;
  explicit MonAlloc(int i) : id(i) {}
  template <class U> MonAlloc(const MonAlloc<U>& o) : id(o.id) {}
  T* allocate(size_t n)
  {
    AllocReg& a = A();
    F_.tick<std::bad_alloc>();
    Quiet q;
    T* p = alignof(T) > alignof(std::max_align_t)
         ? (T*)::operator new(n * sizeof(T), std::align_val_t(alignof(T)))
         : (T*)::operator new(n * sizeof(T));
    // fresh storage holds no useful value
    memset((void*)p, 0xA7, n * sizeof(T));
    a.out[p] = Block{ n, sizeof(T), id };
    a.allocs++;
    return p;
  }
  void deallocate(T* p, size_t n)
  {
    Quiet q; AllocReg& a = A();
    auto it = a.out.find(p);
    S().checks++;
    if (it == a.out.end()) { viol(ALLOC, "dealloc-unknown", "storage %p returned which the allocator did not hand out, or twice", (void*)p); return; }
    if (it->second.n != n || it->second.size != sizeof(T))
      viol(ALLOC, "dealloc-size", "storage for %zu objects of %zu bytes returned as %zu objects of %zu bytes",
           it->second.n, it->second.size, n, sizeof(T));
    if (it->second.id != id)
      viol(ALLOC, "dealloc-other", "storage of allocator %d returned to allocator %d", it->second.id, id);
    a.out.erase(it); a.deallocs++;
    if (alignof(T) > alignof(std::max_align_t)) ::operator delete((void*)p, std::align_val_t(alignof(T)));
    else ::operator delete((void*)p);
  }
  template <class U> friend bool operator==(const MonAlloc& x, const MonAlloc<U>& y) { return x.id == y.id; }
};

// no object alive and no storage out: called when every container is gone
inline void all_gone(const char* where)
{
  CHECK(LIFE, L().live.empty(), "objects-left", "%zu elements still alive after %s", L().live.size(), where);
  CHECK(ALLOC | LEAK, A().out.empty(), "storage-left", "%zu blocks not returned to the allocator after %s", A().out.size(), where);
  L().live.clear(); A().out.clear();
}
inline void live_is(size_t n, const char* where)
{
  CHECK(LIFE, L().live.size() == n, "live-count", "%zu elements alive after %s; the containers hold %zu",
        L().live.size(), where, n);
}

inline long next_val()
{
  switch (R.below(4)) {
    case 0: return R.range(0, 5);
    case 1: return 1000 + R.range(0, 40);
    default: return 2000 + (++S().val_ctr % 900000);
  }
}

} // namespace mon
#endif
