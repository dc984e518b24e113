// Smart pointers: an ownership ledger predicts every use count and every destruction, at the operation
// that causes it; the real objects and deleters write an event log that must equal the prediction.
#include "cest/memory.hpp"
#include "cest/vector.hpp"
#include "mon.hpp"
using namespace mon;
template <class T> using SP = cest::shared_ptr<T>;
template <class T> using UP = cest::unique_ptr<T>;

static MON_TLS std::vector<long> ev, want;          // actual and predicted destruction events
static MON_TLS long live_objs, live_dels, next_id;
enum { DEL = 1000000, FDEL = 2000000, DTOR = 0 };

struct Node;
struct Base { long id; explicit Base(long i) : id(i) { live_objs++; } ~Base() { live_objs--; id = -99; } };
struct Node : Base {
  long val, arr[3]; std::string s; SP<Node> next;
  explicit Node(long i) : Base(i), val(i * 10), arr{ i, i + 1, i + 2 }, s("payload that does not fit in place " + std::to_string(i)) {}
  ~Node() { ev.push_back(DTOR + id); }   // before the members go
  bool ok(long i) const { return id == i && val == i * 10 && arr[2] == i + 2 && s.size() > 30; }
};
struct Del {                                 // counts its own copies; calls are logged
  long tag; long* heap;
  explicit Del(long t) : tag(t), heap(new long(t)) { live_dels++; }
  Del(const Del& o) : tag(o.tag), heap(new long(*o.heap)) { live_dels++; }
  ~Del() { live_dels--; delete heap; heap = nullptr; }
  void operator()(Node* p) const { ev.push_back(DEL + (p ? p->id : 0)); delete p; }
};
static void fdel(Node* p) { ev.push_back(FDEL + p->id); delete p; }
static MON_TLS long unrelated = 5;

struct SharedW {
  struct G { long id, owners = 0; int del; bool null = false; long next = -1; const void* np = nullptr; bool dead = false; };
  std::vector<G> g;                          // groups, numbered from 0; Node ids are group + 1
  template <class T> struct Slot { SP<T>* p; long grp = -1; T* raw = nullptr; };
  std::vector<Slot<Node>> n; std::vector<Slot<long>> a; std::vector<Slot<Base>> b;
  cest::vector<SP<Node>> vec; std::vector<std::pair<long, Node*>> mvec;

  void acq(long k) { if (k >= 0) g[k].owners++; }
  void rel(long k)
  {
    if (k < 0) return;
    if (--g[k].owners) return;
    g[k].dead = true;
    if (g[k].del == 1) want.push_back(DEL + (g[k].null ? 0 : g[k].id));
    if (g[k].del == 2) want.push_back(FDEL + g[k].id);
    if (!g[k].null) { want.push_back(DTOR + g[k].id); rel(g[k].next); }
  }
  template <class T> void set(Slot<T>& x, long k, T* raw) { acq(k); long o = x.grp; x.grp = k; x.raw = raw; rel(o); }

  size_t seen_ev = 0;                        // events compared so far
  // anyorder: a vector of pointers may let go of its elements in any order
  void events(const char* w, bool anyorder = false)
  {
    if (anyorder && ev != want && ev.size() == want.size() && seen_ev <= ev.size()) {
      auto e = ev, v = want; std::sort(e.begin() + seen_ev, e.end()); std::sort(v.begin() + seen_ev, v.end());
      if (e == v) want = ev;
    }
    seen_ev = ev.size();
    if (ev != want) {
      size_t i = 0; while (i < ev.size() && i < want.size() && ev[i] == want[i]) i++;
      CHECK(MODEL | LIFE, false, "destruction", "%s: %zu destruction events, %zu expected; first difference at %zu: got %ld, expected %ld", w,
            ev.size(), want.size(), i, i < ev.size() ? ev[i] : -1, i < want.size() ? want[i] : -1);
    }
    S().checks++;
  }
  template <class T> void slot(Slot<T>& x, const char* w, int i)
  {
    const SP<T>& p = *x.p; long uc = x.grp < 0 ? 0 : g[x.grp].owners;
    CHECK(MODEL, p.use_count() == uc, "use-count", "%s: slot %d: use count %ld, there are %ld owners", w, i, p.use_count(), uc);
    CHECK(MODEL, p.get() == x.raw, "get", "%s: slot %d: get() is not the stored pointer", w, i);
    CHECK(MODEL, (p ? true : false) == (x.raw != nullptr), "bool", "%s: slot %d: conversion to bool", w, i);
    if (x.raw) {
      CHECK(MODEL, &*p == x.raw && p.operator->() == x.raw, "deref", "%s: slot %d: dereference", w, i);
      if constexpr (std::is_same_v<T, Node>) { if (x.grp >= 0) CHECK(MODEL | LIFE, p->ok(g[x.grp].id), "object", "%s: slot %d: the object is not intact", w, i); }
    }
  }
  template <class T, class U> void cmp(Slot<T>& x, Slot<U>& y)
  {
    if constexpr (std::is_same_v<T, U>) {
      auto &p = *x.p, &q = *y.p; auto u = std::less<T*>();
      bool e = x.raw == y.raw, l = u(x.raw, y.raw), h = u(y.raw, x.raw);
      CHECK(MODEL | CMP, (p == q) == e && (p != q) == !e, "equal", "comparison of shared pointers: == is %d, != is %d, pointers equal %d", p == q, p != q, e);
      CHECK(MODEL | CMP, (p < q) == l && (p > q) == h && (p <= q) == !h && (p >= q) == !l, "order", "ordering of shared pointers is not that of the pointers");
    }
  }
  void observe(const char* w)
  {
    events(w);
    for (size_t i = 0; i < n.size(); i++) slot(n[i], w, i);
    for (size_t i = 0; i < a.size(); i++) slot(a[i], w, 10 + i);
    for (size_t i = 0; i < b.size(); i++) slot(b[i], w, 20 + i);
    CHECK(MODEL, vec.size() == mvec.size(), "vector", "vector of pointers");
    for (size_t i = 0; i < mvec.size(); i++) CHECK(MODEL, vec[i].get() == mvec[i].second && vec[i].use_count() == (mvec[i].first < 0 ? 0 : g[mvec[i].first].owners), "use-count", "%s: pointer %zu in a vector: use count %ld", w, i, vec[i].use_count());
    cmp(n[R.below(n.size())], n[R.below(n.size())]); cmp(a[R.below(a.size())], a[R.below(a.size())]);
    uint64_t h = 0; for (auto& x : n) h = mix(h + (x.grp < 0 ? 0 : 1 + g[x.grp].owners)); for (auto& x : a) h = mix(h + (x.grp < 0 ? x.raw != nullptr : 2 + g[x.grp].owners)); state(h);
  }
  // a new pointer value: (group, raw pointer, the pointer)
  SP<Node>* fresh(long& k, Node*& raw)
  {
    G x; x.id = g.size() + 1; x.del = R.below(4); raw = new Node(x.id);
    SP<Node>* r;
    if (x.del == 3) { delete raw; ev.pop_back(); x.null = true; raw = nullptr; x.del = 1; r = new SP<Node>((Node*)nullptr, Del(x.id)); }
    else if (x.del == 2) r = new SP<Node>(raw, &fdel);
    else if (x.del == 1) r = new SP<Node>(raw, Del(x.id));
    else r = new SP<Node>(raw);
    k = g.size(); g.push_back(x);
    return r;
  }
  static long by_value(SP<Node> p) { return p.use_count(); }
  static SP<Node> through(SP<Node> p) { SP<Node> q = p; return q; }

  template <class T> void generic(Slot<T>& x, Slot<T>& y)
  {
    switch (R.below(8)) {
      case 0: op("copy_assign", x.grp, y.grp, &x == &y); { SP<T>& r = *x.p = *y.p; CHECK(MODEL, &r == x.p, "result", "assignment returns another pointer"); } set(x, y.grp, y.raw); break;
      case 1: op("move_assign", x.grp, y.grp, &x == &y); *x.p = std::move(*y.p);
        if (&x != &y) { long o = x.grp; x.grp = y.grp; x.raw = y.raw; y.grp = -1; y.raw = nullptr; rel(o); } break;
      case 2: op("copy_construct", x.grp, y.grp); { SP<T>* t = new SP<T>(*y.p); acq(y.grp); long k = y.grp; T* raw = y.raw; delete x.p; rel(x.grp); x = { t, k, raw }; } break;
      case 3: op("move_construct", x.grp, y.grp); { SP<T>* t = new SP<T>(std::move(*y.p)); long k = y.grp; T* raw = y.raw; y.grp = -1; y.raw = nullptr; delete x.p; rel(x.grp); x = { t, k, raw }; } break;
      case 4: op("assign_null", x.grp); *x.p = nullptr; set(x, -1, (T*)nullptr); break;
      case 5: op("assign_empty", x.grp); { SP<T> e; *x.p = e; CHECK(MODEL, e.use_count() == 0 && !e, "empty", "an empty pointer changed"); } set(x, -1, (T*)nullptr); break;
      case 6: op("destroy", x.grp); delete x.p; rel(x.grp); x = { R.chance(1, 2) ? new SP<T>() : new SP<T>(nullptr), -1, nullptr }; break;
      default: op("chain_copies", x.grp, y.grp); { SP<T> t1(*y.p), t2(t1), t3; t3 = t2; acq(y.grp); acq(y.grp); acq(y.grp); slot(y, "copies alive", 0); *x.p = t3; set(x, y.grp, y.raw); slot(x, "copies alive", 1); } rel(y.grp); rel(y.grp); rel(y.grp); break;
    }
  }
  void node_op()
  {
    Slot<Node>& x = n[R.below(n.size())]; Slot<Node>& y = R.chance(1, 4) ? x : n[R.below(n.size())];
    switch (R.below(13)) {
      case 0: case 1: { long k; Node* raw; op("new", x.grp); SP<Node>* t = fresh(k, raw); acq(k); if (R.chance(1, 2)) { *x.p = *t; set(x, k, raw); delete t; rel(k); } else { delete x.p; rel(x.grp); x = { t, k, raw }; } break; }
      case 2: { long k; Node* raw; op("assign_temporary", x.grp); SP<Node>* t = fresh(k, raw); acq(k); *x.p = std::move(*t); long o = x.grp; x.grp = k; x.raw = raw; rel(o); delete t; break; }
      case 3: if (x.raw && x.grp >= 0) { op("x=x->next", x.grp); long k = g[x.grp].next; Node* raw = (Node*)g[x.grp].np; *x.p = x.p->get()->next; set(x, k, raw); } break;
      case 4: if (x.raw && x.grp >= 0) { op("x=move(x->next)", x.grp); long k = g[x.grp].next; Node* raw = (Node*)g[x.grp].np; long me = x.grp; *x.p = std::move(x.p->get()->next); g[me].next = -1; g[me].np = nullptr; long o = x.grp; x.grp = k; x.raw = raw; rel(o); } break;
      case 5: case 6: // link to an older node only, so that no cycle arises
        if (x.raw && x.grp >= 0 && y.grp < x.grp && (y.grp >= 0 || !y.raw)) { op("x->next=y", x.grp, y.grp); (*x.p)->next = *y.p; acq(y.grp); long o = g[x.grp].next; g[x.grp].next = y.grp; g[x.grp].np = y.raw; rel(o); } break;
      case 7: { op("by_value", y.grp); long c = by_value(*y.p); CHECK(MODEL, c == (y.grp < 0 ? 0 : g[y.grp].owners + 1), "use-count", "inside a call by value the use count is %ld", c); *x.p = through(*y.p); set(x, y.grp, y.raw); break; }
      case 8: { Slot<long>& z = a[R.below(a.size())]; op("alias", z.grp, x.grp); // share a part of the object, or something unrelated
        long* raw = nullptr; if (x.raw && R.chance(4, 5)) raw = R.chance(1, 2) ? &x.raw->val : &x.raw->arr[R.below(3)]; else if (R.chance(1, 2)) raw = &unrelated;
        if (R.chance(1, 2)) { *z.p = SP<long>(*x.p, raw); set(z, x.grp, raw); } else { SP<long>* t = new SP<long>(*x.p, raw); acq(x.grp); delete z.p; rel(z.grp); z = { t, x.grp, raw }; } break; }
      case 9: { Slot<long>& z = a[R.below(a.size())]; if (z.grp >= 0 && !g[z.grp].null) { op("alias_back", x.grp, z.grp); // from a part to the whole
          Node* whole = nullptr; for (auto& m : n) if (m.grp == z.grp && m.raw) whole = m.raw; if (whole) { *x.p = SP<Node>(*z.p, whole); set(x, z.grp, whole); } } break; }
      case 10: if (x.grp >= 0) { op("get_deleter", x.grp); auto* d = get_deleter<Del>(*x.p); CHECK(MODEL, (d != nullptr) == (g[x.grp].del == 1), "get-deleter", "get_deleter found %s deleter", d ? "a" : "no"); if (d) CHECK(MODEL, d->tag == g[x.grp].id && *d->heap == d->tag, "get-deleter", "get_deleter found another deleter");
          auto* f = get_deleter<void (*)(Node*)>(*x.p); CHECK(MODEL, (f != nullptr) == (g[x.grp].del == 2) && (!f || *f == &fdel), "get-deleter", "get_deleter for a function"); } break;
      case 11: // pointers stored in a container
        switch (R.below(4)) {
          case 0: op("vec_push", x.grp); vec.push_back(*x.p); acq(x.grp); mvec.push_back({ x.grp, x.raw }); break;
          case 1: if (vec.size()) { size_t i = R.below(vec.size()); op("vec_erase", i); vec.erase(vec.begin() + i, vec.begin() + i + 1); long k = mvec[i].first; mvec.erase(mvec.begin() + i); rel(k); } break;
          case 2: if (vec.size()) { op("vec_pop"); vec.pop_back(); long k = mvec.back().first; mvec.pop_back(); rel(k); } break;
          default: if (vec.size()) { size_t i = R.below(vec.size()); op("vec_read", i); *x.p = vec[i]; set(x, mvec[i].first, mvec[i].second); } break;
        } break;
      default: generic(x, y);
    }
  }
  void base_op()
  {
    Slot<Base>& x = b[R.below(b.size())]; Slot<Base>& y = b[R.below(b.size())];
    switch (R.below(4)) {
      case 0: { op("base_new"); // a base pointer made from a pointer to a derived object: the derived object must be destroyed
        G t; t.id = g.size() + 1; t.del = R.chance(1, 3) ? 1 : 0; long k = g.size(); g.push_back(t); Node* raw = new Node(t.id);
        if (t.del) *x.p = SP<Base>(raw, Del(t.id)); else *x.p = SP<Base>(raw);
        set(x, k, (Base*)raw); break; }
      case 1: { Slot<Node>& z = n[R.below(n.size())]; op("base_alias", z.grp); *x.p = SP<Base>(*z.p, z.raw); set(x, z.grp, (Base*)z.raw); break; }
      default: generic(x, y);
    }
  }
  void run(long)
  {
    ev.clear(); want.clear(); live_objs = live_dels = 0;
    { SP<Node> e; SP<Node> e2(nullptr); SP<Node> e3(e), e4(std::move(e2)); e4 = e3; CHECK(MODEL, e4.use_count() == 0 && !e4.get(), "empty", "copies of an empty pointer are not empty"); }
    for (int i = 5; i--;) n.push_back({ new SP<Node>(), -1, nullptr });
    for (int i = 3; i--;) a.push_back({ new SP<long>(), -1, nullptr });
    for (int i = 2; i--;) b.push_back({ new SP<Base>(), -1, nullptr });
    for (int st = R.range(20, 220); st--;) {
      unsigned k = R.below(10);
      if (k < 7) node_op(); else if (k < 9) generic(a[R.below(a.size())], a[R.below(a.size())]); else base_op();
      observe("after");
    }
    // let go of everything, in random order
    op("teardown");
    while (!n.empty() || !a.empty() || !b.empty()) {
      auto drop = [&](auto& v) { if (v.empty()) return; size_t i = R.below(v.size()); delete v[i].p; rel(v[i].grp); v.erase(v.begin() + i); };
      switch (R.below(3)) { case 0: drop(n); break; case 1: drop(a); break; default: drop(b); }
      events("teardown");
      if (R.chance(1, 4) && vec.size()) { vec.clear(); for (auto& m : mvec) rel(m.first); mvec.clear(); events("clear of the vector", true); }
    }
    for (size_t i = 0; i < mvec.size(); i++) rel(mvec[i].first);
    { cest::vector<SP<Node>> t; vec = t; } mvec.clear();
    events("the end", true);
    for (auto& x : g) CHECK(MODEL | LIFE, x.dead, "leak", "group %ld never ended", x.id);
    CHECK(MODEL | LIFE | LEAK, live_objs == 0 && live_dels == 0, "left", "%ld objects and %ld deleters left", live_objs, live_dels);
    count("objects_managed", g.size()); count("destruction_events", ev.size());
  }
};

// ---- arrays ------------------------------------------------------------------------
struct AElem { long v; long* h; AElem() : v(7), h(new long(7)) { live_objs++; } ~AElem() { live_objs--; delete h; h = nullptr; ev.push_back(1); } AElem(const AElem&) = delete; };
struct ADel { long* calls; void operator()(AElem* p) const { ++*calls; delete[] p; } };
static void arrays(long)
{
  ev.clear(); live_objs = 0; long calls = 0, wantcalls = 0;
  struct S1 { SP<AElem[]>* p; long grp; };
  std::vector<long> owners, sz, kind; std::vector<AElem*> raw; std::vector<S1> s;
  for (int i = 0; i < 4; i++) s.push_back({ new SP<AElem[]>(), -1 });
  long livewant = 0;
  auto rel = [&](long k) { if (k >= 0 && !--owners[k]) { livewant -= sz[k]; if (kind[k]) wantcalls++; } };
  for (int st = R.range(10, 60); st--;) {
    auto& x = s[R.below(4)]; auto& y = s[R.below(4)];
    switch (R.below(6)) {
      case 0: case 1: { long n = 1 + R.below(6); bool d = R.chance(1, 2); op("array_new", n, d); AElem* p = new AElem[n]; livewant += n; owners.push_back(1); sz.push_back(n); kind.push_back(d); raw.push_back(p);
        if (d) *x.p = SP<AElem[]>(p, ADel{ &calls }); else *x.p = SP<AElem[]>(p); long o = x.grp; x.grp = owners.size() - 1; rel(o); break; }
      case 2: op("array_assign", x.grp, y.grp); *x.p = *y.p; { if (y.grp >= 0) owners[y.grp]++; long o = x.grp; x.grp = y.grp; rel(o); } break;
      case 3: op("array_copy", x.grp, y.grp); { auto* t = new SP<AElem[]>(*y.p); if (y.grp >= 0) owners[y.grp]++; long k = y.grp; delete x.p; rel(x.grp); x = { t, k }; } break;
      case 4: op("array_null", x.grp); *x.p = nullptr; rel(x.grp); x.grp = -1; break;
      default: op("array_move", x.grp, y.grp); *x.p = std::move(*y.p); if (&x != &y) { long o = x.grp; x.grp = y.grp; y.grp = -1; rel(o); } break;
    }
    CHECK(MODEL | LIFE, live_objs == livewant, "array-live", "%ld array elements alive, %ld expected", live_objs, livewant);
    CHECK(MODEL, calls == wantcalls, "array-deleter", "the deleters were called %ld times, %ld expected", calls, wantcalls);
    for (auto& z : s) {
      CHECK(MODEL, z.p->use_count() == (z.grp < 0 ? 0 : owners[z.grp]), "use-count", "array: use count %ld", z.p->use_count());
      if (z.grp >= 0) for (long i = 0; i < sz[z.grp]; i++) CHECK(MODEL, &(*z.p)[i] == raw[z.grp] + i && *(*z.p)[i].h == 7, "array-index", "array element %ld", i);
    }
  }
  for (auto& z : s) { delete z.p; rel(z.grp); CHECK(MODEL | LIFE, live_objs == livewant, "array-live", "%ld array elements alive, %ld expected", live_objs, livewant); }
  CHECK(MODEL | LIFE, live_objs == 0 && calls == wantcalls, "array-left", "%ld elements left, %ld deleter calls of %ld", live_objs, calls, wantcalls);
}

// ---- unique_ptr ----------------------------------------------------------------------
struct UB { long id; std::string s; explicit UB(long i) : id(i), s("some text that is kept on the heap " + std::to_string(i)) { live_objs++; } virtual ~UB() { id = -9; live_objs--; } };
struct UN : UB { UP<UN> next; long extra; explicit UN(long i, long e = 3) : UB(i), extra(e) {} ~UN() { ev.push_back(id); } };
struct UW {
  struct Slot { UP<UN>* p; UN* raw = nullptr; };
  std::map<UN*, UN*> nx;                     // the next of each live node
  std::vector<Slot> s; struct BS { UP<UB>* p; UB* raw = nullptr; }; std::vector<BS> b; std::vector<UN*> loose;
  void kill(UN* p) { while (p) { want.push_back(p->id); UN* q = nx[p]; nx.erase(p); p = q; } }
  // predictions are made before the operation, while the ids can be read
  void observe(const char* w)
  {
    CHECK(MODEL | LIFE, ev == want, "destruction", "%s: %zu destructions, %zu expected (last %ld, expected %ld)", w, ev.size(), want.size(), ev.empty() ? -1 : ev.back(), want.empty() ? -1 : want.back());
    for (auto& x : s) {
      const UP<UN>& p = *x.p;
      CHECK(MODEL, p.get() == x.raw && (p ? true : false) == (x.raw != nullptr) && p.operator->() == x.raw, "get", "%s: the stored pointer is not the expected one", w);
      if (x.raw) { CHECK(MODEL, &*p == x.raw && &**x.p == x.raw && p->id > 0 && p->s.size() > 30, "object", "%s: the object is not intact", w); for (UN* q = x.raw; q; q = nx[q]) CHECK(MODEL, q->next.get() == nx[q], "next", "%s: chain", w); }
    }
    for (auto& x : b) CHECK(MODEL, x.p->get() == x.raw, "get", "%s: base pointer", w);
    auto &x = s[R.below(s.size())], &y = s[R.below(s.size())]; auto& p = *x.p; auto& q = *y.p; std::less<UN*> u; bool e = x.raw == y.raw, l = u(x.raw, y.raw), h = u(y.raw, x.raw);
    CHECK(MODEL | CMP, (p == q) == e && (p != q) == !e && (p < q) == l && (p > q) == h && (p <= q) == !h && (p >= q) == !l, "compare", "%s: comparison of unique pointers is not that of the pointers", w);
    uint64_t hsh = 0; for (auto& z : s) { int d = 0; for (UN* t = z.raw; t; t = nx[t]) d++; hsh = mix(hsh + d); } state(hsh, loose.size());
  }
  UN* mk() { UN* p = new UN(++next_id); nx[p] = nullptr; return p; }
  static UP<UN> pass(UP<UN> p) { return p; }
  void run(long)
  {
    ev.clear(); want.clear(); live_objs = 0;
    for (int i = 0; i < 4; i++) s.push_back({ new UP<UN>() });
    for (int i = 0; i < 2; i++) b.push_back({ new UP<UB>() });
    for (int st = R.range(20, 160); st--;) {
      Slot& x = s[R.below(4)]; Slot& y = R.chance(1, 5) ? x : s[R.below(4)];
      switch (R.below(15)) {
        case 0: { op("reset_new"); UN* n = mk(); kill(x.raw); x.p->reset(n); x.raw = n; break; }
        case 1: op("reset"); kill(x.raw); x.p->reset(); x.raw = nullptr; break;
        case 2: { op("release"); UN* p = x.p->release(); CHECK(MODEL, p == x.raw, "release", "release returned another pointer"); if (p) loose.push_back(p); x.raw = nullptr; break; }
        case 3: if (!loose.empty()) { op("adopt"); UN* p = loose.back(); loose.pop_back(); kill(x.raw); if (R.chance(1, 2)) x.p->reset(p); else *x.p = UP<UN>(p); x.raw = p; } break;
        case 4: case 5: op("move_assign", &x == &y); if (&x != &y) { kill(x.raw); *x.p = std::move(*y.p); x.raw = y.raw; y.raw = nullptr; CHECK(MODEL, !*y.p && y.p->get() == nullptr, "moved-from", "a moved-from unique pointer is not empty"); } else { UP<UN>& self = *y.p; *x.p = std::move(self); } break;
        case 6: { op("move_construct"); UP<UN>* t = new UP<UN>(std::move(*y.p)); UN* raw = y.raw; CHECK(MODEL, y.p->get() == nullptr, "moved-from", "a moved-from unique pointer is not empty"); y.raw = nullptr; kill(x.raw); delete x.p; x = { t, raw }; break; }
        case 7: op("destroy"); kill(x.raw); delete x.p; x = { R.chance(1, 2) ? new UP<UN>() : new UP<UN>(nullptr), nullptr }; break;
        case 8: { op("make_unique"); kill(x.raw); long e = R.below(100); *x.p = cest::make_unique<UN>(++next_id, e); x.raw = x.p->get(); CHECK(MODEL, x.raw && x.raw->id == next_id && x.raw->extra == e, "make", "make_unique built another object"); nx[x.raw] = nullptr; break; }
        case 9: if (x.raw) { op("x=move(x->next)"); UN* n = nx[x.raw]; nx[x.raw] = nullptr; kill(x.raw); *x.p = std::move(x.p->get()->next); x.raw = n; } break;
        case 10: if (x.raw && &x != &y) { op("push_front"); // a new node in front, as in a linked list
            UN* n = mk(); n->next = std::move(*x.p); nx[n] = x.raw; *x.p = UP<UN>(n); x.raw = n; } break;
        case 11: if (x.raw && y.raw && &x != &y) { op("splice"); kill(nx[x.raw]); nx[x.raw] = y.raw; (*x.p)->next = std::move(*y.p); y.raw = nullptr; } break;
        case 12: { op("through_call"); *x.p = pass(std::move(*x.p)); break; }
        case 13: { op("to_base"); auto& z = b[R.below(2)]; UB* o = z.raw; if (o) kill((UN*)o); if (R.chance(1, 2)) { *z.p = UP<UB>(std::move(*x.p)); } else { UP<UB>* t = new UP<UB>(std::move(*x.p)); delete z.p; z.p = t; } z.raw = x.raw; x.raw = nullptr; break; }
        default: if (x.raw) { op("write"); (*x.p)->extra = st; const UP<UN>& c = *x.p; CHECK(MODEL, (*c).extra == st, "deref", "const dereference shows another object"); } break;
      }
      observe("after");
    }
    op("teardown");
    while (!s.empty()) { size_t i = R.below(s.size()); kill(s[i].raw); delete s[i].p; s.erase(s.begin() + i); CHECK(MODEL | LIFE, ev == want, "destruction", "teardown: %zu destructions, %zu expected", ev.size(), want.size()); }
    for (auto& z : b) { if (z.raw) kill((UN*)z.raw); delete z.p; CHECK(MODEL | LIFE, ev == want, "destruction", "teardown of base pointers"); }
    CHECK(MODEL | LIFE, live_objs == [&] { long c = 0; for (auto* p : loose) for (UN* q = p; q; q = nx[q]) c++; return c; }(), "left", "%ld objects alive, %zu were released by hand", live_objs, loose.size());
    for (auto* p : loose) delete p;
    CHECK(MODEL | LIFE, live_objs == 0, "left", "%ld objects left", live_objs);
    count("objects_managed", ev.size());
  }
};

// ---- objects whose destructors reach back to pointers ---------------------------------
// Each object carries a script that its destructor executes: it reads the pointers, lets go of some, moves or copies
// others. The model executes the same script at the same point: old object gone after the new pointer is in place.
struct RS { int what; int a, b; };
struct RN; static MON_TLS std::vector<SP<RN>*> rs; static MON_TLS std::vector<UP<RN>*> ru; static MON_TLS std::vector<long> seen, seenw; static MON_TLS bool quietdtor;
static void look(long v) { seen.push_back(v); }
struct RN { long id; std::vector<RS> script; long* heap; RN(long i) : id(i), heap(new long(i)) { live_objs++; }
  ~RN();
};
RN::~RN()
{
  live_objs--; look(1000 + id); if (*heap != id) look(-1); delete heap; heap = nullptr; std::vector<RS> sc; sc.swap(script);
  if (quietdtor) return;
  for (auto& x : sc) switch (x.what) {
    case 0: look(rs[x.a]->get() ? rs[x.a]->get()->id : 0); look(rs[x.a]->use_count()); break;
    case 1: *rs[x.a] = nullptr; break;
    case 2: *rs[x.a] = *rs[x.b]; break;
    case 3: look(ru[x.a]->get() ? ru[x.a]->get()->id : 0); break;
    case 4: ru[x.a]->reset(); break;
    case 5: *ru[x.a] = std::move(*ru[x.b]); break;
    default: { UP<RN> t(ru[x.a]->release()); look(t ? t->id : 0); ru[x.b]->reset(t.release()); break; }
  }
}
struct ReW {
  struct O { std::vector<RS> script; long owners = 0; };
  std::vector<O> o; std::vector<long> ms, mu; // what each shared, each unique pointer holds (object number, -1: nothing)
  void dies(long k)
  {
    seenw.push_back(1000 + k); auto sc = o[k].script; o[k].script.clear();
    if (quietdtor) return;
    for (auto& x : sc) switch (x.what) {
      case 0: seenw.push_back(ms[x.a] < 0 ? 0 : ms[x.a]); seenw.push_back(ms[x.a] < 0 ? 0 : o[ms[x.a]].owners); break;
      case 1: sets(x.a, -1); break;
      case 2: sets(x.a, ms[x.b]); break;
      case 3: seenw.push_back(mu[x.a] < 0 ? 0 : mu[x.a]); break;
      case 4: setu(x.a, -1); break;
      case 5: { long n = mu[x.b]; mu[x.b] = -1; setu(x.a, n); break; }
      default: { long n = mu[x.a]; mu[x.a] = -1; seenw.push_back(n < 0 ? 0 : n); setu(x.b, n); break; }
    }
  }
  void rel(long k) { if (k >= 0 && !--o[k].owners) dies(k); }
  void sets(int i, long k) { if (k >= 0) o[k].owners++; long old = ms[i]; ms[i] = k; rel(old); }
  void setu(int i, long k) { long old = mu[i]; mu[i] = k; if (old >= 0) dies(old); }
  long make(RN*& p)
  {
    p = new RN((long)o.size()); O x; for (int n = R.below(4); n--;) { RS q{ (int)R.below(7), (int)R.below(4), (int)R.below(4) }; x.script.push_back(q); } p->script = x.script; o.push_back(x); return (long)o.size() - 1;
  }
  void check(const char* w)
  {
    if (seen != seenw) { size_t i = 0; while (i < seen.size() && i < seenw.size() && seen[i] == seenw[i]) i++;
      CHECK(MODEL | LIFE, false, "reentrant", "%s: what the destructors saw and the order of destruction differ at event %zu: %ld, expected %ld", w, i, i < seen.size() ? seen[i] : -2, i < seenw.size() ? seenw[i] : -2); }
    for (int i = 0; i < 4; i++) {
      CHECK(MODEL, (rs[i]->get() ? rs[i]->get()->id : -1) == ms[i] && rs[i]->use_count() == (ms[i] < 0 ? 0 : o[ms[i]].owners), "reentrant", "%s: shared pointer %d", w, i);
      CHECK(MODEL, (ru[i]->get() ? ru[i]->get()->id : -1) == mu[i], "reentrant", "%s: unique pointer %d", w, i);
    }
    state(seen.size(), live_objs);
  }
  void run(long)
  {
    live_objs = 0; quietdtor = false; seen.clear(); seenw.clear(); o.resize(1); // number 0 is not used
    rs.clear(); ru.clear(); for (int i = 0; i < 4; i++) { rs.push_back(new SP<RN>()); ru.push_back(new UP<RN>()); ms.push_back(-1); mu.push_back(-1); }
    for (int st = R.range(10, 90); st--;) {
      int a = R.below(4), b = R.below(4); RN* p; long k;
      switch (R.below(12)) {
        case 0: case 1: op("s_new", a); k = make(p); { SP<RN> t(p); o[k].owners++; *rs[a] = t; sets(a, k); } rel(k); break;
        case 2: op("s_temp", a); k = make(p); *rs[a] = SP<RN>(p); sets(a, k); break;
        case 3: op("s_copy", a, b); *rs[a] = *rs[b]; sets(a, ms[b]); break;
        case 4: op("s_null", a); *rs[a] = nullptr; sets(a, -1); break;
        case 5: op("s_move", a, b); if (a != b) { *rs[a] = std::move(*rs[b]); k = ms[b]; ms[b] = -1; long old = ms[a]; ms[a] = k; rel(old); } break;
        case 6: case 7: op("u_reset_new", a); k = make(p); ru[a]->reset(p); setu(a, k); break;
        case 8: op("u_temp", a); k = make(p); *ru[a] = UP<RN>(p); setu(a, k); break;
        case 9: op("u_reset", a); ru[a]->reset(); setu(a, -1); break;
        default: op("u_move", a, b); *ru[a] = std::move(*ru[b]); if (a != b) { k = mu[b]; mu[b] = -1; setu(a, k); } else { k = mu[b]; mu[b] = -1; setu(a, k); } break;
      }
      check("after");
    }
    op("teardown");
    for (int i = 0; i < 4; i++) { *rs[i] = nullptr; sets(i, -1); ru[i]->reset(); setu(i, -1); check("teardown"); }
    quietdtor = true;
    for (int i = 0; i < 4; i++) { delete rs[i]; long k = ms[i]; ms[i] = -1; rel(k); delete ru[i]; k = mu[i]; mu[i] = -1; if (k >= 0) dies(k); CHECK(MODEL | LIFE, seen == seenw, "reentrant", "the end: order of destruction"); }
    CHECK(MODEL | LIFE | LEAK, live_objs == 0, "left", "%ld objects left", live_objs); count("destructor_events", seen.size());
  }
};

// ---- every number of owners, every array length, every chain length ----------------------
struct Own { long* destroyed; long* heap; explicit Own(long* d) : destroyed(d), heap(new long(77)) {} ~Own() { ++*destroyed; delete heap; } };
struct OwnA { static inline MON_TLS long live; long v; OwnA() : v(31) { live++; } ~OwnA() { live--; v = 0; } };
struct Link { SP<Link> next; unsigned long id, *seen; ~Link() { *seen = *seen * 31 + id; seen[1]++; } };
static void owners_of(size_t n)
{
  long destroyed = 0; size_t step = n < 600 ? 1 : 1 + n / 97;
  {
    std::vector<SP<Own>> v; std::vector<SP<long>> al; v.reserve(n); Own* raw = new Own(&destroyed); SP<Own> first(raw); size_t have = 1;
    auto is = [&](const char* w) { CHECK(MODEL, first.use_count() == (long)have && destroyed == 0 && first.get() == raw && *raw->heap == 77, "owners", "%s: use count %ld, there are %zu owners", w, (long)first.use_count(), have); if (!v.empty()) CHECK(MODEL, v.back().use_count() == (long)have && v.back().get() == raw, "owners", "%s: the last of %zu owners has another use count or object", w, have); };
    for (size_t i = 1; i < n; i++) { if (i % 5 == 3) al.push_back(SP<long>(first, raw->heap)); else if (i % 5 == 4 && !v.empty()) v.push_back(v[i * 7 % v.size()]); else v.push_back(first); have++; if (i % step == 0 || i + 2 > n) is("growing"); }
    is("grown");
    for (size_t i = 0; !v.empty() || !al.empty(); i++) { if (!v.empty() && (al.empty() || i % 3)) { size_t k = (i * 7919) % v.size(); if (k + 1 != v.size()) v[k] = std::move(v.back()); v.pop_back(); } else al.pop_back(); have--; if (i % step == 0 || have < 3) is("shrinking"); }
    is("alone"); if (n & 1) { SP<Own> m(std::move(first)); CHECK(MODEL, first.use_count() == 0 && !first && m.use_count() == 1 && destroyed == 0, "owners", "after the last owner was moved"); m = nullptr; CHECK(MODEL | LIFE, destroyed == 1, "owners", "after the last of %zu owners let go, %ld destructions", n, destroyed); }
  }
  CHECK(MODEL | LIFE, destroyed == 1, "owners", "after all %zu owners, %ld destructions", n, destroyed);
  {
    SP<OwnA[]> a(new OwnA[n]); CHECK(MODEL | LIFE, OwnA::live == (long)n, "array", "%ld elements alive of %zu", OwnA::live, n); SP<OwnA[]> b(a); a = nullptr; if (n) { b[n - 1].v = 5; CHECK(MODEL, b[0].v == (n > 1 ? 31 : 5) && b.get()[n - 1].v == 5 && OwnA::live == (long)n, "array", "elements of %zu", n); }
    UP<OwnA> u(new OwnA); CHECK(MODEL | LIFE, OwnA::live == (long)n + 1, "array", "%ld elements alive of %zu", OwnA::live, n + 1);
  }
  CHECK(MODEL | LIFE | LEAK, OwnA::live == 0, "array", "%ld elements of %zu left", OwnA::live, n); OwnA::live = 0;
  if (n <= 3000) { unsigned long seen[2] = { 7, 0 }, want = 7; { SP<Link> h; for (size_t i = 0; i < n; i++) { SP<Link> l(new Link{ h, i, seen }); h = l; } CHECK(MODEL, seen[1] == 0 && (n == 0 || h.use_count() == 1), "chain", "a chain of %zu", n); size_t k = 0; for (SP<Link> i = h; i; i = i->next) k++; CHECK(MODEL, k == n, "chain", "%zu links of %zu", k, n); } for (size_t i = n; i--;) want = want * 31 + i; CHECK(MODEL | LIFE, seen[1] == n && seen[0] == want, "chain", "%ld destructions for a chain of %zu, or in another order", seen[1], n); }
}
static void owners(long i)
{
  static const std::vector<size_t> l = [] { std::vector<size_t> r; for (size_t k = 0; k <= 700; k++) r.push_back(k); for (size_t p = 1024; p <= 131072; p *= 2) for (long d = -2; d <= 2; d++) r.push_back(p + d); for (size_t p : { 1000, 5000, 10000, 100000 }) r.push_back(p); return r; }();
  size_t step = (size_t)std::max(1L, S().ncases); for (size_t k = i; k < l.size(); k += step) { op("owners", l[k]); owners_of(l[k]); state(l[k]); count("owner_counts"); } op("end"); op("end2");
}

int main(int argc, char** argv)
{
  init(argc, argv, "w_ptr");
  std::string c = S().config;
  if (c == "shared") run_cases([](long i) { SharedW w; w.run(i); });
  if (c == "array") run_cases(arrays);
  if (c == "owners") run_cases(owners);
  if (c == "unique") run_cases([](long i) { UW w; w.run(i); });
  if (c == "reentrant") run_cases([](long i) { ReW w; w.run(i); });
  return 3;
}
