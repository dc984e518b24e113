// Computations that the compiler evaluates and the program repeats. Included twice: N is the library or the standard
// library, CX is constexpr or nothing. Every scenario is a function of its seed and returns a digest of all it observed.
struct DG { uint64_t h = 7; CX void operator()(int64_t x) { h = cx_mix(h ^ (uint64_t)x); } template <class I> CX void range(I b, I e) { int64_t n = 0; for (; b != e; ++b) { (*this)((int64_t)*b); n++; } (*this)(n); } template <class C> CX void all(const C& c) { range(c.begin(), c.end()); } };

CX uint64_t s_vector(uint64_t seed, int n)
{
  CxRng r(seed); DG d; N::vector<int> v, w;
  for (int i = 0; i < n; i++) switch (r.below(11)) {
    case 0: case 1: case 2: v.push_back((int)r.below(100)); break;
    case 3: if (!v.empty()) v.pop_back(); break;
    case 4: v.reserve(r.below(20)); break;
    case 5: v.resize(r.below(12)); break;
    case 6: if (v.size() > 2) { int a = (int)r.below(v.size()), b = a + (int)r.below(v.size() - a + 1); auto it = v.erase(v.begin() + a, v.begin() + b); d(it - v.begin()); } break;
    case 7: w = v; d(w == v); break;
    case 8: v.swap(w); break;
    case 9: { N::vector<int> t(v); t.push_back(4); w = std::move(t); d(w.back()); } break;
    default: if (!v.empty()) { int k = (int)r.below(v.size()); v.push_back(v[k]); v[k] += 3; d(v.at(k)); d(v.front()); d(*(v.data() + k)); d(*v.rbegin()); }
  }
  d.all(v); d.all(w); d(v == w); N::vector<int> u{ 3, 1, 2 }, z(5); d.all(u); d.all(z); v.clear(); d(v.empty()); return d.h;
}
CX uint64_t s_string(uint64_t seed, int n)
{
  CxRng r(seed); DG d; N::string s, t("abc");
  for (int i = 0; i < n; i++) switch (r.below(12)) {
    case 0: case 1: s.push_back((char)('a' + r.below(4))); break;
    case 2: s += "bca"; break;
    case 3: s += 'c'; break;
    case 4: t = s; break;
    case 5: s.append("xyz", r.below(4)); break;
    case 6: d((int64_t)s.find('b', r.below(9))); d((int64_t)s.find(t, r.below(5))); d((int64_t)s.find("ca", r.below(5))); break;
    case 7: d(s < t); d(s == t); d(s == "abc"); d("abc" < s); break;
    case 8: s.reserve(r.below(40)); break;
    case 9: { N::string u(s); u.push_back('q'); d.all(u); d(u.c_str()[u.size()] == 0); } break;
    case 10: s = "again"; break;
    default: if (!s.empty()) { s[r.below(s.size())] = 'z'; d(s.front()); d(s.back()); s.pop_back(); }
  }
  d.all(s); d.all(t); d((int64_t)s.size()); N::string e("nul\0in", 6); d.all(e); s += e; t.append(s); d.all(t); s = s; d.all(s); if (s.size() < 90) { s.append(s); s += s[0]; s.push_back(s.back()); } d.all(s); d((int64_t)s.find(s)); s = s.c_str() + s.size() / 2; d.all(s); s.clear(); d(s.empty()); return d.h;
}
CX uint64_t s_wstring(uint64_t seed, int n)
{
  CxRng r(seed); DG d; N::wstring s, t(L"ab");
  for (int i = 0; i < n; i++) switch (r.below(5)) { case 0: case 1: s.push_back((wchar_t)(200 + r.below(4))); break; case 2: t = s; break; case 3: d((int64_t)s.find((wchar_t)201, r.below(5))); break; default: s += t; if (s.size() > 60) s.clear(); }
  d.all(s); d.all(t); d(s == t); d(s < t); return d.h;
}
CX uint64_t s_deque(uint64_t seed, int n)
{
  CxRng r(seed); DG d; N::deque<int> q;
  for (int i = 0; i < n; i++) switch (r.below(9)) {
    case 0: case 1: case 2: q.push_back((int)r.below(100)); break;
    case 3: case 4: q.push_front((int)r.below(100)); break;
    case 5: if (!q.empty()) q.pop_back(); break;
    case 6: if (!q.empty()) q.pop_front(); break;
    case 7: if (!q.empty()) { int k = (int)r.below(q.size()); d(q[k]); q[k]++; d(q.front()); d(q.back()); d(*(q.begin() + k)); d(q.end() - (q.begin() + k)); d(*(q.end() - 1)); } break;
    default: if (r.below(4) == 0) q.clear();
  }
  d.all(q); { N::deque<int> c(q); d.all(c); c.push_back(3); q = c; } d.all(q); N::deque<int> u{ 1, 2, 3 }; d.all(u); return d.h;
}
CX uint64_t s_list(uint64_t seed, int n)
{
  CxRng r(seed); DG d; N::list<int> l;
  for (int i = 0; i < n; i++) switch (r.below(8)) {
    case 0: case 1: l.push_back((int)r.below(100)); break;
    case 2: l.push_front((int)r.below(100)); break;
    case 3: { auto it = l.begin(); for (int k = (int)r.below(l.size() + 1); k > 0; k--) ++it; d(*l.insert(it, (int)r.below(50))); } break;
    case 4: if (!l.empty()) { auto it = l.begin(); for (int k = (int)r.below(l.size()); k > 0; k--) ++it; auto x = l.erase(it); d(x == l.end()); } break;
    case 5: if (!l.empty()) l.pop_back(); break;
    case 6: if (!l.empty()) { l.pop_front(); } break;
    default: d(l.emplace_back((int)r.below(9))); d(l.emplace_front(4)); l.emplace(l.end(), 8);
  }
  d.all(l); { N::list<int> c(l); c.push_front(2); d.all(c); l = c; } auto it = l.end(); for (int k = 0; k < (int)l.size(); k++) { --it; d(*it); } d((int64_t)l.size()); l.clear(); d(l.empty()); return d.h;
}
CX uint64_t s_flist(uint64_t seed, int n)
{
  CxRng r(seed); DG d; N::forward_list<int> l;
  for (int i = 0; i < n; i++) switch (r.below(5)) {
    case 0: case 1: l.push_front((int)r.below(100)); break;
    case 2: { auto it = l.before_begin(); for (int k = (int)r.below(4); k > 0; k--) { auto y = it; if (++y == l.end()) break; it = y; } d(*l.insert_after(it, (int)r.below(60))); } break;
    case 3: if (!l.empty()) l.pop_front(); break;
    default: if (!l.empty()) { auto it = l.begin(), y = it; if (++y != l.end()) l.erase_after(it); d(l.front()); }
  }
  d.all(l); { N::forward_list<int> c(l); c.push_front(2); l.swap(c); d.all(c); c = l; d.all(c); } d.all(l); l.clear(); d(l.empty()); return d.h;
}
CX uint64_t s_set(uint64_t seed, int n)
{
  CxRng r(seed); DG d; N::set<int> s; int range = 4 + (int)r.below(80);
  for (int i = 0; i < n; i++) switch (r.below(6)) {
    case 0: case 1: case 2: case 3: { auto p = s.insert((int)r.below(range)); d(p.second); d(*p.first); } break;
    case 4: { auto it = s.find((int)r.below(range)); d(it == s.end() ? -1 : *it); } break;
    default: d((int64_t)s.size()); d(*s.insert(s.begin(), (int)r.below(range)));
  }
  d.all(s); N::set<int> c(s); c.insert(-5); d.all(c); s = c; auto it = s.end(); for (int k = 0; k < (int)s.size(); k++) d(*--it); s.clear(); d(s.empty()); return d.h;
}
CX uint64_t s_map(uint64_t seed, int n)
{
  CxRng r(seed); DG d; N::map<int, int> m; int range = 4 + (int)r.below(80);
  for (int i = 0; i < n; i++) switch (r.below(5)) {
    case 0: case 1: case 2: { auto p = m.insert(N::pair<const int, int>((int)r.below(range), i)); d(p.second); d(p.first->second); } break;
    case 3: { auto it = m.find((int)r.below(range)); d(it == m.end() ? -1 : it->second); if (it != m.end()) it->second += 100; } break;
    default: d((int64_t)m.size());
  }
  for (auto i = m.begin(); i != m.end(); ++i) { d(i->first); d(i->second); } N::map<int, int> c(m); c.insert(N::pair<const int, int>(-1, 4)); for (auto i = c.begin(); i != c.end(); ++i) d(i->first * 7 + i->second); m = c; d((int64_t)m.size()); m.clear(); d(m.empty()); return d.h;
}
CX uint64_t s_queue(uint64_t seed, int n)
{
  CxRng r(seed); DG d; N::queue<int> q; N::queue<int, N::list<int>> ql;
  for (int i = 0; i < n; i++) if (r.below(3)) { q.push((int)r.below(99)); ql.push(i); d(q.back()); } else if (!q.empty()) { d(q.front()); d(ql.front()); q.pop(); ql.pop(); }
  d((int64_t)q.size()); N::queue<int> c(q); while (!c.empty()) { d(c.front()); c.pop(); } d((int64_t)q.size() - (int64_t)ql.size()); return d.h;
}
struct Node { int v; int* log; CX Node(int v, int* l) : v(v), log(l) { ++*l; } CX virtual ~Node() { *log += 100; } CX virtual int id() const { return v; } };
struct Sub : Node { int w = 9; CX Sub(int v, int* l) : Node(v, l) {} CX ~Sub() { *log += 10000; } CX int id() const override { return v + w; } };
CX uint64_t s_shared(uint64_t seed, int n)
{
  CxRng r(seed); DG d; int log = 0;
  { N::shared_ptr<Node> p[4];
    for (int i = 0; i < n; i++) { int a = (int)r.below(4), b = (int)r.below(4); switch (r.below(7)) {
      case 0: p[a] = N::shared_ptr<Node>(new Node(i, &log)); break; case 1: p[a] = p[b]; break; case 2: if (a != b) p[a] = std::move(p[b]); break;
      case 3: p[a] = N::shared_ptr<Node>(); break; case 4: d(p[a].use_count()); d(p[a] == p[b]); d((bool)p[a]); break;
      case 5: { auto q = p[a]; d(q ? q->id() + (*q).v : -1); d(q.use_count()); if (q) { N::shared_ptr<int> f(q, &q->v); d(*f); d(f.use_count()); } } break;
      default: p[a] = N::shared_ptr<Node>(new Node(i, &log), [](Node* x) { delete x; }); } d(log); } }
  d(log); N::shared_ptr<int[]> a(new int[3]{ 1, 2, 3 }); auto b = a; d(b[1] + a[2]); d(a.use_count()); return d.h;
}
CX uint64_t s_unique(uint64_t seed, int n)
{
  CxRng r(seed); DG d; int log = 0;
  { N::unique_ptr<Node> p[3];
    for (int i = 0; i < n; i++) { int a = (int)r.below(3), b = (int)r.below(3); switch (r.below(7)) {
      case 0: p[a].reset(new Node(i, &log)); break; case 1: if (a != b) p[a] = std::move(p[b]); break; case 2: p[a] = N::make_unique<Node>(i, &log); break;
      case 3: { auto raw = p[a].release(); d(raw ? raw->v : -2); delete raw; } break; case 4: p[a] = N::unique_ptr<Node>(new Sub(i, &log)); break;
      case 5: d(p[a] ? p[a]->id() : -1); d((bool)p[b]); d(p[a] == p[b]); break; default: p[a].reset(); } d(log); } }
  d(log); return d.h;
}
CX uint64_t s_function(uint64_t seed, int n)
{
  CxRng r(seed); DG d; int k = (int)r.below(50), total = 0;
  N::function<int(int, int)> f = [k](int a, int b) { return a * 3 + b + k; }; N::function<void(int)> g = [&total](int x) { total += x; }; N::function<int(int)> acc = [s = 0](int x) mutable { s += x; return s; };
  for (int i = 0; i < n; i++) { d(f(i, (int)r.below(9))); g(i); d(acc((int)r.below(5))); if (i % 5 == 2) { auto c = acc; d(c(1)); auto h = f; f = h; d(h(1, 2)); } } d(total); return d.h;
}
CX uint64_t s_swap(uint64_t seed, int n)
{
  CxRng r(seed); DG d; int a = (int)r.below(9), b = (int)r.below(9), c = (int)r.below(9), e = (int)r.below(9);
  for (int i = 0; i < n; i++) switch (r.below(4)) { case 0: N::swap(a, b); break; case 1: N::swap(b, e); break; case 2: { N::pair<int, int> p(a, b); a = p.second; b = p.first; } break; default: N::swap(a, c); } d(a); d(b); d(c); d(e); return d.h;
}
CX uint64_t s_algorithm(uint64_t seed, int n)
{
  CxRng r(seed); DG d; N::vector<int> v, o; for (int i = 0; i < n; i++) v.push_back((int)r.below(40)); int x = (int)r.below(40);
  d(N::count(v.begin(), v.end(), x)); d(N::find(v.begin(), v.end(), x) - v.begin()); d(N::accumulate(v.begin(), v.end(), 3)); N::copy_if(v.begin(), v.end(), N::back_inserter(o), [](int k) { return k % 3 == 1; }); d.all(o);
  N::transform(v.begin(), v.end(), v.begin(), [](int k) { return k * 5 % 43; }); d.all(v); N::rotate(v.begin(), v.begin() + n / 3, v.end()); d.all(v); N::reverse(v.begin(), v.end()); d.all(v); N::sort(v.begin(), v.end()); d.all(v); d(N::is_sorted(v.begin(), v.end())); d(N::lower_bound(v.begin(), v.end(), x) - v.begin());
  d(N::inner_product(v.begin(), v.end(), v.begin(), 1)); v.erase(N::unique(v.begin(), v.end()), v.end()); d.all(v); N::deque<int> q; N::copy(v.begin(), v.end(), N::back_inserter(q)); N::iota(q.begin(), q.end(), 5); d.all(q); N::fill(q.begin(), q.end(), 7); d.all(q);
  N::set<int> s; N::copy(v.begin(), v.end(), N::inserter(s, s.begin())); d.all(s); d(N::distance(s.begin(), s.end())); N::list<int> l; for (int i = 0; i < n; i++) l.push_back((int)r.below(9)); N::replace(l.begin(), l.end(), 4, 5); d.all(l); d(*N::max_element(l.begin(), l.end())); N::array<int, 3> ar{ 3, 1, 2 }; N::sort(ar.begin(), ar.end()); d.all(ar); return d.h;
}
CX uint64_t s_nested(uint64_t seed, int n)
{
  CxRng r(seed); DG d; N::vector<N::string> v; N::map<int, N::vector<int>> m; N::list<N::shared_ptr<int>> l; N::deque<N::string> q; N::set<N::string> s;
  for (int i = 0; i < n; i++) { N::string t; for (int k = (int)r.below(9); k >= 0; k--) t.push_back((char)('a' + r.below(3))); v.push_back(t); q.push_front(t); s.insert(t); N::vector<int> w; w.push_back(i); m.insert(N::pair<const int, N::vector<int>>((int)r.below(6), w)); N::shared_ptr<int> p(new int(i)); l.push_back(p); l.push_front(p); d(p.use_count()); }
  auto v2 = v; auto m2 = m; auto q2 = q; auto l2 = l; for (auto& e : v2) d.all(e); for (auto& e : q2) d.all(e); for (auto i = m2.begin(); i != m2.end(); ++i) d.all(i->second); for (auto i = s.begin(); i != s.end(); ++i) d.all(*i); d(l2.front().use_count()); v2 = v; l2.clear(); d(l.front().use_count()); d(v2 == v); return d.h;
}
CX uint64_t s_stream(uint64_t seed, int n)
{
  CxRng r(seed); DG d; N::string t; for (int i = 0; i < n; i++) t.push_back((char)(r.below(6) ? 32 + r.below(90) : r.below(256))); N::istringstream is(t); char buf[12] = {};
  for (int i = 0; i < n; i++) { switch (r.below(6)) { case 0: case 1: { char c = 1; is.get(c); d(c); d((int64_t)is.gcount()); } break; case 2: is.read(buf, (int)r.below(12)); d((int64_t)is.gcount()); for (int k = 0; k < (int)is.gcount(); k++) d(buf[k]); break; case 3: d(is.good()); d(is.eof()); d(is.fail()); d((bool)is); break; case 4: if (is.good()) { is.unget(); d((int)is.rdstate()); } break; default: if (r.below(5) == 0) is.clear(); } }
  d((int)is.rdstate()); return d.h;
}
// ---- elements that own storage: the compiler rejects a lost, doubled or unstarted lifetime -------------------------
struct Box {
  int* p; CX Box(int v) : p(new int(v)) {} CX Box(const Box& o) : p(new int(o ? *o.p : -1)) {} CX Box(Box&& o) noexcept : p(o.p) { o.p = nullptr; }
  CX Box& operator=(const Box& o) { if (this != &o) { delete p; p = new int(o ? *o.p : -1); } return *this; } CX Box& operator=(Box&& o) noexcept { if (this != &o) { delete p; p = o.p; o.p = nullptr; } return *this; } CX ~Box() { delete p; }
  CX explicit operator bool() const { return p != nullptr; } CX explicit operator int64_t() const { return p ? *p : -1; }
  CX friend bool operator==(const Box& a, const Box& b) { return (int64_t)a == (int64_t)b; } CX friend bool operator<(const Box& a, const Box& b) { return (int64_t)a < (int64_t)b; }
};
struct Down { int salt; CX Down(int s = 3) : salt(s) {} CX bool operator()(const Box& a, const Box& b) const { return b < a; } };
CX uint64_t b_vector(uint64_t seed, int n)
{
  CxRng r(seed); DG d; N::vector<Box> v, w{ Box(1), Box(2), Box(3) };
  for (int i = 0; i < n; i++) switch (r.below(12)) {
    case 0: case 1: v.push_back(Box((int)r.below(100))); break;
    case 2: { Box b(i); v.push_back(b); v.push_back(b); d((int64_t)b); } break;
    case 3: if (!v.empty()) { v.pop_back(); } break;
    case 4: v.reserve(r.below(40)); break;
    case 5: { int a = (int)r.below(v.size() + 1), b = a + (int)r.below(v.size() - a + 1); auto it = v.erase(v.begin() + a, v.begin() + b); d(it - v.begin()); d(it == v.end()); } break;
    case 6: w = v; d(w == v); break;
    case 7: v.swap(w); break;
    case 8: { N::vector<Box> t(std::move(v)); t.push_back(Box(4)); v = std::move(t); d((int64_t)v.back()); t.clear(); t.push_back(Box(9)); d((int64_t)t.size()); } break;
    case 9: { N::vector<Box> t(w); t.clear(); t = v; w = t; v = v; } break;
    case 10: if (!v.empty() && v.size() < 60) { v.push_back(v[r.below(v.size())]); v.push_back(v.front()); v.push_back(std::move(v[0])); v[0] = Box(i); } break;
    default: if (!v.empty()) { for (auto q = v.rbegin(); q != v.rend(); ++q) d((int64_t)*q); const auto& c = v; d((int64_t)c.at(c.size() - 1)); d((int64_t)c.front()); d((int64_t)*(c.end() - 1)); d((int64_t)c.data()[0]); d(v == w); }
  }
  d.all(v); d.all(w); N::vector<Box> u{ Box(3), Box(1) }, e; e = u; d.all(e); u = std::move(e); d.all(u); u = { Box(8), Box(7), Box(6) }; d.all(u); u = N::vector<Box>(); d(u.empty()); u.push_back(Box(2)); d.all(u); return d.h;
}
CX uint64_t b_deque(uint64_t seed, int n)
{
  CxRng r(seed); DG d; N::deque<Box> q, w;
  for (int i = 0; i < n; i++) switch (r.below(11)) {
    case 0: case 1: q.push_back(Box((int)r.below(100))); break;
    case 2: case 3: q.push_front(Box((int)r.below(100))); break;
    case 4: { Box b(i); q.push_back(b); q.push_front(b); } break;
    case 5: if (!q.empty()) q.pop_back(); break;
    case 6: if (!q.empty()) q.pop_front(); break;
    case 7: w = q; d.all(w); break;
    case 8: { N::deque<Box> t(std::move(q)); t.push_front(Box(4)); q = std::move(t); d((int64_t)q.front()); t.clear(); t.push_back(Box(9)); d((int64_t)t.back()); } break;
    case 9: if (!q.empty()) { q.push_back(q.front()); q.push_front(q.back()); q.push_back(q[r.below(q.size())]); } break;
    default: for (auto it = q.end(); it != q.begin();) { --it; d((int64_t)*it); } if (!q.empty()) { auto it = q.begin() + r.below(q.size()); *it = Box(i); d(it - q.begin()); d(q.end() - it); d((int64_t)q.back()); }
  }
  d.all(q); d.all(w); w.clear(); w.push_front(Box(5)); q = w; d.all(q); N::deque<Box> u{ Box(3), Box(1) }; q = u; u = std::move(q); d.all(u); return d.h;
}
// more elements than one chunk of the deque holds, on both sides, and positions across its seams
CX uint64_t b_dequelong(uint64_t seed, int n)
{
  CxRng r(seed); DG d; N::deque<int> q; int f = (int)r.below(2300), b = (int)r.below(2300); if (r.below(2)) { for (int i = 0; i < b; i++) q.push_back(i); for (int i = 0; i < f; i++) q.push_front(-i); } else { for (int i = 0; i < f; i++) q.push_front(-i); for (int i = 0; i < b; i++) q.push_back(i); }
  q.push_back(1); q.push_front(2); int64_t t = 0; for (int x : q) t = t * 31 % 1000003 + x; d(t); for (auto it = q.end(); it != q.begin();) t = t * 31 % 1000003 + *--it; d(t);
  for (int i = 0; i < n; i++) { auto k = r.below(q.size()), j = r.below(q.size()); auto a = q.begin() + k, c = q.end() - (q.size() - j); d(*a); d(*c); d(a - c); d(a < c); d(*(a + ((int64_t)j - (int64_t)k))); d(q[j]); *a += 1; if (r.below(3) == 0) { q.pop_front(); q.push_back(i); } if (r.below(3) == 0) { q.pop_back(); q.push_front(i); } }
  { N::deque<int> c(q); for (int i = 0; i < 1100 && !c.empty(); i++) c.pop_front(); d((int64_t)c.size()); if (!c.empty()) { d(c.front()); d(c.back()); } c.push_front(3); c.push_back(4); d(c.front()); d(c.back()); q = c; } while (q.size() > 3) q.pop_back(); d.all(q); return d.h;
}
CX uint64_t b_list(uint64_t seed, int n)
{
  CxRng r(seed); DG d; N::list<Box> l, w; N::forward_list<Box> f, g;
  for (int i = 0; i < n; i++) switch (r.below(12)) {
    case 0: l.push_back(Box((int)r.below(100))); f.push_front(Box(i)); break;
    case 1: { Box b(i); l.push_front(b); l.push_back(b); f.push_front(b); } break;
    case 2: { auto it = l.begin(); for (int k = (int)r.below(l.size() + 1); k > 0; k--) ++it; Box b(i + 3); d((int64_t)*l.insert(it, b)); d((int64_t)*l.insert(it, Box(7))); d((int64_t)*l.emplace(it, 8)); } break;
    case 3: if (!l.empty()) { auto it = l.begin(); for (int k = (int)r.below(l.size()); k > 0; k--) it++; auto x = l.erase(it); d(x == l.end() ? -5 : (int64_t)*x); } break;
    case 4: if (!l.empty()) l.pop_back(); if (!f.empty()) f.pop_front(); break;
    case 5: if (!l.empty()) l.pop_front(); break;
    case 6: w = l; g = f; d.all(w); d.all(g); break;
    case 7: { N::list<Box> t(std::move(l)); t.push_front(Box(4)); l = std::move(t); d((int64_t)l.front()); t.clear(); t.push_back(Box(9)); d((int64_t)t.size()); } break;
    case 8: { N::forward_list<Box> t(std::move(f)); t.push_front(Box(4)); f = std::move(t); d((int64_t)f.front()); t.clear(); t.push_front(Box(9)); d(t.empty()); f.swap(g); } break;
    case 9: { auto it = f.before_begin(); for (int k = (int)r.below(5); k > 0; k--) { auto y = it; if (++y == f.end()) break; it = y; } Box b(i); it = f.insert_after(it, b); it = f.insert_after(it, Box(6)); it = f.insert_after(it, Box(5)); d((int64_t)*it); auto y = it; if (++y != f.end()) { auto z = f.erase_after(it); d(z == f.end() ? -6 : (int64_t)*z); } } break;
    case 10: if (!l.empty()) { l.push_back(l.front()); l.push_front(l.back()); l.emplace_back((int)r.below(9)); l.emplace_front(4); } l = l; f = f; break;
    default: for (auto it = l.end(); it != l.begin();) { --it; d((int64_t)*it); } for (const auto& x : f) d((int64_t)x);
  }
  d.all(l); d.all(f); d.all(w); d.all(g); d((int64_t)l.size()); w = w; l = N::list<Box>(); d(l.empty()); l.push_back(Box(1)); d.all(l); return d.h;
}
CX uint64_t b_tree(uint64_t seed, int n)
{
  CxRng r(seed); DG d; N::set<Box> s, s2; N::set<Box, Down> z; N::map<Box, Box> m, m2; N::map<Box, int, Down> zm; int range = 3 + (int)r.below(60);
  for (int i = 0; i < n; i++) { int k = (int)r.below(range); Box b(k); switch (r.below(10)) {
    case 0: case 1: case 2: { auto p = s.insert(b); d(p.second); d((int64_t)*p.first); auto q = m.insert(N::pair<const Box, Box>(b, Box(i))); d(q.second); d((int64_t)q.first->second); d(z.insert(b).second); d(zm.insert(N::pair<const Box, int>(b, i)).second); } break;
    case 3: { auto it = s.find(b); d(it == s.end() ? -9 : (int64_t)*it); auto jt = m.find(b); if (jt != m.end()) { jt->second = Box(i + 500); d((int64_t)jt->first); } const auto& c = m; d(c.find(b) == c.end()); d(z.find(b) == z.end()); d(zm.find(b) == zm.end()); } break;
    case 4: s2 = s; m2 = m; d.all(s2); break;
    case 5: { N::set<Box> t(std::move(s)); s = std::move(t); t.clear(); t.insert(b); d((int64_t)t.size()); N::map<Box, Box> u(std::move(m)); m = std::move(u); u.clear(); u.insert(N::pair<const Box, Box>(b, b)); d((int64_t)u.size()); } break;
    case 6: { N::set<Box> t(s2); N::map<Box, Box> u(m2); t.insert(Box(-k)); u.insert(N::pair<const Box, Box>(Box(-k), b)); d((int64_t)t.size()); d((int64_t)u.size()); auto it = u.end(); while (it != u.begin()) { --it; d((int64_t)it->first); } } break;
    case 7: { auto it = m.end(); while (it != m.begin()) { auto o = it--; d(o == m.end()); d((int64_t)it->second); } const auto& c = s; for (auto i2 = c.end(); i2 != c.begin();) { i2--; d((int64_t)*i2); } } break;
    case 8: if (r.below(4) == 0) { s.clear(); m2.clear(); z = z; } s = s; m = m; break;
    default: d((int64_t)*s.insert(s.begin(), b)); d((int64_t)s.size()); d(s.empty()); d(m.empty()); for (auto it = m.begin(); it != m.end();) { auto o = it++; d((int64_t)o->first); }
  } }
  d.all(s); d.all(s2); d.all(z); for (auto it = m.begin(); it != m.end(); ++it) { d((int64_t)it->first); d((int64_t)it->second); } for (auto it = zm.begin(); it != zm.end(); ++it) { d((int64_t)(*it).first); d(it->second); } return d.h;
}
// keys inserted in every order which shapes the tree differently
CX uint64_t b_treeshape(uint64_t seed, int n)
{
  CxRng r(seed); DG d; N::set<int> s; N::map<int, int> m; int kind = (int)r.below(6); n *= 2;
  for (int i = 0; i < n; i++) { int k = kind == 0 ? i : kind == 1 ? n - i : kind == 2 ? (i & 1 ? n + i : n - i) : kind == 3 ? (i & 1 ? 4 * n - i : i) : kind == 4 ? (i * 37) % 101 : (int)r.below(n); d(s.insert(k).second); d(m.insert(N::pair<const int, int>(k, i)).second); }
  d.all(s); for (auto it = m.end(); it != m.begin();) { --it; d(it->first); d(it->second); } for (int k = -1; k < 20; k++) { d(s.find(k) != s.end()); d(m.find(k) == m.end()); } return d.h;
}
CX uint64_t b_string(uint64_t seed, int n)
{
  CxRng r(seed); DG d; N::u16string a; N::u32string b; N::u8string e; N::string s;
  for (int i = 0; i < n; i++) switch (r.below(11)) {
    case 0: a.push_back((char16_t)(60000 + r.below(4))); b.push_back((char32_t)(0x10fff0 + r.below(4))); e.push_back((char8_t)(250 + r.below(5))); s.push_back((char)r.below(256)); break;
    case 1: a += u"\uffff\u0001"; b += U"\U0010ffffa"; e += u8"\u00e9z"; s += "\xff\x01"; break;
    case 2: { N::u16string t(a); a.append(t); a += a[0]; if (a.size() > 60) a = u"ab"; } break;
    case 3: { N::string t(std::move(s)); s = std::move(t); t.clear(); t += "t"; d.all(t); } break;
    case 4: d((int64_t)a.find(u'\uffff', r.below(9))); d((int64_t)b.find(U"\U0010ffffa", r.below(5))); d((int64_t)e.find((char8_t)252, 0)); d((int64_t)s.find('\xff', r.below(7))); d((int64_t)s.find(s)); d((int64_t)s.find("", r.below(30))); break;
    case 5: { N::string t(s); t.push_back('b'); d(s < t); d(t < s); d(s == t); d(s != t); d(s.compare(t) < 0); d(t.compare(s) > 0); } break;
    case 6: s.reserve(r.below(60)); a.reserve(r.below(20)); break;
    case 7: { N::string t("0123456789abcdef0123456789abcdef", r.below(33)); d.all(t); d(t.c_str()[t.size()] == 0); s = t; } break;
    case 8: if (!s.empty()) { if (s.size() > 90) s.clear(); s.append(s.c_str() + s.size() / 2); s.append(s.data(), s.size() / 2); s += s.c_str(); } break;
    case 9: { N::string t; t = s; t = t; t = t.c_str(); d.all(t); if (!t.empty()) t.pop_back(); t.push_back('o'); d.all(t); } if (false) { default: d((int64_t)a.length()); for (auto it = s.cbegin(); it != s.cend(); ++it) d(*it); for (auto it = b.cbegin(); it != b.cend(); ++it) d((int64_t)*it); } break;
  }
  d.all(a); d.all(b); d.all(e); d.all(s); d(s.data()[s.size()] == 0); d(a.c_str()[a.size()] == 0); return d.h;
}
CX uint64_t b_function(uint64_t seed, int n)
{
  CxRng r(seed); DG d; Box big(5); int out = 0; N::vector<N::function<int(int)>> fs; N::function<void(int&)> v = [big](int& x) { x += (int)(int64_t)big; };
  for (int i = 0; i < n; i++) switch (r.below(6)) {
    case 0: case 1: { Box b(i); fs.push_back([b, c = 0](int x) mutable { c += x; return (int)(int64_t)b + c; }); } break;
    case 2: if (!fs.empty()) { auto f = fs[r.below(fs.size())]; d(f(2)); fs[r.below(fs.size())] = f; d(f(1)); } break;
    case 3: if (!fs.empty()) { auto f = std::move(fs.back()); fs.pop_back(); d(f(3)); fs.push_back(std::move(f)); } break;
    case 4: { auto u = v; u(out); d(out); N::function<void(int&)> w = [i](int& x) { x -= i; }; v = w; w(out); u = std::move(w); u(out); d(out % 1000); out %= 1000; } break;
    default: for (auto& f : fs) d(f(1)); if (fs.size() > 1) N::swap(fs[0], fs[fs.size() - 1]);
  }
  for (auto& f : fs) d(f(0)); N::function<Box(Box)> t = [](Box b) { return Box((int)(int64_t)b + 1); }; d((int64_t)t(Box(4))); N::function<int(const Box&, Box&&)> k = [](const Box& a, Box&& b) { Box z(std::move(b)); return (int)(int64_t)a * 10 + (int)(int64_t)z; }; d(k(big, Box(3))); return d.h;
}
CX uint64_t b_owner(uint64_t seed, int n)
{
  CxRng r(seed); DG d; int log = 0; { N::vector<N::shared_ptr<Node>> v; N::map<int, N::shared_ptr<Node>> m; N::vector<N::unique_ptr<Node>> u; N::list<N::shared_ptr<Box>> l;
    for (int i = 0; i < n; i++) { switch (r.below(9)) {
      case 0: v.push_back(N::shared_ptr<Node>(new Sub(i, &log))); break; case 1: if (!v.empty()) { auto p = v[r.below(v.size())]; m.insert(N::pair<const int, N::shared_ptr<Node>>((int)r.below(9), p)); d(p.use_count()); } break;
      case 2: if (v.size() > 1) { v[r.below(v.size())] = v[r.below(v.size())]; } break; case 3: if (!v.empty()) { v.pop_back(); d(log); } break; case 4: u.push_back(N::make_unique<Node>(i, &log)); break;
      case 5: if (u.size() > 1) { N::swap(u[0], u[u.size() - 1]); d(u[0]->id()); u[0] = std::move(u[u.size() - 1]); u.pop_back(); d(log); } break; case 6: { auto m2 = m; auto v2 = v; d(log); v = v2; for (auto& p : v) d(p.use_count()); } break;
      case 7: l.push_back(N::shared_ptr<Box>(new Box(i))); if (l.size() > 2) { l.pop_front(); auto a = l.front(), b = std::move(a); d(b.use_count()); d((bool)a); d((int64_t)*b); } break; default: { auto it = m.find((int)r.below(9)); if (it != m.end()) { it->second = N::shared_ptr<Node>(); d(log); } } } } d(log); }
  d(log); return d.h;
}
// sizes that the short scenarios do not reach
CX uint64_t b_long(uint64_t seed, int n)
{
  CxRng r(seed); DG d; int k = 60 + (int)r.below(500); N::vector<int> v; for (int i = 0; i < k; i++) v.push_back((int)r.below(1000)); d.all(v); { auto w = v; int a = (int)r.below(k), b = a + (int)r.below(k - a + 1); auto it = w.erase(w.begin() + a, w.begin() + b); d(it - w.begin()); d.all(w); d(w == v); v.resize(k / 2); d.all(v); w = v; d(w == v); v.resize(k + 70); d.all(v); w = std::move(v); v = N::vector<int>(); v.swap(w); v.reserve(2 * k + 100); d.all(v); d(v.at(k / 3)); v.clear(); d(w.empty()); d(v.empty()); }
  N::string s, t; k = 60 + (int)r.below(500); for (int i = 0; i < k; i++) s.push_back((char)('a' + r.below(3))); t = s; d(s == t); t[k - 1] = 'q'; d(s < t); d(t < s); d(s == t); d(s != t); d(s.compare(t) < 0); d((int64_t)t.find('q')); d((int64_t)t.find('q', k / 2)); d((int64_t)s.find('q')); d((int64_t)t.find("q")); d((int64_t)s.find("aab", r.below(k))); { N::string e(s.data() + k / 2, k - k / 2); d((int64_t)s.find(e)); d((int64_t)s.find(e, 3)); d((int64_t)e.find(s)); } s.append(s); d.all(s); s += t; d((int64_t)s.size()); s = s.c_str() + k; d.all(s); { N::string u(s); s.clear(); s = u.c_str(); d(s == u); s.reserve(3000); d.all(s); u = t; d.all(u); } while (s.size() > 50) s.pop_back(); d.all(s);
  N::list<int> l; N::forward_list<int> f; k = 60 + (int)r.below(200); for (int i = 0; i < k; i++) { if (r.below(2)) l.push_back(i); else l.push_front(i); f.push_front((int)r.below(99)); } { auto it = l.begin(); for (int i = 0; i < k / 2; i++) ++it; it = l.erase(it); d(*it); l.insert(it, 1234); auto m = l; d.all(m); m = l; m.pop_back(); m.pop_front(); l = m; d.all(l); auto g = f; d.all(g); auto q = g.begin(); for (int i = 0; i < k / 3; i++) ++q; g.insert_after(q, 77); g.erase_after(g.begin()); f = g; d.all(f); g.clear(); f.swap(g); d.all(g); l.clear(); d(l.empty()); }
  N::set<int> z; N::map<int, int> m; k = 60 + (int)r.below(300); for (int i = 0; i < k; i++) { int x = (int)r.below(2 * k); d(z.insert(x).second); m.insert(N::pair<const int, int>(x, i)); } d.all(z); { auto y = z; z = y; auto o = m; m = o; for (int i = 0; i < 2 * k; i += 3) { d(z.find(i) != z.end()); auto it = m.find(i); d(it == m.end() ? -1 : it->second); } for (auto it = z.end(); it != z.begin();) d(*--it); for (auto it = o.begin(); it != o.end(); it++) d(it->second); z.clear(); d((int64_t)y.size()); }
  N::queue<int> q; k = 60 + (int)r.below(300); for (int i = 0; i < k; i++) { q.push(i); if (r.below(3) == 0) { d(q.front()); q.pop(); } } { auto c = q; d(c.back()); d((int64_t)c.size()); while (!c.empty()) { d(c.front()); c.pop(); } q = c; d(q.empty()); }
  return d.h;
}
CX uint64_t b_longstream(uint64_t seed, int n)
{
  CxRng r(seed); DG d; int k = 60 + (int)r.below(700); N::string t; for (int i = 0; i < k; i++) t.push_back((char)(r.below(9) ? 32 + r.below(90) : r.below(256))); N::istringstream is(t); char buf[300] = {}; d(is.str() == t);
  for (int i = 0; i < 12; i++) switch (r.below(5)) { case 0: case 1: { int w = (int)r.below(300); is.read(buf, w); d((int64_t)is.gcount()); for (int j = 0; j < (int)is.gcount(); j++) d(buf[j]); } break; case 2: for (int j = (int)r.below(90); j > 0 && is.good(); j--) { char c = 1; is.get(c); d(c); } break; case 3: for (int j = (int)r.below(70); j > 0 && is.good(); j--) is.unget(); d((int)is.fail()); break; default: d((int)is.eof()); if (is.eof() || r.below(4) == 0) { is.clear(); t.append(t.c_str() + t.size() / 2); if (t.size() > 900) t = "short"; is.str(t); } }
  d((int)is.good()); return d.h;
}
// ---- the rest of each interface: const access, every kind of step, arrows, all constructors ------------------------
struct Pt { int a, b; CX Pt(int a = 0, int b = 0) : a(a), b(b) {} CX explicit operator int64_t() const { return a * 1000 + b; } CX bool operator==(const Pt& o) const { return a == o.a && b == o.b; } };
struct ByWhole { using is_transparent = void; CX bool operator()(int x, int y) const { return x < y; } CX bool operator()(int x, long y) const { return x < y / 10; } CX bool operator()(long x, int y) const { return x / 10 < y; } };
CX uint64_t r_deque(uint64_t seed, int n)
{
  CxRng r(seed); DG d; N::deque<Pt> q; if (r.below(3) == 0) for (int i = 0; i < 700; i++) q.push_front(Pt(i, 1)); for (int i = 0; i < n; i++) { if (r.below(2)) q.push_back(Pt((int)r.below(99), i)); else q.push_front(Pt(i, (int)r.below(99))); } const auto& c = q;
  d((int64_t)c.front()); d((int64_t)c.back()); d((int64_t)q.front()); d((int64_t)q.back()); d(c.cend() - c.cbegin()); d((int64_t)c.size()); d(c.empty());
  for (int i = 0; i < n; i++) { int64_t k = (int64_t)r.below(c.size()), j = (int64_t)r.below(c.size());
    { auto b = c.cbegin(); auto it = b + k; d(it->a); d((*it).b); d(b[j].a); d((int64_t)*(j + b)); auto o = it++; d(it - b); d((int64_t)*o); o = it--; d(o - b); d(it - b); ++it; --it; d(it == b + k); d(it != b + j); d(it < b + j); d((int64_t)*(c.end() - (k + 1))); it = b + j; it += k - j; d(it - b); it -= k - j; d(it - b); d((int64_t)*it); d(it[k - j].b); d((int64_t)c[(size_t)k]); }
    { auto b = q.begin(); auto it = b + k; d(it->a); d(b[j].a); it->b += 1; b[j].a += 1; d((int64_t)*(j + b)); auto o = it++; d(it - b); d((int64_t)*o); o = it--; d(o - b); d(it - b); it = b + j; it += k - j; d(it - b); it -= k - j; d(it - b); typename N::deque<Pt>::const_iterator x(b + j); d((int64_t)*x); d(x - c.cbegin()); d((int64_t)*(q.end() - (k + 1))); d(it[k - j].b); } }
  { N::deque<Pt> z{ std::allocator<Pt>() }; z.push_front(Pt(1, 2)); d.all(z); typename N::deque<Pt>::iterator e; typename N::deque<Pt>::const_iterator f; e = z.begin(); f = z.cbegin(); d(e->b); d(f->a); d(e == z.begin()); d(f == z.cbegin()); }
  return d.h;
}
CX uint64_t r_lists(uint64_t seed, int n)
{
  CxRng r(seed); DG d; N::list<Pt> l; N::forward_list<Pt> f; for (int i = 0; i < n; i++) { l.push_back(Pt(i, (int)r.below(9))); f.push_front(Pt((int)r.below(9), i)); } const auto& c = l; const auto& g = f;
  d((int64_t)c.front()); d((int64_t)c.back()); d((int64_t)l.front()); d((int64_t)l.back()); d((int64_t)g.front()); d((int64_t)f.front()); d(l.max_size() > 100000); d(l.get_allocator() == f.get_allocator()); d(g.empty()); d(c.empty());
  typename N::list<Pt>::const_iterator ci; typename N::list<Pt>::iterator it; typename N::forward_list<Pt>::const_iterator fi; typename N::forward_list<Pt>::iterator gi;
  it = l.begin(); d(it->a); it->b += 3; auto o = it++; d(o == l.begin()); d((int64_t)*o); if (it != l.end()) d(it->b); o = it--; d(it == l.begin()); d(o != it); ++it; --it; d((int64_t)*it);
  ci = c.begin(); d(ci->a); auto co = ci++; d(co == c.cbegin()); d((int64_t)*co); if (ci != c.cend()) d(ci->b); co = ci--; d(ci == c.begin()); d(co != ci); ci = c.end(); for (int i = 0; i < n; i++) { --ci; d((int64_t)*ci); } ci = c.cend(); for (int i = 0; i < n; i++) { ci--; d(ci->b); } for (ci = c.cbegin(); ci != c.cend(); ci++) d(ci->a);
  gi = f.begin(); d(gi->a); gi->b += 2; auto go = gi++; d((int64_t)*go); d(gi == f.end()); fi = g.begin(); d(fi->b); auto fo = fi++; d((int64_t)*fo); d(fi == g.cend()); for (fi = g.cbegin(); fi != g.cend(); ++fi) d(fi->a); d((int64_t)*l.insert(c.cend(), Pt(5, 6))); d.range(l.begin(), l.end()); d.range(f.begin(), f.end());
  return d.h;
}
CX uint64_t r_trees(uint64_t seed, int n)
{
  CxRng r(seed); DG d; N::set<int, ByWhole> h; N::map<int, Pt, ByWhole> m; N::set<Pt, std::less<int64_t>> unused; d(unused.empty()); int range = 4 + (int)r.below(60);
  for (int i = 0; i < n; i++) { int k = (int)r.below(range); d(h.insert(k).second); d(m.insert(N::pair<const int, Pt>(k, Pt(i, k))).second); }
  const auto& c = h; const auto& w = m;
  for (int i = -1; i < range + 1; i++) { d(h.find(i) == h.end()); d(c.find(i) == c.end()); d(w.find(i) == w.end()); d(m.find(i) == m.end()); d(h.find(i * 10l + 3) == h.end()); auto a = c.find(i * 10l + 4); d(a == c.end() ? -7 : *a); auto b = m.find(i * 10l + 5); if (b != m.end()) { b->second.a += 1; d(b->first); } auto e = w.find(i * 10l + 6); d(e == w.end() ? -8 : (int64_t)e->second); }
  typename N::map<int, Pt, ByWhole>::iterator it; typename N::map<int, Pt, ByWhole>::const_iterator ci; it = m.begin(); ci = it; d(ci->second.b); d(it->second.a); d((*ci).first); auto o = it++; d((*o).first); d(o == m.begin()); auto co = ci++; d((*co).first); d(co == w.begin()); d(ci == w.cend()); for (ci = w.cbegin(); ci != w.cend(); ++ci) d((int64_t)ci->second); for (ci = w.begin(); ci != w.end(); ci++) d(ci->first);
  for (ci = w.end(); ci != w.begin();) { --ci; d(ci->first); } for (ci = w.cend(); ci != w.cbegin();) { auto k = ci--; d(k == ci); d(k != ci); d((int64_t)ci->second); } for (it = m.end(); it != m.begin();) { it--; d(it->first); it->second.b++; } for (auto s = c.cbegin(); s != c.cend(); s++) d(*s); for (auto s = c.cend(); s != c.cbegin();) { auto k = s--; d(k == s); d(*s); }
  { N::set<Pt, decltype([](const Pt& a, const Pt& b) { return a.a < b.a; })> s; s.insert(Pt(3, 4)); s.insert(Pt(1, 4)); s.insert(Pt(2, 4)); s.insert(Pt(3, 9)); d(s.begin()->a); d((++s.begin())->b); d.all(s); } return d.h;
}
CX uint64_t r_vector(uint64_t seed, int n)
{
  CxRng r(seed); DG d; N::vector<Pt> v{ { Pt(1, 2), Pt(3, 4) }, std::allocator<Pt>() }; N::vector<Pt> z(4, std::allocator<Pt>()); d.all(v); d.all(z); for (int i = 0; i < n; i++) { Pt p((int)r.below(9), i); v.push_back(p); v.push_back(Pt(i, 1)); } const auto& c = v;
  d((int64_t)c.front()); d((int64_t)c.back()); d((int64_t)c.at(1)); d((int64_t)c[0]); d(c.data()[1].a); d(c.cend() - c.cbegin()); d(c.begin() == c.cbegin()); d(c.capacity() >= c.size()); d(c.empty()); for (auto i = c.rbegin(); i != c.rend(); ++i) d((int64_t)*i); for (auto i = v.rbegin(); i != v.rend(); i++) d(i->a); v.at(1).a = 7; v.front().b = 3; v.back().a = 1; v.data()[1].b = 2; d.all(v); d(v == v); d(c == z); d(c != z); return d.h;
}
struct Feed { using iterator_category = std::input_iterator_tag; using value_type = char; using difference_type = std::ptrdiff_t; using pointer = const char*; using reference = char; int at; CX char operator*() const { return (char)('a' + at % 26); } CX Feed& operator++() { at++; return *this; } CX Feed operator++(int) { Feed f(*this); at++; return f; } CX bool operator==(const Feed& o) const { return at == o.at; } CX bool operator!=(const Feed& o) const { return at != o.at; } };
CX uint64_t r_string(uint64_t seed, int n)
{
  CxRng r(seed); DG d; N::string s, e(std::allocator<char>{}), k("abc", std::allocator<char>()), l("abcdef", 4, std::allocator<char>()); d.all(e); d.all(k); d.all(l); d(s.get_allocator() == e.get_allocator());
  for (int i = 0; i < n; i++) { switch (r.below(4)) { case 0: s += (char)('a' + r.below(3)); break; case 1: s.append(k); break; case 2: s += l; break; default: s.append(s); if (s.size() > 70) s = "ab"; } const auto& c = s; if (!c.empty()) { d(c.front()); d(c.back()); s.front() = 'b'; s.back() = 'c'; d(c[c.size() / 2]); s[0] = 'a'; d(c.data()[0]); s.data()[0] = 'd'; } d((int64_t)c.length()); d(c.end() - c.begin()); d(c.cend() - c.cbegin()); d(s.end() - s.begin()); d(c.capacity() >= c.size());
    d(c == k); d(c != k); d(c < k); d(c == "abc"); d("abc" == c); d(c != "abc"); d(c < "abc"); d("abc" < c); d(c.compare("abd") > 0); d(c.compare(k) < 0); d((int64_t)c.find('c', r.below(9))); d((int64_t)c.find("bc", r.below(9))); d((int64_t)c.find("bca", r.below(9), 2)); d((int64_t)c.find(k, r.below(9))); }
  { N::string g(Feed{ 0 }, Feed{ n }), q(Feed{ 3 }, Feed{ 3 }), w(Feed{ 0 }, Feed{ 3 * n + 1 }, std::allocator<char>()); d.all(g); d.all(q); d.all(w); d(w.c_str()[w.size()] == 0); } return d.h;
}
CX uint64_t r_queue(uint64_t seed, int n)
{
  CxRng r(seed); DG d; N::deque<Pt> q; for (int i = 0; i < n; i++) q.push_back(Pt(i, (int)r.below(9))); N::list<Pt> l; l.push_back(Pt(4, 4)); N::queue<Pt> a(q); N::queue<Pt, N::list<Pt>> b(l), e(std::move(l)); const auto& c = a; d((int64_t)c.front()); d((int64_t)c.back()); d((int64_t)a.back()); d((int64_t)a.front()); d((int64_t)c.size()); d(c.empty()); d((int64_t)b.front()); d((int64_t)e.back());
  N::queue<Pt> z(std::move(q)); d((int64_t)z.size()); z.front().a = 9; z.back().b = 8; z.push(Pt(1, 1)); Pt p(2, 2); z.push(p); while (!z.empty()) { d((int64_t)z.front()); z.pop(); } e.push(p); e = b; d((int64_t)e.size()); a = c; return d.h;
}
CX uint64_t r_owners(uint64_t seed, int n)
{
  CxRng r(seed); DG d; int log = 0; { N::unique_ptr<Pt> u(new Pt(n, (int)r.below(9))); const auto& c = u; d((*c).a); (*u).b += 2; d((*u).b); u->a += 1; d(c->a); d(c.get() == u.get()); N::unique_ptr<Pt> v = std::move(u); d((bool)u); d(u == v); d(u != v); d(v == v); d(v < v); d(v > v); d(v <= v); d(v >= v); v.reset(); d(v == u); N::unique_ptr<Node> b(N::make_unique<Sub>(n, &log)); d(b->id()); b.reset(new Node(1, &log)); d(log); N::unique_ptr<Node> e(b.release()); d((bool)b); d(e->v); }
  d(log); { N::shared_ptr<Node> p(new Sub(3, &log)), q(p), e(nullptr); const auto& c = p; d(c->id()); d((*c).v); d(c.get() == q.get()); d(p == q); d(p < q); d(p > q); d(p <= q); d(p >= q); d(e == N::shared_ptr<Node>()); d((bool)e); d(e.use_count()); N::shared_ptr<Node> m(std::move(q)); d(q.use_count()); d(m.use_count()); q = p; p = p; d(p.use_count()); N::shared_ptr<int> a(m, &m->v); d(a.use_count()); d(*a); m = N::shared_ptr<Node>(); p = m; q = m; d(a.use_count()); d(log); }
  d(log); { N::shared_ptr<Pt[]> a(new Pt[4]{ Pt(1), Pt(2), Pt(3), Pt(4) }), b(a); d(b[2].a); b[3].b = 5; d((int64_t)a[3]); d(a.use_count()); int z = 0; { N::shared_ptr<Pt[]> w(new Pt[2], [&z](Pt* x) { z++; delete[] x; }); auto y = w; w = a; d(z); d(w.use_count()); } d(z); }
  { N::default_delete<Sub> ds; N::default_delete<Node> dn(ds), dm = dn; dn(new Sub(n, &log)); dm(new Node(2, &log)); d(log); N::default_delete<Pt[]> da; N::default_delete<const Pt[]> dc(da); da(new Pt[2]); dc(static_cast<const Pt*>(new Pt[3])); N::shared_ptr<Node> p(new Sub(4, &log), dn); d(p.use_count()); } d(log); return d.h;
}
// a buffer which hands its text over in pieces, of the user's own making
struct Piecewise : N::basic_streambuf<char> {
  char text[80]; int size, at = 0, step, calls = 0; CX Piecewise(uint64_t seed, int n, int step) : text(), size(n < 80 ? n : 80), step(step) { for (int i = 0; i < size; i++) text[i] = (char)(cx_mix(seed + i) % 256); } CX ~Piecewise() {}
  using typename N::basic_streambuf<char>::int_type; using typename N::basic_streambuf<char>::traits_type;
  CX int_type underflow() override { calls++; if (this->gptr() < this->egptr()) return traits_type::to_int_type(*this->gptr()); if (at == size) return traits_type::eof(); int k = step < size - at ? step : size - at; this->setg(text + at, text + at, text + at + k); at += k; return traits_type::to_int_type(*this->gptr()); }
  CX int sync() override { calls += 100; return calls > 400 ? -1 : 0; } CX void seen(DG& d) { d(this->egptr() - this->gptr()); d(this->gptr() - this->eback()); d(calls); }
};
CX N::basic_ios<char>& note(N::basic_ios<char>& b) { b.setstate(N::ios_base::eofbit); return b; }
CX N::basic_ostream<char>& note2(N::basic_ostream<char>& b) { b.clear(); return b; }
// a buffer that overrides nothing
struct Nothing : N::basic_streambuf<char> { CX Nothing() {} CX ~Nothing() {} };
CX uint64_t r_streams(uint64_t seed, int n)
{
  CxRng r(seed); DG d; { Piecewise b(seed, n, 1 + (int)r.below(9)); N::basic_istream<char> is(&b); d(is.rdbuf() == &b); d(is.tie() == nullptr); char out[40] = {};
    for (int i = 0; i < n; i++) { switch (r.below(8)) { case 0: { char c = 3; is.get(c); d(c); d((int64_t)is.gcount()); } break; case 1: { int k = (int)r.below(30); is.read(out, k); d((int64_t)is.gcount()); for (int j = 0; j < (int)is.gcount(); j++) d(out[j]); } break; case 2: is.unget(); break; case 3: is.clear(r.below(3) ? N::ios_base::goodbit : N::ios_base::eofbit); break; case 4: d(!is); d((bool)is); d(is.good()); d(is.eof()); d(is.fail()); break; case 5: is.setstate(r.below(4) ? N::ios_base::goodbit : N::ios_base::failbit); break; case 6: d(b.sgetc()); break; default: d(b.sbumpc()); d(b.snextc()); d(b.sungetc()); d((int64_t)b.sgetn(out, (int)r.below(12))); } d((int)is.rdstate()); b.seen(d); } d((int)(is.exceptions() & N::ios_base::badbit)); is.clear(); is.exceptions(N::ios_base::badbit); d((int)is.exceptions()); d(is.setf(N::ios_base::hex, N::ios_base::basefield) == (N::ios_base::dec | N::ios_base::skipws)); d((is.flags() & N::ios_base::basefield) == N::ios_base::hex); }
  { Piecewise b(seed, n, 3); N::basic_ostream<char> os(&b); for (int i = 0; i < 6; i++) { os.flush(); d((int)os.rdstate()); b.seen(d); d(!os); if (os.fail()) break; } os.clear(); os << note; d((int)os.rdstate()); os << note2; d((int)os.rdstate()); d(os.tie() == nullptr); d(os.rdbuf() == &b); d(b.pubsync()); N::basic_istream<char> none(nullptr); d((int)none.rdstate()); d(!none); char c = 7; none.get(c); d((int64_t)none.gcount()); N::basic_ios<char> base(&b); d(base.good()); d(base.rdbuf() == &b); base.setstate(N::ios_base::eofbit); d(base.eof()); }
  { Nothing b; d(b.pubsync()); N::basic_ostream<char> os(&b); os.flush(); d(os.good()); N::basic_istream<char> is(&b); char c = 5; is.get(c); d((int)is.rdstate()); d((int)is.gcount()); }
  { N::istringstream is; d(is.good()); char c = 2; is.get(c); d(is.eof()); d(is.fail()); N::string t; for (int i = 0; i < n; i++) t.push_back((char)('a' + i % 9)); is.clear(); is.str(t); d(is.str() == t); for (int i = 0; i < n + 1; i++) { is.get(c); d(c); d((int)is.rdstate()); } N::wistringstream w(N::wstring(L"wide \x3b1")); wchar_t x = 0; for (int i = 0; i < 7; i++) { w.get(x); d(x); } d((int)w.rdstate()); N::stringstream s(t); s.get(c); d(c); d(s.str() == t); s.str("other"); d(s.str() == "other"); N::stringstream e; d(e.good()); e.get(c); d(e.eof()); N::basic_stringbuf<char> sb(N::ios_base::in); d(sb.str().empty()); N::basic_stringbuf<char> sd; sd.str("q"); d(sd.str() == "q"); }
  auto m = N::ios_base::in | N::ios_base::out; m |= N::ios_base::ate; m &= ~N::ios_base::out; m ^= N::ios_base::binary; d(m == (N::ios_base::in | N::ios_base::ate | N::ios_base::binary)); auto g = N::ios_base::hex | N::ios_base::skipws; g &= N::ios_base::basefield; g |= N::ios_base::oct; g ^= N::ios_base::hex; d(g == N::ios_base::oct); d((g & ~N::ios_base::oct) == N::ios_base::fmtflags()); d((g ^ g) == N::ios_base::fmtflags()); auto t = N::ios_base::failbit ^ N::ios_base::badbit; t |= N::ios_base::eofbit; t &= ~N::ios_base::failbit; t ^= N::ios_base::badbit; d((int)t); return d.h;
}
