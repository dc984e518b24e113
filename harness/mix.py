"""Generated multi-translation-unit programs for C25: headers alone, repeated, in random orders among
the standard headers, linked together in random order; streams used before main and after it."""
import random

# header -> (body; NS is cest or std). The body runs in a function returning long; the std twin gives the expected value.
USES = {
 'algorithm': "int a[7]={5,3,9,1,7,3,2}; NS::sort(a,a+7); long r=0; for(int x:a) r=r*10+x; r+=NS::count_if(a,a+7,[](int x){return x>3;})*100000000; r+=*NS::max_element(a,a+7); return r+(NS::find(a,a+7,9)-a);",
 'array': "NS::array<int,3> a{{4,5,6}}; return a[0]*100+a[1]*10+a[2]+(long)a.size();",
 'cctype': "long r=0; for(int c=0;c<256;c++) r=r*3%1000003+(NS::isalnum(c)?1:0)+(NS::isupper(c)?1:0); return r;",
 'cmath': "long r=(long)NS::floor(-2.5)*100+(long)NS::ceil(2.25); r=r*1000+(long)(NS::sqrt(49.0)+0.5); r=r*100+(long)(NS::pow(2.0,5)+0.5); return r*10+(long)NS::abs(-3.0)+(long)(NS::sin(0.0)+NS::cos(0.0)+0.5);",
 'complex': "NS::complex<double> a(1,2), b(3,-4); auto c=a*b+NS::conj(a)-b/NS::complex<double>(0,1); a*=b; a+=2.0; return (long)(c.real()*1000+c.imag()*10+NS::norm(a)+NS::real(b)*7+NS::imag(b));",
 'cstdio': None,
 'cstdlib': "NS::size_t n=5; return NS::abs(-7)+(long)n;",
 'deque': "NS::deque<int> d; for(int i=0;i<200;i++){d.push_back(i); d.push_front(-i); if(i%3==0) d.pop_front();} long r=0; for(auto x:d) r=r*7%1000003+x; return r+(long)d.size();",
 'forward_list': "NS::forward_list<int> d; for(int i=0;i<20;i++) d.push_front(i); d.insert_after(d.begin(),99); d.erase_after(d.before_begin()); long r=0; for(auto x:d) r=r*7%1000003+x; return r;",
 'fstream': "NS::ifstream f; return f.is_open()?1:2;",
 'functional': "int k=4; NS::function<int(int)> f=[k](int x) mutable {return x*k++;}; long r=f(3); r=r*100+f(3); NS::function<int(int)> g(f); return r*100+g(1);",
 'ios': "return (NS::ios_base::in==NS::ios_base::out)+2*((NS::ios_base::failbit|NS::ios_base::badbit)!=NS::ios_base::goodbit)+4*((NS::ios_base::hex&NS::ios_base::basefield)==NS::ios_base::hex);",
 'ios_base': "return (NS::ios_base::app==NS::ios_base::ate)+2*((NS::ios_base::eofbit&NS::ios_base::failbit)==NS::ios_base::goodbit);",
 'basic_ios': "return (NS::ios_base::goodbit==NS::ios_base::badbit)+2;",
 'iostream': None,
 'istream': "return (NS::ios_base::eofbit==NS::ios_base::badbit)+3;",
 'iterator': "std::vector<int> v; auto it=NS::back_inserter(v); *it++=4; *it++=5; auto j=NS::inserter(v,v.begin()); *j++=9; NS::istreambuf_iterator<char> e,g; return v[0]*100+v[1]*10+v[2]+(e==g?1000:0);",
 'limits': "return (long)NS::numeric_limits<short>::max()+NS::numeric_limits<signed char>::min()+100000*(long)(NS::float_round_style)NS::numeric_limits<double>::round_style+(long)(NS::float_denorm_style)NS::numeric_limits<int>::has_denorm;",
 'list': "NS::list<int> d; for(int i=0;i<30;i++){d.push_back(i); d.push_front(-i);} d.erase(d.begin()); d.insert(d.begin(),77); long r=0; for(auto x:d) r=r*7%1000003+x; return r;",
 'map': "NS::map<int,int> m; for(int i=0;i<100;i++) m.insert({i*37%101,i}); long r0=0; auto q=m.find(5); r0=q->second; long r=0; for(auto& p:m) r=r*7%1000003+p.first*3+p.second; return r+r0+(long)m.size();",
 'memory': "auto p=NS::make_unique<int>(4); NS::unique_ptr<int> q(std::move(p)); NS::shared_ptr<int> s(new int(6)); NS::shared_ptr<int> t(s); return *q*100+*t*10+s.use_count()+(p?1000:0);",
 'shared_ptr': "NS::shared_ptr<int> s(new int(6)); NS::shared_ptr<int> t(s),u; u=t; t=NS::shared_ptr<int>(); return *u*10+s.use_count()+(t?100:0);",
 'numeric': "int a[5]={1,2,3,4,5}; int b[5]; NS::partial_sum(a,a+5,b); NS::iota(a,a+5,3); return NS::accumulate(b,b+5,0)*1000+NS::inner_product(a,a+5,b,0);",
 'ostream': None,
 'pair': "NS::pair<int,long> p=NS::make_pair(3,9L); return p.first*10+p.second;",
 'queue': "NS::queue<int> q; long r=0; for(int i=0;i<300;i++){q.push(i*i%97); if(i%2){r=r*7%1000003+q.front(); q.pop();}} return r+q.back()+(long)q.size();",
 'set': "NS::set<int> m; for(int i=0;i<100;i++) m.insert(i*37%61); long r=0; for(auto p:m) r=r*7%1000003+p; return r+(long)m.size()+(m.find(5)!=m.end())+(m.find(500)!=m.end());",
 'sstream': "NS::istringstream s(NS::string(\"ab\\0cd\",5)); char c; long r=0; for(int i=0;i<7;i++){c='!'; s.get(c); r=r*31%1000003+c+(s.eof()?7:0)+(s.fail()?3:0);} return r;",
 'streambuf': None,
 'string': "NS::string s(\"hello\"); s.push_back('!'); s.append(\" world\"); s.pop_back(); return (long)s.size()*1000+(long)s.find('w')*10+(s<NS::string(\"zz\"))+(s==\"hello! worl\");",
 'swap': None,
 'utility': "NS::pair<int,char> p=NS::make_pair(3,'c'); return p.first*1000+p.second;",
 'vector': "NS::vector<int> v; for(int i=0;i<100;i++) v.push_back(i*i); v.erase(v.begin()+3,v.begin()+9); v.resize(50); long r=0; for(auto x:v) r=r*7%1000003+x; return r+(long)v.size()+(v.capacity()>=v.size());",
}
CEST_ONLY = {
 'cstdio': ("char t[]=\"ab\\0cdef\"; auto* f=cest::fmemopen(t,7,\"r\"); char o[20]={0}; long r=cest::fread(o,1,3,f); r=r*10+cest::fread(o+3,1,9,f); r=r*10+cest::fread(o,1,9,f); r=r*1000+o[4]+o[6]; cest::fclose(f); return r;", "return ((3*10+4)*10+0)*1000+'d'+'f';"),
 'iostream': ("cest::cout.flush(); return (&cest::cout!=&cest::cerr)+2*(&cest::cerr!=&cest::clog)+4*(&cest::cout!=&cest::clog);", "return 7;"),
 'ostream': ("cest::ostream o(nullptr); auto& q=(o<<5<<\"abc\"<<'c'<<cest::endl<<9L); q.flush(); return (&q==&o)+2*((o.rdstate()&cest::ios_base::badbit)!=cest::ios_base::goodbit);", "return 3;"),
 'streambuf': ("cest::basic_streambuf<char>* p=nullptr; return p==nullptr;", "return 1;"),
 'swap': ("int a=1,b=2,c=3; nary::swap(a,b,c); long r=a*100+b*10+c; nary::swapr(a,b); return r*100+a*10+b;", "return 231*100+32;"),
}
STD = ['algorithm','vector','string','map','set','list','deque','queue','complex','cmath','cstdio','cstdlib','memory','functional','iostream','sstream','ios','utility','iterator','numeric','limits','cctype','cassert','stdexcept','type_traits','ostream','istream','fstream','array','forward_list','cstring','initializer_list','compare','new','climits','cstddef','locale','math.h','stdlib.h','stdio.h','ctype.h','complex.h','exception','tuple','bitset','chrono','thread','atomic','ranges','concepts','span','string_view','variant','optional','any']
# complex.h defines a macro I? (in C++ mode it includes <complex>): fine.
HEADERS = sorted(USES)

FLAGS = ['showbase', 'showpos', 'uppercase', 'boolalpha', 'showpoint', 'internal']
def body(h, ns):
    b = USES[h]
    if b is None: return CEST_ONLY[h][0 if ns == 'cest' else 1]
    return b.replace('NS::', ns + '::')

def use_fn(h, name):
    return f"long {name}() {{ {body(h,'cest')} }}\n"

def reference():
    s = ''.join(f"#include <{x}>\n" for x in ['algorithm','array','cctype','cmath','complex','cstdlib','cstdio','deque','forward_list','fstream','functional','ios','iostream','iterator','limits','list','map','memory','numeric','queue','set','sstream','string','utility','vector'])
    for h in HEADERS: s += f"long want_{h}() {{ {body(h,'std')} }}\n"
    return s

def alone(h):
    """the header first, then again, and nothing before it; the program must link and run by itself"""
    extra = '#include <vector>\n' if h == 'iterator' else ''
    s = f'#include "cest/{h}.hpp"\n#include "cest/{h}.hpp"\n{extra}'
    s += use_fn(h, 'use') + f'long want_{h}();\nextern "C" int printf(const char*, ...);\n'
    s += f'int main() {{ long a = use(), b = want_{h}(); if (a != b) {{ printf("DIFF {h} %ld %ld\\n", a, b); return 9; }} printf("OK\\n"); return 0; }}\n'
    return s

def mixed(rng, ntu):
    """ntu translation units with random orders; returns (sources, link order, plan)"""
    srcs, plan = [], []
    for t in range(ntu):
        k = rng.choice([3, 6, 10, 18, len(HEADERS)])
        hs = rng.sample(HEADERS, min(k, len(HEADERS)))
        with_io = rng.random() < .7 or t == 0
        if with_io and 'iostream' not in hs: hs.insert(rng.randrange(len(hs) + 1), 'iostream')
        inc = [('c', h) for h in hs] + [('s', x) for x in rng.sample(STD, rng.choice([0, 2, 6, 15]))]
        rng.shuffle(inc)
        inc += [rng.choice(inc) for _ in range(rng.randrange(4))]
        s, used, plan_t = '', [], []
        for kind, h in inc:
            s += f'#include "cest/{h}.hpp"\n' if kind == 'c' else f'#include <{h}>\n'
            plan_t.append(('cest/' if kind == 'c' else '') + h)
            # use before main, straight after the inclusion, with other headers still to come
            if kind == 'c' and h == 'iostream' and 'init' not in used:
                used.append('init')
                s += f'extern "C" void mark(const char*);\nstruct Init{t} {{ Init{t}() {{ cest::cout << "i{t}" << {t}; cest::cout << cest::string(";"); mark("i{t}{t};"); }} ~Init{t}() {{ cest::cout << "d{t};"; mark("d{t};"); }} }};\nstatic Init{t} init{t};\n'
                bit = FLAGS[t % len(FLAGS)]
                s += f'extern int cin_taken, flags_wrong;\nstruct Early{t} {{ Early{t}() {{ char c = 0; for (int k = 0; k < 2; k++) if (cin_taken < 3) {{ if (k == 1) {{ cest::cin.unget(); cin_taken--; }} cest::cin.get(c); if (c != "cin"[cin_taken]) flags_wrong |= 1; cin_taken++; }} cest::clog.setf(cest::ios_base::{bit}, cest::ios_base::{bit}); cest::cerr.setstate(cest::ios_base::eofbit); }} }};\nstatic Early{t} early{t};\n'
                s += f'int kept_{t}() {{ return (cest::clog.flags() & cest::ios_base::{bit}) == cest::ios_base::{bit} && cest::cerr.eof() && !cest::cout.eof(); }}\n'
            if kind == 'c' and h == 'ostream' and 'lite' not in used:
                used.append('lite')
                s += f'extern "C" void mark(const char*);\nstruct Lite{t} {{ Lite{t}() {{ cest::cout << "o{t}" << -{t} << cest::endl; mark("o{t}{-t}\\n"); }} ~Lite{t}() {{ cest::cout << "q{t};"; mark("q{t};"); }} }};\nstatic Lite{t} lite{t};\n'
        if 'iterator' in hs: s += '#include <vector>\n'
        for h in hs: s += use_fn(h, f'use_{t}_{h}')
        if with_io:
            s += f'const void* addr_{t}(int i) {{ return i==0?(const void*)&cest::cout:i==1?(const void*)&cest::cerr:i==2?(const void*)&cest::clog:(const void*)&cest::cin; }}\n'
            s += f'void hex_{t}() {{ cest::cout << cest::hex; }}\nvoid dec_{t}() {{ cest::cout << cest::dec; }}\nvoid put_{t}(int x) {{ cest::cout << x << ","; }}\n'
        srcs.append(s); plan.append((plan_t, hs, with_io))
    # the driver includes no library header at all
    m = '#include <cstdio>\n#include <unistd.h>\n#include <cstring>\nextern "C" void mark(const char* s) { (void)!write(2, s, strlen(s)); }\nstatic int bad;\nint cin_taken, flags_wrong;\n'
    main = ''
    evals = 0
    for t, (pt, hs, io) in enumerate(plan):
        for h in hs:
            m += f'long use_{t}_{h}(); long want_{h}();\n'; evals += 1
            main += f'  if (use_{t}_{h}() != want_{h}()) {{ bad = 1; printf("DIFF tu{t} {h} %ld %ld\\n", use_{t}_{h}(), want_{h}()); }}\n'
        if io: m += f'int kept_{t}(); const void* addr_{t}(int); void hex_{t}(); void dec_{t}(); void put_{t}(int);\n'
    ios = [t for t in range(ntu) if plan[t][2]]
    for t in ios:
        main += f'  for (int i = 0; i < 4; i++) if (addr_{t}(i) != addr_{ios[0]}(i)) {{ bad = 1; printf("ADDR tu{t} stream %d differs\\n", i); }}\n'
        evals += 1
    for t in ios:
        main += f'  if (!kept_{t}()) {{ bad = 1; printf("STATE set by the initialiser of tu{t} was lost\\n"); }}\n'; evals += 1
    main += '  if (flags_wrong) { bad = 1; printf("CIN delivered something else before main\\n"); }\n'
    for _ in range(4):
        a, b, c = (rng.choice(ios) for _ in range(3)); x = rng.randrange(1, 1 << 20)
        main += f'  hex_{a}(); put_{b}({x}); put_{c}({x}); mark("{x:x},{x:x},"); dec_{c}(); put_{a}({x}); mark("{x},");\n'; evals += 1
    m += 'int main() {\n' + main + '  if (bad) return 9;\n  return 0; }\n'
    order = list(range(ntu)); rng.shuffle(order)
    return srcs + [m], order, plan, evals
