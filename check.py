#!/usr/bin/env python3
"""check.py <property>   decide one property of /repo by running it under monitors
   check.py setup        verify that the tools are there

VERIF_TIER quick|thorough, VERIF_SEED integer. Exit 0: held on everything explored. Exit 1 with a line
"VIOLATION property=<id> replay=<path>": violated. Exit 2: no verdict (a tool is missing, nothing observed)."""
import collections, concurrent.futures as cf, hashlib, json, os, random, re, shutil, struct, subprocess, sys, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
H = os.path.join(HERE, 'harness')
REPO = os.environ.get('VERIF_REPO', '/repo')   # the variable is for trying changes in scratch copies
sys.path.insert(0, H)
TIER = os.environ.get('VERIF_TIER', 'quick')
if TIER not in ('quick', 'thorough'): TIER = 'quick'
try: SEED = int(os.environ.get('VERIF_SEED', '1'))
except ValueError: SEED = 1
Q = TIER == 'quick'
CXX = shutil.which('clang++-18') or shutil.which('clang++')
NPROC = int(os.environ.get('VERIF_JOBS') or min(8, os.cpu_count() or 1))
T0 = time.time()

BASE = ['-std=c++2a', '-g', '-gline-tables-only', '-Wno-everything', '-fno-assume-sane-operator-new', '-DCONSTEXPR_CEST=1', '-I' + REPO + '/include', '-I' + H]
ASAN = ['-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer']
TSAN = ['-fsanitize=thread', '-fno-omit-frame-pointer']
OPT = {'asan': ['-O0' if Q else '-O1'] + ASAN, 'tsan': ['-O1'] + TSAN, 'plain': ['-O2'], 'vg': ['-O1']}

# program -> (source, flags)
P = {}
def prog(name, src, *flags): P[name] = (src, list(flags))
for n, parts in {'vector': 2, 'deque': 2, 'list': 2, 'tree': 3, 'string': 2, 'algo': 3, 'fault': 2, 'complex': 2, 'pairs': 4, 'lengths': 3, 'nested': 2, 'odd': 2, 'ident': 3}.items():
    for k in range(parts): prog(f'{n}{k}', f'w_{n}.cpp', f'-DPART={k}')
for n in ['queue', 'ptr', 'function', 'streams', 'out', 'cmath', 'threads', 'misc', 'compare', 'costs', 'ios', 'limits', 'vast']: prog(n, f'w_{n}.cpp')

VEC = [('vector0', ['trk', 'trkcopy', 'int', 'growth', 'stateful']), ('vector1', ['string', 'big', 'al64', 'nodef', 'mo'])]
DEQ = [('deque0', ['trk', 'int', 'sweep', 'stateful']), ('deque1', ['string', 'big', 'al64', 'mo', 'sweeptrk'])]
LST = [('list0', ['trk', 'int', 'string', 'al64', 'nodef', 'long']), ('list1', ['ftrk', 'fint', 'fstring', 'fal64', 'fnodef', 'flong'])]
SET = [('tree0', ['s_trk', 's_int', 's_greater', 's_coarse', 's_digit', 's_rev', 's_het', 's_hetint', 's_perms']),
       ('tree1', ['m_trk', 'm_int', 'm_greater', 'm_coarse', 'm_digit', 'm_ci', 'm_het', 'm_hetint', 'm_perms'])]
COST = [('tree2', ['s_cost', 'm_cost'])]
STR = [('string0', ['char', 'charmon', 'ci', 'rev', 'misc']), ('string1', ['wchar', 'char8', 'char16', 'char32'])]
QUE = [('queue', ['trk', 'int', 'list', 'stdlist', 'stddeque', 'string', 'mo'])]
PTR = [('ptr', ['shared', 'array', 'unique', 'reentrant', 'owners'])]
FUN = [('function', ['ledger', 'ledgervoid', 'args', 'sizes'])]
STM = [('streams', ['char', 'wchar'])]
OUT = [('out', ['out'])]
CIO = [('out', ['printf', 'memfile'])]
MTH = [('cmath', ['finite', 'special'])]
CPX = [('complex0', ['float', 'double']), ('complex1', ['longdouble'])]
ALG = [('algo0', ['vector', 'deque']), ('algo1', ['list', 'flist']), ('algo2', ['string', 'set', 'map'])]
FLT = [('fault0', ['vector', 'vectorcopy', 'vectormove', 'deque', 'dequemove', 'edges']),
       ('fault1', ['list', 'listmove', 'flist', 'tree', 'compare', 'string', 'queue', 'owner'])]
CMPR = [('compare', ['char', 'wchar', 'char8', 'char16', 'char32', 'ci', 'rev', 'vectors', 'pointers', 'iterators'])]

PAI = {'C02': [('pairs0', ['vector', 'vectori'])], 'C03': [('pairs0', ['deque', 'dequei'])], 'C04': [('pairs1', ['list', 'listi', 'flist', 'flisti'])],
       'C05': [('pairs2', ['set', 'seti', 'map', 'mapi'])], 'C07': [('pairs3', ['string', 'stringw'])], 'C22': [('pairs3', ['queue', 'queuel'])]}
PAIRS = [j for k in PAI for j in PAI[k]]
LEN = {'C02': [('lengths1', ['vec', 'vectrk', 'vecamp'])], 'C03': [('lengths1', ['deq', 'deqtrk', 'deqamp'])], 'C04': [('lengths2', ['lst', 'lsttrk', 'lstamp'])], 'C05': [('lengths2', ['tree', 'treetrk', 'treeamp'])],
       'C07': [('lengths0', ['str', 'wstr'])], 'C22': [('lengths1', ['que', 'queamp'])], 'C14': [('lengths0', ['ins'])], 'C15': [('lengths0', ['strm', 'wstrm'])], 'C16': [('lengths0', ['print', 'memf'])]}
for k in LEN: PAI[k] = PAI.get(k, []) + LEN[k]
LENC = [j for k in ('C02', 'C03', 'C04', 'C05', 'C07') for j in LEN[k]]; LENS = LENC + [j for k in ('C22', 'C14', 'C15', 'C16') for j in LEN[k]]

NES = {'C02': [('nested0', ['vec', 'rec'])], 'C03': [('nested0', ['deq'])], 'C04': [('nested0', ['lst', 'rec'])], 'C05': [('nested1', ['tree'])], 'C07': [('nested1', ['str'])], 'C22': [('nested1', ['que'])],
       'C11': [('nested1', ['ptr'])], 'C12': [('nested1', ['fun'])], 'C01': [('nested0', ['vec', 'deq', 'lst', 'rec']), ('nested1', ['tree', 'str', 'que', 'ptr', 'fun'])]}
ODD = {'C02': [('odd0', ['vec'])], 'C03': [('odd0', ['deq'])], 'C04': [('odd1', ['lst', 'flst'])], 'C05': [('odd1', ['tree'])], 'C12': [('odd0', ['fun'])], 'C22': [('odd1', ['que'])]}
for k in NES: PAI[k] = PAI.get(k, []) + NES[k]
for k in ODD: PAI[k] = PAI.get(k, []) + ODD[k]
IDN = {'C02': [('ident0', ['vec'])], 'C03': [('ident0', ['deq'])], 'C04': [('ident0', ['lst', 'flst'])], 'C05': [('ident1', ['tree'])], 'C07': [('ident1', ['str'])], 'C22': [('ident1', ['que'])], 'C11': [('ident2', ['ptr'])],
       'C12': [('ident2', ['fun'])], 'C18': [('ident2', ['cpx'])], 'C28': [('ident2', ['ios'])]}
for k in IDN: PAI[k] = PAI.get(k, []) + IDN[k]
ODDS = [('odd0', ['vec', 'deq', 'fun']), ('odd1', ['lst', 'flst', 'que', 'tree'])]

CASES = {  # program stem -> quick cases per configuration (per process)
 'vector': 160, 'deque': 130, 'list': 130, 'tree': 130, 'string': 150, 'queue': 150, 'ptr': 200, 'function': 500, 's_cost': 400, 'm_cost': 400,
 'streams': 700, 'out': 200, 'cmath': 400, 'complex': 300, 'algo': 90, 'fault': 70, 'compare': 120, 'threads': 60, 'misc': 200, 'pairs': 480, 'lengths': 160, 'nested': 240, 'odd': 480, 'ident': 200, 'sizes': 320,
 'growth': 24, 'windows': 24, 'rounds': 60, 'costs': 900, 'ios': 1500, 'masks': 600, 'huge': 80, 'exhaust': 80, 'limits': 40}
ONE = {'s_perms': 1, 'm_perms': 1}
FATAL = 'FATAL,HANG'
SPEC = {  # property -> (jobs, accepted tags)
 'C01': (VEC + DEQ + LST + SET + STR + QUE + PTR + FUN + STM + OUT + CIO + PAIRS + LENS + NES['C01'] + ODDS, 'FATAL,HANG,LEAK'),
 'C02': (VEC + PAI['C02'], 'MODEL,CAP,' + FATAL), 'C03': (DEQ + PAI['C03'], 'MODEL,' + FATAL), 'C04': (LST + PAI['C04'], 'MODEL,' + FATAL), 'C05': (SET + PAI['C05'], 'MODEL,' + FATAL),
 'C06': (COST, 'COST,MODEL,' + FATAL), 'C07': (STR + PAI['C07'], 'MODEL,CAP,' + FATAL),
 'C08': (VEC + DEQ + LST + SET + STR + QUE + PAIRS + [('lengths1', ['vectrk', 'deqtrk', 'vecamp', 'deqamp', 'queamp']), ('lengths2', ['lsttrk', 'treetrk', 'lstamp', 'treeamp'])], 'LIFE,ALLOC,LEAK,' + FATAL),
 'C09': (VEC + DEQ + LST + SET + STR + LENC, 'ADDR,' + FATAL), 'C10': (VEC + DEQ + LST + SET + STR + QUE + PAIRS + LENC + LEN['C22'] + NES['C01'] + ODDS, 'COPY,ALLOC,' + FATAL),
 'C11': (PTR + PAI['C11'], 'MODEL,LIFE,ALLOC,LEAK,COPY,ALIAS,' + FATAL), 'C12': (FUN + PAI['C12'], 'MODEL,LIFE,ALLOC,LEAK,COPY,' + FATAL),
 'C14': (OUT + LEN['C14'], 'MODEL,ORDER,' + FATAL), 'C15': (STM + LEN['C15'], 'MODEL,' + FATAL), 'C16': (CIO + LEN['C16'], 'MODEL,LEAK,' + FATAL),
 'C17': (MTH, 'MODEL,' + FATAL), 'C18': (CPX + PAI['C18'], 'MODEL,ALIAS,' + FATAL),
 'C19': (ALG + [('list0', ['int']), ('list1', ['fint']), ('deque0', ['int', 'sweep']), ('tree0', ['s_int']), ('tree1', ['m_int']), ('compare', ['iterators'])], None),
 'C21': (FLT, None), 'C22': (QUE + PAI['C22'], 'ORDER,MODEL,' + FATAL), 'C23': ([('misc', ['swap'])], None), 'C24': ([('misc', ['cctype', 'starved'])], None),
 'C26': (CMPR + [('ptr', ['shared', 'unique']), ('vector0', ['int']), ('string0', ['ci', 'misc']), ('lengths0', ['str', 'wstr']), ('lengths1', ['vec'])], 'CMP,' + FATAL),
 'C28': ([('ios', ['masks', 'char', 'wchar'])] + PAI['C28'], 'MODEL,' + FATAL), 'C29': ([('costs', ['growth', 'windows', 'ops', 'rounds'])], 'COST,LEAK,' + FATAL), 'C30': ([('limits', ['huge', 'exhaust'])], 'MODEL,LEAK,' + FATAL),
 'C27': (VEC + DEQ + LST + SET + STR + QUE + LENC, 'ALIAS,' + FATAL),
}
# contents past 2^31 and 2^32: optimised builds, one process at a time
VAST = {'C02': {'vec': 2}, 'C03': {'deq': 1}, 'C07': {'str': 2}, 'C10': {'str': 1, 'vec': 1}, 'C11': {'own': 1}, 'C15': {'strm': 1}, 'C16': {'memf': 1}, 'C22': {'que': 2}, 'C26': {'str': 2}}
ITER_ACCEPT = {'algo': None}  # C19: everything in the algorithm programs, ITER elsewhere

RULE = {
 'default': 'a case is one generated history of operations (seeded; sizes, element values, operation mix and element type vary); it counts as distinct and non-trivial when its recorded operation sequence has at least 3 operations and differs from every other history seen',
 'C13': 'a case is one generated computation evaluated by the compiler and again at run time and by the standard counterpart; distinct when its digest differs',
 'C25': 'a case is one generated program (headers, order, translation units, link order); distinct when its include plan differs; non-trivial when it used at least one facility of a library header and compared the result',
}
LEVEL_ASSUME = ['clang 18, libstdc++ 13, x86-64 Linux, -std=c++2a', 'sanitizer run-times report what they are documented to report', 'the libstdc++ / glibc counterpart is the reference']

class Violation(Exception):
    def __init__(self, key, text, replay): self.key, self.text, self.replay = key, text, replay
class NoVerdict(Exception): pass

def say(*a): print(*a, flush=True)

def sh(cmd, timeout=None, env=None, cwd=None, stdin=subprocess.DEVNULL):
    """run; -> (rc, stdout, stderr); rc None on timeout"""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=stdin, env=env, cwd=cwd, start_new_session=True)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o, e
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, 9)
        except OSError: pass
        o, e = p.communicate()
        return None, o, e

class Run:
    def __init__(self, pid):
        self.pid = pid
        self.dir = os.path.join(HERE, 'build', f'{pid}-{os.getpid()}')
        shutil.rmtree(self.dir, ignore_errors=True); os.makedirs(self.dir)
        self.rdir = os.path.join(HERE, 'evidence', 'replay'); os.makedirs(self.rdir, exist_ok=True)
        self.lock = threading.Lock()
        self.stats = []; self.viol = []; self.errors = []; self.hists = set(); self.notes = collections.Counter()
        self.samples = []; self.extra = {}
        self.pool = cf.ThreadPoolExecutor(NPROC)
        self.known = load_known(pid)
        self.stop = False

    # ---- compile
    def compile(self, name, mode, src=None, flags=None, out=None, objonly=False, timeout=600):
        if src is None: src, flags = P[name]
        out = out or os.path.join(self.dir, f'{name}.{mode}')
        cmd = [CXX] + BASE + OPT[mode] + (flags or []) + (['-c'] if objonly else []) + [os.path.join(H, src) if not src.startswith('/') else src, '-o', out] + ([] if objonly else ['-pthread'])
        for attempt in (0, 1):
            rc, o, e = sh(cmd, timeout)
            if rc == 0:
                self.notes['programs_compiled'] += 1
                return out
            err = e.decode('utf8', 'replace')
            if rc is not None and 'error:' in err and 'unable to' not in err: break
        if rc is None or ('error:' not in err) or 'unable to execute' in err or 'No space left' in err:
            raise NoVerdict(f'compiling {name} failed without a diagnosis: {err[-800:]}')
        lines = [l for l in err.splitlines() if 'error:' in l or 'note: ' in l or 'undefined reference' in l][:20]
        self.report(f'{name}:build', f'the program {os.path.basename(src)} no longer compiles or links against the library\n' + '\n'.join(lines), ' '.join(cmd))
        return None

    # ---- verdicts
    def report(self, key, text, replay_cmd):
        with self.lock:
            self.viol.append((key, text, replay_cmd))

    def one(self, binary, name, config, cases, accept, seed, mode, extra=(), wrap=(), timeout=None, cpu=None, alone=False):
        """run one process of a program and read its verdict"""
        if self.stop or binary is None: return
        tag = f'{name}.{config}.{seed}.{mode}' + ('.' + hashlib.md5(' '.join(extra).encode()).hexdigest()[:6] if extra else '')
        out = os.path.join(self.dir, 'o.' + tag)
        args = ['--out', out, '--seed', str(seed), '--cases', str(cases), '--config', config] + (['--accept', accept] if accept else []) + list(extra)
        if cpu: args += ['--cpu', str(cpu)]
        env = dict(os.environ)
        env['ASAN_OPTIONS'] = 'detect_leaks=1:detect_stack_use_after_return=1:strict_string_checks=1:check_initialization_order=1:detect_invalid_pointer_pairs=0:new_delete_type_mismatch=1:hard_rss_limit_mb=3000:allocator_may_return_null=0'
        env['LSAN_OPTIONS'] = 'report_objects=0'
        env['UBSAN_OPTIONS'] = 'print_stacktrace=1'
        env['TSAN_OPTIONS'] = 'halt_on_error=1:exitcode=66:second_deadlock_stack=1:history_size=4'
        timeout = timeout or (240 if Q else 850)
        runs = []
        for attempt in (0, 1):
            for s in ('.viol', '.stats', '.hists'):
                try: os.unlink(out + s)
                except OSError: pass
            rc, o, e = sh(list(wrap) + [binary] + args, timeout, env)
            err = e.decode('utf8', 'replace')
            if rc == 66 and 'unexpected memory mapping' in err and not wrap:   # TSan and address-space randomisation
                wrap = ['setarch', '-R']; rc, o, e = sh(list(wrap) + [binary] + args, timeout, env); err = e.decode('utf8', 'replace')
            v = open(out + '.viol').read() if os.path.exists(out + '.viol') else ''
            runs.append((rc, v, err))
            if rc == 0 and not v: break
            if rc == 10: break                       # the monitor's own verdict
            if v and 'key=hang' not in v: break       # a sanitizer's
        rc, v, err = runs[-1]
        if rc == 3: raise NoVerdict(f'{name}: unknown configuration {config}')
        replay = f'{" ".join(list(wrap) + [binary] + args)}   (program {P[name][0] if name in P else name}, flags {P[name][1] if name in P else ""}, mode {mode})'
        if rc == 0 and not v:
            st = json.load(open(out + '.stats'))
            hs = open(out + '.hists', 'rb').read() if os.path.exists(out + '.hists') else b''
            with self.lock:
                self.stats.append(st)
                pre = hash((name, config))
                self.hists.update((pre, x[0]) for x in struct.iter_unpack('<Q', hs))
                if len(self.samples) < 400: self.samples += st.get('samples', [])
            for k, m in st.get('soft', {}).items(): self.report(f'{name}/{config}:{k}', m, replay)
            return
        if alone and not (rc == 66 or 'ThreadSanitizer: data race' in err):
            # a deviation that one thread by itself shows as well says nothing about threads
            for sd in (seed, seed + 1):
                a2 = args[:]; a2[a2.index('--seed') + 1] = str(sd)
                q = sh(list(wrap) + [binary] + a2 + ['--threads', '1'], timeout, env)[0]
                if q != 0:
                    with self.lock: self.notes['deviations_also_seen_with_one_thread'] += 1
                    return
        if len(runs) == 2 and runs[0][0] != 0 and rc == 0:
            self.notes['unreproduced'] += 1; return
        if v:
            key = re.search(r'^key=(.*)$', v, re.M).group(1)
            san = sanitizer_summary(err)
            self.report(f'{name}/{config}:{key}', v + ('\n--- sanitizer ---\n' + san if san else ''), replay)
        elif rc is None: self.report(f'{name}/{config}:hang', 'the process did not end within the wall-clock limit, twice', replay)
        elif rc == 66 or 'ThreadSanitizer' in err: self.report(f'{name}/{config}:race', sanitizer_summary(err), replay)
        elif wrap and wrap[0] == 'valgrind' and rc == 99: self.report(f'{name}/{config}:memcheck', '\n'.join(l for l in err.splitlines() if l.startswith('==')) [:6000], replay)
        elif 'Sanitizer' in err or 'runtime error' in err: self.report(f'{name}/{config}:sanitizer', sanitizer_summary(err), replay)
        elif rc == -9: raise NoVerdict(f'{name}/{config}: killed from outside')
        elif rc < 0: self.report(f'{name}/{config}:signal', f'the process was ended by signal {-rc}, twice\n{err[-2000:]}', replay)
        else: self.report(f'{name}/{config}:exit', f'the process ended with status {rc}, twice, without finishing its cases\n{err[-2000:]}', replay)

def sanitizer_summary(err):
    l = err.splitlines()
    for i, x in enumerate(l):
        if 'ERROR:' in x or 'WARNING: ThreadSanitizer' in x or 'runtime error:' in x: return '\n'.join(l[i:i + 45])[:5000]
    return ''

def load_known(pid):
    """KNOWN: property=<id> key=<signature> <text>"""
    r = {}
    f = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r'KNOWN: property=(\S+) key=(\S+) (.*)', l)
            if m and m.group(1) == pid: r[m.group(2)] = m.group(3).strip()
    return r

def stem(p): return p.rstrip('0123456789')

def shards(): return [SEED * 1000] if Q else [SEED * 1000 + i for i in range(12)]

def run_spec(r, pid):
    jobs, accept = SPEC[pid]
    progs = collections.OrderedDict()
    for p, cfgs in jobs: progs.setdefault(p, []).extend(c for c in cfgs if c not in progs.get(p, []))
    scale = 1 if Q else 10
    if pid in ('C01', 'C08', 'C09', 'C27'): scale *= 0.7
    def go(p):
        b = r.compile(p, 'asan')
        fs = []
        for c in progs[p]:
            a = accept
            if pid == 'C19' and stem(p) != 'algo': a = 'ITER,CMP,' + FATAL
            n = ONE.get(c) or max(1, int(CASES.get(c, CASES[stem(p)]) * scale))
            for s in shards():
                if c in ONE and s != shards()[0]: continue
                ex = [] if Q else ['--budget', '60'] + (['--scale', '4'] if stem(p) in ('lengths', 'costs') else [])
                fs.append((b, p, c, n, a, s, 'asan', ex))
        return fs
    todo = []
    big = [r.pool.submit(vast, r, pid, accept)] if pid in VAST else []
    comp = [r.pool.submit(go, p) for p in progs]
    runs = []
    for f in cf.as_completed(comp):
        for t in f.result(): runs.append(r.pool.submit(r.one, *t))
    if not Q and pid in ('C02', 'C03', 'C04', 'C05', 'C07', 'C08', 'C10', 'C11', 'C12', 'C21', 'C22', 'C27', 'C28', 'C30'):
        # the same workloads as an optimising compiler translates them
        for p in progs:
            b = r.compile(p, 'plain')
            for c in progs[p]:
                runs.append(r.pool.submit(r.one, b, p, c, ONE.get(c) or CASES.get(c, CASES[stem(p)]) * 10, accept, SEED * 1000 + 77, 'plain', ['--budget', '40']))
    for f in big + runs: f.result()

def vast(r, pid, accept):
    b = r.compile('vast', 'plain')
    for c, n in VAST[pid].items():
        for _ in range(20):   # room for the process
            m = re.search(r'MemAvailable:\s+(\d+)', open('/proc/meminfo').read())
            if not m or int(m.group(1)) > 12 << 20: break
            time.sleep(3)
        else:
            with r.lock: r.notes['vast_contents_left_out_for_lack_of_memory'] += 1
            continue
        for s in range(1 if Q else 3): r.one(b, 'vast', c, n, accept, SEED * 1000 + 40 + s, 'plain', [] if Q else ['--budget', '120'], (), 500, 200)

def run_c01(r):
    run_spec(r, 'C01')
    # uninitialised reads: an uninstrumented build under valgrind
    vg = shutil.which('valgrind')
    if not vg: raise NoVerdict('valgrind is not installed')
    sel = {'vector0': ['int', 'trk'], 'deque0': ['int', 'trk'], 'list0': ['int'], 'list1': ['fint'], 'tree0': ['s_int'], 'tree1': ['m_int'],
           'string0': ['char', 'misc'], 'string1': ['wchar', 'char16'], 'queue': ['int'], 'ptr': ['shared', 'unique'], 'function': ['ledger', 'ledgervoid'], 'streams': ['char'], 'out': ['memfile', 'out']}
    def go(p):
        b = r.compile(p, 'vg')
        return [(b, p, c) for c in sel[p]]
    fs = []
    for f in cf.as_completed([r.pool.submit(go, p) for p in sel]):
        for b, p, c in f.result():
            n = 8 if Q else 60
            fs.append(r.pool.submit(r.one, b, p, c, n, 'FATAL,HANG', SEED * 1000 + 5, 'vg', [] if Q else ['--budget', '300'],
                      ['valgrind', '--quiet', '--error-exitcode=99', '--exit-on-first-error=yes', '--leak-check=no', '--undef-value-errors=yes'], 600, 300))
            r.notes['valgrind_processes'] += 1
    for f in fs: f.result()

def run_c13(r):
    n = 8
    batches = 1 if Q else 6
    count, length = (30, 80) if Q else (60, 120)
    def go(part, k):
        first = (SEED * 7919 + k * 104729 + part * 31) % 1000000
        nm = f'cexpr{part}'
        P.setdefault(nm, ('w_cexpr.cpp', [f'-DPART={part}']))
        out = os.path.join(r.dir, f'{nm}.{k}')
        b = r.compile(nm, 'asan', 'w_cexpr.cpp', [f'-DPART={part}', '-fconstexpr-steps=1000000000', '-fconstexpr-depth=4096', '-ferror-limit=10', f'-DFIRST={first}', f'-DCOUNT={count}', f'-DLEN={length}'], out, timeout=800)
        return [(b, nm, f'batch{k}', 1, None, SEED, 'asan', [])]
    fs = [r.pool.submit(go, p, k) for k in range(batches) for p in range(n)]
    runs = []
    for f in cf.as_completed(fs):
        for t in f.result(): runs.append(r.pool.submit(r.one, *t))
    for f in runs: f.result()

# the lockstep workloads, run by several threads at once, each on its own objects
TOGETHER = [('vector0', ['trk', 'int']), ('vector1', ['string', 'mo']), ('deque0', ['int', 'trk']), ('list0', ['trk', 'int']), ('list1', ['ftrk', 'fint']),
            ('tree0', ['s_int', 's_het', 's_rev']), ('tree1', ['m_int', 'm_het', 'm_ci']), ('string0', ['char', 'charmon', 'ci', 'misc']), ('string1', ['wchar', 'char16']),
            ('queue', ['int', 'list']), ('ptr', ['shared', 'array', 'unique', 'reentrant', 'owners']), ('function', ['ledger', 'ledgervoid', 'args']), ('streams', ['char', 'wchar']),
            ('cmath', ['finite', 'special']), ('complex0', ['float', 'double']), ('complex1', ['longdouble']), ('algo0', ['vector', 'deque']), ('algo1', ['list', 'flist']),
            ('algo2', ['string', 'set', 'map']), ('compare', ['char', 'wchar', 'ci', 'vectors', 'pointers', 'iterators']), ('misc', ['swap']), ('nested0', ['rec']), ('nested1', ['ptr', 'fun', 'str']),
            ('costs', ['ops', 'growth']), ('ios', ['masks', 'char', 'wchar']), ('limits', ['exhaust']), ('lengths0', ['str', 'wstr', 'strm', 'wstrm']), ('lengths1', ['vec', 'deq', 'que']), ('lengths2', ['lst', 'tree']),
            ('odd0', ['vec', 'fun']), ('odd1', ['tree', 'que'])]
HEAVY = {'tree0', 'tree1', 'deque0', 'deque1'}
def run_c20(r):
    cfgs = ['distinct', 'readers', 'owners', 'outputs']
    def own(mode):
        b = r.compile('threads', mode)
        if mode == 'asan': return [(b, 'threads', c, 40 if Q else 600, None, SEED * 1000 + 50, 'asan', [] if Q else ['--budget', '60']) for c in cfgs]
        return [(b, 'threads', c, 60 if Q else 600, None, SEED * 1000 + s, 'tsan', [] if Q else ['--budget', '120']) for c in cfgs for s in range(2 if Q else 10)]
    def together(p, cs):
        b = r.compile(p, 'tsan', P[p][0], P[p][1] + ['-DMON_THREADS'], os.path.join(r.dir, p + '.mt'))
        return [(b, p, c, 3 if p in HEAVY and Q else 12 if Q else 60, None, SEED * 1000 + 300 + 2 * k, 'mt', ['--threads', '4' if k % 2 == 0 else '8'], (), None, None, True) for c in cs for k in range(1 if Q else 3)]
    fs = [r.pool.submit(own, 'tsan'), r.pool.submit(own, 'asan')] + [r.pool.submit(together, p, cs) for p, cs in TOGETHER + ([] if Q else PAIRS)]
    runs = []
    for f in cf.as_completed(fs):
        for t in f.result(): runs.append(r.pool.submit(r.one, *t))
    for f in runs: f.result()

def run_c24(r):
    run_spec(r, 'C24')
    b = r.compile('misc', 'plain')
    fs = [r.pool.submit(r.one, b, 'misc', 'sweep', 64, None, SEED, 'plain', ['--scale', str(k), '--budget', '60' if Q else '600'], (), 800) for k in range(64)]
    for f in fs: f.result()
    done = not any(s['counters'].get('stopped_by_time_budget') for s in r.stats)
    r.extra['exhaustive'] = done and not r.viol

def run_c25(r):
    import mix
    rng = random.Random(SEED * 1000003 + 25)
    env = dict(os.environ, ASAN_OPTIONS='check_initialization_order=1:strict_init_order=1:detect_odr_violation=2:detect_leaks=1')
    def put(name, text):
        f = os.path.join(r.dir, name + '.cpp'); open(f, 'w').write(text); return f
    def obj(name, text):
        return r.compile(name, 'asan', put(name, text), [], os.path.join(r.dir, name + '.o'), objonly=True)
    def link(name, objs):
        exe = os.path.join(r.dir, name)
        cmd = [CXX] + ASAN + objs + ['-o', exe, '-pthread']
        rc, o, e = sh(cmd, 300)
        if rc != 0:
            err = e.decode('utf8', 'replace')
            if 'undefined reference' in err or 'multiple definition' in err or 'undefined symbol' in err or 'duplicate symbol' in err:
                r.report(f'{name.split("_")[0]}:link', err[:3000], ' '.join(cmd)); return None
            raise NoVerdict('linking failed: ' + err[-500:])
        return exe
    ref = obj('reference', mix.reference())
    ev = collections.Counter(); plans = set(); samples = []
    def keep(text, key, names):
        """sources of a failing program, for the replay"""
        d = os.path.join(r.rdir, 'C25-' + key.replace('/', '_').replace(':', '_')); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        for n in names: shutil.copy(os.path.join(r.dir, n + '.cpp'), d)
        return d
    def run(exe, key, names, twin):
        rc, o, e = sh([exe], 120, env)
        o, e = o.decode('utf8', 'replace'), e.decode('utf8', 'replace')
        if rc != 0 or (twin and o != e):
            d = keep('', key, names)
            r.report(key, f'status {rc}\nstdout: {o[:1500]}\nexpected (or stderr): {e[:3000]}', f'sources in {d}')
    def alone(h):
        n = 'alone_' + h
        o = obj(n, mix.alone(h))
        if not o: return
        exe = link(n, [o, ref])
        if exe: run(exe, f'alone/{h}:run', [n, 'reference'], False)
        with r.lock: ev['alone'] += 1; ev['uses'] += 1; plans.add(('alone', h))
    def mixed(i):
        g = random.Random(rng_seeds[i]); ntu = 3 if Q else g.choice([2, 3, 4, 6])
        srcs, order, plan, n = mix.mixed(g, ntu)
        names = [f'mix{i}_{t}' for t in range(len(srcs))]
        objs = [obj(nm, s) for nm, s in zip(names, srcs)]
        if None in objs: keep('', f'mix{i}', names); return
        exe = link(f'mix{i}_prog', [objs[t] for t in order] + [objs[-1], ref])
        if exe: run(exe, f'mix{i}:run', names + ['reference'], True)
        with r.lock:
            ev['mixed'] += 1; ev['uses'] += n; plans.add(tuple(tuple(p[0]) for p in plan))
            if len(samples) < 6: samples.append(f'link order {order}: ' + ' | '.join(' '.join(p[0]) for p in plan))
    nm = 14 if Q else 250
    rng_seeds = [rng.randrange(1 << 60) for _ in range(nm)]
    def pairs(i):
        """every header after every other one: one file per first header, including all others after it, and the reverse"""
        hs = mix.HEADERS[:]; a = hs[i]; rest = [h for h in hs if h != a]; random.Random(rng_seeds[0] + i).shuffle(rest)
        t = ''.join(f'#include "cest/{h}.hpp"\n' for h in [a] + rest) + ('#include <vector>\n' + ''.join(mix.use_fn(h, 'use_' + h) for h in hs))
        obj(f'first_{a}', t)
        with r.lock: ev['orders'] += 1; plans.add(('order', a, tuple(rest)))
    fs = [r.pool.submit(alone, h) for h in mix.HEADERS] + [r.pool.submit(mixed, i) for i in range(nm)]
    if not Q: fs += [r.pool.submit(pairs, i) for i in range(len(mix.HEADERS))]
    else: fs += [r.pool.submit(pairs, i) for i in random.Random(SEED).sample(range(len(mix.HEADERS)), 8)]
    for f in fs: f.result()
    r.stats.append({'cases': ev['alone'] + ev['mixed'] + ev['orders'], 'ops': ev['uses'], 'checks': ev['uses'], 'distinct_states': len(plans), 'ignored': 0,
                    'counters': dict(ev), 'program': 'mix', 'config': 'mix', 'samples': samples})
    r.hists = plans; r.samples = samples

RUNNERS = {'C01': run_c01, 'C13': run_c13, 'C20': run_c20, 'C24': run_c24, 'C25': run_c25}

def main(pid):
    if pid not in SPEC and pid not in RUNNERS: say('unknown property', pid); return 2
    if not CXX: say('clang++ not found'); return 2
    if not os.path.isdir(REPO + '/include/cest'): say('no library in', REPO); return 2
    r = Run(pid)
    rc = 0
    try:
        try: RUNNERS.get(pid, lambda q: run_spec(q, pid))(r)
        except NoVerdict as e:
            if not r.viol: say('NO VERDICT:', e); return 2
        fresh = []
        seen_known = set()
        for key, text, cmd in r.viol:
            if key in r.known: seen_known.add(key)
            else: fresh.append((key, text, cmd))
        for k in sorted(r.known): 
            if k in seen_known: say(f'KNOWN-FINDING: property={pid} {r.known[k]}')
        tot = collections.Counter(); cnt = collections.Counter(); per = collections.Counter()
        for s in r.stats:
            for k in ('cases', 'ops', 'checks', 'distinct_states', 'ignored'): tot[k] += s.get(k, 0)
            for k, v in s.get('counters', {}).items(): cnt[k] += v
            per[f"{s['program']}/{s['config']}"] += s.get('cases', 0)
        samples = r.samples; random.Random(SEED).shuffle(samples)
        ev = {'property': pid, 'tier': TIER, 'seed': SEED, 'level': 'exploration',
              'coverage': {'evaluations': tot['cases'], 'distinct_nontrivial': len(r.hists), 'rule': RULE.get(pid, RULE['default']),
                           'samples': [s[:600] for s in samples[:6]], 'operations_executed': tot['ops'], 'monitor_checks_evaluated': tot['checks'],
                           'distinct_states_observed': tot['distinct_states'], 'deviations_left_to_other_properties': tot['ignored'],
                           'events': dict(sorted(cnt.items())), 'cases_per_workload': dict(sorted(per.items())), 'processes': len(r.stats), 'notes': dict(r.notes), **r.extra},
              'assumptions': LEVEL_ASSUME, 'wall_s': round(time.time() - T0, 2), 'violations': len(fresh)}
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1)
        if fresh:
            bykey = collections.OrderedDict()
            for k, t, c in fresh: bykey.setdefault(k, (t, c))
            for i, (k, (t, c)) in enumerate(list(bykey.items())[:5]):
                f = os.path.join(r.rdir, f'{pid}-{i}.txt')
                open(f, 'w').write(f'property={pid} key={k} tier={TIER} VERIF_SEED={SEED}\nrun again: VERIF_SEED={SEED} VERIF_TIER={TIER} python3 {HERE}/check.py {pid}\nprocess: {c}\n\n{t}\n')
                say(f'VIOLATION property={pid} replay={f}')
                say('  ' + k + ' | ' + ' '.join(t.split())[:400])
            return 1
        if tot['checks'] == 0 or tot['cases'] == 0: say('NO VERDICT: nothing was observed'); return 2
        say(f"OK {pid} {TIER} seed={SEED}: {tot['cases']} cases, {len(r.hists)} distinct, {tot['ops']} operations, {tot['checks']} checks, {time.time()-T0:.1f}s" + (f' notes={dict(r.notes)}' if r.notes.get('unreproduced') else ''))
        return 0
    finally:
        r.pool.shutdown(wait=False, cancel_futures=True)
        if not os.environ.get('VERIF_KEEP'): shutil.rmtree(r.dir, ignore_errors=True)

def setup():
    for t in ('clang++-18', 'valgrind', 'setarch'):
        say(t, shutil.which(t))
    if not CXX or not shutil.which('valgrind'): return 1
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    return 0

if __name__ == '__main__':
    a = sys.argv[1:]
    code = setup() if a == ['setup'] else main(a[0]) if len(a) == 1 else 2
    sys.stdout.flush()
    os._exit(code)
