#!/usr/bin/env python3
"""Line coverage of the library by the workloads: tools/coverage.py OUTDIR [program-stem ...]
Builds every harness program with clang's source coverage, runs a few cases of each configuration and prints the
lines of /repo/include/cest no workload executed. A development aid: no verdict depends on it."""
import os, sys, subprocess, concurrent.futures as cf
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.argv, args = sys.argv[:1], sys.argv[1:]
sys.path.insert(0, HERE)
import check as c
out = args[0]; os.makedirs(out, exist_ok=True); stems = args[1:]
jobs = {}
for k in c.SPEC:
    for p, cfgs in c.SPEC[k][0]: jobs.setdefault(p, set()).update(cfgs)
jobs['threads'] = {'distinct', 'readers', 'owners', 'outputs'}
if stems: jobs = {p: v for p, v in jobs.items() if c.stem(p) in stems}
def go(p):
    src, fl = c.P[p]; exe = f'{out}/{p}'
    subprocess.run([c.CXX] + c.BASE + ['-O0', '-fprofile-instr-generate', '-fcoverage-mapping'] + fl + [f'{c.H}/{src}', '-o', exe, '-pthread'], check=True)
    for cfg in jobs[p]:
        n = c.ONE.get(cfg) or max(3, c.CASES[c.stem(p)] // 3)
        subprocess.run([exe, '--out', f'{out}/o.{p}.{cfg}', '--config', cfg, '--cases', str(n)], env=dict(os.environ, LLVM_PROFILE_FILE=f'{out}/{p}.{cfg}.profraw'), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    return exe
with cf.ThreadPoolExecutor(4) as ex: exes = list(ex.map(go, jobs))
os.system(f'llvm-profdata-18 merge -o {out}/all.profdata {out}/*.profraw')
objs = ' '.join(f'-object {e}' for e in exes)[8:]
os.system(f"llvm-cov-18 export -format=lcov -instr-profile={out}/all.profdata {objs} --sources $(find {c.REPO}/include/cest -name '*.hpp') > {out}/lcov 2>/dev/null")
cur = None; miss = {}; tot = {}
for l in open(f'{out}/lcov'):
    if l.startswith('SF:'): cur = l[3:].strip()
    elif l.startswith('DA:'):
        n, k = l[3:].split(',')[:2]; tot.setdefault(cur, [0, 0]); tot[cur][0] += 1
        if int(k): tot[cur][1] += 1
        else: miss.setdefault(cur, []).append(int(n))
for f in sorted(tot):
    print(f'{os.path.basename(f)}: {tot[f][1]}/{tot[f][0]} lines')
    L = open(f).read().split('\n')
    for n in miss.get(f, []): print(f'    {n}: {L[n-1].strip()}')
