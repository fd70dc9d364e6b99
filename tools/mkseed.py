#!/usr/bin/env python3
"""Generates /verif/seeded/<id>/{patch.diff,demo.sh,meta.json} from tools/seeds.py and confirms each bug in a scratch
copy: the patch applies, the demo passes on the unchanged tree and fails on the changed one, the stable tests pass, and
(option) what the quick check of its property says.   mkseed.py [--tests] [--check] ID...   (no ID: all)"""
import sys, os, subprocess, shutil, json, threading, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
from seeds import SEEDS
DEMO = '''#!/bin/bash
# Run with the working directory at the repository's root. Exit 0: the property holds in this demonstration.
here=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 3
trap 'rm -rf "$T"' EXIT
mkdir "$T/inc"
cat > "$T/inc/ReiserRT_CoreExport.h" <<'EOF'
#ifndef ReiserRT_Core_EXPORT_H
#define ReiserRT_Core_EXPORT_H
#define ReiserRT_Core_EXPORT __attribute__(( visibility( "default" ) ))
#endif
EOF
g++ -std=c++17 -w %(flags)s -DREISER_RT_HAS_PTHREADS -I "$T/inc" -I src "$here/demo.cpp" src/*.cpp -o "$T/demo" -pthread || exit 3
timeout %(tmo)d "$T/demo"
'''
def sh(cmd, **kw): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
lock = threading.Lock()
def record(sid, p):
    with lock:
        f = V + '/tools/caught.json'; c = json.load(open(f)) if os.path.exists(f) else {}
        l = set(c.get(sid, '').split()); l.add(p); c[sid] = ' '.join(sorted(l)); json.dump(c, open(f, 'w'), indent=1, sort_keys=True)
def one(sid, tests, check):
    s = SEEDS[sid]; d = f'{V}/seeded/{sid}'; os.makedirs(d, exist_ok=True)
    w = f'/tmp/seed/{sid}'; shutil.rmtree(w, ignore_errors=True); os.makedirs('/tmp/seed', exist_ok=True)
    sh(['git', 'clone', '-q', '/repo', w])
    out = []
    open(f'{d}/demo.sh', 'w').write(DEMO % dict(flags=s.get('flags', '-g -O1'), tmo=s.get('tmo', 60))); os.chmod(f'{d}/demo.sh', 0o755)
    r0 = sh(['bash', f'{d}/demo.sh'], cwd=w)
    if r0.returncode: out.append(f'DEMO FAILS ON CLEAN rc={r0.returncode}: {r0.stdout[-600:]}')
    for f, old, new in s['edits']:
        p = f'{w}/src/{f}'; t = open(p).read()
        if t.count(old) != 1: return f'{sid}: edit in {f} matches {t.count(old)} times: {old!r}'
        open(p, 'w').write(t.replace(old, new))
    diff = sh(['git', 'diff'], cwd=w).stdout
    open(f'{d}/patch.diff', 'w').write(diff)
    json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']), open(f'{d}/meta.json', 'w'), indent=1)
    r1 = sh(['bash', f'{d}/demo.sh'], cwd=w)
    if r1.returncode in (0, 3): out.append(f'DEMO rc={r1.returncode} ON PATCHED: {r1.stdout[-600:]}')
    else: out.append(f'demo rc={r1.returncode} ({r1.stdout.strip()[-120:]})')
    r2 = sh(['bash', f'{d}/demo.sh'], cwd=w)
    if r2.returncode in (0, 3): out.append('DEMO UNRELIABLE')
    if tests:
        b = f'{w}/_build'
        e = dict(os.environ, CC='/usr/bin/gcc', CXX='/usr/bin/g++')
        r = sh(f'cmake -S {w} -B {b} -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo && ninja -C {b} && ctest --test-dir {b} -j1 --timeout 120', shell=True, env=e)
        out.append('tests ok' if r.returncode == 0 else 'TESTS FAIL: ' + r.stdout[-800:])
    if check:
        for p in [s['property']] + s.get('also', []):
            r = sh(['python3', f'{V}/mc/check.py', p, 'quick'], env=dict(os.environ, MC_REPO=w, MC_BUILD=f'/tmp/seed/{sid}.b', MC_JOBS='4'))
            v = [l for l in r.stdout.split('\n') if l.startswith('VIOLATION')]
            if r.returncode == 1 and v: record(sid, p)
            out.append(f'{p}: ' + ('caught' if r.returncode == 1 and v else f'MISSED rc={r.returncode} {r.stdout[-300:] if r.returncode else ""}'))
        shutil.rmtree(f'/tmp/seed/{sid}.b', ignore_errors=True)
    shutil.rmtree(w, ignore_errors=True)
    return f'{sid}: ' + '; '.join(out)
if __name__ == '__main__':
    a = sys.argv[1:]; tests = '--tests' in a; check = '--check' in a
    ids = [x for x in a if not x.startswith('--')] or list(SEEDS)
    with cf.ThreadPoolExecutor(2) as ex:
        for r in ex.map(lambda i: one(i, tests, check), ids): print(r, flush=True)
