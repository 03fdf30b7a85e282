#!/usr/bin/env python3
"""Developer tool: (re)creates /verif/seeded/<id> from the definitions in tools/bugdefs/*.py and tries them in scratch copies.
bugs.py make ID...   write patch.diff, demo.sh, demo.cpp, meta.json
bugs.py try ID...    scratch copy: build + stable tests + demo with and without the patch + this property's check"""
import glob, json, os, shutil, subprocess, sys
V = '/verif'
DEFS = {}
for f in sorted(glob.glob(V + '/tools/bugdefs/*.py')):
    exec(open(f).read(), {'bug': lambda id, **k: DEFS.__setitem__(id, k)})
DEMO = '''#!/bin/bash
# cwd: /repo; exit 0: the property holds for this scenario
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
g++ -std=c++17 -g -O1 %s -I runtime/src -I "$D" "$D/demo.cpp" %s -o "$W/demo" || exit 3
"$W/demo"
'''
BASE = 'BitStreamReader BitStreamWriter Types FloatUtil CppRuntimeException SizeConvertUtil OutOfRangeException ValidationException Bytes String BitFieldUtil'.split()

def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

def make(i):
    d = DEFS[i]
    out = '%s/seeded/%s' % (V, i)
    os.makedirs(out, exist_ok=True)
    w = '/tmp/bugmake'
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w + '/a'); os.makedirs(w + '/b')
    for f, old, new in d['edits']:
        p = 'runtime/src/zserio/' + f
        src = open('/repo/' + p).read()
        for s in 'ab':
            t = '%s/%s/%s' % (w, s, p)
            os.makedirs(os.path.dirname(t), exist_ok=True)
            if not os.path.exists(t): open(t, 'w').write(src)
        t = '%s/b/%s' % (w, p)
        cur = open(t).read()
        n = cur.count(old)
        if n != 1: sys.exit('%s: %d matches of %r' % (i, n, old))
        open(t, 'w').write(cur.replace(old, new))
    r = sh('cd %s && git diff --no-index --no-prefix a b' % w)
    patch = r.stdout
    open(out + '/patch.diff', 'w').write(patch)
    libs = ' '.join('runtime/src/zserio/%s.cpp' % x for x in BASE + d.get('libs', []))
    open(out + '/demo.sh', 'w').write(DEMO % (d.get('flags', ''), libs))
    os.chmod(out + '/demo.sh', 0o755)
    open(out + '/demo.cpp', 'w').write(d['demo'].lstrip('\n'))
    json.dump(dict(property=d['property'], needs=d['needs'], what_it_breaks=d['breaks']), open(out + '/meta.json', 'w'), indent=1)

def attempt(i, check=True):
    d = '%s/seeded/%s' % (V, i)
    w = '/tmp/bugtry/' + i
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs('/tmp/bugtry', exist_ok=True)
    res = [i]
    sh('cp -a /repo %s && rm -rf %s/_build' % (w, w))
    r = sh('bash %s/demo.sh' % d, cwd=w)
    res.append('demo clean rc=%d' % r.returncode)
    if r.returncode: res.append(r.stdout[-800:])
    r = sh('git apply %s/patch.diff' % d, cwd=w)
    res.append('apply rc=%d %s' % (r.returncode, r.stdout[-300:]))
    r = sh('bash %s/demo.sh' % d, cwd=w)
    res.append('demo patched rc=%d %s' % (r.returncode, r.stdout[-300:].strip()))
    if check is not False:
        b = w + '/_build'
        r = sh('export CC=/usr/bin/gcc CXX=/usr/bin/g++; cmake -S %s/runtime -B %s -G Ninja -DCMAKE_BUILD_TYPE=Debug -DCMAKE_PROJECT_TOP_LEVEL_INCLUDES=/opt/vp/cmake/googletest.cmake -DZSERIO_CPP17_RUNTIME_SQLITE_ROOT=/opt/vp/cmake/sqlite3 && ninja -C %s -j8 ZserioCpp17Runtime ZserioCpp17RuntimeAnyTestLib ZserioCpp17RuntimeTest' % (w, b, b))
        res.append('build rc=%d' % r.returncode)
        if r.returncode: res.append(r.stdout[-1500:])
        os.makedirs(b + '/r', exist_ok=True)
        r = sh('%s/runtime_test/ZserioCpp17RuntimeTest 2>&1 | tail -12' % b, cwd=b + '/r')
        res.append('tests: ' + '\n'.join(l for l in r.stdout.splitlines() if 'PASSED' in l or 'FAILED' in l))
    prop = json.load(open(d + '/meta.json'))['property']
    e = dict(os.environ, VP_REPO=w, VERIF_SEED='1', VERIF_TIER='quick')
    r = sh('timeout 900 python3 vp/run.py %s' % prop, cwd=V, env=e)
    res.append('check rc=%d %s' % (r.returncode, '\n'.join(l for l in r.stdout.splitlines() if l.startswith('VIOLATION') or 'exit' in l)))
    print('\n  '.join(res), flush=True)
    shutil.rmtree(w, ignore_errors=True)

if __name__ == '__main__':
    cmd, ids = sys.argv[1], sys.argv[2:] or list(DEFS)
    for i in ids:
        if cmd == 'make': make(i)
        elif cmd == 'try': make(i); attempt(i)
        elif cmd == 'check': attempt(i, False)
