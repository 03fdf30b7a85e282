#!/usr/bin/env python3
"""Runs the contracts of one property against /repo's current tree. See DESIGN.md."""
import concurrent.futures as cf
import fnmatch, glob, json, os, re, shutil, subprocess, sys, tempfile, time, threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
SRC = REPO + '/runtime/src'
BUILD = VERIF + '/build'
sys.path.insert(0, VERIF + '/vp')
from checks import CHECKS  # noqa

CLANG = 'clang++-18'
UB = '-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero,unreachable,return,bool,enum,float-cast-overflow,bounds,builtin'
IRF = ['-std=c++17', '-O0', '-Xclang', '-disable-O0-optnone', '-gline-tables-only', '-emit-llvm', '-c', '-w',
       '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-D_GLIBCXX_ASSERTIONS', UB, '-fsanitize-trap=all', '-fno-access-control']
NATF = ['-std=c++17', '-O1', '-DVP_NATIVE', '-g1', '-w', '-D_GLIBCXX_ASSERTIONS', '-fsanitize=address', UB, '-fno-sanitize-recover=all',
        '-fno-access-control', '-fno-omit-frame-pointer']
INC = ['-I' + SRC, '-I' + VERIF + '/contracts']
PASSES = 'function(sroa,mem2reg,early-cse,simplifycfg<no-switch-to-lookup>,instsimplify)'
# sources without relevance for any contract (need libraries or the file system)
SKIP = {'FileUtil.cpp'}
NCPU = os.cpu_count() or 8


# the verifier gets this much time per check; then undecided contracts are only searched natively
SLOW_S = 180
LIMIT_S = int(os.environ.get('VP_LIMIT') or 420)


class Broken(Exception):
    pass


def sh(cmd, timeout=None, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=timeout, **kw)


def sources():
    r = []
    for f in sorted(glob.glob(SRC + '/zserio/*.cpp')):
        if os.path.basename(f) in SKIP:
            continue
        r.append(f)
    if not r:
        raise Broken('no sources in ' + SRC)
    return r


def ensure_engine():
    r = sh([VERIF + '/engine/build.sh', BUILD])
    if r.returncode or not os.path.exists(BUILD + '/vpexec'):
        raise Broken('engine build failed:\n' + r.stdout[-2000:])


def compile_ir(src, out, extra=()):
    r = sh([CLANG] + IRF + list(extra) + INC + [src, '-o', out])
    return r.returncode, r.stdout


def expected_covers(path):
    """vp_cover names per contract"""
    text = open(path).read()
    res = {}
    pos = [(m.start(), m.group(1)) for m in re.finditer(r'^CONTRACT\((\w+)\)', text, re.M)]
    for i, (p, n) in enumerate(pos):
        end = text.index('\n}', p)
        res[n] = re.findall(r'vp_cover\("([^"]*)"\)', text[p:end])
    return res


def short_name(f):
    """the name of a function without its template arguments and parameters"""
    f = f.replace('(anonymous namespace)::', '')
    out, depth, k = '', 0, 0
    while k < len(f):
        if f.startswith('operator', k) and depth == 0:
            m = re.match(r'operator(<=>|<<=|>>=|<<|>>|<=|>=|->|<|>|\(\))', f[k:])
            if m:
                out += m.group(0)
                k += len(m.group(0))
                continue
        ch = f[k]
        if ch == '<' or ch == '(':
            depth += 1
            if ch == '(' and depth == 1:
                break
        elif ch in '>)':
            depth -= 1
        elif depth == 0:
            out += ch
        k += 1
    out = out.strip()
    i = out.find('operator ')
    j = (out if i < 0 else out[:i]).rfind(' ')
    return out[j + 1:]


class Check:
    def __init__(self, pid, tier):
        self.pid, self.tier, self.c = pid, tier, CHECKS[pid]
        self.tdefs = ['-DVP_QUICK'] if tier == 'quick' else ['-DVP_THOROUGH']
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix='vp-%s-' % pid, dir=BUILD)
        self.notes = []
        self.native = {}
        self.nlock = threading.Lock()
        self.blk = threading.Lock()
        self.nobjs = None
        self.stop = False
        self.deadline = self.t0 + (LIMIT_S if tier == 'quick' else 3 * LIMIT_S)
        self.found = []
        self.late = {}  # entry -> shards without an answer in time
        self.skip, self.tried, self.confirmed, self.nfail, self.running = set(), set(), [], {}, {}
        try:
            self.known = json.load(open(VERIF + '/known_findings.json'))['findings']
        except FileNotFoundError:
            self.known = []

    def log(self, *a):
        print('[%s %6.1fs]' % (self.pid, time.time() - self.t0), *a, flush=True)

    # -------------------------------------------------------------- compile
    def compile(self):
        pool = cf.ThreadPoolExecutor(NCPU)
        jobs = {}
        for s in sources():
            o = self.work + '/src_' + os.path.basename(s) + '.bc'
            jobs[s] = (o, pool.submit(compile_ir, s, o))
        cjobs = {}
        self.contracts = {}
        for e in self.entries:
            key = (e['file'], tuple(e.get('defs', ())))
            if key in cjobs:
                continue
            o = self.work + '/c_%d.bc' % len(cjobs)
            cjobs[key] = (o, pool.submit(compile_ir, VERIF + '/contracts/' + e['file'], o, e.get('defs', ())))
        bcs = []
        for s, (o, f) in jobs.items():
            rc, out = f.result()
            if rc:
                raise Broken('cannot compile %s\n%s' % (s, out[-3000:]))
            bcs.append(o)

        def link(key, o):
            names = sorted({'vpc_' + e['name'] for e in self.entries if (e['file'], tuple(e.get('defs', ()))) == key})
            l = o[:-3] + '.l.bc'
            r = sh(['llvm-link-18', o] + bcs + ['-o', l])
            if r.returncode:
                raise Broken('llvm-link: ' + r.stdout[-2000:])
            a = o[:-3] + '.all.bc'
            r = sh(['opt-18', '-passes=internalize,globaldce,' + PASSES, '-internalize-public-api-list=' + ','.join(names + ['vp_keep_messages', 'vp_replace__*']), l, '-o', a])
            if r.returncode:
                raise Broken('opt: ' + r.stdout[-2000:])
            return a
        ljobs = {}
        for key, (o, f) in cjobs.items():
            rc, out = f.result()
            if rc:
                opt = all(e.get('optional') for e in self.entries if (e['file'], tuple(e.get('defs', ()))) == key)
                if not opt:
                    raise Broken('cannot compile contract %s\n%s' % (key[0], out[-3000:]))
                self.notes.append('contract file %s does not compile against this tree; its (internal) contracts were skipped' % key[0])
                continue
            ljobs[key] = pool.submit(link, key, o)
        for key, f in ljobs.items():
            self.contracts[key] = f.result()
        pool.shutdown()

    # -------------------------------------------------------------- verify
    def run_entry(self, e, shard, shards):
        key = (e['file'], tuple(e.get('defs', ())))
        out = '%s/r_%s_%d.json' % (self.work, e['name'], shard)
        t = e.get('time', 240)
        cmd = [BUILD + '/vpexec', self.contracts[key], 'vpc_' + e['name'], out, '--time=%d' % t, '--unroll=%d' % e.get('unroll', 400),
               '--shard=%d/%d' % (shard, shards), '--tmp=' + self.work, '--ext-s=%d' % e.get('ext', 40)] + e.get('args', [])
        if self.stop or e['name'] in self.skip or time.time() > self.deadline:
            if not self.stop and e['name'] not in self.skip:
                self.late[e['name']] = self.late.get(e['name'], 0) + 1
            return {'entry': e['name'], 'skipped': True}
        ts = time.time()
        left = max(1.0, self.deadline - ts)
        pr = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
        with self.nlock:
            self.running[pr] = e['name']
        try:
            so, _ = pr.communicate(timeout=min(t + 60, left))
        except subprocess.TimeoutExpired:
            pr.kill()
            pr.communicate()
            self.late[e['name']] = self.late.get(e['name'], 0) + 1
            return {'entry': e['name'], 'skipped': True}
        finally:
            with self.nlock:
                self.running.pop(pr, None)
        if self.stop or e['name'] in self.skip:
            if not os.path.exists(out):
                return {'entry': e['name'], 'skipped': True}
        if not os.path.exists(out):
            return {'entry': e['name'], 'crash': so[-1500:] or 'exit %d' % pr.returncode}
        d = json.load(open(out))
        os.unlink(out)
        if os.environ.get('VP_TIMES'):
            self.log('time %7.2f %s %d/%d' % (time.time() - ts, e['name'], shard, shards))
        return d

    def run(self):
        self.entries = [e for e in self.c['entries'] if self.tier == 'thorough' or not e.get('thorough')]
        if self.tier == 'thorough':
            self.entries = [dict(e, **e.get('deep', {})) for e in self.entries]
        self.entries = [dict(e, defs=list(e.get('defs', ())) + self.tdefs) for e in self.entries]
        only = os.environ.get('VP_ONLY')
        if only:
            self.entries = [e for e in self.entries if fnmatch.fnmatch(e['name'], only)]
        self.compile()
        self.log('compiled', len(self.contracts), 'contract modules')
        jobs = []
        for e in self.entries:
            if (e['file'], tuple(e.get('defs', ()))) not in self.contracts:
                continue
            n = e.get('shards', 1)
            for i in range(n):
                jobs.append((e, i, n))
        jobs.sort(key=lambda j: -j[0].get('weight', 1))
        self.results = {}
        self.left = {}
        for j in jobs:
            self.left[j[0]['name']] = self.left.get(j[0]['name'], 0) + 1
        threading.Thread(target=self.early_search, daemon=True).start()
        with cf.ThreadPoolExecutor(NCPU) as pool:
            fs = {pool.submit(self.run_entry, *j): j for j in jobs}
            for f in cf.as_completed(fs):
                e = fs[f][0]
                d = f.result()
                self.left[e['name']] -= 1
                if d.get('skipped'):
                    continue
                self.results.setdefault(e['name'], []).append(d)
                if d.get('crash'):
                    self.log(e['name'], 'shard', fs[f][1], d['crash'])
                if d.get('failures') and not self.stop and e['name'] not in self.skip:
                    self.log(e['name'], 'shard', fs[f][1], 'failed:', '; '.join(sorted({x['ob'] for x in d['failures']}))[:300])
                    self.triage(e, d)
        return self.conclude()

    # a run that takes unusually long: look for failing inputs of the unfinished contracts natively meanwhile
    def early_search(self):
        while time.time() < self.t0 + (SLOW_S if self.tier == 'quick' else 6 * SLOW_S):
            time.sleep(1)
            if self.stop or not any(self.left.values()):
                return
        for e in self.entries:
            if self.stop or e.get('state') or not self.left.get(e['name']) or any(k.get('entry') == e['name'] for k in self.known):
                continue
            try:
                ok, out = self.search(e, 12)
            except Broken:
                return
            if ok and not self.stop:
                self.log('failing input of', e['name'], 'found natively')
                self.found.append((e, out))
                self.halt()
                return

    # -------------------------------------------------------------- replay
    def native_bin(self, e):
        key = (e['file'], tuple(e.get('defs', ())))
        with self.blk:
            if key in self.native:
                return self.native[key]
            if self.nobjs is None:
                objs = {}
                with cf.ThreadPoolExecutor(NCPU) as pool:
                    for s in sources() + [VERIF + '/native/vp_native.cpp']:
                        o = self.work + '/n_' + os.path.basename(s) + '.o'
                        objs[o] = pool.submit(sh, [CLANG] + NATF + ['-DVP_ALLOC'] + INC + ['-c', s, '-o', o])
                    for o, f in objs.items():
                        if f.result().returncode:
                            raise Broken('native build: ' + f.result().stdout[-2000:])
                self.nobjs = list(objs)
            out = self.work + '/native_%d' % len(self.native)
            r = sh([CLANG] + NATF + list(e.get('defs', ())) + INC + ['-rdynamic', VERIF + '/contracts/' + e['file']] + self.nobjs + ['-o', out, '-ldl'])
            if r.returncode:
                self.notes.append('native build of %s failed: %s' % (e['file'], r.stdout[-500:]))
                out = None
            self.native[key] = out
            return out

    ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:exitcode=99:allocator_may_return_null=1:abort_on_error=0', UBSAN_OPTIONS='print_stacktrace=0')

    def replay(self, e, fail):
        """returns (confirmed, text, replayfile text)"""
        b = self.native_bin(e)
        if not b:
            return False, 'no native binary', ''
        lines = ['nd %s %d %s' % (n[0].replace(' ', '_'), n[1], n[3]) for n in fail['nondet'] if int(n[3]) < 1 << 64]
        for bf in fail['buffers']:
            lines.append('buf %s %s' % (bf['name'], bf['size']))
            lines += ['byte %s %s %d' % (bf['name'], x[0], x[1]) for x in bf['bytes']]
        txt = '\n'.join(lines) + '\n'
        fn = tempfile.mktemp(prefix='replay', dir=self.work)
        open(fn, 'w').write(txt)
        try:
            r = subprocess.run([b, e['name'], fn], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=self.ENV, timeout=60, preexec_fn=limit)
            out = r.stdout.decode('utf8', 'replace')
        except subprocess.TimeoutExpired:
            return False, 'native run timed out', txt
        if r.returncode in (0, 78, 2):
            return False, 'native run did not fail: exit %d %s' % (r.returncode, out[-300:]), txt
        return True, 'exit %d\n%s' % (r.returncode, out[-3000:]), txt

    def search(self, e, secs):
        b = self.native_bin(e)
        if not b:
            return False, ''
        try:
            r = subprocess.run([b, e['name'], '--search', str(secs), '1'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=self.ENV, timeout=secs * 3 + 60, preexec_fn=limit)
        except subprocess.TimeoutExpired:
            return False, ''
        out = r.stdout.decode('utf8', 'replace')
        return r.returncode not in (0, 78, 2), out[-3000:]

    # -------------------------------------------------------------- early decision: a confirmed violation ends the check
    def known_for(self, e, ob):
        return [k for k in self.known if k.get('property') == self.pid and k.get('entry') == e['name'] and re.search(k['obligation'], ob)]

    def halt(self, name=None):
        if name:
            self.skip.add(name)
        else:
            self.stop = True
        with self.nlock:
            for p, n in self.running.items():
                if name is None or n == name:
                    p.kill()

    def triage(self, e, d):
        self.nfail[e['name']] = self.nfail.get(e['name'], 0) + 1
        if self.nfail[e['name']] >= 6:
            self.halt(e['name'])
        if e.get('state'):
            return
        for ob in sorted({f['ob'] for f in d['failures']}):
            if self.known_for(e, ob) or (e['name'], ob) in self.tried:
                continue
            fs = sorted((f for f in d['failures'] if f['ob'] == ob), key=lambda f: not f['model_ok'])
            for f in fs[:2]:
                conf, txt, inp = self.replay(e, f)
                if conf:
                    self.log('confirmed natively:', ob)
                    self.confirmed.append((e, ob, f, txt, inp))
                    self.halt()
                    return
            self.tried.add((e['name'], ob))

    # -------------------------------------------------------------- conclusion
    def conclude(self):
        byname = {e['name']: e for e in self.entries}
        violations, unconfirmed, broken = [], [], []
        known_hit = []
        for name, ds in self.results.items():
            e = byname[name]
            seen = {}
            for d in ds:
                if d.get('crash'):
                    self.notes.append('%s: verifier stopped: %s' % (name, d['crash'][:300]))
                    if not e.get('optional') and not self.confirmed:
                        broken.append('%s: %s' % (name, d['crash'][:300]))
                    continue
                for f in d['failures']:
                    seen.setdefault(f['ob'], []).append(f)
            nconf = 0
            for ob, fs in sorted(seen.items()):
                kf = self.known_for(e, ob)
                done = [v for v in self.confirmed if v[0] is e and v[1] == ob]
                if done:
                    violations.append(done[0] + (True,))
                    nconf += 1
                    continue
                if self.confirmed and not kf:
                    continue
                if nconf >= 3:
                    break
                conf = False
                txt = inp = ''
                fs.sort(key=lambda f: not f['model_ok'])
                for f in fs[:6] if not e.get('state') else []:
                    conf, txt, inp = self.replay(e, f)
                    if conf:
                        break
                if kf and conf:
                    known_hit.append(kf[0])
                    continue
                if conf:
                    nconf += 1
                    violations.append((e, ob, fs[0], txt, inp, True))
                else:
                    unconfirmed.append((e, ob, fs[0], txt, inp))
        for e, out in self.found:
            f = {'ob': 'contract|native search (seed 1)', 'detail': 'not decided by the verifier', 'stack': '', 'model_ok': True}
            violations.append((e, f['ob'], f, out, 'native search (seed 1)\n', True))
        # contracts without an answer for some of their paths: native search
        searched = {}
        todo = []
        for e in self.entries:
            ds = self.results.get(e['name'], [])
            odd = self.late.get(e['name']) or any(o['unknown'] for d in ds for o in d.get('obligations', [])) or any(d.get('incomplete') or d.get('crash') for d in ds)
            if odd and not violations and not e.get('state') and (e['file'], tuple(e.get('defs', ()))) in self.contracts:
                todo.append(e)
        if todo:
            secs = 8 if len(todo) > 16 else 15
            self.log('searching natively where the verifier gave no answer:', ', '.join(e['name'] for e in todo))
            for e in todo:
                self.native_bin(e)
            with cf.ThreadPoolExecutor(NCPU) as pool:
                for e, (ok, out) in zip(todo, pool.map(lambda e: self.search(e, secs), todo)):
                    searched[e['name']] = (ok, out)
                    if ok and not any(k.get('entry') == e['name'] for k in self.known):
                        f = {'ob': 'contract|native search (seed 1)', 'detail': 'not decided by the verifier', 'stack': '', 'model_ok': True}
                        violations.append((e, f['ob'], f, out, 'native search (seed 1)\n', True))
        for n, k in self.late.items():
            self.notes.append('%s: %d shards not finished within the time limit' % (n, k))
        # unconfirmed failures: native search, then decide
        for (e, ob, f, txt, inp) in unconfirmed:
            if any(v[0] is e for v in violations):
                continue
            if e.get('state'):
                searched[e['name']] = (False, '')
            if e['name'] not in searched:
                self.log('searching natively for a failing input of', e['name'])
                searched[e['name']] = self.search(e, 15)
            ok, out = searched[e['name']]
            if ok:
                violations.append((e, ob, f, out, 'native search (seed 1)\n', True))
                continue
            if e.get('strict', True) and f['model_ok'] and ob.split('|')[0] == 'contract' and not self.confirmed:
                violations.append((e, ob, f, txt, inp, False))
            else:
                self.notes.append('failed obligation without a confirmed input (not reported): %s %s: %s' % (e['name'], ob, txt[:200]))
        self.violations = violations
        self.evidence()
        rc = 0
        for k in {json.dumps(k, sort_keys=True) for k in known_hit}:
            k = json.loads(k)
            print('KNOWN-FINDING: property=%s %s' % (self.pid, k['what']))
        if violations:
            rd = '%s/replay/%s' % (VERIF, self.pid)
            os.makedirs(rd, exist_ok=True)
            done = set()
            for i, (e, ob, f, txt, inp, conf) in enumerate(violations[:6]):
                p = '%s/%s-%d.txt' % (rd, e['name'], i)
                with open(p, 'w') as o:
                    o.write('property: %s\ncontract: %s in contracts/%s\nfailed obligation: %s\n' % (self.pid, e['name'], e['file'], ob))
                    o.write('verifier: %s\ncall stack: %s\n' % (f['detail'], f['stack']))
                    o.write('inputs (nd name occurrence value / buf name size / byte buffer index value):\n%s\n' % inp)
                    o.write('native run against the real code (%s):\n%s\n' % ('failing' if conf else 'no failing input found', txt))
                print('VIOLATION property=%s replay=%s%s' % (self.pid, p, '' if conf else ' no-failing-input-found'))
            rc = 1
        elif broken or self.vacuous:
            for b in broken + self.vacuous:
                print('BROKEN:', b)
            rc = 3
        s = self.summary
        self.log('obligations %d discharged %d undecided %d failed %d; %s; exit %d' % (s['obligations'], s['discharged'], s['undecided'], s['failed'], 'bounded parts: %d' % len(s['bounded']), rc))
        for n in self.notes[:20]:
            self.log('note:', n)
        return rc

    def evidence(self):
        ob = dis = und = fail = checks = triv = 0
        funcs, trusted, replaced, bounded, backends = set(), set(), set(), [], {}
        per, solver_s, paths, nquery = [], 0.0, 0, 0
        self.vacuous = []
        if self.stop:
            self.notes.append('stopped at the first confirmed violation; the other obligations were not all attempted')
        undl = []
        for e in self.entries:
            ds = [d for d in self.results.get(e['name'], []) if not d.get('crash')]
            if not ds:
                continue
            merged, covers, inc = {}, set(), {}
            for d in ds:
                for o in d['obligations']:
                    m = merged.setdefault(o['id'], dict(o, checks=0, trivial=0, proved=0, failed=0, unknown=0))
                    for k in ('checks', 'trivial', 'proved', 'failed', 'unknown'):
                        m[k] += o[k]
                covers |= {k for k, v in d['covers'].items() if v}
                for k, v in d['incomplete'].items():
                    inc[k] = inc.get(k, 0) + v
                funcs |= {f for f in d['functions'] if not f.startswith('(anonymous namespace)::')}
                trusted |= set(d['trusted'])
                replaced |= set(d['replaced'])
                for b, (n, t) in d['solver']['backends'].items():
                    x = backends.setdefault(b, [0, 0.0])
                    x[0] += n
                    x[1] += t
                solver_s += d['solver']['time'] + d['solver']['ext_time']
                paths += d['paths']
                nquery += d['solver']['queries']
                bb = d['bounds']
                for b in bb:
                    if [e['name'], b] not in bounded:
                        bounded.append([e['name'], b])
            if self.late.get(e['name']):
                inc['time limit of the check'] = self.late[e['name']]
            for k in inc:
                bounded.append([e['name'], 'not explored to the end: %s (%d paths)' % (k, inc[k])])
            n = len(merged)
            d_ = sum(1 for m in merged.values() if not m['failed'] and not m['unknown'])
            u_ = sum(1 for m in merged.values() if m['unknown'] and not m['failed'])
            f_ = sum(1 for m in merged.values() if m['failed'])
            undl += ['%s: %s' % (e['name'], i) for i, m in merged.items() if m['unknown'] and not m['failed']]
            ob += n; dis += d_; und += u_; fail += f_
            checks += sum(m['checks'] for m in merged.values())
            triv += sum(m['trivial'] for m in merged.values())
            per.append({'contract': e['name'], 'file': 'contracts/' + e['file'], 'obligations': n, 'discharged': d_, 'undecided': u_, 'failed': f_,
                        'contract_assertions': sum(1 for m in merged.values() if m['kind'] == 'contract'),
                        'paths': sum(d['paths'] for d in ds), 'complete': not inc,
                        'bounded': bool(inc) or any(d['bounds'] for d in ds)})
            exp = set(expected_covers(VERIF + '/contracts/' + e['file']).get(e['name'], []))
            if self.stop or e['name'] in self.skip:
                continue
            if n == 0 or not any(m['kind'] == 'contract' for m in merged.values()):
                if not any(m['failed'] for m in merged.values()):
                    self.vacuous.append('%s: no contract assertion was reached' % e['name'])
            if exp - covers and not inc and not any(m['failed'] for m in merged.values()):
                self.vacuous.append('%s: expected reachable point not reached: %s' % (e['name'], ', '.join(sorted(exp - covers))))
        if not per and not self.stop and not self.late:
            self.vacuous.append('no contract was verified')
        self.summary = {'obligations': ob, 'discharged': dis, 'undecided': und, 'failed': fail, 'bounded': bounded}
        level = self.c.get('level', 'proof')
        shorts = {n for n in map(short_name, funcs) if n.startswith('zserio::')}
        ev = {
            'property': self.pid, 'seed': int(os.environ.get('VERIF_SEED') or 1), 'level': level, 'tier': self.tier,
            'coverage': {
                'obligations': ob, 'discharged': dis, 'undecided': und, 'failed': fail, 'undecided_list': undl[:40],
                'checks_of_obligations': checks, 'discharged_syntactically': triv, 'paths': paths,
                'backends': {k: {'discharged_queries': v[0], 'seconds': round(v[1], 2)} for k, v in backends.items()},
                'solver_seconds': round(solver_s, 2), 'solver_queries': nquery,
                'functions_under_contract': sorted(shorts), 'functions_count': len(shorts),
                'instantiations_count': len(funcs),
                'contracts': per,
                'replaced_by_contract': sorted(replaced),
                'bounded_parts': [{'contract': a, 'bound': b} for a, b in bounded],
                'checker_cmd': 'VP_TIER=%s python3 /verif/vp/run.py %s' % (self.tier, self.pid),
                'trusted_base': TRUSTED + sorted(trusted) + self.c.get('trusted', []),
            },
            'assumptions': self.c.get('assumptions', []) + ASSUME,
            'violations': [{'contract': v[0]['name'], 'obligation': v[1], 'confirmed_natively': v[5]} for v in self.violations],
            'notes': self.notes,
            'wall_s': round(time.time() - self.t0, 1),
        }
        os.makedirs(VERIF + '/evidence', exist_ok=True)
        json.dump(ev, open('%s/evidence/%s.json' % (VERIF, self.pid), 'w'), indent=1)


TRUSTED = ['clang 18 front end and LLVM passes sroa, mem2reg, early-cse, simplifycfg, instsimplify (source to IR)',
           'the verifier in /verif/engine (IR semantics, bit-blaster, linear-fact prover)', 'MiniSat 2.2.1, Z3 4.8.12 / 5.3, cvc5 1.1.2',
           'library model: operator new/delete, mem*/str* functions, Itanium C++ exception ABI']
ASSUME = ['x86-64 little-endian, 64-bit size_t', 'operator new fails (bad_alloc) only above 2^47 bytes',
          'relational comparison of pointers into different objects follows allocation order; distinct objects do not alias']


def limit():
    import resource
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_CPU, (120, 120))


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VP_TIER') or os.environ.get('VERIF_TIER') or 'quick'
    os.makedirs(BUILD, exist_ok=True)
    c = None
    try:
        ensure_engine()
        c = Check(pid, tier)
        rc = c.run()
    except Broken as b:
        print('BROKEN:', b)
        rc = 3
    finally:
        if c:
            shutil.rmtree(c.work, ignore_errors=True)
    sys.exit(rc)


if __name__ == '__main__':
    main()
