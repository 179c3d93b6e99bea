#!/usr/bin/env python3
"""Driver: build /repo's current tree with instrumentation, run the monitored workloads of
one property, decide, and write evidence/<id>.json.
usage: run.py ID [--tier quick|thorough] [--seed N] [--job NAME] [--cases N] [--keep]"""
import argparse, glob, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
R = os.environ.get('VP_REPO', '/repo')
sys.path.insert(0, V)
from props import PROPS

CC = 'clang++'
SAN = ['-O1', '-g1', '-fno-omit-frame-pointer', '-fsanitize=address,undefined', '-fno-sanitize-recover=all',
       '-D_GLIBCXX_ASSERTIONS', '-include', 'vpdebug.h']
SSE2 = ['-DHAVE_SSE2', '-msse2']
VARIANTS = {
    'asan': SAN + SSE2,
    'asan-nosimd': SAN,
    'asan-avx2': SAN + ['-DHAVE_AVX2', '-mavx2'],
    'asan-avx512': SAN + ['-DHAVE_AVX512BW', '-mavx512bw'],
    'tsan': ['-O1', '-g1', '-fsanitize=thread'] + SSE2,
    'plain': ['-O1'] + SSE2,
}
CPU = {'asan-avx2': ['avx2'], 'asan-avx512': ['avx512bw']}
BASE = ['-std=c++17', '-w', '-pthread', '-I' + R + '/include', '-I' + R + '/fuzzy', '-I' + V + '/harness']
JOBS = min(8, os.cpu_count() or 8)
LSAN_EXIT = 23


def log(*a):
    print(*a, flush=True)


class BuildError(Exception):
    pass


def digest(parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b'\0')
    return h.hexdigest()[:24]


def read(p):
    with open(p, 'rb') as f:
        return f.read()


class Builder:
    """Objects are cached by the hash of everything they are made from (sources, all headers, flags)."""
    def __init__(self):
        self.dir = os.path.join(V, 'build')
        os.makedirs(self.dir, exist_ok=True)
        hs = sorted(glob.glob(R + '/include/reflex/*.h') + glob.glob(R + '/fuzzy/*.h') + glob.glob(R + '/src/*.h'))
        self.rh = digest([x for h in hs for x in (os.path.basename(h), read(h))])
        vh = sorted(glob.glob(V + '/harness/*.h'))
        self.vh = digest([x for h in vh for x in (os.path.basename(h), read(h))])
        self.dh = digest([read(V + '/harness/vpdebug.h')])
        self.locks = {}
        self.mu = threading.Lock()
        self.pool = ThreadPoolExecutor(JOBS)

    def once(self, key, fn):
        with self.mu:
            if key not in self.locks:
                self.locks[key] = self.pool.submit(fn)
            return self.locks[key]

    def overlay(self):
        """a copy of the headers with a small internal buffer (4K instead of 256K blocks), to reach buffer shifts
        quickly; the documented minimum is 4096.  Falls back to the normal headers when there is nothing to change."""
        d = os.path.join(self.dir, 'overlay-' + self.rh)
        with self.mu:
            if not os.path.isdir(d):
                t = tempfile.mkdtemp(dir=self.dir)
                shutil.copytree(R + '/include', t + '/include')
                p = t + '/include/reflex/absmatcher.h'
                s = open(p).read()
                s2 = re.sub(r'(static const size_t BLOCK\s*=\s*)[^;]+;', r'\g<1>4096;', s)
                with open(p, 'w') as f: f.write(s2)
                os.rename(t, d)
        return d

    def obj(self, src, variant, extra=()):
        flags = BASE + VARIANTS[variant.split(':')[0]] + list(extra)
        if variant.endswith(':small'): flags = ['-I' + self.overlay() + '/include'] + flags
        mine = src.startswith(V)
        k = digest([src, read(src), self.rh, self.vh if mine else self.dh, ' '.join(flags), CC])
        out = os.path.join(self.dir, k + '.o')
        def go():
            if not os.path.exists(out):
                t = out + '.%d' % os.getpid()
                p = subprocess.run([CC] + flags + ['-c', src, '-o', t], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                if p.returncode:
                    raise BuildError('compiling %s (%s):\n%s' % (src, variant, p.stdout.decode('utf8', 'replace')[-3000:]))
                os.rename(t, out)
            else:
                os.utime(out)
            return out
        return self.once(out, go)

    def libobjs(self, variant):
        srcs = sorted(glob.glob(R + '/lib/*.cpp') + glob.glob(R + '/unicode/*.cpp'))
        return [self.obj(s, variant) for s in srcs]

    def link(self, futs, variant, libs=()):
        objs = [f.result() for f in futs]
        k = digest(objs + [variant] + list(libs))
        out = os.path.join(self.dir, k + '.exe')
        if not os.path.exists(out):
            t = out + '.%d' % os.getpid()
            p = subprocess.run([CC] + BASE + VARIANTS[variant.split(':')[0]] + objs + ['-o', t] + list(libs), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if p.returncode:
                raise BuildError('linking (%s):\n%s' % (variant, p.stdout.decode('utf8', 'replace')[-3000:]))
            os.rename(t, out)
        else:
            os.utime(out)
        return out

    def start(self, job):
        """kick off the compilations of a job"""
        v = job.get('variant', 'asan')
        f = []
        if job['h'].endswith('.py'):
            if 'reflex' in job.get('needs', ()):
                f = [self.obj(R + '/src/reflex.cpp', v)] + self.libobjs(v)
        else:
            f = [self.obj(V + '/harness/' + job['h'] + '.cpp', v, job.get('cflags', ()))] + self.libobjs(v)
        job['_futs'] = f

    def finish(self, job):
        v = job.get('variant', 'asan')
        job['_env'] = {}
        if job['h'].endswith('.py'):
            job['_exe'] = ['python3', os.path.join(V, 'harness', job['h'])]
            if 'reflex' in job.get('needs', ()):
                job['_env']['VP_REFLEX'] = self.link(job['_futs'], v)
            if 'lib' in job.get('needs', ()):
                objs = [x.result() for x in self.libobjs(v)]
                ar = os.path.join(self.dir, digest(objs) + '.a')
                if not os.path.exists(ar):
                    t = ar + '.%d' % os.getpid()
                    subprocess.run(['ar', 'rcs', t] + objs, check=True)
                    os.rename(t, ar)
                job['_env']['VP_LIB'] = ar
        else:
            job['_exe'] = [self.link(job['_futs'], v, job.get('libs', ()))]
        job['_env']['VP_CXX'] = ' '.join([CC] + BASE + VARIANTS[v.split(':')[0]])
        job['_env']['VP_ROOT'] = R

    def trim(self):
        """keep the cache small"""
        fs = sorted(((os.path.getmtime(f), os.path.getsize(f), f) for f in glob.glob(self.dir + '/*')), reverse=True)
        tot = 0
        for _, sz, f in fs:
            tot += sz
            if tot > 3 << 30:
                try: shutil.rmtree(f) if os.path.isdir(f) else os.remove(f)
                except OSError: pass


# ------------------------------------------------------------------ running
FRAME = re.compile(r'#\d+ 0x[0-9a-f]+ in (.+?) (/\S+?):(\d+)')


def crash_key(err, rc):
    """a stable name for an instrumentation report"""
    m = re.search(r'INVARIANT (\S+?):(\d+) (.*)', err)
    if m:
        return 'invariant:%s:%s' % (os.path.basename(m[1]), re.sub(r'\s+', '', m[3])[:60]), m[0]
    m = re.search(r'ERROR: (AddressSanitizer|LeakSanitizer): ([\w-]+)', err) or re.search(r'(ThreadSanitizer): ([\w -]+?) \(', err)
    kind = None
    if m:
        kind = m[2].replace(' ', '-')
        if m[1] == 'LeakSanitizer' or kind == 'detected':
            kind = 'memory-leak'
    else:
        m = re.search(r'runtime error: (.*)', err)
        if m:
            kind = 'ub:' + re.sub(r'0x[0-9a-f]+|-?\d+', 'N', m[1])[:60].strip().replace(' ', '_')
            w = re.search(r'(\S+?):(\d+):\d+: runtime error', err)
            if w:
                return 'crash:%s:%s' % (kind, os.path.basename(w[1])), m[0]
    if kind is None:
        if rc == 97: return 'hang', 'a case did not terminate'
        kind = 'signal-%d' % -rc if rc < 0 else 'exit-%d' % rc
    where = ''
    for f in FRAME.finditer(err):
        if f[2].startswith(R + '/') and 'debug.h' not in f[2]:
            where = re.sub(r'\(.*', '', f[1]).replace(' ', '')
            break
    return 'crash:%s:%s' % (kind, where), (m[0] if m else 'exit status %d' % rc)


class Run:
    def __init__(self, pid, tier, seed, tmp):
        self.pid, self.tier, self.seed, self.tmp = pid, tier, seed, tmp
        self.fails = []          # (job, key, case, detail)
        self.stats = []
        self.errors = []
        self.mu = threading.Lock()

    def fail(self, job, shard, key, case, detail, cmd):
        with self.mu:
            self.fails.append(dict(job=job['name'], shard=shard, key=key, case=case, detail=detail, cmd=cmd))

    def shard(self, job, i, cases, deadline):
        name = '%s-%d' % (job['name'], i)
        wd = os.path.join(self.tmp, name)
        os.makedirs(wd, exist_ok=True)
        prog = os.path.join(wd, 'progress')
        env = dict(os.environ)
        env.update(job['_env'])
        leaks = 1 if job.get('leaks') else 0
        env['ASAN_OPTIONS'] = 'detect_leaks=%d:exitcode=99:hard_rss_limit_mb=%d:malloc_context_size=12:allocator_release_to_os_interval_ms=-1:quarantine_size_mb=32:detect_stack_use_after_return=0:detect_odr_violation=0' % (leaks, job.get('rss', 3000))
        env['LSAN_OPTIONS'] = 'exitcode=%d:max_leaks=5' % LSAN_EXIT
        env['UBSAN_OPTIONS'] = 'print_stacktrace=1:halt_on_error=1'
        env['TSAN_OPTIONS'] = 'halt_on_error=0:exitcode=66:second_deadlock_stack=1'
        env['LC_ALL'] = 'C.UTF-8'
        start = 0
        for attempt in range(8):
            try: os.remove(prog)
            except OSError: pass
            left = max(5, deadline - time.time())
            core = job['_exe'] + job.get('args', [])
            cmd = core + ['--seed', str(self.seed), '--shard', str(i), '--cases', str(cases), '--start', str(start), '--progress', prog,
                          '--hashes', os.path.join(self.tmp, job['name'] + '-%d.hashes' % i), '--workdir', wd, '--hang', str(job.get('hang', 60)), '--deadline', str(int(left)), '--shards', str(job.get('shards', 8))]
            if start: cmd.append('--nofixed')
            out, err = os.path.join(wd, 'out'), os.path.join(wd, 'err')
            with open(out, 'wb') as o, open(err, 'wb') as e:
                p = subprocess.Popen(cmd, stdout=o, stderr=e, stdin=subprocess.DEVNULL, cwd=wd, env=env, start_new_session=True)
                try:
                    rc = p.wait(timeout=left + 150)
                except subprocess.TimeoutExpired:
                    rc = None
                try: os.killpg(p.pid, signal.SIGKILL)
                except OSError: pass
                p.wait()
            txt, er = read(out).decode('utf8', 'replace'), read(err).decode('utf8', 'replace')
            gotstats = False
            for line in txt.split('\n'):
                if line.startswith('FAIL '):
                    m = re.match(r'FAIL (\S+) case=(\d+) ?(.*)', line)
                    if m: self.fail(job, i, m[1], m[2], m[3], core + ['--case', m[2]])
                elif line.startswith('STATS '):
                    gotstats = True
                    with self.mu: self.stats.append((job, json.loads(line[6:])))
                elif line.startswith('ERROR '):
                    with self.mu: self.errors.append(name + ': ' + line)
            if rc in (0, 1) and gotstats:
                return
            if 'LeakSanitizer has encountered a fatal error' in er and gotstats:
                return      # no ptrace here: leaks cannot be observed, nothing else was wrong
            case, idx, note = '0', 0, ''
            try:
                b = read(prog)
                case, idx = str(int.from_bytes(b[:8], 'little')), int.from_bytes(b[8:16], 'little')
                note = b[16:].split(b'\0')[0].decode('utf8', 'replace')
            except OSError:
                pass
            if rc is None:
                with self.mu: self.errors.append(name + ': no answer within the time limit')
                return
            if rc == 2 and not gotstats:
                with self.mu: self.errors.append(name + ': harness error: ' + (txt + er)[-1500:])
                return
            if rc == -9:
                with self.mu: self.errors.append(name + ': killed (memory?)')
                if attempt: return
                continue
            key, what = crash_key(er, rc)
            if rc == 96 or key == 'hang' and job.get('hang_ok'):    # 96: the reference engine itself does not end, no verdict
                start = idx
                continue
            if key == 'hang':
                # confirm with a larger limit before believing it
                q = subprocess.run(core + ['--case', case, '--workdir', wd, '--hang', str(2 * job.get('hang', 60))], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=wd, env=env)
                if q.returncode != 97:
                    start = idx
                    continue
            detail = what + ' | while running: ' + note.replace('\n', '\\n')[:1500]
            self.fail(job, i, key, case, detail, core + ['--case', case])
            keep = os.path.join(self.tmp, 'report-%s-%d.txt' % (name, attempt))
            with open(keep, 'w') as f: f.write(er[:20000])
            with self.mu: self.fails[-1]['report'] = er[:20000]
            if rc in (LSAN_EXIT, 66) and gotstats:
                return
            start = idx
            if start >= cases or time.time() > deadline:
                return


def known_findings():
    k = []
    p = os.path.join(V, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'known: property=(\S+) key=(\S+) match=<<(.*?)>> (.*)', line)
            if m: k.append(dict(property=m[1], key=m[2], rx=re.compile(m[3]), what=m[4].strip(), line=line.strip(), seen=False))
    return k


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('id')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--job')
    ap.add_argument('--cases', type=int)
    ap.add_argument('--scale', type=float, default=1)
    ap.add_argument('--keep', action='store_true')
    a = ap.parse_args()
    pid = a.id
    prop = PROPS[pid]
    t0 = time.time()
    evp = os.path.join(V, 'evidence', pid + '.json')
    os.makedirs(os.path.dirname(evp), exist_ok=True)
    tmp = tempfile.mkdtemp(prefix='vp-%s-' % pid)
    try:
        b = Builder()
        try: cpu = set(re.search(r'^flags\s*:(.*)$', open('/proc/cpuinfo').read(), re.M)[1].split())
        except (OSError, TypeError): cpu = set()
        jobs = [dict(j) for j in prop['jobs'] if (not a.job or j['name'] == a.job) and set(CPU.get(j.get('variant', '').split(':')[0], ())) <= cpu]
        try:
            for j in jobs: b.start(j)
            for j in jobs: b.finish(j)
        except BuildError as e:
            log('ERROR property=%s build failed: %s' % (pid, e))
            return 2
        tb = time.time() - t0
        run = Run(pid, a.tier, a.seed, tmp)
        deadline = time.time() + (prop.get('quick_s', 240) if a.tier == 'quick' else prop.get('thorough_s', 1500))
        work = []
        for j in jobs:
            n = a.cases or int(a.scale * (j['quick'] if a.tier == 'quick' else j['thorough']))
            for i in range(j.get('shards', 8)):
                work.append((j, i, n))
        work.sort(key=lambda w: (w[1], w[0]['name']))
        with ThreadPoolExecutor(JOBS) as ex:
            for f in [ex.submit(run.shard, j, i, n, deadline) for j, i, n in work]:
                f.result()
        # ---- verdict
        known = [k for k in known_findings() if k['property'] == pid]
        viol, printed = {}, set()
        for f in run.fails:
            hit = None
            for k in known:
                if (k['key'] == f['key'] or k['key'] == '*') and k['rx'].search(f['detail']):
                    hit = k
            if hit: hit['seen'] = True
            else: viol.setdefault(f['key'], []).append(f)
        for k in known:
            # a listed finding is reported on every run; the workload also reaches it (see k['seen'])
            log('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
        os.makedirs(V + '/replays', exist_ok=True)
        for f in glob.glob(V + '/replays/%s-*' % pid): os.remove(f)
        for key, fs in list(viol.items())[:12]:
            f = fs[0]
            rp = os.path.join(V, 'replays', '%s-%s.txt' % (pid, re.sub(r'[^\w.-]+', '_', key)[:60]))
            with open(rp, 'w') as o:
                o.write('property: %s\nkey: %s\njob: %s\nseed: %s\noccurrences reported: %d\n' % (pid, key, f['job'], a.seed, len(fs)))
                o.write('replay: run "%s" after run.py has built the harness\n' % ' '.join(f['cmd']))
                for x in fs[:5]: o.write('case %s: %s\n' % (x['case'], x['detail']))
                if f.get('report'): o.write('\n' + f['report'])
            log('VIOLATION property=%s replay=%s' % (pid, rp))
            log('  key=%s case=%s %s' % (key, f['case'], f['detail'][:700]))
        # ---- evidence
        ev, cnt, samples, perjob = 0, {}, [], {}
        for j, s in run.stats:
            ev += s['evaluations']
            pj = perjob.setdefault(j['name'], dict(variant=j.get('variant', 'asan'), evaluations=0, counters={}))
            pj['evaluations'] += s['evaluations']
            for k, v in s['counters'].items(): pj['counters'][k] = pj['counters'].get(k, 0) + v
            have = sum(1 for x in samples if x['job'] == j['name'])
            for x in s.get('samples', [])[:max(0, 2 - have)]: samples.append(dict(job=j['name'], case=x))
        hs = set()
        for f in glob.glob(tmp + '/*.hashes'):
            d = read(f)
            jn = hashlib.md5(os.path.basename(f).rsplit('-', 1)[0].encode()).digest()[:4]
            for o in range(0, len(d) - 7, 8): hs.add(d[o:o + 8] + jn)
        if not run.stats and not viol:
            run.errors.append('no shard reported')
        doc = dict(property=pid, tier=a.tier, seed=a.seed, level='exploration',
                   coverage=dict(evaluations=ev, distinct_nontrivial=len(hs), rule=prop['rule'], samples=samples or [dict(job='-', case='none recorded')], jobs=perjob,
                                 known_findings_reached=[k['what'] for k in known if k['seen']], harness_errors=run.errors[:5]),
                   assumptions=prop.get('assumptions', []), wall_s=round(time.time() - t0, 1), violations=len(viol))
        with open(evp, 'w') as o:
            json.dump(doc, o, indent=1)
        log('%s %s: %d evaluations, %d distinct non-trivial, %d violation kinds, build %.0fs, total %.0fs' % (pid, a.tier, ev, len(hs), len(viol), tb, time.time() - t0))
        for e in run.errors[:5]: log('ERROR property=%s %s' % (pid, e))
        b.trim()
        if viol: return 1
        if run.errors: return 2
        # the monitors must have seen something: a workload that ran dry decides nothing
        if a.tier == 'quick' and not a.cases and not a.job and len(hs) < prop.get('min_nontrivial', 1):
            log('ERROR property=%s the workload observed too little' % pid)
            return 2
        return 0
    finally:
        if a.keep: log('kept', tmp)
        else: shutil.rmtree(tmp, ignore_errors=True)


if __name__ == '__main__':
    sys.exit(main())
