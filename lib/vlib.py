"""Builds the harnesses from /repo's current tree, runs them in shards, and turns
what their monitors saw into a verdict and an evidence file."""
import concurrent.futures as cf
import hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VF_REPO', '/repo')
HARNESS = os.path.join(VERIF, 'harness')
BUILD = os.path.join(VERIF, 'build')
CORES = os.cpu_count() or 8
CLANGXX, CLANG = 'clang++-18', 'clang-18'

F32 = ('float', 'uint32_t', 'uint16_t')
F32N = ('float', 'uint32_t', 'uint8_t')
F64 = ('double', 'uint64_t', 'uint16_t')
F64W = ('double', 'uint64_t', 'uint32_t')
F32L = ('float', 'uint64_t', 'uint64_t')
F64N = ('double', 'uint32_t', 'uint8_t')

LEDGER_WRAPS = 'malloc calloc realloc free aligned_alloc fopen fclose'.split()
GOMP_WRAPS = ['GOMP_' + n for n in (
    'atomic_start barrier critical_start loop_dynamic_next loop_nonmonotonic_dynamic_next '
    'loop_ull_dynamic_next loop_ull_dynamic_start loop_ull_nonmonotonic_dynamic_next '
    'loop_ull_nonmonotonic_dynamic_start parallel parallel_loop_dynamic '
    'parallel_loop_nonmonotonic_dynamic task taskwait').split()]


def log(*a):
    print(*a, flush=True)


# ------------------------------------------------------------------- scratch
_scratch = []


def scratch():
    if not _scratch:
        d = tempfile.mkdtemp(prefix='vf-check-')
        _scratch.append(d)
        import atexit
        atexit.register(lambda: shutil.rmtree(d, ignore_errors=True))
    return _scratch[0]


def subdir(name):
    d = os.path.join(scratch(), name)
    os.makedirs(d, exist_ok=True)
    return d


# -------------------------------------------------------------------- builds
def tree_hash():
    h = hashlib.sha256()
    for top in (os.path.join(REPO, 'include'), os.path.join(REPO, 'src'), os.path.join(REPO, 'dep'), HARNESS):
        for d, ds, fs in sorted(os.walk(top)):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, top).encode())
                with open(p, 'rb') as fh:
                    h.update(fh.read())
    return h.hexdigest()


class Build:
    """One executable: how it is compiled and how it has to be run."""

    def __init__(self, src, cfg=None, cc='clang', opt='-O2', san=None, ledger=False, faults=False,
                 perturb=False, defs=(), flags=(), lang=None, repo_src=False, name=None, wraps=(), extra=()):
        self.src, self.cfg, self.cc, self.opt, self.san = src, cfg, cc, opt, san
        self.ledger, self.faults, self.perturb = ledger, faults, perturb
        self.defs, self.flags, self.lang, self.repo_src = list(defs), list(flags), lang, repo_src
        self.wraps, self.extra = list(wraps), list(extra)
        self.name = name or '-'.join(filter(None, [
            os.path.splitext(os.path.basename(src))[0],
            ''.join(re.sub(r'[^0-9a-z]', '', c)[:1] + re.sub(r'\D', '', c) for c in cfg) if cfg else None,
            cc if cc != 'clang' else None, opt if opt != '-O2' else None, san,
            'ledger' if ledger else None, 'faults' if faults else None, 'perturbed' if perturb else None,
            '+'.join(self.defs) or None]))
        self.exe = self.less = None

    def command(self, out):
        tsan, asan = self.san == 'tsan', self.san == 'asan'
        if self.lang == 'c':
            cmd = [CLANG, '-w', '-g1', '-I' + REPO + '/include', '-I' + REPO + '/dep', '-fopenmp']
        else:
            cmd = [CLANGXX if self.cc == 'clang' else 'g++', '-std=c++17', '-g1', '-w', '-fopenmp', '-fno-rtti',
                   '-fno-exceptions', '-rdynamic', '-I' + HARNESS, '-I' + REPO + '/include', '-I' + REPO + '/dep']
        cmd += [self.opt] + self.flags
        if asan:
            cmd += ['-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer']
        elif tsan:
            cmd += ['-fsanitize=thread']
        elif self.san:
            raise ValueError(self.san)
        if self.cfg:
            cmd += ['-DCFG_T=' + self.cfg[0], '-DCFG_IT=' + self.cfg[1], '-DCFG_SIT=' + self.cfg[2]]
        cmd += ['-D' + d for d in self.defs] + ([self.less] if self.less else [])
        wraps = list(self.wraps)
        if self.ledger:
            cmd += ['-DWITH_LEDGER']
            wraps += LEDGER_WRAPS
        if self.faults:
            cmd += ['-DWITH_FAULTS']
            wraps += ['fopen']
        base = REPO if self.repo_src else HARNESS
        cmd += [os.path.join(base, self.src)]
        cmd += self.extra
        if self.lang != 'c':
            cmd += [REPO + '/src/common.cpp']
            if self.perturb and self.cc != 'clang':
                cmd += [HARNESS + '/gomp_wrap.cpp']
                wraps += GOMP_WRAPS
            cmd += (['-x', 'c++'] if self.cc != 'clang' else []) + [REPO + '/dep/mm_io/mm_io.c']
        if wraps:
            cmd += ['-Wl,' + ','.join('--wrap=' + w for w in wraps)]
        return cmd + ['-lm', '-o', out]

    def env(self):
        e = {'OMP_WAIT_POLICY': 'passive'}
        if self.cc == 'clang':
            e.update(KMP_BLOCKTIME='0', KMP_FORCE_MONOTONIC_DYNAMIC_SCHEDULE='true')
            if self.san == 'tsan':
                e.update(OMP_TOOL_LIBRARIES=ARCHER)
            elif self.perturb:
                e.update(OMP_TOOL_LIBRARIES=TOOL.exe)
        if self.san == 'asan':
            e.update(ASAN_OPTIONS='detect_leaks=0:exitcode=66:allocator_may_return_null=1', UBSAN_OPTIONS='print_stacktrace=1')
        if self.san == 'tsan':
            e.update(TSAN_OPTIONS='ignore_noninstrumented_modules=1 exitcode=0 halt_on_error=0')
        return e


class Tool(Build):
    """The OMPT tool that observes and perturbs libomp"""

    def __init__(self):
        super().__init__('ompt_tool.cpp', name='ompt_tool.so')

    def command(self, out):
        return [CLANGXX, '-O2', '-fPIC', '-shared', '-w', '-I/usr/lib/llvm-18/lib/clang/18/include', '-I' + HARNESS,
                os.path.join(HARNESS, self.src), '-o', out, '-ldl']


class Preload(Build):
    """A library put before libc in programs under observation"""

    def command(self, out):
        return [CLANG, '-O2', '-fPIC', '-shared', '-w', os.path.join(HARNESS, self.src), '-o', out, '-ldl']


TOOL = Tool()
TOGETHER = Preload('together.c', name='together.so')
ARCHER = '/usr/lib/llvm-18/lib/libarcher.so'


class CheckError(Exception):
    pass


def build_all(builds, ctx=None):
    """Compile what is not in the cache yet. What does not compile decides nothing; when nothing
    compiles there is no verdict."""
    builds = list(dict.fromkeys(builds))
    if any(b.perturb and b.cc == 'clang' for b in builds):
        builds.append(TOOL)
    th = tree_hash()
    os.makedirs(BUILD, exist_ok=True)
    jobs, first, twins = [], {}, []
    for b in builds:
        key = hashlib.sha256((th + '\0' + '\0'.join(b.command('OUT'))).encode()).hexdigest()[:24]
        d = os.path.join(BUILD, key)
        b.exe = os.path.join(d, 'x.so' if isinstance(b, (Tool, Preload)) else 'x')
        if key in first:
            twins.append((b, first[key]))
            continue
        first[key] = b
        if os.path.exists(b.exe):
            try:
                os.utime(d)
            except OSError:
                pass
        else:
            jobs.append((b, d))
    old = sorted((e for e in os.scandir(BUILD) if e.is_dir()), key=lambda e: e.stat().st_mtime)
    for e in old[:max(0, len(old) - 400)]:
        if time.time() - e.stat().st_mtime > 1800:
            shutil.rmtree(e.path, ignore_errors=True)

    def one(job):
        b, d = job
        os.makedirs(d, exist_ok=True)
        tmp = '%s.tmp%d' % (b.exe, os.getpid())
        r = subprocess.run(b.command(tmp), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
        if r.returncode and not isinstance(b, (Tool, Preload)):
            # Parts of a harness that stand in for inner classes of the library may not fit
            # a library that changed inside; the rest of the harness still decides
            b.less = '-DNO_INTERNALS'
            if subprocess.run(b.command(tmp), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=600).returncode == 0:
                log('  %s: without stand-ins for inner classes' % b.name)
                r.returncode = 0
        if r.returncode:
            b.exe = None
            return '%s: %s' % (b.name, r.stdout.decode(errors='replace')[-3000:])
        os.replace(tmp, b.exe)
        return None

    with cf.ThreadPoolExecutor(CORES) as ex:
        errs = [e for e in ex.map(one, jobs) if e]
    for b, t in twins:
        b.exe = t.exe
    if errs and (ctx is None or not any(b.exe for b in builds if not isinstance(b, Tool)) or any(isinstance(b, Tool) and not b.exe for b in builds)):
        raise CheckError('does not compile: ' + '\n'.join(errs))
    for e in errs:
        ctx.note_inconclusive('does not compile: ' + e)


# ------------------------------------------------------------------ verdicts
def load_findings():
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'finding:\s+property=(\S+)\s+key=(\S+)\s+match=/(.*)/\s+(.*)', line.strip())
            if m:
                out.append(dict(property=m[1], key=m[2], match=m[3], text=m[4]))
    return out


class Context:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.deadline = self.t0 + (600 if tier == 'quick' else 3 * 3600)
        self.lock = threading.Lock()
        self.evaluations = self.checks = 0
        self.distinct = set()
        self.counters, self.spread = {}, {}
        self.samples, self.violations, self.inconclusive, self.runs = [], [], [], []
        self.findings = [f for f in load_findings() if f['property'] == prop]
        self.known = set()
        self.assumptions = []
        self.stop = False

    @property
    def quick(self):
        return self.tier == 'quick'

    def n(self, quick, factor=25):
        return quick if self.quick else quick * factor

    def count(self, key, n=1):
        with self.lock:
            self.counters[key] = self.counters.get(key, 0) + n

    def seen(self, key, v):
        with self.lock:
            self.spread.setdefault(key, set()).add(v)

    def eval(self, distinct=None, n=1):
        with self.lock:
            self.evaluations += n
            if distinct is not None:
                self.distinct.add(distinct)

    def sample(self, s):
        with self.lock:
            if len(self.samples) < 12:
                self.samples.append(s)

    def violation(self, key, detail, replay=None):
        with self.lock:
            for f in self.findings:
                if f['key'] == key and re.search(f['match'], detail):
                    self.known.add(f['text'])
                    return
            d = os.path.join(VERIF, 'replay')
            os.makedirs(d, exist_ok=True)
            name = '%s-%s.json' % (self.prop, hashlib.sha256((key + detail).encode()).hexdigest()[:12])
            path = os.path.join(d, name)
            rec = dict(property=self.prop, key=key, detail=detail, seed=self.seed, tier=self.tier)
            rec.update(replay or {})
            with open(path, 'w') as f:
                json.dump(rec, f, indent=1)
            self.violations.append(dict(key=key, detail=detail[:1500], replay=path))
            self.stop = True

    def note_inconclusive(self, what):
        with self.lock:
            self.inconclusive.append(what)
        log('  inconclusive:', what[:300])

    def absorb(self, build, data, replay):
        with self.lock:
            self.evaluations += data['evaluations']
            self.checks += data['checks']
            salt = build.name
            self.distinct.update(salt + h for h in data['distinct'])
            for k, v in data['counters'].items():
                self.counters[k] = self.counters.get(k, 0) + v
            for k, v in data['spread'].items():
                self.spread.setdefault(k, set()).update(v)
            for s in data['samples'][:2]:
                if len(self.samples) < 12 and s not in self.samples:
                    self.samples.append('[%s] %s' % (build.name, s))
        for v in data['violations']:
            m = re.match(r'case (\d+)', v['detail'])
            r = dict(replay)
            if m:
                r['from'], r['to'] = int(m[1]), int(m[1]) + 1
            self.violation(v['key'], v['detail'], r)


def run_proc(cmd, env, timeout, cwd=None):
    """(rc, stdout+stderr tail, timed out)"""
    e = {k: v for k, v in os.environ.items() if not k.startswith(('OMP_', 'KMP_', 'GOMP_', 'ASAN_', 'UBSAN_', 'TSAN_'))}
    e.update(env)
    # libomp trips over what a killed process of the same number left in /dev/shm
    cmd = ['/bin/sh', '-c', 'rm -f /dev/shm/__KMP_REGISTERED_LIB_$$_%d; exec "$@"' % os.getuid(), 'sh'] + list(cmd)
    with tempfile.TemporaryFile(dir=scratch()) as out:
        p = subprocess.Popen(cmd, stdout=out, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, env=e, cwd=cwd, start_new_session=True)
        late = False
        try:
            p.wait(timeout)
        except subprocess.TimeoutExpired:
            late = True
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass
        p.wait()
        try:
            os.unlink('/dev/shm/__KMP_REGISTERED_LIB_%d_%d' % (p.pid, os.getuid()))
        except OSError:
            pass
        size = out.seek(0, 2)
        out.seek(max(0, size - 200000))
        return p.returncode, out.read().decode(errors='replace'), late


class Job:
    """Cases of one engine in one mode of one build"""

    def __init__(self, build, mode, cases, shard=None, args=(), env=None, timeout=150, seed_shift=0, wrapper=(), par=None):
        self.build, self.mode, self.cases = build, mode, cases
        self.shard = shard or max(1, (cases + 3) // 4)
        self.args, self.xenv, self.timeout = list(args), dict(env or {}), timeout
        self.seed_shift, self.wrapper = seed_shift, list(wrapper)


_serial = [0]


def run_shard(ctx, job, lo, hi, quiet=False):
    """Runs cases [lo, hi); reports what was found. Returns (data or None, problem or None)"""
    with ctx.lock:
        _serial[0] += 1
        k = _serial[0]
    out = os.path.join(scratch(), 'o%d.json' % k)
    d = subdir('w%d' % k)
    args = ['--seed', str(ctx.seed + job.seed_shift), '--from', str(lo), '--to', str(hi), '--out', out]
    if job.mode:
        args += ['--mode', job.mode]
    args += [a.replace('@SCRATCH@', d) for a in job.args]
    env = job.build.env()
    env.update(job.xenv)
    rc, text, late = run_proc(job.wrapper + [job.build.exe] + args, env, job.timeout)
    mark = ''
    try:
        mark = open(out + '.mark', 'rb').read().split(b'\0')[0].decode(errors='replace')
    except OSError:
        pass
    data = None
    if rc in (0, 10) and not late:
        try:
            data = json.load(open(out))
        except (OSError, ValueError):
            pass
    shutil.rmtree(d, ignore_errors=True)
    for p in (out, out + '.mark'):
        try:
            os.unlink(p)
        except OSError:
            pass
    return data, rc, text, late, mark


def headline(text):
    """What a sanitizer or an assertion said"""
    lines = text.splitlines()
    pick = [l for l in lines if re.search(r'ERROR: AddressSanitizer|WARNING: ThreadSanitizer|runtime error:|Assertion|SUMMARY:|==\d+== (Invalid|Conditional|Use of|Syscall|Mismatched)|#[0-9] ', l)]
    return ' / '.join(l.strip()[:200] for l in pick[:8]) or ' / '.join(l.strip()[:200] for l in lines[-4:])


def races(text):
    """Data races in the memory of the program. Arguments of a task lie in memory the OpenMP runtime
    recycles behind the back of the sanitizer; what is reported about that memory means nothing."""
    out = []
    for r in re.findall(r'WARNING: ThreadSanitizer: .*?\n=====', text, re.S):
        loc = re.search(r'Location is heap block .*?\n\s+#0 [^\n]*\n\s+#1 ([^\n]*)', r, re.S)
        if loc and 'libomp.so' in loc[1]:
            continue
        out.append(r)
    return out


def is_sanitizer(text):
    return bool(re.search(r'AddressSanitizer|ThreadSanitizer:DEADLYSIGNAL|runtime error:|UndefinedBehaviorSanitizer|==\d+== ERROR SUMMARY: [1-9]', text))


def replay_of(ctx, job, lo, hi):
    return dict(build=job.build.name, command=job.build.command('OUT'), mode=job.mode, args=job.args, env={**job.build.env(), **job.xenv},
                run_seed=ctx.seed + job.seed_shift, wrapper=job.wrapper, **{'from': lo, 'to': hi})


def do_shard(ctx, job, lo, hi):
    if ctx.stop:
        return
    if time.time() > ctx.deadline:
        ctx.note_inconclusive('%s %s cases %d..%d not run: out of time' % (job.build.name, job.mode, lo, hi))
        return
    while lo < hi and not ctx.stop:
        data, rc, text, late, mark = run_shard(ctx, job, lo, hi)
        if job.build.san == 'tsan':
            rs = races(text)
            if rs and ctx.stop:
                return
            if rs:
                # Now and then libarcher loses the order that a taskwait makes between
                # tasks which libomp moved; a race of the program is seen again
                again = 0
                for k in range(4):
                    again += bool(races(run_shard(ctx, job, lo, hi)[2]))
                    if again >= 2:
                        ctx.violation('race', '%s %s: %s' % (job.build.name, job.mode, headline(rs[0])), replay_of(ctx, job, lo, hi))
                        return
                ctx.count('race reports that did not repeat')
        if data is not None:
            ctx.absorb(job.build, data, replay_of(ctx, job, lo, hi))
            return
        m = re.match(r'case (\d+)', mark)
        at = int(m[1]) if m else lo
        rep = replay_of(ctx, job, at, at + 1)
        if late:
            _, rc2, text2, late2, mark2 = one = run_shard(ctx, job, at, at + 1)
            if late2:
                ctx.violation('hang', '%s %s: does not finish: %s' % (job.build.name, job.mode, mark), rep)
                return
            if one[0] is None:
                ctx.violation('crash', '%s %s: rc %s: %s: %s' % (job.build.name, job.mode, rc2, mark2, headline(text2)), rep)
                return
            ctx.note_inconclusive('%s %s took too long at %s, not again' % (job.build.name, job.mode, mark))
            ctx.absorb(job.build, one[0], rep)
            lo = at + 1
            continue
        if rc == 3:
            raise CheckError('%s %s: harness cannot run: %s' % (job.build.name, job.mode, text[-500:]))
        if is_sanitizer(text):
            ctx.violation('sanitizer', '%s %s: %s: %s' % (job.build.name, job.mode, mark, headline(text)), rep)
            return
        if re.search(r'Thread creation failed|Cannot create thread|pthread_create failed|can.t create thread|Unable to create thread', text, re.I):
            ctx.note_inconclusive('%s %s: no more threads to be had here at %s' % (job.build.name, job.mode, mark))
            return
        # Died. A crash that never comes back may be the runtime's own.
        for _ in range(3):
            again = run_shard(ctx, job, lo, hi)
            if again[0] is None and not again[3]:
                ctx.violation('crash', '%s %s: rc %s: %s: %s' % (job.build.name, job.mode, again[1], again[4], headline(again[2])), rep)
                return
            if again[0] is not None and again[0]['violations']:
                ctx.absorb(job.build, again[0], rep)
                return
        ctx.note_inconclusive('%s %s died once (rc %s) at %s, not in 3 repetitions: %s' % (job.build.name, job.mode, rc, mark, headline(text)))
        if again[0] is not None:
            ctx.absorb(job.build, again[0], rep)
        return


def run_jobs(ctx, jobs, parallel=5):
    """All shards of all jobs, interleaved"""
    build_all([j.build for j in jobs], ctx)
    jobs = [j for j in jobs if j.build.exe]
    log('  built %d executables after %.1f s' % (len({j.build for j in jobs}), time.time() - ctx.t0))
    shards = []
    for j in jobs:
        lo = 0
        while lo < j.cases:
            shards.append((lo, j, min(j.cases, lo + j.shard)))
            lo += j.shard
        ctx.runs.append('%s%s: %d cases' % (j.build.name, ' ' + j.mode if j.mode else '', j.cases))
    shards.sort(key=lambda s: s[0])
    with cf.ThreadPoolExecutor(parallel) as ex:
        fs = [ex.submit(do_shard, ctx, j, lo, hi) for lo, j, hi in shards]
        for f in cf.as_completed(fs):
            f.result()


# ------------------------------------------------------------------ evidence
def finish(ctx, level, rule, assumptions):
    if not ctx.violations and (not ctx.evaluations or not ctx.checks):
        print('NO VERDICT: nothing was observed')
        return 2
    ev = dict(
        property=ctx.prop, tier=ctx.tier, seed=ctx.seed, level=level,
        coverage=dict(
            evaluations=ctx.evaluations,
            distinct_nontrivial=len(ctx.distinct),
            rule=rule,
            oracle_verdicts=ctx.checks,
            samples=ctx.samples[:12],
            counters=dict(sorted(ctx.counters.items())),
            distinct_values={k: len(v) for k, v in sorted(ctx.spread.items())},
            runs=ctx.runs,
            inconclusive=ctx.inconclusive),
        assumptions=assumptions + ctx.assumptions,
        wall_s=round(time.time() - ctx.t0, 2),
        violations=len(ctx.violations),
        violation_details=ctx.violations)
    d = os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, ctx.prop + '.json.tmp')
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(d, ctx.prop + '.json'))
    for t in sorted(ctx.known):
        print('KNOWN-FINDING: property=%s %s' % (ctx.prop, t))
    for v in ctx.violations[:10]:
        print('VIOLATION property=%s replay=%s' % (ctx.prop, v['replay']))
        print('  %s: %s' % (v['key'], v['detail'][:600]))
    log('%s %s: %s, %d evaluations (%d distinct), %d oracle verdicts, %.1f s%s' % (
        ctx.prop, ctx.tier, 'VIOLATED' if ctx.violations else 'held', ctx.evaluations, len(ctx.distinct), ctx.checks,
        time.time() - ctx.t0, ', %d inconclusive' % len(ctx.inconclusive) if ctx.inconclusive else ''))
    return 1 if ctx.violations else 0
