"""The command line programs, run on generated files and judged by a model."""
import array, concurrent.futures as cf, hashlib, math, os, random, re, shutil, struct, threading, time
import vlib
from vlib import Build, HARNESS

TOOLS = ['permute', 'ipermute', 'sort', 'expanded', 'convert_blocked', 'convert', 'prepare', 'pprint', 'one2zero', 'double2float']
DRIVERS = ['csr', 'csr2', 'cswr', 'csbr', 'csbr2', 'cgbr', 'cgbr2', 'bench', 'pbench']


def program(name, asan, alone=True):
    if asan == 'gcc':
        k = dict(repo_src=True, name=name + '-gcc', cc='gcc', opt='-O2')
    else:
        k = dict(repo_src=True, name=name + ('-asan' if asan else ''), san='asan' if asan else None, opt='-O1' if asan else '-O2')
    if name in ('pprint', 'one2zero', 'double2float'):
        return Build('src/tools/%s.c' % name, lang='c', **k)
    if name == 'ipermute':
        return Build('src/tools/permute.cpp', defs=['INVPERM'], **k)
    if name == 'prepare' and not alone:      # (the preloaded library does that)
        return Build('src/tools/prepare.cpp', **dict(k, name=k['name'] + '-plain'))
    if name == 'prepare':      # its temporary files and shell commands are kept inside the scratch directory
        return Build('src/tools/prepare.cpp', wraps=['system', 'fopen', 'mkdtemp'], extra=[HARNESS + '/standin.cpp'], **k)
    if name in TOOLS:
        return Build('src/tools/%s.cpp' % name, **k)
    d = ['ITERATIONS=5']
    f = 'float,uint32_t'
    if name in ('bench', 'pbench'):
        return Build('src/drivers/%s.cpp' % name, defs=d + ['VALTYPE=float', 'INDEXTYPE=uint32_t', 'SINDEXTYPE=uint16_t'], **k)
    d += ['VALTYPE=float', 'ITYPE=uint32_t']
    typ = dict(csr='Csr<%s>' % f, csr2='Csr2<%s>' % f, cswr='Cswr<%s,uint8_t>' % f, csbr='Csbr<%s>' % f, csbr2='Csbr2<%s>' % f,
               cgbr='Cgbr<%s,uint16_t>' % f, cgbr2='Cgbr2<%s,uint16_t>' % f)[name]
    src = dict(csr='csr', csr2='csr', cswr='cswr').get(name, 'blocked')
    return Build('src/drivers/%s.cpp' % src, defs=d + ['MATRIXTYPE=' + typ], **k)


# ------------------------------------------------------------------- matrices
def f32(x):
    return struct.unpack('<f', struct.pack('<f', x))[0]


def bits(x, code):
    return struct.pack('<' + code, x)


def rand_value(r, code):
    k = r.random()
    if k < .4:
        v = float(r.randint(-9, 9))
    elif k < .8:
        v = r.uniform(-1, 1) * 10 ** r.randint(-6, 6)
    elif k < .9:
        v = r.choice([1e30, -3.4e38, 1.2e-38, 1e-42, -0.0, 0.1, 16777217.0, 1.0 / 3])
    else:
        while True:
            v = struct.unpack('<f', struct.pack('<I', r.getrandbits(32)))[0]
            if math.isfinite(v):
                break
    return f32(v) if code == 'f' else (v if r.random() < .5 else v * (1 + 2.0 ** -40))


class Matrix:
    """Triplets with a shape"""

    def __init__(self, rows, cols, tri, code):
        self.rows, self.cols, self.tri, self.code = rows, cols, tri, code

    def hash(self):
        h = hashlib.sha256(struct.pack('<QQ', self.rows, self.cols))
        for a, b, v in self.tri:
            h.update(struct.pack('<QQd', a, b, v))
        return h.hexdigest()[:16]

    def describe(self):
        return '%dx%d nnz=%d' % (self.rows, self.cols, len(self.tri))


EDGES = [255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 32768, 65535, 65536, 65537]


def rand_count(r, small, limit=65537):
    """Lengths: mostly small ones, and those at which buffers and counters end"""
    if limit >= 65537 and r.random() < .015:
        return r.choice([100000, 131072, 131073, 262145, 1000003])
    return r.choice([x for x in EDGES if x <= limit] or [0]) if r.random() < .35 else r.choice(small)


def some(r, n):
    """A place among n, the first or the last more often than the others."""
    return r.choice([0, n - 1]) if r.random() < .4 else r.randrange(n)


def rand_matrix(r, code, square=False, max_dim=400, max_nnz=900, huge=False):
    dim = lambda: r.choice([1, 2, 3, 7, 8, 9, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, r.randint(1, 40), r.randint(1, max_dim), r.randint(1, max_dim)])
    big = max_dim >= 400 and r.random() < .1
    if big:
        max_dim = 70000
        dim = lambda: r.choice([1, 300, 1023, 1024, 1025, 4095, 4096, 4097, 8192, 32768, 65535, 65536, 65537, r.randint(1, 70000)])
    if huge and r.random() < .25:
        max_dim = 2**32 - 1
        dim = lambda: r.choice([1, 65537, 2**20, 2**31 - 1, 2**31, 2**31 + 1, 2**32 - 2, 2**32 - 1, r.randint(1, 2**32 - 1)])
    rows = min(dim(), max_dim)
    cols = rows if square or r.random() < .3 else min(dim(), max_dim)
    k = r.randint(0, 7)
    n = r.choice([0, 1, 2, 5, 17, 63, 64, 65, r.randint(1, 100), r.randint(1, max_nnz), r.randint(1, max_nnz)])
    if max_nnz >= 900:
        if r.random() < .06:
            n = r.randint(2000, 5000)
        elif r.random() < .08:
            n = r.choice(EDGES[:-3])
        elif r.random() < .015:
            n = r.choice(EDGES[-4:])
        elif r.random() < .006:
            n = r.choice([80000, 100001, 131072, 131073, 200000, 262145])
    if k == 0:
        p = [(i % rows, i % cols) for i in range(min(n, rows, cols))]
    elif k == 1:
        a = r.randrange(rows)
        p = [(a, r.randrange(cols)) for _ in range(n)]
    elif k == 2:
        a = r.randrange(cols)
        p = [(r.randrange(rows), a) for _ in range(n)]
    elif k == 3:
        h, w = min(rows, 5), min(cols, 5)
        p = [(r.randrange(h), r.randrange(w)) for _ in range(min(n, 200))]
    elif k == 4:
        p = [(rows - 1 - r.randrange(min(rows, 3)), r.randrange(cols)) for _ in range(n)]
    else:
        p = [(r.randrange(rows), r.randrange(cols)) for _ in range(n)]
    if r.random() < .5 and p:
        p[r.randrange(len(p))] = (rows - 1, cols - 1)
    o = r.randint(0, 3)
    if o == 0:
        p.sort()
    elif o == 1:
        p.sort(key=lambda t: (t[1], t[0]))
    elif o == 2:
        p.sort(reverse=True)
    return Matrix(rows, cols, [(a, b, rand_value(r, code)) for a, b in p], code)


def write_u32(path, v):
    a = array.array('I', v)
    with open(path, 'wb') as f:
        f.write(a.tobytes())


def read_u32(path):
    a = array.array('I')
    a.frombytes(open(path, 'rb').read())
    return list(a)


def write_vals(path, v, code):
    with open(path, 'wb') as f:
        f.write(array.array(code, v).tobytes())


def write_three(d, m, stem='m'):
    p = [os.path.join(d, stem + s) for s in ('.rows', '.cols', '.vals')]
    write_u32(p[0], [t[0] for t in m.tri])
    write_u32(p[1], [t[1] for t in m.tri])
    write_vals(p[2], [t[2] for t in m.tri], m.code)
    return p


def bin_bytes(m):
    return (struct.pack('<III', m.rows, m.cols, len(m.tri)) + array.array('I', [t[0] for t in m.tri]).tobytes()
            + array.array('I', [t[1] for t in m.tri]).tobytes() + array.array(m.code, [t[2] for t in m.tri]).tobytes())


def write_bin(path, m):
    with open(path, 'wb') as f:
        f.write(bin_bytes(m))


def mtx_text(m, r):
    s = ['%%MatrixMarket matrix coordinate real general\n']
    if r.random() < .4:
        s.append('% a comment\n')
    s.append('%d %d %d\n' % (m.rows, m.cols, len(m.tri)))
    for a, b, v in m.tri:
        s.append('%d %d %s\n' % (a + 1, b + 1, repr(v)))
    return ''.join(s)


def write_mtx(path, m, r):
    with open(path, 'w') as f:
        f.write(mtx_text(m, r))


class Bad(Exception):
    """The output is not what it has to be"""


def parse_bin(path, code):
    b = open(path, 'rb').read()
    if len(b) < 12:
        raise Bad('output has no header')
    r, c, n = struct.unpack('<III', b[:12])
    w = struct.calcsize(code)
    if len(b) != 12 + n * (8 + w):
        raise Bad('output size %d does not match %d non-zeros' % (len(b), n))
    I = struct.unpack('<%dI' % n, b[12:12 + 4 * n])
    J = struct.unpack('<%dI' % n, b[12 + 4 * n:12 + 8 * n])
    V = [b[12 + 8 * n + w * i:12 + 8 * n + w * (i + 1)] for i in range(n)]
    return r, c, list(zip(I, J, V))


def parse_three(paths, code):
    I, J = read_u32(paths[0]), read_u32(paths[1])
    b = open(paths[2], 'rb').read()
    w = struct.calcsize(code)
    if len(I) != len(J) or len(b) != w * len(I):
        raise Bad('output files have different lengths')
    return [(I[i], J[i], b[w * i:w * i + w]) for i in range(len(I))]


def parse_blocked(path):
    b = open(path, 'rb').read()
    if len(b) < 24:
        raise Bad('output has no header')
    h = struct.unpack('<6I', b[:24])
    if len(b) != 24 + 16 * h[2]:
        raise Bad('output size %d does not match %d non-zeros' % (len(b), h[2]))
    return h, [struct.unpack('<III', b[24 + 16 * i:36 + 16 * i]) + (b[36 + 16 * i:40 + 16 * i],) for i in range(h[2])]


def parse_mtx(path):
    L = open(path).read().split('\n')
    if L[0] != '%%MatrixMarket matrix coordinate real general':
        raise Bad('banner %r' % L[0])
    L = [l for l in L[1:] if l and l[0] != '%']
    r, c, n = map(int, L[0].split())
    if len(L) - 1 != n:
        raise Bad('%d entries announced, %d written' % (n, len(L) - 1))
    out = []
    for l in L[1:]:
        a, b, v = l.split()
        out.append((int(a) - 1, int(b) - 1, float(v)))
    return r, c, out


def same_content(got, want, code, what):
    w = sorted((a, b, bits(v, code)) for a, b, v in want)
    if sorted(got) != w:
        g = set(got)
        raise Bad('%s: non-zeros differ, for example %s' % (what, next((x for x in w if x not in g), 'an extra one')))


def in_order(seq, key, what):
    k = [key(e) for e in seq]
    for i in range(1, len(k)):
        if k[i - 1] > k[i]:
            raise Bad('%s: out of order at %d: %s before %s' % (what, i, seq[i - 1][:2], seq[i][:2]))


def offsets(sizes):
    o = [0]
    for s in sizes:
        o.append(o[-1] + s)
    return o


def block_of(off, n):
    t = []
    for b in range(len(off) - 1):
        t += [b] * (off[b + 1] - off[b])
    return t


def rand_sizes(r, n, max_blocks=60):
    """Positive block sizes with sum n"""
    k, s, left = r.randint(0, 4), [], n
    if max_blocks == 60 and r.random() < .08:
        max_blocks = r.choice([255, 256, 257, 1000, 1025, 3000])
    while left:
        x = {0: 1, 1: r.randint(1, max(1, n // 3)), 2: n, 3: 2 ** r.randint(0, 6), 4: r.randint(1, 9)}[k]
        x = min(x, left) if len(s) < max_blocks - 1 else left
        s.append(x)
        left -= x
    r.random() < .3 and r.shuffle(s)
    if max_blocks == 60 and r.random() < .15:
        # one alone a little over a power of two, often at an end
        p = 2 ** r.randint(0, 5)
        k = (n - p - 1) // p
        if 0 <= k <= 3000:
            s = [p] * k + ([n - p - 1 - k * p] if (n - p - 1) % p else [])
            s.insert(r.choice([0, len(s), r.randint(0, len(s))]), p + 1)
    return s


def pow2(n):
    return 1 << max(0, n - 1).bit_length()


# ----------------------------------------------------------------- execution
class Lab:
    def __init__(self, ctx, r, d, progs):
        self.ctx, self.r, self.d, self.progs = ctx, r, d, progs
        self.last = None
        self.cwd, self.more = d, {}

    def path(self, name):
        return os.path.join(self.d, name)

    def run(self, name, args, threads=None, wrapper=(), env=None, asan=None):
        asan = self.r.random() < .6 if asan is None else asan
        b = self.progs[(name, asan)]
        e = b.env()
        e['OMP_NUM_THREADS'] = str(threads or self.r.randint(1, 8))
        e['VF_STANDIN'] = self.d + '/standin'
        e.update(self.more)
        e.update(env or {})
        cmd = list(wrapper) + [b.exe] + [str(a) for a in args]
        rc, text, late = vlib.run_proc(cmd, e, 60, cwd=self.cwd)
        if late:
            rc, text, late = vlib.run_proc(cmd, e, 60, cwd=self.cwd)
        if rc in (-7, -11) and not vlib.is_sanitizer(text):
            # As for the harnesses: the OpenMP runtime itself may die, once
            again = [vlib.run_proc(cmd, e, 60, cwd=self.cwd) for _ in range(3)]
            if not any(x[0] in (-7, -11) for x in again):
                self.ctx.note_inconclusive('%s died of signal %d, not in 3 repetitions' % (b.name, -rc))
                rc, text, late = again[0]
        self.last = dict(program=b.name, args=[str(a) for a in args], rc=rc, threads=e['OMP_NUM_THREADS'], text=text[-3000:])
        with self.ctx.lock:
            self.ctx.checks += 1
        self.ctx.count('runs of ' + name)
        if late:
            raise Bad('%s does not finish' % name)
        if vlib.is_sanitizer(text):
            raise Bad('%s: %s' % (name, vlib.headline(text)))
        return rc, text

    def files(self):
        got = {}
        for d, _, fs in os.walk(self.d):
            for f in fs:
                try:
                    with open(os.path.join(d, f), 'rb') as h:
                        got[os.path.relpath(os.path.join(d, f), self.d)] = h.read()
                except FileNotFoundError:      # a temporary file of another run
                    pass
        return got

    def ok(self, name, args, **k):
        again = name in TOOLS and self.r.random() < .3
        before = self.files() if again else None
        rc, text = self.run(name, args, **k)
        if rc != 0:
            raise Bad('%s fails with status %s on valid input: %s' % (name, rc, vlib.headline(text)))
        if again:
            after = self.files()
            for f in before:
                if name != 'prepare' and after.get(f) != before[f] and not self.rewritten(f, args):
                    raise Bad('%s changes its input %s' % (name, f))
            # once more over what is there, and longer now, with other threads
            new = sorted(f for f in after if f not in before and not f.startswith('standin'))
            for f in new:
                with open(self.path(f), 'ab') as h:
                    h.write(b'left over from before, ' * self.r.randint(1, 400))
            last = self.last
            rc, text2 = self.run(name, args, **k)
            if rc != 0:
                raise Bad('%s fails with status %s where its output exists already: %s' % (name, rc, vlib.headline(text2)))
            now = self.files()
            self.ctx.count('tools run again over their own output')
            for f in new:
                if now.get(f) != after[f]:
                    raise Bad('%s writes another %s (%d bytes instead of %d) with %s threads instead of %s, over an old one' % (name, f, len(now.get(f, b'')), len(after[f]), self.last['threads'], last['threads']))
        return text

    @staticmethod
    def rewritten(f, args):
        """Outputs of an earlier command in this case"""
        return not any(os.path.basename(str(a)) == f for a in args)

    def refused(self, name, args, why, **k):
        rc, text = self.run(name, args, **k)
        if rc == 0:
            raise Bad('%s succeeds although %s' % (name, why))
        if rc < 0 and rc != -6:
            raise Bad('%s dies of signal %d because %s' % (name, -rc, why))
        return text


def campaign(ctx, what, case, names, count, parallel=8, variants=(False, True), alone=True):
    progs = {(n, a): program(n, a, alone) for n in names for a in variants}
    vlib.build_all(list(progs.values()) + ([] if alone else [vlib.TOGETHER]))
    vlib.log('  programs built after %.1f s' % (time.time() - ctx.t0))
    only = getattr(ctx, 'only_case', None)

    def one(i):
        if ctx.stop and only is None:
            return
        if time.time() > ctx.deadline:
            ctx.note_inconclusive('%s case %d not run: out of time' % (what, i))
            return
        r = random.Random('%s/%d/%d' % (what, ctx.seed, i))
        base = d = vlib.subdir('%s%d' % (what, i))
        if random.Random(i * 31 + ctx.seed).random() < .3:
            # unusual names of the directory
            d = os.path.join(d, random.Random(i * 37 + ctx.seed).choice(['a b', 'x.mtx', 'y.bin', 'n' * 100, 'n' * 200, 'a.b.c', '.hidden', '-', "it's"]))
            os.makedirs(d)
        lab = Lab(ctx, r, d, progs)
        ctx.eval()
        try:
            case(lab, r, i)
        except Bad as e:
            keep = os.path.join(vlib.VERIF, 'replay', '%s-%s-%d-%d.files' % (ctx.prop, what, ctx.seed, i))
            shutil.rmtree(keep, ignore_errors=True)
            shutil.copytree(d, keep, ignore=lambda q, fs: [f for f in fs if not os.path.isfile(os.path.join(q, f)) or os.path.islink(os.path.join(q, f))])
            ctx.violation('cli:' + what, 'case %d: %s' % (i, e), dict(cli=what, case=i, seed=ctx.seed, run=lab.last, files=keep))
        finally:
            shutil.rmtree(base, ignore_errors=True)

    ctx.runs.append('%s: %d cases' % (what, count))
    with cf.ThreadPoolExecutor(parallel) as ex:
        for f in [ex.submit(one, i) for i in (range(count) if only is None else [only])]:
            f.result()


# -------------------------------------------------------------------- cases
def rand_perm(r, n):
    k = r.randint(0, 8)
    p = list(range(n))
    if k >= 6 and n > 2:     # of a different nature in a part only: swaps, or the identity, and a cycle or a shuffle somewhere
        if k == 6:
            for x in range(0, n - 1, 2):
                p[x], p[x + 1] = p[x + 1], p[x]
        elif k == 7:
            p.reverse()
        a = r.choice([0, n - 3, r.randrange(n - 2), r.randrange(n - 2)])
        b = r.choice([a + 3, n, r.randint(a + 3, n)])
        part = p[a:b]
        if r.random() < .5:
            part = part[1:] + part[:1]
        else:
            r.shuffle(part)
        p[a:b] = part
    elif k == 0:
        pass
    elif k == 1:
        p.reverse()
    elif k == 2 and n > 1:
        s = r.randrange(n)
        p = p[s:] + p[:s]
    elif k == 3 and n > 1:
        for _ in range(3):
            a, b = r.randrange(n), r.randrange(n)
            p[a], p[b] = p[b], p[a]
    else:
        r.shuffle(p)
    return p


def case_permute(lab, r, i, inverse=None):
    inverse = r.random() < .5 if inverse is None else inverse
    name = 'ipermute' if inverse else 'permute'
    n = r.choice([1, 2, 3, 63, 64, 65, 127, 128, 129, 500, r.randint(1, 400), r.randint(1, 3000)])
    if r.random() < .06:
        n = r.choice(EDGES[12:] + [70000, 100000, 131073, 200001, 300000])
    p = rand_perm(r, n)
    k = r.choice([0, 1, 64, 65, 200, n, r.randint(0, 2000)]) if r.random() < .96 else r.choice(EDGES[15:] + [100000, 131073, 262145])
    rows = [r.randrange(n) for _ in range(k)]
    cols = [r.randrange(n) for _ in range(k if r.random() < .8 else r.randint(0, 300))]
    if k == n and r.random() < .5:
        rows = list(range(n))
    a, b, c = lab.path('rows.bin'), lab.path('cols.bin'), lab.path('perm.bin')
    write_u32(a, rows); write_u32(b, cols); write_u32(c, p)
    lab.ok(name, [a, b, c])
    q = p
    if inverse:
        q = [0] * n
        for x, y in enumerate(p):
            q[y] = x
    for f, v in ((a, rows), (b, cols)):
        if read_u32(f + '.permuted') != [q[x] for x in v]:
            raise Bad('%s: wrong indices in %s' % (name, os.path.basename(f)))
        if read_u32(f) != v:
            raise Bad('%s changes its input' % name)
    if r.random() < .4:      # and back again
        other = 'permute' if inverse else 'ipermute'
        lab.ok(other, [a + '.permuted', b + '.permuted', c])
        if read_u32(a + '.permuted.permuted') != rows or read_u32(b + '.permuted.permuted') != cols:
            raise Bad('%s does not undo %s' % (other, name))
    lab.ctx.eval(hashlib.sha256(repr((name, p, rows, cols)).encode()).hexdigest()[:16], 0)
    lab.ctx.sample('%s: %d + %d indices, permutation of %d' % (name, len(rows), len(cols), n))


def case_sort(lab, r, i):
    blocks = r.random() < .5
    three = r.random() < .5
    m = rand_matrix(r, 'd', square=blocks, huge=three and not blocks)
    if three:
        f = write_three(lab.d, m)
        outs = [x + '.sorted' for x in f]
        got = lambda: (None, None, parse_three(outs, 'd'))
    else:
        f = [lab.path('m.mtx')]
        write_mtx(f[0], m, r)
        got = lambda: (lambda t: (t[0], t[1], [(a, b, bits(v, 'd')) for a, b, v in t[2]]))(parse_mtx(f[0] + '.sorted'))
    args = list(f)
    if blocks:
        sizes = rand_sizes(r, m.rows)
        write_u32(lab.path('sizes'), sizes)
        args.append(lab.path('sizes'))
    lab.ok('sort', args)
    rr, cc, tri = got()
    same_content(tri, m.tri, 'd', 'sort')
    if rr is not None and (rr, cc) != (m.rows, m.cols):
        raise Bad('sort: size %dx%d became %dx%d' % (m.rows, m.cols, rr, cc))
    if blocks:
        bo = block_of(offsets(sizes), m.rows)
        in_order(tri, lambda t: (bo[t[0]], bo[t[1]]), 'sort by blocks')
    else:
        in_order(tri, lambda t: (t[0], t[1]), 'sort')
    lab.ctx.eval('sort%d%d' % (blocks, len(f)) + m.hash(), 0)
    lab.ctx.sample('sort %s%s' % (m.describe(), ' by %d blocks' % len(sizes) if blocks else ''))


def case_convert(lab, r, i):
    m = rand_matrix(r, 'f', huge=True)
    f = write_three(lab.d, m)
    mode = r.choice(['bin', 'mtx', 'all'])
    out = lab.path('out')
    rows = max([t[0] for t in m.tri], default=0) + 1
    cols = max([t[1] for t in m.tri], default=0) + 1
    if mode != 'bin' and max(rows, cols) >= 2**31:      # the reader of such files takes the sizes for ints: written in full, or refused
        rc, text = lab.run('convert', f + [out, mode])
        if rc < 0 or rc == 0 and parse_mtx(out + '.mtx')[:2] != (rows, cols):
            raise Bad('convert of a matrix of %dx%d to .mtx ends with %d' % (rows, cols, rc))
        lab.ctx.eval('convert' + mode + m.hash(), 0)
        return
    lab.ok('convert', f + [out, mode])
    col = lambda t: (t[1], t[0])
    if (mode != 'mtx') != os.path.exists(out + '.bin') or (mode != 'bin') != os.path.exists(out + '.mtx'):
        raise Bad('convert %s writes the wrong files' % mode)
    if mode != 'mtx':
        a, b, t = parse_bin(out + '.bin', 'f')
        if (a, b) != (rows, cols):
            raise Bad('convert: size %dx%d instead of %dx%d' % (a, b, rows, cols))
        same_content(t, m.tri, 'f', 'convert to .bin')
        in_order(t, col, 'convert to .bin')
    if mode != 'bin':
        a, b, t = parse_mtx(out + '.mtx')
        if (a, b) != (rows, cols):
            raise Bad('convert: size %dx%d instead of %dx%d' % (a, b, rows, cols))
        same_content([(x, y, bits(f32(v), 'f')) for x, y, v in t], m.tri, 'f', 'convert to .mtx')
        in_order(t, col, 'convert to .mtx')
    lab.ctx.eval('convert' + mode + m.hash(), 0)
    lab.ctx.sample('convert %s %s' % (mode, m.describe()))


def check_blocked(path, sizes, tri, what):
    off = offsets(sizes)
    n = off[-1]
    bo, nb = block_of(off, n), len(sizes)
    h, el = parse_blocked(path)
    ids = {bo[a] * nb + bo[b] for a, b, v in tri}
    if h != (n, n, len(tri), nb, nb, len(ids)):
        raise Bad('%s: header %s instead of %s' % (what, h, (n, n, len(tri), nb, nb, len(ids))))
    for b, x, y, v in el:
        if x >= n or y >= n or b != bo[x] * nb + bo[y]:
            raise Bad('%s: non-zero (%d,%d) is said to be in block %d' % (what, x, y, b))
    same_content([e[1:] for e in el], tri, 'f', what)
    in_order(el, lambda e: e[:3], what)


def case_convert_blocked(lab, r, i):
    m = rand_matrix(r, 'f', square=True)
    sizes = rand_sizes(r, m.rows)
    f = write_three(lab.d, m)
    write_u32(lab.path('sizes'), sizes)
    lab.ok('convert_blocked', f + [lab.path('sizes'), lab.path('out')])
    check_blocked(lab.path('out'), sizes, m.tri, 'convert_blocked')
    lab.ctx.eval('convert_blocked' + repr(sizes) + m.hash(), 0)
    lab.ctx.sample('convert_blocked %s, %d blocks' % (m.describe(), len(sizes)))


def expanded_tri(sizes, tri):
    off = offsets(sizes)
    n = off[-1]
    bo = block_of(off, n)
    N = pow2(max(sizes))
    e = lambda x: bo[x] * N + x - off[bo[x]]
    return N, [(e(a), e(b), v) for a, b, v in tri]


def case_expanded(lab, r, i):
    m = rand_matrix(r, 'f', square=True)
    sizes = rand_sizes(r, m.rows)
    f = write_three(lab.d, m)
    write_u32(lab.path('sizes'), sizes)
    out = lab.path('out')
    lab.ok('expanded', f + [lab.path('sizes'), out])
    N, want = expanded_tri(sizes, m.tri)
    p = '%s.exp%d' % (out, N)
    if not os.path.exists(p):
        raise Bad('expanded: blocks do not become %d: %s' % (N, sorted(os.listdir(lab.d))))
    a, b, t = parse_bin(p, 'f')
    if (a, b) != (N * len(sizes),) * 2:
        raise Bad('expanded: size %dx%d instead of %d' % (a, b, N * len(sizes)))
    same_content(t, want, 'f', 'expanded')
    in_order(t, lambda x: (x[1], x[0]), 'expanded')
    lab.ctx.eval('expanded' + repr(sizes) + m.hash(), 0)
    lab.ctx.sample('expanded %s, %d blocks to %d' % (m.describe(), len(sizes), N))


def case_prepare(lab, r, i):
    m = rand_matrix(r, 'f', square=True)
    sizes = rand_sizes(r, m.rows)
    p = rand_perm(r, m.rows)
    f = write_three(lab.d, m)
    write_u32(lab.path('sizes'), sizes)
    write_u32(lab.path('perm'), p)
    out = lab.path('out')
    os.makedirs(lab.path('standin'))
    lab.ok('prepare', f + [lab.path('perm'), lab.path('sizes'), out])
    tri = [(p[a], p[b], v) for a, b, v in m.tri]
    n = m.rows
    for suffix, key in (('.row', lambda t: (t[0], t[1])), ('.col', lambda t: (t[1], t[0]))):
        a, b, t = parse_bin(out + suffix, 'f')
        if (a, b) != (n, n):
            raise Bad('prepare: %s says %dx%d instead of %d' % (suffix, a, b, n))
        same_content(t, tri, 'f', 'prepare ' + suffix)
        in_order(t, key, 'prepare ' + suffix)
    check_blocked(out + '.block', sizes, tri, 'prepare .block')
    N, want = expanded_tri(sizes, tri)
    e = '%s.col.exp%d' % (out, N)
    if not os.path.exists(e):
        raise Bad('prepare: blocks do not become %d: %s' % (N, sorted(os.listdir(lab.d))))
    a, b, t = parse_bin(e, 'f')
    if (a, b) != (N * len(sizes),) * 2:
        raise Bad('prepare: expanded size %dx%d instead of %d' % (a, b, N * len(sizes)))
    same_content(t, want, 'f', 'prepare expanded')
    in_order(t, lambda x: (x[1], x[0]), 'prepare expanded')
    lab.ctx.eval('prepare' + repr((sizes, p)) + m.hash(), 0)
    lab.ctx.sample('prepare %s, %d blocks' % (m.describe(), len(sizes)))


def case_one2zero(lab, r, i):
    fs = []
    for k in range(r.randint(1, 3)):
        v = [r.choice([1, 2, 2**31, 2**31 + 1, 2**32 - 1, 65536, 65537, r.randint(1, 10**6), r.randint(1, 2**32 - 1)]) for _ in range(rand_count(r, [0, 1, 2, 3, 5, 8, 1000]))]
        fs.append((lab.path('f%d' % k), v))
        write_u32(fs[-1][0], v)
    lab.ok('one2zero', [f for f, v in fs])
    for f, v in fs:
        if read_u32(f + '.zero') != [x - 1 for x in v]:
            raise Bad('one2zero: wrong result')
    lab.ctx.eval('one2zero' + hashlib.sha256(repr([v for f, v in fs]).encode()).hexdigest()[:16], 0)


def case_double2float(lab, r, i):
    fs = []
    for k in range(r.randint(1, 3)):
        v = []
        for _ in range(rand_count(r, [0, 1, 2, 3, 7, 600])):
            x = rand_value(r, 'd')
            v.append(r.choice([x, x, x, float('inf'), -float('inf'), 3.5e38, -1e300, 1e-46, 5e-324, 3.4028235e38, 3.4028235677973366e38, 3.4028235677973364e38, 1 + 2.**-24, 1 + 3 * 2.**-24]) if r.random() < .1 else x)
        fs.append((lab.path('f%d' % k), v))
        write_vals(fs[-1][0], v, 'd')
    lab.ok('double2float', [f for f, v in fs], asan=False)
    for f, v in fs:
        if open(f + '.float', 'rb').read() != array.array('f', v).tobytes():
            raise Bad('double2float: wrong result')
    lab.ctx.eval('double2float' + hashlib.sha256(repr([v for f, v in fs]).encode()).hexdigest()[:16], 0)


def case_pprint(lab, r, i):
    mode = r.choice(['triples', 'blocks', 'vector', None])
    p = lab.path('x')
    if mode == 'vector':
        v = [r.getrandbits(32) for _ in range(rand_count(r, [0, 1, 2, 9, 200], 9000))]
        write_u32(p, v)
        want = [str(x) for x in v]
    elif mode == 'triples':
        m = rand_matrix(r, 'f', max_nnz=r.choice([60, 60, 60, 900]), huge=True)
        write_bin(p, m)
        want = ['%d rows x %d columns, %d non-zeros' % (m.rows, m.cols, len(m.tri))]
        want += [str(t[0]) for t in m.tri] + ['-' * 39] + [str(t[1]) for t in m.tri] + ['-' * 39] + ['%f' % t[2] for t in m.tri]
    else:
        m = rand_matrix(r, 'f', max_nnz=r.choice([60, 60, 60, 900]), huge=True)
        with open(p, 'wb') as f:
            f.write(struct.pack('<6I', m.rows, m.cols, len(m.tri), 3, 3, 9))
            for a, b, v in m.tri:
                f.write(struct.pack('<IIIf', a * 7919 % 2**32 if a > 1000 else a % 7, a, b, v))
        want = ['%d %d %d %e' % (a * 7919 % 2**32 if a > 1000 else a % 7, a, b, v) for a, b, v in m.tri]
    out = lab.ok('pprint', [p] + ([mode] if mode else []))
    got = [' '.join(l.split()) for l in out.splitlines() if 'Assuming' not in l]
    # however large a file is, nothing of it is left out (only the end of the output is kept here)
    if len(out) < 150000 and got != want:
        k = next((j for j in range(min(len(got), len(want))) if got[j] != want[j]), min(len(got), len(want)))
        raise Bad('pprint %s: line %d of %d (expected %d) is %r' % (mode, k, len(got), len(want), got[k] if k < len(got) else None))
    lab.ctx.eval('pprint' + str(mode) + hashlib.sha256(repr(want).encode()).hexdigest()[:16], 0)


TOOL_CASES = [(case_permute, 3), (case_sort, 4), (case_convert, 3), (case_convert_blocked, 3), (case_expanded, 3), (case_prepare, 3), (case_one2zero, 1), (case_double2float, 1), (case_pprint, 3)]


def tools(ctx, n):
    w = [c for c, k in TOOL_CASES for _ in range(k)]
    campaign(ctx, 'tools', lambda lab, r, i: w[i % len(w)](lab, r, i), TOOLS, n)


def same_time(lab, jobs):
    """Each job is a function; all run at once, and the first complaint is passed on"""
    with cf.ThreadPoolExecutor(len(jobs)) as ex:
        fs = [ex.submit(j) for j in jobs]
        bad = [f.exception() for f in fs]
    for b in bad:
        if b is not None and not isinstance(b, Bad):
            raise b
    for b in bad:
        if b is not None:
            raise Bad('%d runs at once: %s' % (len(jobs), b))


def guest(lab, r, d, i):
    """A lab of its own whose programs share the rest of the file system with others"""
    sub = Lab(lab.ctx, random.Random(r.getrandbits(64)), d, lab.progs)
    sub.cwd = lab.d
    sub.more = dict(VF_STANDIN=lab.path('standin'), VF_OWN=vlib.scratch() + '/', LD_PRELOAD=vlib.TOGETHER.exe, VF_DELAY=str(r.getrandbits(30)))
    return sub


def case_together(lab, r, i):
    os.makedirs(lab.path('standin'))
    k = r.choice([2, 2, 3, 4])
    if i % 2 == 0:
        # cases of their own, often of the same program
        kinds = [c for c, w in TOOL_CASES if c not in (case_double2float, case_pprint) or r.random() < .3] + [case_driver]
        pick = [r.choice(kinds)] * k if r.random() < .6 else [r.choice(kinds) for _ in range(k)]
        if i % 8 == 0:
            pick = [case_prepare] * k
        subs = []
        for j in range(k):
            os.makedirs(lab.path('run%d' % j))
            subs.append(guest(lab, r, lab.path('run%d' % j), i))
        before = set(os.listdir(lab.d))
        same_time(lab, [lambda c=c, s=s: c(s, s.r, s.r.randrange(100)) for c, s in zip(pick, subs)])
        if set(os.listdir(lab.d)) != before:
            raise Bad('%d runs at once leave %s in the working directory' % (k, sorted(set(os.listdir(lab.d)) - before)))
        what = ', '.join(sorted(c.__name__[5:] for c in pick))
    else:
        # one set of input files, outputs of their own
        m = rand_matrix(r, 'f', square=True)
        f = write_three(lab.d, m)
        sizes = rand_sizes(r, m.rows)
        write_u32(lab.path('sizes'), sizes)
        write_u32(lab.path('perm'), rand_perm(r, m.rows))
        write_bin(lab.path('whole.bin'), m)
        forms = dict(convert=lambda o: f + [o, 'all'], convert_blocked=lambda o: f + [lab.path('sizes'), o], expanded=lambda o: f + [lab.path('sizes'), o],
                     prepare=lambda o: f + [lab.path('perm'), lab.path('sizes'), o], csr=lambda o: [lab.path('whole.bin')],
                     cgbr=lambda o: [lab.path('whole.bin')], pbench=lambda o: [lab.path('whole.bin'), lab.path('perm')])
        # the names of these outputs depend on those of the inputs
        def own(fn, *files):
            def form(o):
                for x, y in files:
                    shutil.copyfile(x, '%s.%s' % (o, y))
                return fn(*['%s.%s' % (o, y) for x, y in files])
            return form
        d64, ones = lab.path('doubles'), lab.path('ones')
        write_vals(d64, [t[2] for t in m.tri], 'd')
        write_u32(ones, [t[0] + 1 for t in m.tri])
        forms['permute'] = forms['ipermute'] = own(lambda a, b: [a, b, lab.path('perm')], (f[0], 'a'), (f[1], 'b'))
        forms['one2zero'] = own(lambda a: [a], (ones, 'a'))
        forms['double2float'] = own(lambda a: [a], (d64, 'a'))
        forms['sort'] = own(lambda a, b, c: [a, b, c], (f[0], 'a'), (f[1], 'b'), (d64, 'c'))
        names = sorted(forms)
        pick = [r.choice(names)] * k if r.random() < .5 else [r.choice(names) for _ in range(k)]
        host = guest(lab, r, lab.d, i)
        inputs = {x: y for x, y in host.files().items() if not x.startswith('standin')}
        outputs = lambda stem: {x[len(stem):]: y for x, y in host.files().items() if x.startswith(stem + '.') or x == stem}
        want = {}
        for name in set(pick):
            host.run(name, forms[name](lab.path('alone')), asan=False)
            if host.last['rc'] != 0:
                raise Bad('%s fails with status %s on valid input: %s' % (name, host.last['rc'], vlib.headline(host.last['text'])))
            want[name] = outputs('alone')
            for x in want[name]:
                os.unlink(lab.path('alone' + x))
        if r.random() < .5:
            # what others have there, and outputs of earlier runs
            made = sorted({'o%d%s' % (j, x) for j, n in enumerate(pick) for x in want[n]})
            for x in r.sample(made, min(len(made), 4)):
                if not x.endswith(('.a', '.b', '.c')):
                    with open(lab.path(x), 'wb') as h:
                        h.write(b'of an earlier run, ' * r.randint(0, 3000))
                for y in r.sample(['%s~', '%s.bak', '%s.tmp', '%s.old', '%s.part', '%s.swp', '.%s', '#%s#', '%s.new', '%s.0', '%s.lock'], 5):
                    y = y % x
                    if y not in made and y not in inputs:
                        with open(lab.path(y), 'wb') as h:
                            h.write(b'of someone else ' + y.encode())
                        inputs[y] = b'of someone else ' + y.encode()
        subs = [guest(lab, r, lab.d, i) for _ in pick]

        def one(name, sub, j):
            sub.run(name, forms[name](lab.path('o%d' % j)))
            if sub.last['rc'] != 0:
                raise Bad('%s fails with status %s: %s' % (name, sub.last['rc'], vlib.headline(sub.last['text'])))
            got = {x: y for x, y in outputs('o%d' % j).items() if 'o%d%s' % (j, x) not in inputs}
            if got != want[name]:
                raise Bad('%s writes other files than alone: %s instead of %s' % (name, {x: len(y) for x, y in got.items()}, {x: len(y) for x, y in want[name].items()}))
        same_time(lab, [lambda n=n, s=s, j=j: one(n, s, j) for j, (n, s) in enumerate(zip(pick, subs))])
        allowed = set(inputs) | {'o%d%s' % (j, x) for j, n in enumerate(pick) for x in want[n]}
        now = host.files()
        for x in inputs:
            if now.get(x) != inputs[x]:
                raise Bad('%d runs at once change %s' % (k, x))
        extra = [x for x in now if x not in allowed and not x.startswith('standin')]
        if extra:
            raise Bad('%d runs at once leave %s' % (k, extra[:5]))
        what = 'one input: ' + ', '.join(sorted(pick))
    left = [x for x in os.listdir(lab.path('standin')) if x != 'commands']
    if left:
        raise Bad('%s at once leave temporary files: %s' % (what, left[:5]))
    lab.ctx.count('runs at the same time', k)
    lab.ctx.seen('combinations', what)
    lab.ctx.eval(what + str(i), 0)
    lab.ctx.sample('at once: ' + what)


def together(ctx, n):
    campaign(ctx, 'together', case_together, TOOLS + DRIVERS, n, parallel=4, alone=False)


def expansions(ctx, n):
    campaign(ctx, 'expansions', lambda lab, r, i: (case_expanded if i % 2 else case_prepare)(lab, r, i), ['expanded', 'prepare'], n)


# ------------------------------------------------------------------- drivers
def nonzero_blocks(tri, ro, co):
    rb, cb = block_of(ro, 0), block_of(co, 0)
    return len({(rb[a], cb[b]) for a, b, v in tri})


def numbers(rx, text, what):
    m = re.search(rx, text)
    if not m:
        raise Bad('no %s in the report: %r' % (what, text[-400:]))
    return tuple(int(x) for x in m.groups())


def const_offsets(n, s):
    k = max(1, n // s)
    return [i * s for i in range(k)] + [n]


def check_timing(text, method, nnz, csv=False):
    if csv:
        m = re.search(r'^%s,(\S+),(\S+),(\S+),(\S+)$' % method, text, re.M)
        if not m:
            raise Bad('no timing of %s: %r' % (method, text[-300:]))
        best, median, mean, worst = map(float, m.groups())
        if not (best >= median >= worst and best + 1 >= mean >= worst - 1):
            raise Bad('timing of %s is inconsistent: %s' % (method, m[0]))
        return
    t = {}
    for k in ('best', 'median', 'mean', 'worst'):
        m = re.search(r'^Execution time %s \(%s\): (\S+)\nMFLOP/s        %s \(%s\): (\S+)$' % (method, k, method, k), text, re.M)
        if not m:
            raise Bad('no %s timing of %s: %r' % (k, method, text[-300:]))
        t[k] = float(m[1])
        if t[k] > 2e-5 and not (2 * nnz / ((t[k] + 6e-7) * 1e6) - 1 <= float(m[2]) <= 2 * nnz / ((t[k] - 6e-7) * 1e6) + 1):
            raise Bad('MFLOP/s of %s (%s) is %s for %d non-zeros in %s s' % (method, k, m[2], nnz, m[1]))
    if not (t['best'] <= t['median'] <= t['worst'] and t['best'] <= t['mean'] + 1e-6 and t['mean'] <= t['worst'] + 1e-6):
        raise Bad('timing of %s is inconsistent: %s' % (method, t))


def put_matrix(lab, r, m, stem='m'):
    if r.random() < .2:
        stem = r.choice(['m.mtx', 'm.bin', 'a b', 'm' * 200, '', 'x.mtx.y'])
    p = lab.path(stem + r.choice(['.bin', '.mtx']))
    if p.endswith('.bin'):
        write_bin(p, m)
    else:
        write_mtx(p, m, r)
    return p


def case_driver(lab, r, i):
    name = DRIVERS[i % len(DRIVERS)]
    m = rand_matrix(r, 'f', square=name == 'pbench', max_dim=700, max_nnz=2500)
    m.tri = [(a, b, float(r.randint(-9, 9))) for a, b, v in m.tri]
    if r.random() < .25:      # large enough for several blocks of any size
        d = r.randint(2000, 9000)
        m.rows, m.cols = d, d if name == 'pbench' else r.randint(1000, 9000)
        m.tri = [(r.randrange(m.rows), r.randrange(m.cols), 1.0) for _ in range(r.randint(1, 4000))]
    elif r.random() < .25:    # square, so that rows and columns can be mixed up
        d = max(1, min(m.rows, m.cols))
        m.rows = m.cols = d
        m.tri = [(a % d, b % d, v) for a, b, v in m.tri]
    nnz = len(m.tri)
    p = put_matrix(lab, r, m)
    extra = ''
    if name in ('csr', 'csr2'):
        text = lab.ok(name, [p])
        got = numbers(r'(\d+) rows x (\d+) columns', text, 'size') if re.search(r'\d+ rows x \d+ columns', text) else None
        if got and got != (m.rows, m.cols):
            raise Bad('%s reports %s for %s' % (name, got, m.describe()))
        check_timing(text, 'CSR', nnz)
    elif name == 'cswr':
        width = r.choice([None, 1, 2, 7, 32, 100, 255, 256] + ([257, 1000, 65536, 70000, m.rows + 1] if m.rows <= 256 else []))
        text = lab.ok(name, [p] + ([width] if width else []))
        w = width or 32
        got = numbers(r'(\d+) rows in (\d+) groups of (\d+), (\d+) non-zeros', text, 'report')
        if got != (m.rows, (m.rows + w - 1) // w, w, nnz):
            raise Bad('cswr reports %s for %s with width %s' % (got, m.describe(), width))
        check_timing(text, 'CSWR', nnz)
        extra = str(width)
    elif name in ('csbr', 'csbr2', 'cgbr', 'cgbr2'):
        given = r.random() < .6
        args = [p]
        if given:
            rs, cs = rand_sizes(r, m.rows), rand_sizes(r, m.cols)
            if m.rows == m.cols and r.random() < .5:
                # as many of the same sizes in another order, or in the same
                cs = list(rs)
                r.shuffle(cs)
            elif r.random() < .2:
                # as many of other sizes
                k = min(len(rs), m.cols, m.rows)
                cs = [1] * (k - 1) + [m.cols - k + 1]
                rs = rs[:k - 1] + [m.rows - sum(rs[:k - 1])]
                r.shuffle(cs)
            # positions inside a block have 16 bits
            rs = [y for x in rs for y in ([x] if x <= 65536 else [x // 2, x - x // 2])]
            cs = [y for x in cs for y in ([x] if x <= 65536 else [x // 2, x - x // 2])]
            write_u32(lab.path('rs'), rs)
            write_u32(lab.path('cs'), cs)
            args += [lab.path('rs'), lab.path('cs')]
            if rs == cs and r.random() < .5:
                args[-1] = args[-2]      # one file for both
            extra = repr((rs, cs))
        text = lab.ok(name, args)
        if numbers(r'(\d+) rows x (\d+) columns', text, 'size') != (m.rows, m.cols):
            raise Bad('%s reports the wrong size for %s' % (name, m.describe()))
        got = numbers(r'(\d+) block-rows x (\d+) block-columns', text, 'blocks')
        cnt = numbers(r'(\d+) non-zeros in (\d+) blocks', text, 'non-zeros')
        if given:
            ok = got == (len(rs), len(cs)) and cnt == (nnz, nonzero_blocks(m.tri, offsets(rs), offsets(cs)))
        else:
            ok = False
            for b in (1 << k for k in range(17)):
                ro, co = const_offsets(m.rows, b), const_offsets(m.cols, b)
                if got == (len(ro) - 1, len(co) - 1) and cnt == (nnz, nonzero_blocks(m.tri, ro, co)):
                    ok = True
        if not ok:
            raise Bad('%s reports %s blocks, %s non-zeros and blocks with non-zeros for %s %s' % (name, got, cnt, m.describe(), extra[:200]))
        check_timing(text, 'GSB', nnz)
    elif name == 'bench':
        text = lab.ok(name, [p])
        b = numbers(r'Beta = (\d+)', text, 'block size')[0]
        if b < 1 or b & (b - 1):
            raise Bad('bench uses blocks of %d' % b)
        check_timing(text, 'CSR', nnz)
        check_timing(text, 'GSB', nnz)
    else:
        perm = rand_perm(r, m.rows)
        write_u32(lab.path('perm'), perm)
        text = lab.ok(name, [p, lab.path('perm')])
        inv = [0] * m.rows
        for x, y in enumerate(perm):
            inv[y] = x
        b = numbers(r'Beta = (\d+)', text, 'block size')[0]
        o = const_offsets(m.rows, b)
        want = (nnz, nonzero_blocks([(inv[a], inv[c], v) for a, c, v in m.tri], o, o))
        cnt = numbers(r'(\d+) non-zeros in (\d+) blocks', text, 'non-zeros')
        if cnt != want:
            raise Bad('pbench reports %s non-zeros and blocks instead of %s for %s' % (cnt, want, m.describe()))
        check_timing(text, 'CSR', nnz, csv=True)
        check_timing(text, 'GSB', nnz, csv=True)
    lab.ctx.eval(name + m.hash() + hashlib.sha256(extra.encode()).hexdigest()[:8], 0)
    lab.ctx.sample('%s on %s %s' % (name, os.path.basename(p), m.describe()))


def drivers(ctx, n):
    campaign(ctx, 'drivers', case_driver, DRIVERS, n)


def reports(ctx, n):
    """The printed reports of the benchmark programs"""
    order = [3, 4, 5, 6, 2, 8]
    campaign(ctx, 'reports', lambda lab, r, i: case_driver(lab, r, order[i % len(order)]), DRIVERS, n)


def permutations(ctx, n):
    def case(lab, r, i):
        k = i % 4
        if k == 0:
            case_permute(lab, r, i, False)
        elif k == 1:
            case_permute(lab, r, i, True)
        elif k == 2:
            case_prepare(lab, r, i)
        else:
            case_driver(lab, r, DRIVERS.index('pbench'))
    campaign(ctx, 'permutations', case, ['permute', 'ipermute', 'prepare', 'pbench'], n)


# ---------------------------------------------------------------- bad inputs
def case_bad(lab, r, i):
    name = (TOOLS + DRIVERS)[i % (len(TOOLS) + len(DRIVERS))]
    missing = lab.path('nothere')
    what = ''

    def shorten(p):
        n = os.path.getsize(p)
        k = some(r, n) if n else 0
        with open(p, 'r+b') as f:
            f.truncate(k)
        return k

    def cut(p, size):
        """Cut the last element, of the given size, off in the middle"""
        n = os.path.getsize(p)
        if n < size:
            open(p, 'wb').write(b'\1' * size)
            n = size
        with open(p, 'r+b') as f:
            f.truncate(r.randrange(n // size) * size + r.randint(1, size - 1))

    if name in ('permute', 'ipermute'):
        n = r.randint(2, 300)
        p, rows, cols = rand_perm(r, n), [r.randrange(n) for _ in range(r.randint(1, 200))], [r.randrange(n) for _ in range(r.randint(1, 200))]
        k = r.randint(0, 6)
        if k == 0:
            p[some(r, n)] = n + r.choice([0, 1, 2**31]); what = 'the permutation has an entry out of range'
        elif k == 1:
            a, b = r.sample(range(n), 2)
            p[a] = p[b]; what = 'the permutation repeats an entry'
        elif k == 2:
            rows[some(r, len(rows))] = n + r.choice([0, 1, 1000, 2**32 - 1 - n]); what = 'a row index is out of range'
        elif k == 3:
            cols[some(r, len(cols))] = n + r.choice([0, 1, 1000, 2**32 - 1 - n]); what = 'a column index is out of range'
        f = [lab.path('r'), lab.path('c'), lab.path('p')]
        write_u32(f[0], rows); write_u32(f[1], cols); write_u32(f[2], p)
        if k == 4:
            f[r.randrange(3)] = missing; what = 'a file is missing'
        if k == 6:
            j = r.randrange(3)
            if j == 2:      # what is left has to be a permutation
                write_u32(f[2], list(range(n)) + [1])
                write_u32(f[0], [0]); write_u32(f[1], [0])
            cut(f[j], 4); what = 'the last number of file %d is cut off' % j
        if k == 5:
            f = f[:r.randint(0, 2)] if r.random() < .7 else f + ['x']; what = 'there are %d arguments' % len(f)
        args = f
    elif name in ('one2zero', 'double2float'):
        k = r.choice([0, 1, 2, 3] if name == 'one2zero' else [0, 1, 3])
        ok = lab.path('ok')
        write_u32(ok, [r.randint(1, 9) for _ in range(2 * r.randint(1, 2000))])
        if k == 0:
            args, what = [], 'there is no argument'
        elif k == 1:
            args, what = [ok, missing] if r.random() < .5 else [missing], 'a file is missing'
        elif k == 3:
            shutil.copy(ok, lab.path('cut'))
            cut(lab.path('cut'), 4 if name == 'one2zero' else 8)
            args, what = [ok, lab.path('cut')] if r.random() < .5 else [lab.path('cut')], 'the last number of a file is cut off'
        else:
            v = [r.randint(1, 99) for _ in range(50)]
            v[some(r, 50)] = 0
            write_u32(lab.path('z'), v)
            args, what = [lab.path('z')], 'an index is zero'
    elif name == 'pprint':
        k = r.randint(0, 4)
        m = rand_matrix(r, 'f', square=True, max_nnz=300)
        m.tri.append((0, 0, 1.0))
        p = lab.path('file')
        if k == 0:
            args, what = ([], 'there is no argument') if r.random() < .5 else ([missing], 'the file is missing')
        elif k == 1:
            write_u32(p, list(range(r.randint(1, 5000))))
            cut(p, 4)
            args, what = [p, 'vector'], 'the last number is cut off'
        elif k == 2:
            write_bin(p, m)
            shorten(p)
            args, what = [p, 'triples'], 'the file ends too early'
        else:
            with open(p, 'wb') as f:
                f.write(struct.pack('<6I', m.rows, m.cols, len(m.tri), 1, 1, 1))
                for a, b, v in m.tri:
                    f.write(struct.pack('<3If', 0, a, b, v))
            shorten(p)
            args, what = [p] + r.choice([[], ['blocks'], ['other']]), 'the file ends too early'
    elif name in ('sort', 'convert', 'convert_blocked', 'expanded', 'prepare'):
        m = rand_matrix(r, 'd' if name == 'sort' else 'f', square=True, max_nnz=300)
        if len(m.tri) < 2:
            m.tri += [(0, 0, 1.0), (m.rows - 1, m.cols - 1, 2.0)]
        n = m.rows
        sizes, p = rand_sizes(r, n), rand_perm(r, n)
        k = r.randint(0, 11)
        f = write_three(lab.d, m)
        blocked = name != 'convert'
        if k == 10 and name in ('convert_blocked', 'prepare'):
            n = m.rows = m.cols = r.choice([65537, 65538, 66000, 70000, r.randint(65537, 80000)])
            m.tri = [(0, 0, 1.0), (n - 1, r.choice([0, 1, n - 1]), 2.0)] + [(0, r.randrange(n), 3.0), (n - 1, r.randrange(n), 4.0)] * r.randint(0, 3)
            r.shuffle(m.tri)
            f = write_three(lab.d, m)
            sizes = [1] * n
            p = list(range(n)) if r.random() < .5 else list(range(n))[::-1]
            what = 'there are %d^2 blocks, more than indices' % n
        if k == 11 and name in ('expanded', 'prepare'):
            blocks = r.randint(1, 40)
            half = 2**31
            while half // 2 * 2 * blocks >= 2**32:
                half //= 2
            sizes = [r.randint(1, 3) for _ in range(blocks)]
            sizes[some(r, blocks)] = half + r.randint(1, 9)
            if sum(sizes) >= n:
                what = '%d blocks, expanded to %d, exceed the index type' % (blocks, 2 * half)
            else:
                sizes = rand_sizes(r, n)
        if k == 0 and name in ('convert_blocked', 'expanded', 'prepare', 'sort'):
            top = max(max(a, b) for a, b, v in m.tri)
            if name == 'prepare':
                top = max(max(p[a], p[b]) for a, b, v in m.tri)
            if top:
                sizes = rand_sizes(r, top); what = 'the blocks end at %d, before a non-zero at %d' % (top, top)
        if k == 1:
            # the value file decides how many there are
            shorten(f[r.randrange(2)]); what = 'an index file is too short'
        if k == 2 and name == 'prepare':
            p = rand_perm(r, n)
            if r.random() < .5 and max(t[0] for t in m.tri) > 0:
                p = list(range(max(max(t[0], t[1]) for t in m.tri))); what = 'an index is out of range of the permutation'
        if k == 6:
            j = r.randrange(3)
            cut(f[j], 8 if j == 2 and name == 'sort' else 4); what = 'the last number of file %d is cut off' % j
        if k == 7:
            j = r.randrange(2)
            with open(f[j], 'ab') as g:
                g.write(bytes([r.randrange(2)]) * r.randint(1, 12))
            what = 'file %d is longer than the others' % j
        if k == 8:
            j = r.randrange(2)
            with open(f[j], 'r+b') as g:
                g.seek(4 * some(r, len(m.tri)))
                g.write(b'\xff' * 4)
            what = 'an index of file %d is beyond all sizes' % j
        if k == 9 and blocked:
            a = r.randint(1, max(1, n // 2))
            sizes = [a, 2**32 - a, max(1, n)] if r.random() < .5 else [2**32 - a, a + max(1, n)]
            what = 'the block sizes exceed the index type'
        write_u32(lab.path('sizes'), sizes)
        write_u32(lab.path('perm'), p)
        if k == 5 and blocked:
            cut(lab.path('sizes'), 4); what = 'the last block size is cut off'
        if k == 4 and name == 'prepare' and r.random() < .5:
            write_u32(lab.path('perm'), list(range(n)) + [1])
            cut(lab.path('perm'), 4); what = 'the last number of the permutation is cut off'
        os.makedirs(lab.path('standin'))
        args = dict(sort=f, convert=f + [lab.path('out'), 'all'], convert_blocked=f + [lab.path('sizes'), lab.path('out')],
                    expanded=f + [lab.path('sizes'), lab.path('out')], prepare=f + [lab.path('perm'), lab.path('sizes'), lab.path('out')])[name]
        if name == 'sort' and k in (0, 5, 9):
            if k != 5 and not what:
                k = 3
            else:
                args = f + [lab.path('sizes')]
                if r.random() < .5:
                    args = [lab.path('m.mtx'), lab.path('sizes')]
                    m.rows = m.cols = max(n, 1)
                    write_mtx(args[0], m, r)
        if name == 'sort' and k == 3:
            args = [lab.path('m.mtx')]
            write_mtx(args[0], m, r)
            t = open(args[0]).read().split('\n')
            j = len(t) - 1 - len(m.tri) + some(r, len(m.tri))
            kind = r.randint(0, 3)
            if kind == 0:
                t = t[:j]
            elif kind == 1:
                t[j] = '%d 1 1' % (n + 1 + r.randrange(5))
            elif kind == 2:
                t[j] = '0 1 1'
            else:
                t[0] = '%%MatrixMarket matrix array real general'
            open(args[0], 'w').write('\n'.join(t))
            what = 'the matrix file is broken'
        elif name == 'convert' and k == 3:
            args = f + [lab.path('out'), r.choice(['', 'binary', 'MTX', 'mt'])]; what = 'the option is unknown'
        if not what and k == 4:
            args = args[:r.randint(0, len(args) - 1)] if name != 'sort' else []; what = 'there are %d arguments' % len(args)
        if not what:
            inputs = {'sort': 3, 'convert': 3, 'convert_blocked': 4, 'expanded': 4, 'prepare': 5}[name]
            args = list(args)
            j = r.randrange(min(inputs, len(args)))
            args[j] = missing; what = 'input file %d is missing' % j
    else:       # drivers
        m = rand_matrix(r, 'f', square=True, max_nnz=300)
        if len(m.tri) < 2:
            m.tri += [(0, 0, 1.0), (m.rows - 1, m.cols - 1, 2.0)]
        n = m.rows
        k = r.randint(0, 5)
        if name in ('csbr', 'csbr2', 'cgbr', 'cgbr2', 'cswr') and r.random() < .4:
            k = 6
        if name == 'pbench' and r.random() < .5:
            k = 4
        perm = rand_perm(r, n)
        path = lab.path('m.bin' if r.random() < .6 else 'm.mtx')
        if path.endswith('.bin'):
            write_bin(path, m)
        else:
            write_mtx(path, m, r)
        args = [path]
        if k == 0 and path.endswith('.bin'):
            what = 'the file ends after %d bytes' % shorten(path)
        elif k == 1 and path.endswith('.bin'):
            b = bytearray(open(path, 'rb').read())
            j = some(r, 2 * len(m.tri))
            b[12 + 4 * j:16 + 4 * j] = struct.pack('<I', n + r.choice([0, 1, 1000, 2**32 - 1 - n]))
            open(path, 'wb').write(b)
            what = 'an index is out of range'
        elif k == 1:
            t = open(path).read().split('\n')
            j = len(t) - 1 - len(m.tri) + some(r, len(m.tri))
            t[j] = r.choice(['%d 1 1' % (n + 1), '1 %d 1' % (n + 1), '0 1 1', '1 0 1', 'x'])
            open(path, 'w').write('\n'.join(t))
            what = 'an entry is out of range'
        elif k == 2:
            q = lab.path('m' + r.choice(['', '.txt', '.bin.gz', '.mtx ']))
            os.rename(path, q)
            args, what = [q], 'the kind of file is unknown'
        elif k == 3:
            args, what = [], 'there is no argument'
        elif k == 4 and name == 'pbench':
            kind = r.randint(0, 2)
            if kind == 0:
                perm = rand_perm(r, n + r.choice([1, 5])); what = 'the permutation is too long'
            elif kind == 1:
                perm[some(r, n)] = n; what = 'the permutation has an entry out of range'
            elif n > 1:
                a = some(r, n)
                b = (a + r.randint(1, n - 1)) % n
                perm[a] = perm[b]; what = 'the permutation repeats an entry'
        elif k == 6 and name == 'cswr':
            w = r.choice(['0', '-1', '', 'x', '1x', '4294967296', '99999999999999999999', '0x10', '-32', '4294967328', '1.5', ' '])
            args, what = [path, w], 'the width is "%s"' % w
        elif k == 6:
            lists = [lab.path('rs'), lab.path('cs')]
            write_u32(lists[0], rand_sizes(r, n)); write_u32(lists[1], rand_sizes(r, n))
            j, kind = r.randrange(2), r.randint(0, 5)
            if kind == 0:
                write_u32(lists[j], rand_sizes(r, n + r.randint(1, 9))); what = 'list %d of block sizes is larger than the matrix' % j
            elif kind == 1 and n > 1:
                write_u32(lists[j], rand_sizes(r, n - 1)); what = 'list %d of block sizes is smaller than the matrix' % j
            elif kind == 2:
                a = r.randint(1, max(1, n // 2))
                write_u32(lists[j], r.choice([[a, 2**32 - a, n], [2**32 - a, a + n], [n, 2**31, 2**31]])); what = 'the block sizes of list %d exceed the index type' % j
            elif kind == 3:
                cut(lists[j], 4); what = 'the last block size of list %d is cut off' % j
            elif kind == 4:
                write_u32(lists[j], []); what = 'list %d of block sizes is empty' % j
            else:
                lists[j] = missing; what = 'list %d of block sizes is missing' % j
            args = [path] + lists if r.random() < .9 or not what else [path, lists[0]]
        if not what:
            args, what = [missing + '.bin' if r.random() < .5 else missing + '.mtx'], 'the file is missing'
        if name == 'pbench' and args:
            write_u32(lab.path('perm'), perm)
            args = args + [lab.path('perm')]
            if what == 'the file is missing' and r.random() < .3:
                args, what = [path, missing], 'the permutation is missing'
    lab.refused(name, args, what)
    lab.ctx.eval(hashlib.sha256(repr((name, what, r.random())).encode()).hexdigest()[:16], 0)
    lab.ctx.count('refused by ' + name)
    lab.ctx.seen('reasons', what if not re.search(r'\d', what) else re.sub(r'\d+', 'N', what))
    lab.ctx.sample('%s: %s' % (name, what))


def bad_inputs(ctx, n):
    campaign(ctx, 'badinput', case_bad, TOOLS + DRIVERS, n)


# --------------------------------------------------------------- write faults
def case_giant(lab, r, i):
    """Inputs with more elements than 32 bits can count, sparse on disk. There is not the memory for
    them, so they have to be refused, and not to be taken for what is left of their number."""
    name = ['one2zero', 'permute', 'ipermute', 'sort', 'convert', 'convert_blocked', 'expanded', 'prepare', 'csbr', 'csbr2', 'cgbr', 'pbench'][i % 12]
    m = rand_matrix(r, 'd' if name == 'sort' else 'f', square=True, max_dim=60, max_nnz=90)
    if not m.tri:
        m.tri = [(0, 0, 2.0)]
    p = lab.path
    os.makedirs(p('standin'))
    f = write_three(lab.d, m)
    write_u32(p('sizes'), rand_sizes(r, m.rows))
    write_u32(p('perm'), rand_perm(r, m.rows))
    write_u32(p('ones'), [r.randint(1, 9) for _ in range(r.randint(1, 9))])
    write_bin(p('whole.bin'), m)
    vsize = 8 if name == 'sort' else 4
    sets = dict(one2zero=[p('ones')], permute=f[:2] + [p('perm')], ipermute=f[:2] + [p('perm')], sort=f, convert=f + [p('out'), 'all'], convert_blocked=f + [p('sizes'), p('out')],
                expanded=f + [p('sizes'), p('out')], prepare=f + [p('perm'), p('sizes'), p('out')], pbench=[p('whole.bin'), p('perm')])
    args = sets.get(name, [p('whole.bin'), p('sizes'), p('sizes')])
    victims = [a for a in args if os.path.exists(a) and not a.endswith('.bin')]
    if r.random() < .5 and f[0] in victims:      # all three parts of the matrix
        victims = f
    elif r.random() < .8:
        victims = [r.choice(victims)]
    for v in dict.fromkeys(victims):
        os.truncate(v, os.path.getsize(v) + (r.choice([1, 1, 2]) << 32) * (vsize if v == f[2] else 4))
    lab.refused(name, args, '%s has more than 2^32 elements' % ', '.join(os.path.basename(v) for v in victims), asan=False, wrapper=('prlimit', '--as=%d' % (4 << 30), '--'))
    lab.ctx.count('giant inputs refused by ' + name)
    lab.ctx.eval('giant %s %s %d' % (name, victims[0][-6:], i), 0)
    for v in set(victims):
        os.truncate(v, 0)


def giants(ctx, n):
    campaign(ctx, 'giant', case_giant, ['one2zero', 'permute', 'ipermute', 'sort', 'convert', 'convert_blocked', 'expanded', 'prepare', 'csbr', 'csbr2', 'cgbr', 'pbench'], n, variants=(False,))


def wfault_pprint(lab, r, i):
    """pprint writes to its standard output"""
    mode = r.choice(['vector', 'triples', 'blocks'])
    p = lab.path('file')
    m = rand_matrix(r, 'f', square=True, max_nnz=2500 if r.random() < .3 else 60)
    m.tri.append((0, 0, 1.0))
    if mode == 'vector':
        write_u32(p, [r.randrange(2**32) for _ in range(len(m.tri))])
    elif mode == 'triples':
        write_bin(p, m)
    else:
        with open(p, 'wb') as f:
            f.write(struct.pack('<6I', m.rows, m.cols, len(m.tri), 1, 1, 1))
            for a, b, v in m.tri:
                f.write(struct.pack('<3If', 0, a, b, v))
    top = len(lab.ok('pprint', [p, mode], asan=False))
    sink = lab.path('sink')
    for kind in ('full', 'limit', 'limit'):
        if kind == 'full':
            w, why = ('bash', '-c', 'exec "$@" > /dev/full', 'full'), 'its standard output is a full device'
        else:
            n = r.choice([0, 1, top - 1, r.randrange(top), top // 2, min(top - 1, 4096)])
            w, why = ('bash', '-c', 'trap "" XFSZ; n=$1; shift; exec prlimit --fsize=$n -- "$@" > "$VF_SINK"', 'limit', str(n)), 'nothing beyond %d of %d bytes can be written to its standard output' % (n, top)
        lab.refused('pprint', [p, mode], why, wrapper=w, env={'VF_SINK': sink}, asan=None if kind == 'full' else 'gcc')
        lab.ctx.count('fault %s survived by pprint' % kind)
        lab.ctx.eval(hashlib.sha256(repr((mode, kind, why, i)).encode()).hexdigest()[:16])
    lab.ctx.sample('pprint %s with faults in its output' % mode)


def case_wfault(lab, r, i):
    name = ['permute', 'ipermute', 'sort', 'expanded', 'convert_blocked', 'convert', 'prepare', 'one2zero', 'double2float', 'pprint'][i % 10]
    out = lab.path('out')
    if name == 'pprint':
        return wfault_pprint(lab, r, i)
    os.makedirs(lab.path('standin'))
    big = r.random() < .3
    if name in ('permute', 'ipermute'):
        n = r.randint(1, 200)
        f = [lab.path('r'), lab.path('c'), lab.path('p')]
        k = r.randint(1, 3000 if big else 60)
        write_u32(f[0], [r.randrange(n) for _ in range(k)]); write_u32(f[1], [r.randrange(n) for _ in range(k)]); write_u32(f[2], rand_perm(r, n))
        args, outs = f, [f[0] + '.permuted', f[1] + '.permuted']
    elif name in ('one2zero', 'double2float'):
        f = [lab.path('f%d' % j) for j in range(r.choice([1, 1, 2, 3]))]
        for p in f:
            k = r.randint(1, 3000 if big else 60)
            if name == 'one2zero':
                write_u32(p, [r.randint(1, 99) for _ in range(k)])
            else:
                write_vals(p, [float(r.randint(1, 99)) for _ in range(k)], 'd')
        args, outs = f, [p + ('.zero' if name == 'one2zero' else '.float') for p in f]
    else:
        m = rand_matrix(r, 'd' if name == 'sort' else 'f', square=True, max_nnz=2500 if big else 80)
        if not m.tri:
            m.tri = [(m.rows - 1, m.cols - 1, 1.0)]
        sizes = rand_sizes(r, m.rows)
        f = write_three(lab.d, m)
        write_u32(lab.path('sizes'), sizes)
        write_u32(lab.path('perm'), rand_perm(r, m.rows))
        N = pow2(max(sizes))
        if name == 'sort':
            if r.random() < .5:
                f = [lab.path('m.mtx')]
                write_mtx(f[0], m, r)
            args, outs = list(f), [x + '.sorted' for x in f]
            if r.random() < .3:
                args.append(lab.path('sizes'))
        elif name == 'convert':
            mode = r.choice(['bin', 'mtx', 'all'])
            args, outs = f + [out, mode], [out + s for s in {'bin': ['.bin'], 'mtx': ['.mtx'], 'all': ['.bin', '.mtx']}[mode]]
        elif name == 'convert_blocked':
            args, outs = f + [lab.path('sizes'), out], [out]
        elif name == 'expanded':
            args, outs = f + [lab.path('sizes'), out], ['%s.exp%d' % (out, N)]
        else:
            args, outs = f + [lab.path('perm'), lab.path('sizes'), out], [out + '.row', out + '.block', out + '.col', '%s.col.exp%d' % (out, N)]
    lab.ok(name, args)
    size = {}
    for o in outs:
        if not os.path.exists(o):
            raise Bad('%s does not write %s' % (name, os.path.basename(o)))
        size[o] = os.path.getsize(o)
        os.unlink(o)
    kinds = ['full', 'isdir', 'limit']
    for kind in kinds:
        victim = r.choice(outs)
        wrapper = ()
        if size[victim] == 0 and kind != 'isdir':
            continue
        if kind == 'full':
            os.symlink('/dev/full', victim)
        elif kind == 'isdir':
            os.mkdir(victim)
        else:
            top = max(size.values())
            n = r.choice([0, 1, top - 1, r.randrange(top), top // 2, max(0, top - 4), min(top - 1, 4096)])
            wrapper = ('bash', '-c', 'trap "" XFSZ; n=$1; shift; exec prlimit --fsize=$n -- "$@"', 'limit', str(n))
            lab.ctx.seen('limits', n)
        # (libomp keeps a file in shared memory, which a limit would leave
        # empty for the next process of the same number to die of: not limited)
        lab.refused(name, args, '%s of %s' % ({'full': 'the device is full in the middle', 'isdir': 'it is impossible to open', 'limit': 'nothing beyond %s bytes can be written' % (wrapper[4] if wrapper else '')}[kind],
                                              os.path.basename(victim)), wrapper=wrapper, asan=None if kind != 'limit' else 'gcc')
        lab.ctx.count('fault %s survived by %s' % (kind, name))
        lab.ctx.eval(hashlib.sha256(repr((name, kind, os.path.basename(victim), i)).encode()).hexdigest()[:16])
        for o in outs:
            if os.path.isdir(o):
                os.rmdir(o)
            elif os.path.lexists(o):
                os.unlink(o)
    lab.ctx.sample('%s with faults in %d output files' % (name, len(outs)))


def write_faults(ctx, n):
    campaign(ctx, 'wfault', case_wfault, ['permute', 'ipermute', 'sort', 'expanded', 'convert_blocked', 'convert', 'prepare', 'one2zero', 'double2float', 'pprint'], n, variants=(False, True, 'gcc'))


# ------------------------------------------------ inputs that fail to be read
class Piped:
    """The file is a pipe meanwhile, into which someone writes its content for everyone who opens it"""
    def __init__(self, path):
        self.path, self.kept, self.stop = path, path + '.kept', threading.Event()

    def feed(self):
        with open(self.kept, 'rb') as f:
            data = f.read()
        while not self.stop.is_set():
            try:
                fd = os.open(self.path, os.O_WRONLY | os.O_NONBLOCK)
            except OSError:      # nobody there
                time.sleep(.003)
                continue
            try:
                os.set_blocking(fd, True)
                left = memoryview(data)
                while left:
                    left = left[os.write(fd, left):]
            except OSError:
                pass
            os.close(fd)
            time.sleep(.01)

    def __enter__(self):
        os.rename(self.path, self.kept)
        os.mkfifo(self.path)
        self.thread = threading.Thread(target=self.feed)
        self.thread.start()

    def __exit__(self, *a):
        self.stop.set()
        self.thread.join()
        os.unlink(self.path)
        os.rename(self.kept, self.path)


def case_rfault(lab, r, i):
    names = TOOLS + DRIVERS
    name = names[i % len(names)]
    m = rand_matrix(r, 'd' if name == 'sort' else 'f', square=True, max_nnz=r.choice([3, 20, 900]))
    if not m.tri:
        m.tri = [(0, 0, 2.0)]
    p = lab.path
    os.makedirs(p('standin'))
    f = write_three(lab.d, m)
    sizes = [y for x in rand_sizes(r, m.rows) for y in ([x] if x <= 65536 else [x // 2, x - x // 2])]
    write_u32(p('sizes'), sizes)
    write_u32(p('perm'), rand_perm(r, m.rows))
    whole = p('whole' + r.choice(['.bin', '.mtx']))
    if whole.endswith('.bin'):
        write_bin(whole, m)
    else:
        write_mtx(whole, m, r)
    if name == 'sort' and r.random() < .5:
        write_mtx(p('w.mtx'), m, r)
        args = [p('w.mtx')]
    elif name == 'sort':
        args = f + ([p('sizes')] if r.random() < .5 else [])
    elif name in ('permute', 'ipermute'):
        args = f[:2] + [p('perm')]
    elif name == 'one2zero':
        write_u32(p('ones'), [a + 1 for a, b, v in m.tri])
        args = [p('ones')]
    elif name == 'double2float':
        write_vals(p('doubles'), [1.5] * len(m.tri), 'd')
        args = [p('doubles')]
    elif name == 'pprint':
        write_bin(p('x'), m)
        args = [p('x'), 'triples'] if r.random() < .5 else [p('sizes'), 'vector']
    elif name in ('convert_blocked', 'expanded'):
        args = f + [p('sizes'), p('out')]
    elif name == 'convert':
        args = f + [p('out'), 'all']
    elif name == 'prepare':
        args = f + [p('perm'), p('sizes'), p('out')]
    elif name == 'pbench':
        args = [whole, p('perm')]
    elif name in ('csbr', 'csbr2', 'cgbr', 'cgbr2'):
        args = [whole] + ([p('sizes')] * 2 if r.random() < .6 else [])
    else:
        args = [whole]
    before = lab.files()
    lab.more = dict(VF_STANDIN=p('standin'), VF_OWN=vlib.scratch() + '/', LD_PRELOAD=vlib.TOGETHER.exe)
    outputs = lambda: {x: y for x, y in lab.files().items() if x not in before and not x.startswith(('standin', 'fired'))}
    rc, text = lab.run(name, args, asan=False)
    if rc != 0:
        raise Bad('%s fails with status %s on valid input: %s' % (name, rc, vlib.headline(text)))
    want, said = outputs(), text
    for k, victim in enumerate(dict.fromkeys(a for a in args if os.path.basename(a) in before)):
        n = os.path.getsize(victim)
        places = ['e:%d' % x for x in {0, n - 1, n, r.randint(0, n), max(0, n - r.randint(1, 9)), n // 2}] + ['s:0', 'o:0', 'o:1', 'o:2']
        for bad in r.sample(places, 5) + (['p:0'] if r.random() < .5 else []):
            for x in outputs():
                os.unlink(p(x))
            if os.path.exists(p('fired')):
                os.unlink(p('fired'))
            wrapper = ('prlimit', '--as=%d' % (8 << 30), '--')
            if bad == 'p:0':
                with Piped(victim):
                    rc, text = lab.run(name, args, asan=False, wrapper=wrapper)
            else:
                rc, text = lab.run(name, args, asan=False, env=dict(VF_BAD='%s:%s' % (bad, victim), VF_FIRED=p('fired')), wrapper=wrapper)
            if bad[0] != 'p' and not os.path.exists(p('fired')):
                lab.ctx.count('injections that did not happen')
                continue
            what = '%s with %s %s of %d bytes' % (name, os.path.basename(victim), {'e': 'impossible to read from byte %s' % bad[2:], 's': 'impossible to seek in', 'o': 'impossible to open the %d. time' % (int(bad[2:]) + 1), 'p': 'coming through a pipe,'}[bad[0]], n)
            if rc == 0:
                now = outputs()
                if now != want:
                    raise Bad('%s succeeds and leaves %s' % (what, {x: (len(y), len(want.get(x, b''))) for x, y in now.items()}))
                if name == 'pprint' and text != said:
                    raise Bad('%s succeeds and prints %s' % (what, text[:300]))
                lab.ctx.count('read faults survived with the whole result')
            elif rc < 0:
                raise Bad('%s dies of signal %d: %s' % (what, -rc, vlib.headline(text)))
            else:
                lab.ctx.count('read faults reported')
            lab.ctx.eval(hashlib.sha256(repr((name, bad, k, i)).encode()).hexdigest()[:16])
    for x, y in lab.files().items():
        if x in before and y != before[x]:
            raise Bad('%s changes its input %s' % (name, x))
    lab.ctx.sample('%s with %d inputs that fail' % (name, len(args)))


def read_faults(ctx, n):
    campaign(ctx, 'rfault', case_rfault, TOOLS + DRIVERS, n, variants=(False,), alone=False)


REPLAY = dict(giant=giants, rfault=read_faults, together=together, tools=tools, expansions=expansions, drivers=drivers, reports=reports, permutations=permutations, badinput=bad_inputs, wfault=write_faults)
