"""Which monitored executions decide which property."""
import os
from vlib import HARNESS, Build, Job, run_jobs, F32, F32N, F64, F64W, F32L, F64N
import cli

# unusual sizes: 65536 entries and more in one row, column or block; a million entries; more than 65536 rows and
# columns that agree in their lower bits; blocks as many as the index type can number
TALL = ('--tall', '100')   # more than 65536 rows or columns, none of them empty
HEAVY, HUGE, WIDE, MANY = ('--heavy', '100'), ('--huge', '100'), ('--wide', '100'), ('--wide', '100', '--many', '100')


def odd(ctx, build, mode, heavy=0, huge=0, wide=0, many=0, tall=0, args=(), **k):
    """The same cases over matrices of unusual sizes"""
    out = []
    for i, (cases, a) in enumerate([(heavy, HEAVY), (huge, HUGE), (wide, WIDE), (many, MANY), (None, ()), (tall, TALL)]):
        if cases:
            out.append(Job(build, mode, ctx.n(cases), args=tuple(args) + a, seed_shift=40 + i, **k))
    return out


RULE_SPMV = ('seeded random matrices (16 patterns x 5 triplet orders, dimensions around powers of two and local index limits) '
             'x storage format x blocking x thread counts; a case counts as non-trivial if the matrix has a non-zero, and as '
             'distinct by hash of matrix, blocking, format and thread counts')


def spmv(cfg=F32, **k):
    return Build('spmv.cpp', cfg, **k)


def util(part, cfg=F32, defs=(), **k):
    return Build('util.cpp', cfg, defs=['PART_' + part.upper()] + list(defs), **k)


def p01(ctx):
    n = ctx.n
    a, b, c, d, e = spmv(F32), spmv(F64), spmv(F32N), spmv(F64W), spmv(F32L, opt='-O3')
    g = spmv(F32, cc='gcc', opt='-O3')
    run_jobs(ctx, [Job(a, 'exact', n(15000)), Job(a, 'exact', n(600), seed_shift=12, args=('--big', '100')), Job(c, 'exact', n(600), seed_shift=13, args=('--big', '100')), Job(b, 'exact', n(8000)), Job(c, 'exact', n(12000)), Job(d, 'exact', n(4000)),
                   Job(e, 'exact', n(4000)), Job(g, 'exact', n(4000)), Job(a, 'real', n(4500)), Job(b, 'real', n(3000)), Job(c, 'real', n(2500))]
             + [Job(x, 'exact', n(16), args=('--format', f) + HUGE, seed_shift=50) for x in (a, b) for f in ('dense', 'denseserial', 'denseparallel')]
             + odd(ctx, a, 'exact', 300, 100, 1500, 200, 200) + odd(ctx, b, 'exact', 200, 40, 500, 100, 100) + odd(ctx, c, 'exact', 300, 40, 500, 100, 100)
             + odd(ctx, d, 'exact', 100, 20, 300, 60) + odd(ctx, e, 'exact', 100, 20, 300, 60) + odd(ctx, g, 'exact', 100, 30, 300, 60, 50) + odd(ctx, a, 'real', 100, 20, 200, 50))
    return RULE_SPMV


def p02(ctx):
    n = ctx.n
    run_jobs(ctx, [Job(spmv(F32), 'blocking', n(3600)), Job(spmv(F32N), 'blocking', n(3000)), Job(spmv(F64), 'blocking', n(2400)),
                   Job(spmv(F64W), 'blocking', n(900)), Job(spmv(F32L), 'blocking', n(1500)), Job(spmv(F32, cc='gcc'), 'blocking', n(900))]
             + odd(ctx, spmv(F32), 'blocking', 60, 10, 300, 100, 60) + odd(ctx, spmv(F32N), 'blocking', 60, 10, 200, 60) + odd(ctx, spmv(F64), 'blocking', 40, 0, 100, 40))
    return RULE_SPMV + '; each matrix is stored under three blockings, and up to seven of its columns are read back with unit vectors'


def p03(ctx):
    n = ctx.n
    u = ctx.quick
    clang, gcc, ts = spmv(F32, perturb=True), spmv(F32, cc='gcc', perturb=True), spmv(F32, san='tsan')
    tsn = spmv(F32N, san='tsan')
    sort_t, own_t = Build('sort.cpp', san='tsan'), Build('own.cpp', F32, san='tsan')
    L = ('--light', '1')
    run_jobs(ctx, [Job(ts, 'threads', n(500), shard=50, args=L), Job(ts, 'threads', n(160), shard=20, args=L + ('--big', '100'), seed_shift=12), Job(own_t, 'formats', n(160), shard=20, args=L + ('--big', '100'), seed_shift=13), Job(tsn, 'threads', n(400), shard=50, args=L), Job(ts, 'blocking', n(150), shard=30, args=L),
                   Job(sort_t, None, n(300), shard=50, args=L), Job(util('perm', F32, san='tsan'), 'perm', n(200), shard=50), Job(util('expand', F32, san='tsan'), 'expand', n(200), shard=50),
                   Job(own_t, 'formats', n(200), shard=50, args=L), Job(own_t, 'sources', n(120), shard=30, args=L),
                   Job(clang, 'threads', n(1600)), Job(spmv(F64, perturb=True), 'threads', n(600)), Job(gcc, 'threads', n(700)),
                   # very large teams, and teams smaller than what was asked for
                   Job(clang, 'threads', n(160), args=('--teams', '40'), seed_shift=20), Job(gcc, 'threads', n(120), args=('--teams', '40'), seed_shift=21), Job(clang, 'threads', n(250), env={'OMP_THREAD_LIMIT': '3'}, seed_shift=22), Job(gcc, 'threads', n(150), env={'OMP_THREAD_LIMIT': '3'}, seed_shift=23)]
             + odd(ctx, ts, 'threads', 20, 8, 40, 12, 12, args=L, shard=4) + odd(ctx, clang, 'threads', 60, 16, 100, 40, 40) + odd(ctx, gcc, 'threads', 40, 8, 60, 20)
             + [Job(sort_t, None, n(12), args=L + ('--large', '100'), shard=3, seed_shift=44)], parallel=6)
    return RULE_SPMV + '; every matrix is multiplied with several team sizes, from inside and outside parallel regions, with delays injected at the scheduling points of the OpenMP runtime (OMPT for libomp, wrapped entry points for libgomp), and in the ThreadSanitizer builds with happens-before edges from libarcher'


def p04(ctx):
    n = ctx.n
    L = ('--light', '1')
    A = dict(san='asan', opt='-O1')
    s32, s32n, s64 = spmv(F32, **A), spmv(F32N, **A), spmv(F64, **A)
    so, ow, io = Build('sort.cpp', **A), Build('own.cpp', F32, **A), Build('io.cpp', F32, **A)
    ut = {k: util(k, F32, **A) for k in ('perm', 'expand', 'blocksize', 'partition', 'stats', 'vectors')}
    io64 = Build('io.cpp', F64, **A)
    ff = {'ASAN_OPTIONS': 'detect_leaks=0:exitcode=66:allocator_may_return_null=1:malloc_fill_byte=255:max_malloc_fill_size=100000000'}
    zz = {'ASAN_OPTIONS': 'detect_leaks=0:exitcode=66:allocator_may_return_null=1:malloc_fill_byte=1:max_malloc_fill_size=100000000'}
    D = ('--dir', '@SCRATCH@')
    vg = ['valgrind', '-q', '--error-exitcode=66', '--track-origins=no', '--partial-loads-ok=yes', '--exit-on-first-error=yes', '--main-stacksize=8388608']
    vs, vi, vo = spmv(F32, opt='-O1'), Build('io.cpp', F32, opt='-O1'), Build('own.cpp', F32, opt='-O1')
    vgenv = {'OMP_NUM_THREADS': '2', 'OMP_THREAD_LIMIT': '3'}
    run_jobs(ctx, [
        Job(s32, 'exact', n(900), shard=150, args=L, env=ff), Job(s32n, 'exact', n(900), shard=150, args=L, env=zz), Job(s64, 'exact', n(500), shard=125, args=L, env=ff), Job(spmv(F32L, **A), 'exact', n(400), shard=100, args=L, env=zz),
        Job(s32, 'threads', n(200), shard=50, args=L, env=ff),
        Job(s32, 'frame', n(300), shard=100, args=L, env=zz), Job(s32, 'blocking', n(300), shard=75, args=L, env=ff),
        Job(so, None, n(600), shard=150, args=L, env=ff), Job(ow, 'sources', n(500), shard=125, args=L, env=ff), Job(ow, 'formats', n(500), shard=125, args=L, env=zz),
        Job(io, 'mtx', n(400), shard=100, args=D, env=ff), Job(io, 'roundtrip', n(300), shard=75, args=D, env=ff), Job(io, 'malformed', n(300), shard=75, args=D, env=zz),
        Job(io64, 'roundtrip', n(150), shard=75, args=D, env=zz), Job(io64, 'malformed', n(150), shard=75, args=D, env=ff),
        Job(ut['perm'], 'perm', n(300), shard=150, env=ff), Job(ut['expand'], 'expand', n(300), shard=150, env=ff), Job(ut['blocksize'], 'blocksize', n(400), shard=200, env=ff),
        Job(ut['partition'], 'partition', n(300), shard=100, env=ff), Job(ut['stats'], 'stats', n(300), shard=100, env=ff), Job(ut['vectors'], 'vectors', n(600), shard=150, env=ff),
        Job(vs, 'exact', n(24, 10), shard=4, args=L, env=vgenv, wrapper=vg), Job(vi, 'mtx', n(30, 10), shard=10, args=D + ('--forks', '0'), env=vgenv, wrapper=vg),
        Job(vi, 'roundtrip', n(20, 10), shard=10, args=D + ('--forks', '0'), env=vgenv, wrapper=vg),
        Job(vo, 'sources', n(16, 10), shard=4, args=L, env=vgenv, wrapper=vg),
    ] + odd(ctx, s32, 'exact', 30, 10, 120, 20, 20, args=L, shard=10, env=ff) + odd(ctx, s32n, 'exact', 20, 0, 60, 20, args=L, shard=10, env=zz)
      + odd(ctx, ow, 'formats', 20, 6, 60, 20, args=L, shard=10, env=ff) + odd(ctx, ow, 'sources', 20, 6, 60, args=L, shard=10, env=zz)
      + odd(ctx, io, 'roundtrip', 20, 4, 60, 20, args=D, shard=10, env=ff)
      + [Job(so, None, n(16), args=L + ('--large', '100'), shard=4, env=ff, seed_shift=44)], parallel=8)
    return RULE_SPMV + '; plus random sort, conversion, file and utility cases, all in AddressSanitizer + UndefinedBehaviorSanitizer builds (fresh memory filled with 0xff or 0x01), and a small sample under valgrind memcheck for uninitialised values'


def p05(ctx):
    n = ctx.n
    D = ('--dir', '@SCRATCH@')
    o32, o32n, o64 = Build('own.cpp', F32, ledger=True), Build('own.cpp', F32N, ledger=True), Build('own.cpp', F64, ledger=True)
    i32, i64 = Build('io.cpp', F32, ledger=True), Build('io.cpp', F64, ledger=True)
    run_jobs(ctx, [Job(o32, 'formats', n(15000)), Job(o32n, 'formats', n(9000)), Job(o64, 'formats', n(9000)), Job(Build('own.cpp', F32L, ledger=True), 'formats', n(7500)), Job(o32, 'sources', n(4500)), Job(o64, 'sources', n(2400)),
                   Job(i32, 'mtx', n(3600), args=D), Job(i32, 'roundtrip', n(2400), args=D), Job(i32, 'malformed', n(2400), args=D + ('--forks', '0')),
                   Job(Build('io.cpp', F32L, ledger=True), 'roundtrip', n(1200), args=D), Job(i64, 'roundtrip', n(1500), args=D), Job(i64, 'malformed', n(1500), args=D + ('--forks', '0')),
                   Job(Build('io.cpp', F32, ledger=True, faults=True), 'rfault', n(400), args=D), Job(Build('io.cpp', F32, ledger=True, faults=True), 'wfault', n(900), args=D)]
             + odd(ctx, o32, 'formats', 100, 40, 300, 100, 60) + odd(ctx, o32n, 'formats', 60, 10, 100, 60) + odd(ctx, o64, 'formats', 40, 10, 100, 40)
             + odd(ctx, o32, 'sources', 60, 15, 200) + odd(ctx, i32, 'roundtrip', 30, 8, 100, 40, args=D))
    return 'random matrices built in every format, multiplied and released, and random valid and broken files read and written, while a ledger of all allocations and open files balances each operation; distinct by hash of the matrix, blocking and format, or of the file'


def p06(ctx):
    n = ctx.n
    run_jobs(ctx, [Job(spmv(F32), 'frame', n(18000)), Job(spmv(F64), 'frame', n(9000)), Job(spmv(F32N), 'frame', n(12000)), Job(spmv(F32L), 'frame', n(9000)), Job(spmv(F32, cc='gcc', opt='-O3'), 'frame', n(4800))]
             + odd(ctx, spmv(F32), 'frame', 200, 40, 600, 100, 80) + odd(ctx, spmv(F32N), 'frame', 100, 10, 300, 60) + odd(ctx, spmv(F64), 'frame', 60, 10, 200, 40))
    return RULE_SPMV + '; rows without non-zeros hold special values that must survive, operands touch inaccessible pages, x is read-only, unused elements of x are huge, and other multiplications run in between'


def p07(ctx):
    n = ctx.n
    run_jobs(ctx, [Job(Build('own.cpp', F32), 'sources', n(20000)), Job(Build('own.cpp', F64), 'sources', n(12000)), Job(Build('own.cpp', F32N), 'sources', n(12000)), Job(Build('own.cpp', F32L), 'sources', n(8000))]
             + odd(ctx, Build('own.cpp', F32), 'sources', 100, 40, 600, 100, 60) + odd(ctx, Build('own.cpp', F64), 'sources', 60, 15, 300, 60) + odd(ctx, Build('own.cpp', F32N), 'sources', 60, 15, 300, 60))
    return 'random triplet matrices put through random chains of up to 6 conversions and sorts; distinct by hash of matrix and chain'


def p08(ctx):
    n = ctx.n
    run_jobs(ctx, [Job(Build('sort.cpp', perturb=True), None, n(9000)), Job(Build('sort.cpp', perturb=True), None, n(150), args=('--large', '100'), seed_shift=44), Job(Build('sort.cpp', cc='gcc', perturb=True), None, n(80), args=('--large', '100'), seed_shift=45), Job(Build('sort.cpp', cc='gcc', perturb=True), None, n(5000)), Job(Build('sort.cpp', perturb=True), None, n(500), args=('--teams', '50'), seed_shift=20), Job(Build('sort.cpp', perturb=True), None, n(700), env={'OMP_THREAD_LIMIT': '3'}, seed_shift=21), Job(Build('sort.cpp', cc='gcc', perturb=True), None, n(500), env={'OMP_THREAD_LIMIT': '2'}, seed_shift=22), Job(Build('sort.cpp', san='tsan'), None, n(250), shard=50, args=('--light', '1'))])
    return 'random arrays (sizes around the cut-offs of the parallel sort, 7 arrangements of the keys) sorted in every way the library offers, with 1 to 16 threads, from inside and outside parallel regions, with scratch memory granted and refused; distinct by hash of the array and the operation'


def p09(ctx):
    n = ctx.n
    D = ('--dir', '@SCRATCH@')
    run_jobs(ctx, [Job(Build('io.cpp', F32), 'mtx', n(30000), args=D), Job(Build('io.cpp', F64), 'mtx', n(20000), args=D), Job(Build('io.cpp', F32, san='asan', opt='-O1'), 'mtx', n(3000), args=D)])
    return 'random well-formed Matrix Market files (real, integer, pattern x general, symmetric, skew-symmetric; comments, blank lines, spacing, number formats) with their meaning known; distinct by hash of the text'


def p10(ctx):
    n = ctx.n
    D = ('--dir', '@SCRATCH@')
    run_jobs(ctx, [Job(Build('io.cpp', F32), 'roundtrip', n(12000), args=D), Job(Build('io.cpp', F64), 'roundtrip', n(9000), args=D), Job(Build('io.cpp', F32N), 'roundtrip', n(6000), args=D), Job(Build('io.cpp', F32L), 'roundtrip', n(6000), args=D)]
             + odd(ctx, Build('io.cpp', F32), 'roundtrip', 60, 20, 300, 100, 40, args=D) + odd(ctx, Build('io.cpp', F64), 'roundtrip', 40, 10, 200, 60, args=D))
    return 'random matrices with random bit patterns as values written and read back in every file format the library has; distinct by hash of matrix and format'


def p11(ctx):
    n = ctx.n
    D = ('--dir', '@SCRATCH@')
    run_jobs(ctx, [Job(Build('io.cpp', F32), 'malformed', n(2500), args=D), Job(Build('io.cpp', F64), 'malformed', n(2000), args=D), Job(Build('io.cpp', F32L), 'malformed', n(800), args=D), Job(Build('io.cpp', F32, san='asan', opt='-O1'), 'malformed', n(400), shard=50, args=D)])
    cli.bad_inputs(ctx, n(800, 15))
    cli.giants(ctx, n(48, 5))
    return 'valid files broken in a known way (truncated at every kind of place, header fields, indices, entries, missing files), given to the readers and to the command line programs; distinct by hash of the file or of the command'


def p12(ctx):
    n = ctx.n
    D = ('--dir', '@SCRATCH@')
    run_jobs(ctx, [Job(Build('io.cpp', F32, faults=True), 'wfault', n(1800), args=D), Job(Build('io.cpp', F64, faults=True), 'wfault', n(1200), args=D)])
    cli.write_faults(ctx, n(320, 15))
    return 'every writer with its output failing to open, failing after every possible number of bytes, or failing when it is closed; a case is one fault at one place of one write, distinct by writer, matrix, kind of fault and place'


def p13(ctx):
    n = ctx.n
    run_jobs(ctx, [Job(util('perm', F32), 'perm', n(18000)), Job(util('perm', F32, cc='gcc'), 'perm', n(7500)), Job(util('perm', F32, san='tsan'), 'perm', n(450), shard=50),
                   Job(util('perm', F32), 'perm', n(800), args=('--large', '10', '--teams', '50'), seed_shift=20), Job(util('perm', F32, cc='gcc'), 'perm', n(500), args=('--large', '10', '--teams', '50'), seed_shift=21),
                   Job(util('perm', F32), 'perm', n(800), args=('--large', '20'), env={'OMP_THREAD_LIMIT': '3'}, seed_shift=22), Job(util('perm', F32, cc='gcc'), 'perm', n(800), args=('--large', '20'), env={'OMP_THREAD_LIMIT': '3'}, seed_shift=23)]
             + odd(ctx, util('perm', F32), 'perm', 60, 30, 300, 0, 60) + odd(ctx, util('perm', F32, cc='gcc'), 'perm', 30, 10, 100) + odd(ctx, util('perm', F32, san='tsan'), 'perm', 6, 3, 12, shard=3))
    cli.permutations(ctx, n(600, 15))
    return 'random permutations (identity, reversal, rotations, swaps, shuffles; sizes around the chunk of the parallel loops) applied to index arrays and matrices by the library and by the programs; distinct by hash of permutation and indices'


def p14(ctx):
    n = ctx.n
    run_jobs(ctx, [Job(util('expand', F32), 'expand', n(18000)), Job(util('expand', F32, cc='gcc'), 'expand', n(7500)), Job(util('expand', F64), 'expand', n(6000)), Job(Build('narrow.cpp', F32N), 'expand', n(4000)), Job(util('expand', F32, san='tsan'), 'expand', n(450), shard=50),
                   Job(util('expand', F32), 'expand', n(800), args=('--large', '20', '--teams', '50'), seed_shift=20), Job(util('expand', F32, cc='gcc'), 'expand', n(800), args=('--large', '20'), env={'OMP_THREAD_LIMIT': '3'}, seed_shift=21)]
             + odd(ctx, util('expand', F32), 'expand', 60, 20) + odd(ctx, util('expand', F64), 'expand', 30, 10))
    cli.expansions(ctx, n(600, 15))
    return 'random block sizes (ones, powers of two and their neighbours, one dominant block) and matrices over them, expanded by the library and by the programs; distinct by hash of sizes and matrix'


def p15(ctx):
    n = ctx.n
    cli.tools(ctx, n(3600, 15))
    return 'random matrices, block sizes and permutations on disk, given to each command line tool; its output files are compared with a model; distinct by tool, options and hash of the input'


def p16(ctx):
    n = ctx.n
    run_jobs(ctx, [Job(util('blocksize', F32), 'blocksize', n(30000)), Job(util('blocksize', F64), 'blocksize', n(12000)), Job(util('blocksize', F32, defs=['SLACKNESS=1', 'L2SIZE=4096']), 'blocksize', n(12000)),
                   Job(util('blocksize', F32, defs=['SLACKNESS=64', 'L2SIZE=4194304']), 'blocksize', n(12000)), Job(util('blocksize', F32, cc='gcc'), 'blocksize', n(12000))])
    return 'dimensions over the whole range of the index types, with all small values and those around powers of two, element sizes and numbers of workers; distinct by these inputs'


def p17(ctx):
    n = ctx.n
    run_jobs(ctx, [Job(util('partition', F32), 'partition', n(25000)), Job(util('partition', F64), 'partition', n(15000)), Job(util('partition', F32L), 'partition', n(7500)), Job(util('partition', F32, cc='gcc'), 'partition', n(10000)),
                   Job(util('partition', F32, defs=['PARTITION_FACTOR=1', 'PARTITION_FACTOR_INV=6', 'INITPARTITION=1']), 'partition', n(10000))]
             + odd(ctx, util('partition', F32), 'partition', 200, 60, 400, 200, 80) + odd(ctx, util('partition', F64), 'partition', 100, 20, 200, 100) + odd(ctx, util('partition', F32L), 'partition', 100, 20, 200, 100))
    return 'random blocked matrices (block rows from empty to holding nearly everything) and numbers of workers; the partition of every block row is read, and an event log of block uses is kept; distinct by hash of matrix, blocking and workers'


def p18(ctx):
    n = ctx.n
    run_jobs(ctx, [Job(Build('narrow.cpp', F32N), None, n(9000)), Job(Build('narrow.cpp', F64), None, n(2100)), Job(Build('narrow.cpp', F32N, cc='gcc', opt='-O3'), None, n(3600))], parallel=8)
    return 'matrices whose blocks, rows or stripes are around or beyond what the local index type can hold, each in a process of its own; distinct by hash of matrix, blocking and format'


def p19(ctx):
    n = ctx.n
    run_jobs(ctx, [Job(util('stats', F32), 'stats', n(15000)), Job(util('stats', F64), 'stats', n(9000)), Job(util('stats', F32N), 'stats', n(9000)), Job(util('stats', F32L), 'stats', n(9000))]
             + odd(ctx, util('stats', F32), 'stats', 200, 40, 400, 200, 80) + odd(ctx, util('stats', F64), 'stats', 60, 10, 100, 60) + odd(ctx, util('stats', F32N), 'stats', 60, 10, 100, 60))
    cli.reports(ctx, n(600, 15))
    return 'random matrices in every format; counts and printed reports are compared with counts made from the triplets; distinct by hash of matrix, blocking and format'


def p20(ctx):
    n = ctx.n
    cli.drivers(ctx, n(1800, 15))
    return 'random matrix files (.mtx and .bin), block size files, widths, permutations and numbers of threads given to the benchmark programs; distinct by program, options and hash of the input'


def p21(ctx):
    n = ctx.n
    run_jobs(ctx, [Job(spmv(F32, perturb=True), 'repro', n(7500)), Job(spmv(F64, perturb=True), 'repro', n(4500)), Job(spmv(F32N, perturb=True), 'repro', n(4500)), Job(spmv(F32L, perturb=True), 'repro', n(2400)), Job(spmv(F32, cc='gcc', perturb=True), 'repro', n(2400))]
             + odd(ctx, spmv(F32, perturb=True), 'repro', 200, 50, 400, 100, 60) + odd(ctx, spmv(F64, perturb=True), 'repro', 100, 20, 200, 60) + odd(ctx, spmv(F32N, perturb=True), 'repro', 100, 10, 200, 60) + odd(ctx, spmv(F32, cc='gcc', perturb=True), 'repro', 60, 10, 100, 30))
    return RULE_SPMV + '; values without exact sums, multiplied with 6 team sizes under injected delays and compared bit by bit'


def p22(ctx):
    n = ctx.n
    V = [dict(defs=['PARTITION_FACTOR=1', 'PARTITION_FACTOR_INV=16', 'INITPARTITION=1']),
         dict(defs=['PARTITION_FACTOR=3', 'PARTITION_FACTOR_INV=1', 'INITPARTITION=2']),
         dict(defs=['BLOCK_SIZE_PARAM=1', 'DEFAULT_CSWR_WIDTH=7', 'SLACKNESS=1', 'L2SIZE=1024']),
         dict(defs=['DEBUG_MODE']), dict(opt='-O0'), dict(opt='-O3', flags=['-funroll-loops', '-march=native']),
         dict(cc='gcc', opt='-O3', flags=['-funroll-loops']), dict(cc='gcc', opt='-O1', defs=['PARTITION_FACTOR_INV=9']),
         dict(cc='gcc', opt='-O2', flags=['-march=native'], defs=['INITPARTITION=1']),
         # what an assertion computes must not be needed for the result
         dict(defs=['NDEBUG']), dict(cc='gcc', opt='-O3', defs=['NDEBUG'])]
    jobs = []
    for i, v in enumerate(V):
        jobs.append(Job(spmv(F32 if i % 2 else F32N, **v), 'exact', n(1050), seed_shift=100 + i))
        jobs.append(Job(spmv(F32 if i % 2 else F32N, **v), 'blocking', n(360), seed_shift=200 + i))
    for i in (0, 1, 5, 9):
        jobs += odd(ctx, spmv(F32 if i % 2 else F32N, **V[i]), 'exact', 40, 8, 80, 30)
    for i in (3, 9, 10):
        jobs.append(Job(Build('own.cpp', F32, **V[i]), 'sources', n(300), seed_shift=400 + i))
    for i, c in enumerate([F64N, F32L, F64W, ('double', 'uint32_t', 'uint32_t'), ('float', 'uint64_t', 'uint8_t')]):
        jobs.append(Job(spmv(c), 'exact', n(900), seed_shift=300 + i))
    run_jobs(ctx, jobs, parallel=6)
    return RULE_SPMV + '; under 16 builds that differ in the tuning macros, the value and index types, the compiler and the optimisation level'


def at_once(ctx):
    """Cases of the other harnesses, several at a time"""
    n, J = ctx.n, []
    D, L = ('--dir', '@SCRATCH@'), ('--light', '1')
    for k, (v, size) in enumerate([(dict(perturb=True), 10), (dict(cc='gcc', perturb=True), 4), (dict(san='tsan'), 1)]):
        C = ('--callers', '34'[k % 2])
        light = L if 'san' in v else ()
        q = {key: x for key, x in v.items() if key != 'perturb'}
        shard = 36 if 'san' in v else None
        # Nothing here is done by tasks, so what happens inside memcpy, sscanf or fread can be watched too
        deep = dict(TSAN_OPTIONS='suppressions=%s/tsan.supp exitcode=0 halt_on_error=0' % HARNESS) if 'san' in v else {}
        J += [Job(Build('sort.cpp', **v), None, n(96 * size), args=C + light, shard=shard),
              Job(Build('own.cpp', F32, **q), 'sources', n(72 * size), args=C + light, shard=shard),
              Job(Build('own.cpp', F32N, **q), 'formats', n(36 * size), args=C + light, shard=shard),
              Job(Build('io.cpp', F32, **q), 'roundtrip', n(60 * max(size, 3)), args=C + D, shard=shard, env=deep),
              Job(Build('io.cpp', F64, **q), 'mtx', n(36 * max(size, 3)), args=C + D, shard=shard, env=deep),
              Job(util('perm', F32, **q), 'perm', n(72 * size), args=C, shard=shard),
              Job(util('expand', F32, **q), 'expand', n(48 * size), args=C, shard=shard),
              Job(util('blocksize', F32, **q), 'blocksize', n(48 * size), args=C, shard=shard)]
    return J


def p23(ctx):
    n = ctx.n
    ts = spmv(F32, san='tsan')
    run_jobs(ctx, [Job(spmv(F32, perturb=True), 'concurrent', n(1200)), Job(spmv(F64, perturb=True), 'concurrent', n(600)), Job(spmv(F32N, cc='gcc', perturb=True), 'concurrent', n(600)),
                   Job(spmv(F32, cc='gcc', perturb=True), 'concurrent', n(500)), Job(ts, 'concurrent', n(150), shard=30, args=('--light', '1'))]
             + at_once(ctx))
    return RULE_SPMV + '; random sorts, conversion chains, file reads and writes, permutations, expansions and block size choices, three or four of them at once; 2 to 5 callers at once share a matrix or convert matrices of their own, as native threads or inside a parallel region'


def p24(ctx):
    cli.together(ctx, ctx.n(360, 20))
    return 'two to four runs of the command line programs at the same time, on files of their own or on the same input files, with random delays before and after every file is opened and closed; each is judged by the model or by the bytes it writes alone; distinct by combination and seed'


def p25(ctx):
    n = ctx.n
    D = ('--dir', '@SCRATCH@')
    run_jobs(ctx, [Job(Build('io.cpp', F32, ledger=True, faults=True), 'rfault', n(1400), args=D), Job(Build('io.cpp', F64, ledger=True, faults=True), 'rfault', n(1000), args=D)])
    cli.read_faults(ctx, n(400, 15))
    return 'every reader with its input failing to open, failing after every possible number of bytes, coming in short pieces, impossible to seek in, or with each request for memory refused; a case is one fault at one place of one read, distinct by reader, matrix, kind of fault and place'


LEVEL = {'P12': 'fault_enumeration', 'P25': 'fault_enumeration'}
CHECKS = {k.upper(): v for k, v in list(globals().items()) if k[0] == 'p' and k[1:].isdigit()}
ASSUMPTIONS = ['x86-64 Linux; libomp 18 and libgomp 13 as OpenMP runtimes', 'the compilers, the sanitizers and valgrind report what they observe correctly',
               'random sampling: what no generated case reaches is not judged']
