// Each mode is compiled on its own (-DPART_<MODE>), so that what one of them
// needs to know about the code does not concern the others.
// Permutations, block expansion, block sizes, partitions and reports.
//   --mode perm | expand | blocksize | partition | stats | vectors
#include "formats.hpp"
#include "ompt_monitor.hpp"
#include "permute.h"
#include "expand.h"
#include "partition.h"
#include "spmv/omp/gsb.h"
#include <atomic>
#include <sstream>
// Everything is inside the namespace, so that no name of the code under test
// can get in the way
namespace vf {

#ifndef CFG_T
#define CFG_T float
#define CFG_IT uint32_t
#define CFG_SIT uint16_t
#endif
typedef CFG_T T;
typedef CFG_IT IT;
typedef CFG_SIT SIT;
typedef Formats<T, IT, SIT> F;

static std::vector<uint64_t> random_perm(Rng& g, uint64_t n) {
    std::vector<uint64_t> p(n);
    for (uint64_t i = 0; i < n; i++) p[i] = i;
    int k = (int) g.below(9);
    if (k >= 6 && n > 2) {       // of a different nature in a part only
        if (k == 6) { for (uint64_t i = 0; i + 1 < n; i += 2) std::swap(p[i], p[i + 1]); }
        else if (k == 7) std::reverse(p.begin(), p.end());
        uint64_t a = g.chance(25) ? n - 3 : g.chance(25) ? 0 : g.below(n - 2);
        uint64_t b = g.chance(30) ? a + 3 : g.chance(30) ? n : (uint64_t) g.range((int64_t) a + 3, (int64_t) n);
        if (g.chance(50)) std::rotate(p.begin() + a, p.begin() + a + 1, p.begin() + b);
        else for (uint64_t i = b; i > a + 1; i--) std::swap(p[i - 1], p[a + g.below(i - a)]);
    }
    else if (k == 0) {}
    else if (k == 1) std::reverse(p.begin(), p.end());
    else if (k == 2) { uint64_t r = g.below(n ? n : 1); std::rotate(p.begin(), p.begin() + r, p.end()); }
    else if (k == 3) { for (uint64_t i = 0; i + 1 < n; i += 2) std::swap(p[i], p[i + 1]); }
    else for (uint64_t i = n; i > 1; i--) std::swap(p[i - 1], p[g.below(i)]);
    return p;
}
// Also beyond what 16 bits can number, and far more threads than cores
static uint64_t pick_n(Rng& g) {
    static const uint64_t e[] = {1, 2, 3, 63, 64, 65, 127, 128, 129, 511, 512, 513, 1000, 4096, 5000};
    static const uint64_t large[] = {65535, 65536, 65537, 70001, 100000, 131071, 131072, 150001, 262145, 300000, 524289, 1000000};
    if (g.chance((int) opt_n("large", 1))) return large[g.below(12)];
    return g.chance(50) ? e[g.below(15)] : (uint64_t) g.range(1, g.chance(30) ? 6000 : 100);
}

static int pick_team(Rng& g) {
    static const int many[] = {9, 12, 16, 24, 33, 64, 65, 100, 129};
    return opt_n("teams", 0) && g.chance((int) opt_n("teams", 0)) ? many[g.below(9)] : (int) g.range(1, 8);
}
// On its own, by one member of a team, or by a team within a team
template <class FUN>
static void somewhere(Rng& g, FUN f) {
    int k = opt_n("large", 1) || opt_n("teams", 0) ? (int) g.below(10) : 9;
    if (k > 1) { omp_set_max_active_levels(1); f(); return; }
    omp_set_max_active_levels(k ? 1 : 2);
    count(k ? "called by a member of a team" : "called by a member of a team, with a team of its own");
    #pragma omp parallel num_threads(3)
    {
        #pragma omp single
        f();
    }
    omp_set_max_active_levels(1);
}

#ifdef PART_PERM
// ------------------------------------------------------------------- perm
template <class I>
static void perm_case(Rng& g) {
    uint64_t n = pick_n(g);
    auto pv = random_perm(g, n);
    int th = pick_team(g);
    omp_set_num_threads(th);
    std::string w = fmt("permutation of %llu, %d threads, %zu-byte indices", (unsigned long long) n, th, sizeof(I));
    step(w); sample(w);
    uint64_t h = hash_mix(n, th);
    for (auto x : pv) h = hash_mix(h, x);
    distinct(h);
    Guarded<I> p(n);
    for (uint64_t i = 0; i < n; i++) p[i] = (I) pv[i];
    p.readonly();
    // inverse
    I* q = nullptr;
    somewhere(g, [&] { q = invert_permutation((I const*) p.p, (I) n); });
    st().checks++;
    for (uint64_t i = 0; i < n; i++) if ((uint64_t) q[p[i]] != i) { violation("perm:inverse", w + fmt(" inverse[p[%llu]] is %llu", (unsigned long long) i, (unsigned long long) q[p[i]])); break; }
    I* r = invert_permutation((I const*) q, (I) n);
    st().checks++;
    for (uint64_t i = 0; i < n; i++) if (r[i] != p[i]) { violation("perm:inverse-twice", w); break; }
    // index arrays
    uint64_t k = pick_n(g);
    std::vector<uint64_t> idx(k);
    for (auto& x : idx) x = g.below(n);
    Guarded<I> a(k);
    for (uint64_t i = 0; i < k; i++) a[i] = (I) idx[i];
    somewhere(g, [&] { permute_indeces(a.p, p.p, (I) k); });
    st().checks++;
    for (uint64_t i = 0; i < k; i++) if ((uint64_t) a[i] != pv[idx[i]]) { violation("perm:indices", w + fmt(" index %llu became %llu", (unsigned long long) idx[i], (unsigned long long) a[i])); break; }
    permute_indeces(a.p, q, (I) k);
    st().checks++;
    for (uint64_t i = 0; i < k; i++) if ((uint64_t) a[i] != idx[i]) { violation("perm:indices-back", w); break; }
    count("permutations"); count("indices permuted", k);
    delete[] q; delete[] r;
}
template <class P, class S, class GET>
static void perm_matrix(Rng& g, const char* kind, GET arr) {
    GenLimits l; l.max_nnz = g.chance(5) ? 40000 : 4200; l.max_dim = g.chance(10) ? 70000 : 2500;
    larger(g, l);
    uint64_t n = pick_dim(g, l);
    Mat m = generate(g, l, n, n);
    auto pv = random_perm(g, n);
    int th = pick_team(g);
    omp_set_num_threads(th);
    std::string w = fmt("%s %s permuted, %d threads", kind, m.describe().c_str(), th);
    step(w); sample(w);
    distinct(hash_mix(m.hash(), th));
    Guarded<IT> p(n);
    for (uint64_t i = 0; i < n; i++) p[i] = (IT) pv[i];
    p.readonly();
    S s;
    F::fill(&s, m);
    somewhere(g, [&] { permute_indeces(arr(s), (IT) m.nnz(), p.p); });
    st().checks++;
    for (size_t i = 0; i < m.nnz(); i++)
        if (s.get_row_index((IT) i) != pv[m.r[i]] || s.get_column_index((IT) i) != pv[m.c[i]] || (double) s.get_value((IT) i) != m.v[i]) {
            violation(fmt("perm:%s", kind), w + fmt(" entry %zu (%llu,%llu) became (%llu,%llu)", i, (unsigned long long) m.r[i], (unsigned long long) m.c[i], (unsigned long long) s.get_row_index((IT) i), (unsigned long long) s.get_column_index((IT) i)));
            break;
        }
    // the permuted matrix maps the permuted vector to the permuted product
    auto xi = int_vector(g, n, -4, 4);
    std::vector<int> y0(n, 0);
    auto want = product(m, xi, y0);
    Guarded<T> x(n), y(n);
    for (uint64_t i = 0; i < n; i++) { x[pv[i]] = (T) xi[i]; y[i] = 0; }
    { Csr<T, IT> A; Coo_to_Csr(&A, &s); A.spmv(x.p, y.p); release(A); }
    st().checks++;
    for (uint64_t i = 0; i < n; i++) if ((double) y[pv[i]] != (double) want[i]) { violation(fmt("perm:%s:product", kind), w); break; }
    // and back
    IT* q = invert_permutation((IT const*) p.p, (IT) n);
    S b;
    F::fill(&b, m);
    permute_indeces(arr(b), (IT) m.nnz(), p.p);
    permute_indeces(arr(b), (IT) m.nnz(), q);
    st().checks++;
    for (size_t i = 0; i < m.nnz(); i++) if (b.get_row_index((IT) i) != m.r[i] || b.get_column_index((IT) i) != m.c[i] || (double) b.get_value((IT) i) != m.v[i]) { violation(fmt("perm:%s:back", kind), w); break; }
    delete[] q;
    release(b); release(s);
    count("matrices permuted");
}
static void mode_perm(uint64_t i, Rng& g) {
    switch (i % 5) {
    case 0: perm_case<uint32_t>(g); break;
    case 1: perm_case<uint64_t>(g); break;
    case 2: perm_case<int>(g); break;
    case 3: perm_matrix<Triplet<T, IT>, Coo2<T, IT>>(g, "triplets", [](auto& s) { return s.triplets; }); break;
    default: perm_matrix<Element<T, IT>, Coo3<T, IT>>(g, "elements", [](auto& s) { return s.elements; }); break;
    }
}

#endif

#ifdef PART_EXPAND
// ----------------------------------------------------------------- expand
template <class I>
static void expand_case(Rng& g) {
    uint64_t blocks = g.chance(20) ? 1 : (uint64_t) g.range(1, g.chance(30) ? 300 : 12);
    std::vector<I> sizes(blocks);
    int style = (int) g.below(4);
    uint64_t n = 0, mx = 0;
    for (auto& s : sizes) s = (I) (style == 0 ? g.range(1, 5) : style == 1 ? g.range(1, 70) : style == 2 ? 1ull << g.below(7) : (g.chance(30) ? 1 : (uint64_t) g.range(1, 40)));
    if (g.chance(30)) {     // one alone a little over a power of two, often an end
        uint64_t p = 1ull << g.below(6);
        for (auto& s : sizes) s = (I) std::min<uint64_t>(s, p);
        sizes[g.chance(35) ? blocks - 1 : g.chance(35) ? 0 : g.below(blocks)] = (I) (p + 1);
    }
    for (auto& s : sizes) { n += s; mx = std::max<uint64_t>(mx, s); }
    uint64_t big = 1;
    while (big < mx) big *= 2;
    int th = pick_team(g);
    omp_set_num_threads(th);
    std::string w = fmt("%llu blocks of up to %llu, %llu indices, %d threads", (unsigned long long) blocks, (unsigned long long) mx, (unsigned long long) n, th);
    step(w); sample(w);
    uint64_t h = th;
    for (auto s : sizes) h = hash_mix(h, s);
    distinct(h);
    std::vector<I> off(blocks + 1);
    size_to_offset(off.data(), sizes.data(), (I) blocks);
    st().checks++;
    { uint64_t a = 0; for (uint64_t b = 0; b <= blocks; b++) { if ((uint64_t) off[b] != a) { violation("expand:offsets", w); return; } if (b < blocks) a += sizes[b]; } }
    st().checks++;
    if ((uint64_t) expand_block_size(sizes.data(), (I) blocks) != big) { violation("expand:block-size", w + fmt(" gives %llu instead of %llu", (unsigned long long) expand_block_size(sizes.data(), (I) blocks), (unsigned long long) big)); return; }
    std::vector<uint64_t> to(n);
    for (uint64_t b = 0, i = 0; b < blocks; b++) for (uint64_t k = 0; k < (uint64_t) sizes[b]; k++, i++) to[i] = b * big + k;
    st().checks++;
    for (uint64_t i = 0; i < n; i++) if ((uint64_t) expand_index(off.data(), (I) blocks, (I) big, (I) i) != to[i]) { violation("expand:index", w + fmt(" index %llu", (unsigned long long) i)); break; }
    st().checks++;
    for (uint64_t i = 0; i < n; i++) if ((uint64_t) index_to_blockindex(off.data(), (I) blocks, (I) i) != to[i] / big) { violation("expand:block-of", w + fmt(" index %llu", (unsigned long long) i)); break; }
    // arrays
    uint64_t k = g.chance((int) opt_n("large", 1)) ? (uint64_t) g.range(65000, 300000) : (uint64_t) g.range(0, 3000);
    std::vector<uint64_t> idx(k);
    for (auto& x : idx) x = g.below(n);
    Guarded<I> a(k);
    for (uint64_t i = 0; i < k; i++) a[i] = (I) idx[i];
    std::vector<I> sc = sizes;
    I nb = 0;
    somewhere(g, [&] { nb = expand_indeces(a.p, (I) k, sc.data(), (I) blocks); });
    st().checks++;
    if ((uint64_t) nb != big) violation("expand:returned-size", w);
    for (uint64_t i = 0; i < k; i++) if ((uint64_t) a[i] != to[idx[i]]) { violation("expand:array", w + fmt(" index %llu became %llu instead of %llu", (unsigned long long) idx[i], (unsigned long long) a[i], (unsigned long long) to[idx[i]])); break; }
    count("indices expanded", k + n);
    // elements of a matrix: the expanded matrix works on expanded vectors
    if constexpr (std::is_same<I, IT>::value) {
        GenLimits l; l.max_nnz = 2500;
        larger(g, l);
        Mat m = generate(g, l, n, n);
        Coo3<T, IT> s;
        F::fill(&s, m);
        calculate_block_id(s.elements, s.nnz, off.data(), (IT) blocks, off.data(), (IT) blocks);
        bool sorted = g.chance(50);
        if (sorted) sort_elements_blocks(s.elements, s.nnz);
        std::multiset<std::array<int64_t, 3>> want, got;
        for (size_t i = 0; i < m.nnz(); i++) want.insert({{(int64_t) to[m.r[i]], (int64_t) to[m.c[i]], m.v[i]}});
        IT e = 0;
        somewhere(g, [&] { e = expand_indeces(s.elements, s.nnz, sc.data(), off.data(), (IT) blocks); });
        st().checks++;
        if ((uint64_t) e != big) violation("expand:elements:size", w);
        for (size_t i = 0; i < m.nnz(); i++) got.insert({{(int64_t) s.elements[i].row, (int64_t) s.elements[i].col, (int64_t) s.elements[i].val}});
        st().checks++;
        if (want != got) violation("expand:elements", w + " " + m.describe());
        else if (blocks * big <= 20000) {
            auto xi = int_vector(g, n, -4, 4);
            auto wy = product(m, xi, std::vector<int>(n, 0));
            uint64_t N = blocks * big;
            Guarded<T> x(N), y(N);
            for (uint64_t i = 0; i < N; i++) { x[i] = 77; y[i] = 0; }
            for (uint64_t i = 0; i < n; i++) x[to[i]] = (T) xi[i];
            s.rows = s.columns = (IT) N;
            if (big <= F::local_max / 2) { Csbr<T, IT> A; Coo_to_Csbr(&A, &s, (IT) big, (IT) big); A.spmv(x.p, y.p); release(A); }
            else s.spmv(x.p, y.p);
            st().checks++;
            double total = 0, used = 0;
            for (uint64_t i = 0; i < n; i++) { used += std::fabs((double) y[to[i]]); if ((double) y[to[i]] != (double) wy[i]) { violation("expand:product", w + " " + m.describe()); break; } }
            for (uint64_t i = 0; i < N; i++) total += std::fabs((double) y[i]);
            if (total != used) violation("expand:product-padding", w + " " + m.describe());
            count("matrices expanded");
        }
        release(s);
    }
}
// Blocks of sizes over the whole range of the index type, so that the expanded
// positions reach up to its largest value
template <class I>
static void expand_huge(Rng& g) {
    using u128 = unsigned __int128;
    const uint64_t top = (uint64_t) std::numeric_limits<I>::max();
    const int bits = (int) sizeof(I) * 8;
    uint64_t blocks = g.chance(60) ? (uint64_t) g.range(1, 40) : g.chance(70) ? (uint64_t) g.range(1, 3000) : (uint64_t) g.range(60000, 70000);
    int room = 0;                       // largest power for which all blocks fit
    while (room + 1 < bits && (((u128) blocks) << (room + 1)) <= (u128) top + 1) room++;
    int power = g.chance(60) ? room : (int) g.below(room + 1);
    const uint64_t big = 1ull << power;
    std::vector<I> sizes(blocks);
    std::vector<uint64_t> from(blocks + 1);
    int style = (int) g.below(3);
    for (auto& v : sizes) v = (I) (style == 0 ? 1 + g.below(big) : style == 1 ? 1 + g.below(1ull << g.below(power + 1)) : big);
    // the largest one decides the size
    if (g.chance(25)) for (auto& v : sizes) v = (I) std::min<uint64_t>(v, std::max<uint64_t>(1, big / 2));
    sizes[g.chance(20) ? blocks - 1 : g.chance(20) ? 0 : g.below(blocks)] = (I) (power == 0 || g.chance(30) ? big : g.chance(30) ? big / 2 + 1 : big / 2 + 1 + g.below(big / 2));
    u128 all = 0;
    for (uint64_t b = 0; b < blocks; b++) { all += sizes[b]; from[b + 1] = (uint64_t) all; }
    if (all > (u128) top) return;
    const uint64_t n = from[blocks];
    int th = pick_team(g);
    omp_set_num_threads(th);
    std::string w = fmt("%llu blocks of up to 2^%d, %llu indices of %d bits, %d threads", (unsigned long long) blocks, power, (unsigned long long) n, bits, th);
    step(w); sample(w);
    uint64_t h = hash_mix(th, n);
    for (uint64_t b = 0; b < blocks; b++) h = hash_mix(h, sizes[b]);
    distinct(h);
    count("divisions over the whole range");
    std::vector<I> off(blocks + 1);
    size_to_offset(off.data(), sizes.data(), (I) blocks);
    st().checks += 2;
    for (uint64_t b = 0; b <= blocks; b++) if ((uint64_t) off[b] != from[b]) { violation("expand:offsets", w); return; }
    if ((uint64_t) expand_block_size(sizes.data(), (I) blocks) != big) { violation("expand:block-size", w); return; }
    // both ends of some blocks, and anything between
    uint64_t k = (uint64_t) g.range(1, 3000);
    std::vector<uint64_t> idx(k), to(k), blk(k);
    for (uint64_t i = 0; i < k; i++) {
        uint64_t b = g.chance(10) ? blocks - 1 : g.below(blocks), s = sizes[b], o = g.chance(20) ? 0 : g.chance(25) ? s - 1 : g.below(s);
        idx[i] = from[b] + o; blk[i] = b; to[i] = b * big + o;
    }
    Guarded<I> a(k);
    for (uint64_t i = 0; i < k; i++) a[i] = (I) idx[i];
    st().checks += 3;
    for (uint64_t i = 0; i < k; i++) {
        if ((uint64_t) expand_index(off.data(), (I) blocks, (I) big, (I) idx[i]) != to[i]) { violation("expand:index", w + fmt(" index %llu", (unsigned long long) idx[i])); break; }
        if ((uint64_t) index_to_blockindex(off.data(), (I) blocks, (I) idx[i]) != blk[i]) { violation("expand:block-of", w + fmt(" index %llu", (unsigned long long) idx[i])); break; }
    }
    I nb = expand_indeces(a.p, (I) k, sizes.data(), (I) blocks);
    if ((uint64_t) nb != big) violation("expand:returned-size", w);
    st().checks++;
    for (uint64_t i = 0; i < k; i++) if ((uint64_t) a[i] != to[i]) { violation("expand:array", w + fmt(" index %llu became %llu instead of %llu", (unsigned long long) idx[i], (unsigned long long) a[i], (unsigned long long) to[i])); break; }
    count("indices expanded", 2 * k);
    if constexpr (std::is_same<I, IT>::value) if ((u128) blocks * blocks <= (u128) top) {
        std::vector<Element<T, IT>> e(k);
        std::vector<uint64_t> col(k);
        for (uint64_t i = 0; i < k; i++) {
            col[i] = g.below(k);
            e[i].row = (IT) idx[i]; e[i].col = (IT) idx[col[i]]; e[i].val = (T) (double) (i % 1000);
        }
        calculate_block_id(e.data(), (IT) k, off.data(), (IT) blocks, off.data(), (IT) blocks);
        IT r = expand_indeces(e.data(), (IT) k, sizes.data(), off.data(), (IT) blocks);
        st().checks += 2;
        if ((uint64_t) r != big) violation("expand:elements:size", w);
        for (uint64_t i = 0; i < k; i++)
            if ((uint64_t) e[i].row != to[i] || (uint64_t) e[i].col != to[col[i]] || e[i].val != (T) (double) (i % 1000)) { violation("expand:elements", w + fmt(" element %llu", (unsigned long long) i)); break; }
        count("elements expanded", k);
    }
}
static void mode_expand(uint64_t i, Rng& g) {
    if (i % 5 == 4) { if (g.chance(50)) expand_huge<IT>(g); else expand_huge<uint64_t>(g); return; }
    if (i % 3 == 2) { if (sizeof(IT) == 4) expand_case<uint64_t>(g); else expand_case<uint32_t>(g); }
    else expand_case<IT>(g);
}

#endif

#ifdef PART_BLOCKSIZE
// -------------------------------------------------------------- blocksize
static uint64_t any_dim(Rng& g, uint64_t top) {
    uint64_t d;
    const int bits = top > (1ull << 33) ? 41 : 33;
    switch (g.below(5)) {
    case 0: d = (uint64_t) g.range(1, 40); break;
    case 1: d = (1ull << g.below(bits)) + (uint64_t) g.range(-2, 2); break;
    case 2: d = g.next() >> (65 - bits + g.below(bits - 1)); break;
    case 3: d = (uint64_t) g.range(1, 5000); break;
    default: d = (uint64_t) g.range(1, 200000); break;
    }
    if ((int64_t) d < 1) d = 1;
    return std::min(d, top);
}
template <class I>
static uint64_t check_size(uint64_t m, uint64_t n, size_t vs, int workers, const std::string& w) {
    uint64_t b = (uint64_t) pick_block_size<I>((I) m, (I) n, vs, workers);
    st().checks++;
    if (b < 1 || b > 32768 || (b & (b - 1))) { violation("blocksize:range", w + fmt(" gives %llu", (unsigned long long) b)); return 0; }
    auto p2 = [](uint64_t v) { uint64_t p = 1; while (p < v) p *= 2; return p; };
    uint64_t share = (uint64_t) SLACKNESS * workers;
    bool large = workers > 1 ? p2(m) > share && p2(n) > share : p2(m) > 2 && p2(n) > 2;
    // A vector of one block stays in the cache, except that matrices too small
    // to be shared need no more than their own size
    if ((large || 32768 * vs <= L2SIZE) && b * vs > L2SIZE) violation("blocksize:cache", w + fmt(" gives %llu, %llu bytes", (unsigned long long) b, (unsigned long long) b * vs));
    // large enough to share: several block rows for every worker
    if (workers > 1 && large) {
        st().checks++;
        count("large enough for all workers");
        if (m / b < share / 2) violation("blocksize:slack", w + fmt(" gives %llu, that is %llu block-rows", (unsigned long long) b, (unsigned long long) (m / b)));
    }
    seen("block sizes", b);
    return b;
}
static void mode_blocksize(uint64_t i, Rng& g) {
    if (i % 4 == 0) {       // bit utilities
        uint64_t v = g.chance(50) ? (1ull << g.below(63)) + (uint64_t) g.range(-2, 2) : g.next() >> g.below(63);
        if (v == 0 || v > (1ull << 63)) v = 1;
        { uint64_t u = g.next() | 1ull << 63; st().checks++; if (highest_bit_set(u) != 63) violation("blocksize:highest-bit-u64", fmt("v=%llu", (unsigned long long) u)); }
        uint64_t p = 1;
        while (p < v) p <<= 1;
        unsigned hb = 0;
        for (uint64_t t = v; t >>= 1;) hb++;
        std::string w = fmt("v=%llu", (unsigned long long) v);
        st().checks += 2;
        if (next_power_of_two(v) != p) violation("blocksize:next-power-of-two", w + fmt(" gives %llu", (unsigned long long) next_power_of_two(v)));
        if (highest_bit_set((uint64_t) v) != hb) violation("blocksize:highest-bit-u64", w);
        if (v < (1ull << 63)) { st().checks++; if (highest_bit_set((int64_t) v) != (int64_t) hb) violation("blocksize:highest-bit-i64", w); }
        if (v < (1ull << 32)) { st().checks++; if (highest_bit_set((unsigned) v) != hb) violation("blocksize:highest-bit-u32", w); }
        if (v < (1ull << 31)) { st().checks++; if (highest_bit_set((int) v) != (int) hb) violation("blocksize:highest-bit-i32", w); }
        st().checks++;
        if (highest_bit_set((int64_t) -(int64_t) (1 + g.below(1000))) != -1 || highest_bit_set(-(int) (1 + g.below(1000))) != -1) violation("blocksize:highest-bit-negative", w);
        distinct(v);
        count("numbers");
        return;
    }
    if (i % 4 == 3) {       // size to offset, index to block
        uint64_t n = pick_n(g) % 600 + 1;
        auto o = random_offsets(g, n * (1 + g.below(20)), ~0ull, n);
        uint64_t k = o.size() - 1;
        if (g.chance(30)) {     // over the whole range of the type
            uint64_t top = (uint64_t) std::numeric_limits<IT>::max(), f = top / o[k];
            if (sizeof(IT) > 4 && g.chance(50)) f >>= g.below(30);
            f = g.chance(50) ? f : 1 + g.below(f);
            for (auto& v : o) v *= f;
            if (g.chance(30)) o[k] = top;
        }
        std::vector<IT> sizes(k), off(k + 1, (IT) 12345), want(o.begin(), o.end());
        for (uint64_t j = 0; j < k; j++) sizes[j] = (IT) (o[j + 1] - o[j]);
        size_to_offset(off.data(), (const IT*) sizes.data(), (IT) k);
        st().checks++;
        if (off != want) violation("blocksize:offsets", fmt("%llu blocks", (unsigned long long) k));
        for (int j = 0; j < 200; j++) {
            uint64_t b = g.below(k), at = g.chance(40) ? o[b] : g.chance(50) ? o[b + 1] - 1 : o[b] + g.below(o[b + 1] - o[b]);
            st().checks++;
            if ((uint64_t) index_to_blockindex(off.data(), (IT) k, (IT) at) != b) { violation("blocksize:block-of-index", fmt("index %llu of %llu blocks", (unsigned long long) at, (unsigned long long) k)); break; }
        }
        uint64_t h = 0; for (auto x : o) h = hash_mix(h, x);
        distinct(h);
        count("offset arrays");
        return;
    }
    const uint64_t top = g.chance(30) ? 1ull << 40 : (1ull << 32) - 1;
    uint64_t m = any_dim(g, top), n = any_dim(g, top);
    size_t vs = g.chance(50) ? 4 : 8;
    int workers = g.chance(40) ? (int) g.range(1, 9) : (int) (1 << g.below(8));
    std::string w = fmt("pick_block_size(%llu, %llu, %zu, %d)", (unsigned long long) m, (unsigned long long) n, vs, workers);
    step(w); sample(w);
    distinct(hash_mix(hash_mix(m, n), hash_mix(vs, workers)));
    uint64_t b = check_size<uint64_t>(m, n, vs, workers, w + " 64-bit");
    if (m < (1ull << 32) && n < (1ull << 32)) b = check_size<uint32_t>(m, n, vs, workers, w);
    count("block sizes picked");
    // and the matrix fits in blocks of that size
    if (b && i % 4 == 1 && m <= 300000 && n <= 300000) {
        IT bb = pick_block_size<IT>((IT) m, (IT) n, sizeof(T), workers);
        if (!bb) return;
        Mat mm; mm.rows = m; mm.cols = n; mm.kind = "auto";
        for (int k = 0; k < 400; k++) mm.add(g.chance(20) ? m - 1 : g.chance(5) ? 0 : g.below(m), g.chance(20) ? n - 1 : g.below(n), (int) g.range(-3, 3));
        // up to two blocks are merged at the end
        if (sizeof(SIT) < 2) return;
        if (m / bb + 1 > 100000 || (m / bb + 1) * (double) (n / bb + 1) > 3e9) return;
        auto xi = int_vector(g, n, -3, 3);
        auto want = product(mm, xi, std::vector<int>(m, 0));
        std::vector<T> x(xi.begin(), xi.end()), y(m, 0);
        omp_set_num_threads(std::min(workers, 8));
        Coo3<T, IT> s; F::fill(&s, mm);
        step(w + " and build");
        if (g.chance(50)) { Cgbr<T, IT, uint16_t> A; Coo_to_Cgbr(&A, &s, bb, bb); A.spmv(x.data(), y.data()); release(A); }
        else { Cgbr2<T, IT, uint16_t> A; Coo_to_Cgbr(&A, &s, bb, bb); A.spmv(x.data(), y.data()); release(A); }
        release(s);
        st().checks++;
        for (uint64_t r = 0; r < m; r++) if ((double) y[r] != (double) want[r]) { violation("blocksize:product", w); break; }
        count("matrices built with the size picked");
    }
}

#endif

#ifdef PART_PARTITION
// -------------------------------------------------------------- partition
static void check_chunks(const std::vector<IT>& ch, uint64_t start, uint64_t end, const std::vector<IT>& bn, uint64_t nnz, int workers, const std::string& w) {
    st().checks++;
    if (ch.size() < 2 || ch.front() != start || ch.back() != end) { violation("partition:ends", w); return; }
    for (size_t k = 1; k < ch.size(); k++) if (ch[k] < ch[k - 1]) { violation("partition:order", w + fmt(" chunk %zu", k)); return; }
    st().checks++;
    uint64_t share = nnz * PARTITION_FACTOR / ((uint64_t) PARTITION_FACTOR_INV * workers);
    for (size_t k = 1; k < ch.size(); k++) {
        uint64_t inner = 0;
        for (uint64_t b = (uint64_t) ch[k - 1] + 1; b + 1 < (uint64_t) ch[k]; b++) inner += bn[b];
        if (inner > share) { violation("partition:too-large", w + fmt(" chunk %zu of %zu has %llu non-zeros between its first and last block, half a share is %llu", k, ch.size() - 1, (unsigned long long) inner, (unsigned long long) share)); return; }
    }
    count("chunks checked", ch.size() - 1);
    seen("chunks in a block-row", ch.size() - 1);
}
#ifndef NO_INTERNALS
// A matrix of counted blocks
struct Fake {
    IT nnz = 0;
    std::vector<IT> bn;
    IT block_nonzeros(IT i) const { return bn[i]; }
};
// A blocked matrix whose blocks write down when they are used, and how
struct LogBlock;
struct LogMatrix {
    bool balanced = false;
    IT rows = 0, columns = 0, nnz = 0;
    IT blockrows = 0, blockcols = 0, nnzblocks = 0;
    std::vector<IT> blockrow_ptr_, blockcol_ind_, ro, co, bn;
    IT *blockrow_ptr = nullptr, *blockcol_ind = nullptr, *blockrow_offset = nullptr, *blockcol_offset = nullptr;
    std::vector<LogBlock> blocks;
    BlockRowPartition<IT>* partition = nullptr;
    T const* x0 = nullptr; T* y0 = nullptr;
    IT nonzeros() const { return nnz; }
    IT block_nonzeros(IT i) const { return bn[i]; }
    IT get_block_row_offset(IT i) const { return ro[i]; }
    IT get_block_column_offset(IT i) const { return co[i]; }
    LogBlock const* block(IT i) const;
};
struct Event { uint32_t block; uint32_t thread; bool direct; };
static std::vector<Event> events;
static std::atomic<uint64_t> event_count{0};
struct LogBlock {
    LogMatrix* A; IT id, brow;
    std::atomic<uint32_t>* used;
    std::atomic<uint32_t>* bad;
    int weight;
    IT nonzeros() const { return A->bn[id]; }
    void spmv(T const* x, T* y) const {
        ompt_delay();
        used[id]++;
        uint64_t e = event_count++;
        bool direct = y >= A->y0 && y < A->y0 + A->rows;
        if (e < events.size()) events[e] = {(uint32_t) id, (uint32_t) omp_get_thread_num(), direct};
        if (x != A->x0 + A->co[A->blockcol_ind_[id]]) (*bad)++;
        if (direct && y != A->y0 + A->ro[brow]) (*bad)++;
        IT h = A->ro[brow + 1] - A->ro[brow];
        for (IT i = 0; i < h; i++) { y[i] += (T) weight; if ((i & 15) == 0) ompt_delay(); }
    }
};
LogBlock const* LogMatrix::block(IT i) const { return &blocks[i]; }

static void partition_standin(uint64_t i, Rng& g) {
    int workers = g.chance(30) ? (int) g.range(1, 40) : (int) g.range(1, 8);
    if (i == 0) {
        Fake A;
        size_t n = (size_t) g.range(0, g.chance(20) ? 800 : 30);
        int style = (int) g.below(4);
        for (size_t k = 0; k < n; k++) A.bn.push_back((IT) (style == 0 ? 1 : style == 1 ? g.range(1, 50) : style == 2 ? (g.chance(8) ? g.range(100, 5000) : g.range(1, 3)) : (uint64_t) g.range(0, 9)));
        for (auto b : A.bn) A.nnz += b;
        A.nnz += g.chance(50) ? 0 : (IT) g.below(10000);        // the rest of the matrix
        IT s = (IT) (g.chance(50) ? 0 : g.below(n + 1)), e = (IT) (g.chance(50) ? n : s + g.below(n - s + 1));
        std::string w = fmt("%zu blocks from %llu to %llu, %llu non-zeros, %d workers", n, (unsigned long long) s, (unsigned long long) e, (unsigned long long) A.nnz, workers);
        step(w); sample(w);
        uint64_t h = hash_mix(s, e); for (auto b : A.bn) h = hash_mix(h, b);
        distinct(hash_mix(h, workers));
        omp_set_num_threads(workers);
        BlockRowPartition<IT> p;
        if (g.chance(30)) p.chunks = {1, 2, 3};                 // used before
        partition_blockrow(&A, &p, s, e);
        check_chunks(p.chunks, s, e, A.bn, A.nnz, workers, w);
        count("block-rows partitioned");
        return;
    }
    // The multiplication follows the partition
    LogMatrix A;
    A.blockrows = (IT) g.range(1, 8); A.blockcols = (IT) g.range(1, 30);
    A.balanced = g.chance(15);
    A.ro = {0}; A.co = {0};
    for (IT k = 0; k < A.blockrows; k++) A.ro.push_back(A.ro.back() + (IT) g.range(1, g.chance(20) ? 200 : 10));
    for (IT k = 0; k < A.blockcols; k++) A.co.push_back(A.co.back() + (IT) g.range(1, 9));
    A.rows = A.ro.back(); A.columns = A.co.back();
    A.blockrow_ptr_ = {0};
    bool heavy = g.chance(50);
    for (IT r = 0; r < A.blockrows; r++) {
        int fill = heavy ? (r == 0 ? 100 : 10) : (int) g.below(101);
        for (IT c = 0; c < A.blockcols; c++) if (g.chance(fill)) { A.blockcol_ind_.push_back(c); A.bn.push_back((IT) (g.chance(10) ? g.range(50, 400) : g.range(1, 9))); A.nnz += A.bn.back(); }
        A.blockrow_ptr_.push_back((IT) A.blockcol_ind_.size());
    }
    A.nnzblocks = (IT) A.blockcol_ind_.size();
    A.blockrow_ptr = A.blockrow_ptr_.data(); A.blockcol_ind = A.blockcol_ind_.data(); A.blockrow_offset = A.ro.data(); A.blockcol_offset = A.co.data();
    std::vector<std::atomic<uint32_t>> used(A.nnzblocks + 1);
    std::atomic<uint32_t> bad{0};
    for (IT r = 0; r < A.blockrows; r++) for (IT k = A.blockrow_ptr_[r]; k < A.blockrow_ptr_[r + 1]; k++)
        A.blocks.push_back(LogBlock{&A, k, r, used.data(), &bad, (int) g.range(-4, 4)});
    Guarded<T> x(A.columns), y(A.rows);
    for (IT k = 0; k < A.rows; k++) y[k] = (T) 5;
    A.x0 = x.p; A.y0 = y.p;
    x.readonly();
    int build = (int) g.range(1, 16);
    std::string w = fmt("%llux%llu blocks, %llu used, %llu non-zeros, %s, partitioned for %d, run by %d", (unsigned long long) A.blockrows, (unsigned long long) A.blockcols, (unsigned long long) A.nnzblocks,
                        (unsigned long long) A.nnz, A.balanced ? "balanced" : "unbalanced", build, workers);
    step(w); sample(w);
    omp_set_num_threads(build);
    A.partition = new BlockRowPartition<IT>[A.blockrows];
    for (IT r = 0; r < A.blockrows; r++) {
        partition_blockrow(&A, A.partition + r, A.blockrow_ptr_[r], A.blockrow_ptr_[r + 1]);
        check_chunks(A.partition[r].chunks, A.blockrow_ptr_[r], A.blockrow_ptr_[r + 1], A.bn, A.nnz, build, w);
    }
    omp_set_num_threads(workers);
    perturb_with(g.below(4), g.next());
    int times = (int) g.range(1, 3);
    events.assign((size_t) A.nnzblocks * times + 10, Event{0, 0, false});
    event_count = 0;
    for (int t = 0; t < times; t++) spmv_blocked<LogMatrix, T, IT>(&A, A.x0, y.p);
    perturb_with(0, 1);
    st().checks += 3;
    for (IT k = 0; k < A.nnzblocks; k++) if (used[k] != (uint32_t) times) { violation("partition:block-uses", w + fmt(" block %llu used %u times instead of %d", (unsigned long long) k, (unsigned) used[k], times)); break; }
    if (bad) violation("partition:block-place", w + fmt(" %u blocks used with the wrong part of x or y", (unsigned) bad));
    for (IT r = 0; r < A.blockrows; r++) {
        int64_t want = 5;
        for (IT k = A.blockrow_ptr_[r]; k < A.blockrow_ptr_[r + 1]; k++) want += (int64_t) times * A.blocks[k].weight;
        for (IT q = A.ro[r]; q < A.ro[r + 1]; q++) if ((double) y[q] != (double) want) { violation("partition:sum", w + fmt(" row %llu is %g instead of %lld", (unsigned long long) q, (double) y[q], (long long) want)); r = A.blockrows - 1; break; }
    }
    uint64_t h = 0, temps = 0, n = event_count;
    std::set<uint32_t> ths;
    for (size_t k = 0; k < n && k < events.size(); k++) { h = hash_mix(h, events[k].block * 64ull + events[k].thread); ths.insert(events[k].thread); if (!events[k].direct) temps++; }
    seen("orders of block use", h);
    seen("threads taking part", ths.size());
    count("block uses logged", n);
    count("block uses into a temporary", temps);
    distinct(hash_mix(h, hash_mix(A.nnz, A.rows)));
    delete[] A.partition;
}

#endif
// A real matrix: its chunks, and what it multiplies with any number of workers
template <class M>
static void real_case(Rng& g, const char* name, bool narrow, bool dense_counts) {
    GenLimits l; l.max_nnz = g.chance(30) ? 20000 : 3000; l.max_dim = g.chance(20) ? 3000 : 300;
    larger(g, l);
    Mat m = generate(g, l);
    Blocking b = random_blocking(g, m.rows, m.cols, narrow ? F::local_max : ~0ull);
    if (g.chance(25)) fill_blocks(g, m, b);
    int build = g.chance(30) ? (int) g.range(1, 40) : (int) g.range(1, 8), workers = (int) g.range(1, 16);
    std::string w = fmt("%s %s %s, prepared for %d, run by %d", name, m.describe().c_str(), b.describe().c_str(), build, workers);
    step(w); sample(w);
    distinct(hash_mix(hash_mix(m.hash(), b.hash()), hash_mix(build, workers)));
    M A;
    omp_set_num_threads(build);
    { Coo3<T, IT> s; F::fill(&s, m); F::to_blocked(&A, &s, b, (int) g.below(2)); release(s); }
    std::map<std::pair<uint64_t, uint64_t>, uint64_t> n;
    std::vector<uint64_t> ro(A.blockrow_offset, A.blockrow_offset + A.blockrows + 1), co(A.blockcol_offset, A.blockcol_offset + A.blockcols + 1);
    auto at = [](const std::vector<uint64_t>& o, uint64_t i) { return (uint64_t) (std::upper_bound(o.begin(), o.end(), i) - o.begin() - 1); };
    // A dense block holds repeated positions once
    std::set<std::pair<uint64_t, uint64_t>> cells;
    for (size_t k = 0; k < m.nnz(); k++) n[{at(ro, m.r[k]), at(co, m.c[k])}] += !dense_counts || cells.insert({m.r[k], m.c[k]}).second;
    std::vector<IT> bn(A.nnzblocks);
    std::vector<uint64_t> row(A.blockrows, 0);
    uint64_t most = 0, seen_blocks = 0;
    for (IT r = 0; r < A.blockrows; r++) for (IT k = A.blockrow_ptr[r]; k < A.blockrow_ptr[r + 1] && k < A.nnzblocks; k++) {
        auto f = n.find({(uint64_t) r, (uint64_t) A.blockcol_ind[k]});
        st().checks++;
        if (f == n.end()) { violation("partition:no-such-block", w + fmt(" block %llu", (unsigned long long) k)); release(A); return; }
        bn[k] = (IT) f->second; row[r] += f->second; seen_blocks++;
        st().checks++;
        if (!dense_counts && (uint64_t) A.block_nonzeros(k) != f->second) violation("partition:block-nonzeros", w + fmt(" block %llu reports %llu non-zeros instead of %llu", (unsigned long long) k, (unsigned long long) A.block_nonzeros(k), (unsigned long long) f->second));
    }
    st().checks++;
    if (seen_blocks != n.size() || A.nnzblocks != n.size()) violation("partition:blocks", w + fmt(" has %llu blocks instead of %zu", (unsigned long long) A.nnzblocks, n.size()));
    // One worker gets everything of a block-row unless it is divided: block-rows far above
    // the mean have to be
    for (auto r : row) most = std::max(most, r);
    if (A.balanced && dense_counts && A.blockrows) {
        st().checks++;
        if ((double) most > 2.001 * (double) m.nnz() / (double) A.blockrows + 1) violation("partition:balanced", w + fmt(" is called balanced, but one of %llu block-rows has %llu of %zu non-zeros", (unsigned long long) A.blockrows, (unsigned long long) most, m.nnz()));
    }
    if (A.partition && (!A.balanced || !dense_counts)) {
        for (IT r = 0; r < A.blockrows; r++) check_chunks(A.partition[r].chunks, A.blockrow_ptr[r], A.blockrow_ptr[r + 1], bn, m.nnz(), build, w);
        if (g.chance(60)) A.balanced = false;
        count("block-rows partitioned", A.blockrows);
    }
    count(A.balanced ? "real matrices multiplied by block-rows" : "real matrices multiplied by chunks");
    omp_set_num_threads(workers);
    perturb_with(g.below(4), g.next());
    auto xi = int_vector(g, m.cols, -4, 4), yi = int_vector(g, m.rows, -4, 4);
    auto want = product(m, xi, yi);
    Guarded<T> x(m.cols), y(m.rows);
    for (uint64_t k = 0; k < m.cols; k++) x[k] = (T) xi[k];
    for (uint64_t k = 0; k < m.rows; k++) y[k] = (T) yi[k];
    x.readonly();
    A.spmv(x.p, y.p);
    perturb_with(0, 1);
    st().checks++;
    for (uint64_t k = 0; k < m.rows; k++) if ((double) y[k] != (double) want[k]) { violation("partition:product", w + fmt(" row %llu is %g instead of %g", (unsigned long long) k, (double) y[k], (double) want[k])); break; }
    release(A);
}
static void mode_partition(uint64_t i, Rng& g) {
    if (i % 3 == 2) {
        if (g.chance(40)) real_case<Cgbr<T, IT, SIT>>(g, "cgbr", true, true);
        else if (g.chance(50)) real_case<Csbr<T, IT>>(g, "csbr", false, false);
        else real_case<Cgbr2<T, IT, SIT>>(g, "cgbr2", true, true);
        return;
    }
#ifndef NO_INTERNALS
    partition_standin(i % 3, g);
#endif
}

#endif

#ifdef PART_STATS
// ------------------------------------------------------------------ stats
// What a function prints
static std::string captured(const std::function<void()>& f) {
    fflush(stdout);
    static int tmp = -1;
    if (tmp < 0) { tmp = (int) syscall(319 /* memfd_create */, "out", 0); if (tmp < 0) { FILE* t = tmpfile(); tmp = fileno(t); } }
    if (ftruncate(tmp, 0)) {}
    lseek(tmp, 0, SEEK_SET);
    int saved = dup(1);
    dup2(tmp, 1);
    f();
    fflush(stdout);
    dup2(saved, 1);
    close(saved);
    std::string s(lseek(tmp, 0, SEEK_CUR), 0);
    lseek(tmp, 0, SEEK_SET);
    ssize_t k = read(tmp, &s[0], s.size());
    s.resize(k > 0 ? k : 0);
    return s;
}
// All the numbers in a text
static std::vector<double> numbers(const std::string& s) {
    std::vector<double> v;
    for (size_t i = 0; i < s.size();) {
        if (isdigit((unsigned char) s[i]) || ((s[i] == '-' || s[i] == '.') && i + 1 < s.size() && isdigit((unsigned char) s[i + 1]))) {
            if (i && (isalpha((unsigned char) s[i - 1]))) { while (i < s.size() && isalnum((unsigned char) s[i])) i++; continue; }
            char* e; v.push_back(strtod(s.c_str() + i, &e)); i = e - s.c_str();
        } else i++;
    }
    return v;
}
static std::string line_with(const std::string& s, const char* what) {
    std::istringstream in(s);
    std::string l;
    while (std::getline(in, l)) if (l.find(what) != std::string::npos) return l;
    return "";
}
static void stats_matrix(Rng& g) {
    bool blocked = g.chance(80);
    std::string f = blocked ? g.pick(F::blocked_names()) : g.pick(F::plain_names());
    GenLimits l; l.max_nnz = g.chance(5) ? 40000 : 4200; l.max_dim = g.chance(10) ? 70000 : 3000;
    larger(g, l);
    if (f.substr(0, 5) == "dense") { l.wide = false; l.max_cells = 60000; l.max_dim = std::min<uint64_t>(l.max_dim, 3000); }
    if (f == "blockcoo" || f == "blockcoo2" || f == "cooblock" || f == "blockcsr" || f == "csrserial" || f == "csrparallel") {
        l.wide = l.wide && F::local_max > 300000;
        l.max_dim = std::min<uint64_t>(l.max_dim, F::local_max);
    }
    Mat m = generate(g, l);
    Blocking b = F::blocking_for(f, m, g);
    if (f == "cswr") {
        uint64_t width = F::pick_width(g, m);
        if (!width) width = DEFAULT_CSWR_WIDTH;
        Coo3<T, IT> s; F::fill(&s, m);
        Cswr<T, IT, SIT> A;
        Coo_to_Cswr(&A, &s, (IT) width);
        auto v = numbers(captured([&] { print_info(A); }));
        std::string w = fmt("cswr %s width %llu", m.describe().c_str(), (unsigned long long) width);
        st().checks++;
        std::vector<double> want = {(double) m.rows, (double) ((m.rows + width - 1) / width), (double) width, (double) m.nnz()};
        if (v != want) violation("stats:cswr:info", w);
        if (A.nonzeros() != m.nnz()) violation("stats:cswr:nonzeros", w);
        release(A); release(s);
        count("report cswr");
        distinct(hash_mix(m.hash(), width));
        return;
    }
    std::string w = f + " " + m.describe() + (blocked ? " " + b.describe() : "");
    step(w); sample(w);
    distinct(hash_mix(hash_mix(m.hash(), b.hash()), hash_bytes(f.data(), f.size())));
    omp_set_num_threads((int) g.range(1, 8));
    auto A = F::make(f, m, b, g);
    st().checks++;
    if (A->nonzeros() != ~0ull && A->nonzeros() != m.nnz()) violation(fmt("stats:%s:nonzeros", f.c_str()), w + fmt(" reports %llu", (unsigned long long) A->nonzeros()));
    count("report " + f);
    if (!blocked) return;
    // Truth
    std::vector<uint64_t> ro = b.ro, co = b.co;
    if (b.constant) {
        auto cut = [](uint64_t n, uint64_t s, bool up) { std::vector<uint64_t> o{0}; uint64_t k = up ? (n + s - 1) / s : n / s; if (!k) k = 1; for (uint64_t i = 1; i < k; i++) o.push_back(i * s); o.push_back(n); return o; };
        ro = cut(m.rows, b.br, f == "csbr3"); co = cut(m.cols, b.bc, f == "csbr3");
    }
    auto bi = [](const std::vector<uint64_t>& o, uint64_t i) { return (uint64_t) (std::upper_bound(o.begin(), o.end() - 1, i) - o.begin() - 1); };
    std::map<std::pair<uint64_t, uint64_t>, uint64_t> blocks;
    for (size_t i = 0; i < m.nnz(); i++) blocks[{bi(ro, m.r[i]), bi(co, m.c[i])}]++;
    st().checks++;
    if (A->blocks() != blocks.size()) violation(fmt("stats:%s:blocks", f.c_str()), w + fmt(" reports %llu non-zero blocks instead of %zu", (unsigned long long) A->blocks(), blocks.size()));
    std::string text = captured([&] { A->info(); });
    auto want = [&](const char* line, std::vector<double> v, const char* what, double tol = 0) {
        st().checks++;
        auto got = numbers(line_with(text, line));
        bool ok = got.size() >= v.size();
        for (size_t i = 0; ok && i < v.size(); i++) ok = std::fabs(got[i] - v[i]) <= tol + (tol != 0 ? 2e-6 * std::fabs(v[i]) : 0);
        if (!ok) violation(fmt("stats:%s:%s", f.c_str(), what), w + " prints \"" + line_with(text, line) + "\"");
    };
    double br = (double) ro.size() - 1, bc = (double) co.size() - 1, nnz = (double) m.nnz(), nb = (double) blocks.size();
    want("rows x", {(double) m.rows, (double) m.cols}, "size");
    if (f == "csbr3") want("blocks of size", {br, bc, (double) b.br}, "block-count");
    else want("block-rows x", {br, bc}, "block-count");
    want("non-zeros in", {nnz, nb}, "non-zeros");
    want("% non-zeros", {100.0 * nnz / ((double) m.rows * m.cols)}, "density", 0.0001);
    want("% non-zero blocks", {100.0 * nb / (br * bc)}, "block-density", 0.0001);
    if (f == "cgbr" || f == "cgbr2") {
        auto bl = numbers(line_with(text, "Blocks :")), nz = numbers(line_with(text, "Non-Zeros :"));
        double sb = 0, sn = 0;
        for (double v : bl) sb += v;
        for (double v : nz) sn += v;
        st().checks += 2;
        if (bl.size() < 4 || sb != nb) violation(fmt("stats:%s:types", f.c_str()), w + " prints \"" + line_with(text, "Blocks :") + fmt("\" for %g blocks", nb));
        if (nz.size() < 4 || sn != nnz) violation(fmt("stats:%s:type-nonzeros", f.c_str()), w + " prints \"" + line_with(text, "Non-Zeros :") + fmt("\" for %g non-zeros", nnz));
        for (size_t k = 0; k < bl.size() && k < nz.size(); k++) {
            if (bl[k] > 0) count(fmt("block type %zu", k), (uint64_t) bl[k]);
            st().checks++;
            if ((bl[k] == 0) != (nz[k] == 0) || nz[k] < bl[k]) { violation(fmt("stats:%s:type-mismatch", f.c_str()), w + fmt(" type %zu has %g blocks and %g non-zeros", k, bl[k], nz[k])); break; }
        }
    }
}
static void stats_timing(Rng& g) {
    unsigned n = (unsigned) (g.chance(30) ? g.range(1, 4) : g.range(1, g.chance(5) ? 20000 : 200));
    unsigned long nnz = (unsigned long) g.range(1, g.chance(50) ? 1000 : g.chance(70) ? 50000000 : 1ll << 40);
    std::vector<double> t(n);
    for (auto& v : t) v = g.chance(10) ? 0.5 : (double) g.range(1, 1000000) * (g.chance(50) ? 1e-6 : g.chance(90) ? 1e-8 : 1e-3);
    std::vector<double> s = t;
    std::sort(s.begin(), s.end());
    double mean = 0;
    for (double v : s) mean += v / n;
    double w[4] = {s[0], s[n / 2], mean, s[n - 1]};
    double med2 = n % 2 ? s[n / 2] : s[n / 2 - 1];
    auto mf = [&](double v) { return 2.0 * nnz / (v * 1e6); };
    auto near = [](double a, double b) { return std::fabs(a - b) <= 0.51 + 1e-5 * std::fabs(b); };
    std::string what = fmt("%u laps, %lu non-zeros", n, nnz);
    step(what); sample(what);
    uint64_t h = nnz; for (double v : t) h = hash_mix(h, (uint64_t) (v * 1e9));
    distinct(h);
    std::vector<double> c = t;
    std::string text = captured([&] { print_timing_csv("Method", nnz, n, c.data()); });
    auto v = numbers(text);
    st().checks++;
    if (text.compare(0, 7, "Method,") || v.size() != 4) { violation("stats:csv:form", what + " prints " + text); return; }
    for (int k = 0; k < 4; k++) if (!near(v[k], mf(w[k])) && !(k == 1 && (near(v[k], mf(med2)) || near(v[k], mf((med2 + s[n / 2]) / 2))))) { violation(fmt("stats:csv:%d", k), what + fmt(" field %d is %g instead of %g", k, v[k], mf(w[k]))); break; }
    c = t;
    text = captured([&] { print_timing_verbose("Method", nnz, n, c.data()); });
    static const char* names[] = {"best", "median", "mean", "worst"};
    std::istringstream in(text);
    std::map<std::string, std::pair<double, double>> got;
    std::string line;
    while (std::getline(in, line)) {
        size_t colon = line.rfind(':');
        if (colon == std::string::npos) continue;
        double x = strtod(line.c_str() + colon + 1, nullptr);
        for (auto nm : names) if (line.find(nm) != std::string::npos) (line.compare(0, 9, "Execution") ? got[nm].second : got[nm].first) = x;
    }
    st().checks++;
    for (int k = 0; k < 4; k++) {
        auto gv = got[names[k]];
        bool median = k == 1 && n % 2 == 0;
        if (std::fabs(gv.first - w[k]) > 1e-6 + 1e-6 * w[k] && !(median && gv.first >= med2 - 1e-6 && gv.first <= w[k] + 1e-6)) { violation(fmt("stats:verbose:time-%s", names[k]), what + fmt(" %s %g instead of %g", names[k], gv.first, w[k])); break; }
        if (median ? gv.second < mf(w[k]) - 0.51 - 1e-5 * mf(w[k]) || gv.second > mf(med2) + 0.51 + 1e-5 * mf(med2) : !near(gv.second, mf(w[k]))) { violation(fmt("stats:verbose:rate-%s", names[k]), what + fmt(" %s %g instead of %g", names[k], gv.second, mf(w[k]))); break; }
    }
    count("timing reports");
}
static void mode_stats(uint64_t i, Rng& g) { if (i % 4 == 3) stats_timing(g); else stats_matrix(g); }

#endif

#ifdef PART_VECTORS
// ---------------------------------------------------------------- vectors
// The vectors the programs multiply: every element is there, may be written,
// and is given back; names of files are told apart by their ends
template <class V, class I>
static void vector_case(Rng& g) {
    static const uint64_t per[] = {16 / sizeof(V), 64 / sizeof(V), 4096 / sizeof(V), 65536 / sizeof(V)};
    uint64_t n = g.chance(60) ? per[g.below(4)] * (uint64_t) g.range(1, 9) + (uint64_t) g.range(-1, 1) : (uint64_t) g.range(1, g.chance(80) ? 3000 : 200000);
    V *x = nullptr, *y = nullptr;
    std::string w = fmt("vectors of %llu elements of %zu bytes", (unsigned long long) n, sizeof(V));
    step(w); sample(w);
    distinct(hash_mix(n, sizeof(V) * 16 + sizeof(I)));
    vector_random<V, I>(&x, (I) n);
    vector_zero<V, I>(&y, (I) n);
    st().checks += 2;
    if (!x || !y) { violation("vectors:none", w); return; }
    for (uint64_t i = 0; i < n; i++) if (!(x[i] >= 0 && x[i] <= 1)) { violation("vectors:random", w + fmt(" element %llu", (unsigned long long) i)); break; }
    for (uint64_t i = 0; i < n; i++) if (y[i] != 0 || std::signbit((double) y[i])) { violation("vectors:zero", w + fmt(" element %llu", (unsigned long long) i)); break; }
    for (uint64_t i = 0; i < n; i++) { x[i] = (V) (i % 101); y[i] = (V) (i % 103); }
    st().checks++;
    for (uint64_t i = 0; i < n; i++) if (x[i] != (V) (i % 101) || y[i] != (V) (i % 103)) { violation("vectors:overlap", w); break; }
    vector_release(x); vector_release(y);
    count("elements of vectors", 2 * n);
}
static void name_case(Rng& g) {
    static const char* ends[] = {".mtx", ".bin", "", "x", ".tar.bin"};
    for (int k = 0; k < 40; k++) {
        std::string suffix = ends[g.below(5)], name;
        for (uint64_t i = g.below(9); i; i--) name += ".mtxbina"[g.below(8)];
        if (g.chance(40)) name += suffix;
        if (g.chance(10)) name += '.';
        if (g.chance(20)) name = suffix.substr(std::min<size_t>(suffix.size(), g.below(5)));
        bool ends_so = name.size() >= suffix.size() && std::equal(suffix.rbegin(), suffix.rend(), name.rbegin());
        Guarded<char> a(name.size() + 1), b(suffix.size() + 1);
        memcpy(a.p, name.c_str(), name.size() + 1); memcpy(b.p, suffix.c_str(), suffix.size() + 1);
        a.readonly(); b.readonly();
        st().checks++;
        if ((string_ends_with(a.p, b.p) != 0) != ends_so) { violation("names:ends-with", fmt("'%s' and '%s'", name.c_str(), suffix.c_str())); break; }
        count("names");
    }
}
static void mode_vectors(uint64_t i, Rng& g) {
    switch (i % 4) {
    case 0: vector_case<float, uint32_t>(g); break;
    case 1: vector_case<double, uint32_t>(g); break;
    case 2: vector_case<double, uint64_t>(g); break;
    default: name_case(g);
    }
}

#endif

static int run(int argc, char** argv) {
    init(argc, argv, "util");
    std::string mode = opt("mode", "perm");
    st().engine += ":" + mode;
    return run_cases([&](uint64_t i, Rng& g) {
        (void) i; (void) g;
#ifdef PART_PERM
        if (mode == "perm") mode_perm(i, g);
#endif
#ifdef PART_EXPAND
        if (mode == "expand") mode_expand(i, g);
#endif
#ifdef PART_BLOCKSIZE
        if (mode == "blocksize") mode_blocksize(i, g);
#endif
#ifdef PART_PARTITION
        if (mode == "partition") mode_partition(i, g);
#endif
#ifdef PART_STATS
        if (mode == "stats") mode_stats(i, g);
#endif
#ifdef PART_VECTORS
        if (mode == "vectors") mode_vectors(i, g);
#endif

    });
}
}
int main(int argc, char** argv) { return vf::run(argc, argv); }
