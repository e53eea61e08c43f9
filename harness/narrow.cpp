// Indices that do not fit the format's narrow local index type: the matrix is
// either still multiplied exactly or refused (the process stops); it is never
// stored with wrapped indices. Every case runs in a child process.
#include "formats.hpp"
#include <sys/wait.h>
#include "expand.h"
#include <sys/resource.h>
// Everything is inside the namespace, so that no name of the code under test
// can get in the way
namespace vf {

#ifndef CFG_T
#define CFG_T float
#define CFG_IT uint32_t
#define CFG_SIT uint8_t
#endif
typedef CFG_T T;
typedef CFG_IT IT;
typedef CFG_SIT SIT;
typedef Formats<T, IT, SIT> F;

static const uint64_t LM = F::local_max;

// A dimension near or beyond what local indices can hold
static uint64_t dim(Rng& g, bool may_be_small) {
    if (may_be_small && g.chance(35)) return g.range(1, (int64_t) LM);
    switch (g.below(6)) {
    case 0: return LM;
    case 1: return LM + 1;
    case 2: return LM + (uint64_t) g.range(1, 8);
    case 3: return 2 * LM - (uint64_t) g.range(0, 2);
    case 4: return 2 * LM + (uint64_t) g.range(0, 3);
    default: return LM + (uint64_t) g.range(1, (int64_t) (3 * LM));
    }
}

static Mat matrix(Rng& g, uint64_t R, uint64_t C) {
    Mat m;
    m.rows = R; m.cols = C;
    int k = (int) g.below(5);
    size_t n = (size_t) g.range(1, LM > 1000 ? 3000 : 1200);
    auto edge = [&](uint64_t lim) {   // around the limit of the local type
        if (lim <= LM || g.chance(40)) return g.below(lim);
        return std::min<uint64_t>(lim - 1, LM - 3 + g.below(6));
    };
    if (k == 0) { m.kind = "edge"; for (size_t i = 0; i < n / 8 + 1; i++) m.add(edge(R), edge(C), pick_val(g)); }
    else if (k == 1) { m.kind = "within"; for (size_t i = 0; i < n; i++) m.add(g.below(std::min(R, LM)), g.below(std::min(C, LM)), pick_val(g)); }
    else if (k == 2) { m.kind = "onebeyond";
        if (R >= 200 && g.chance(4)) { n = (size_t) g.range(60000, 220000); count("beyond the limit among very many"); }
        for (size_t i = 0; i < n; i++) m.add(g.below(std::min(R, LM)), g.below(std::min(C, LM)), pick_val(g));
        if (g.chance(50) || C <= LM) m.add(R - 1, g.below(std::min(C, LM)), 3); else m.add(g.below(std::min(R, LM)), C - 1, 3); }
    else if (k == 3) { m.kind = "rows"; for (uint64_t i = 0; i < R && i < 4000; i++) m.add(R > 4000 ? g.below(R) : i, g.below(C), pick_val(g)); }
    else { m.kind = "uniform"; for (size_t i = 0; i < n; i++) m.add(g.below(R), g.below(C), pick_val(g)); }
    return m;
}

static uint64_t last_block(uint64_t n, uint64_t s) { uint64_t k = std::max<uint64_t>(1, n / s); return n - (k - 1) * s; }

// 1x1 blocks, about as many as the index type can number: used, or refused
static Mat tiny_blocks(Rng& g, const std::string& f, Blocking& b, bool& wide) {
    static const uint64_t e[] = {65535, 65536, 65537, 65600, 66000, 70000};
    Mat m;
    m.kind = "tinyblocks";
    // Where blocks are counted in a table, fewer than 2^32 of them take too much of it
    const bool table = f == "csbr-coo2";
    do {
        m.rows = e[g.below(6)];
        m.cols = g.chance(50) ? m.rows : e[g.below(6)];
        if (f == "csbr3" && g.chance(80)) m.cols = m.rows;
    } while (table && m.rows * m.cols < (1ull << 32));
    size_t n = g.chance(25) ? 1 : (size_t) g.range(1, 40);
    bool last = n == 1 || g.chance(50);
    for (size_t i = last; i < n; i++) m.add(g.chance(50) ? g.below(m.rows) : m.rows - 1 - g.below(70), g.chance(50) ? g.below(m.cols) : m.cols - 1 - g.below(70), pick_val(g));
    if (last) m.add(m.rows - 1, m.cols - 1, 3);
    if (m.rows * m.cols > (1ull << 32) && g.chance(40)) {       // none far beyond
        Mat k; k.rows = m.rows; k.cols = m.cols; k.kind = m.kind;
        for (size_t i = 0; i < m.nnz(); i++) if (m.r[i] * m.cols + m.c[i] < (1ull << 32)) k.add(m.r[i], m.c[i], m.v[i]);
        for (int i = 0; i < 3; i++) {
            uint64_t id = (1ull << 32) - 1 + g.below(g.chance(50) ? 2 : std::min<uint64_t>(m.cols, m.rows * m.cols - (1ull << 32)));
            k.add(id / m.cols, id % m.cols, pick_val(g));
        }
        m = k;
    }
    if (g.chance(60))           // and the blocks whose numbers those beyond would be taken for
        for (size_t i = 0, have = m.nnz(); i < have; i++) {
            uint64_t id = m.r[i] * m.cols + m.c[i];
            if (id >> 32) { id &= 0xffffffff; m.add(id / m.cols, id % m.cols, pick_val(g)); }
        }
    b.constant = g.chance(60) || f == "csbr3";
    b.br = b.bc = 1;
    if (!b.constant) {
        for (uint64_t i = 0; i <= m.rows; i++) b.ro.push_back(i);
        for (uint64_t i = 0; i <= m.cols; i++) b.co.push_back(i);
    }
    wide = m.rows * m.cols > (1ull << 32) - table;
    return m;
}

static void body(uint64_t i, Rng& g) {
    static const std::vector<std::string> names = {"cgbr", "cgbr2", "csbr3", "cooblock", "blockcoo", "blockcoo2", "blockcsr", "csrserial", "csrparallel", "cswr",
        "cgbr", "cgbr2", "csbr3", "csbr", "csbr2"};
    std::string f = opt("format").empty() ? g.pick(names) : opt("format");
    if (sizeof(IT) == 4 && i % 40 == 19) {     // more cells than the index type can number
        static const std::vector<std::string> dense = {"dense", "denseserial", "denseparallel"};
        f = g.pick(dense);
    }
    const bool flat = f.substr(0, 5) == "dense";
    const bool tiny = sizeof(IT) == 4 && i % 40 == 39;
    static const std::vector<std::string> blocked = {"cgbr", "cgbr2", "csbr3", "csbr", "csbr2", "csbr-coo2"};
    if (tiny && opt("format").empty()) f = g.pick(blocked);
    Blocking b;
    bool wide;
    uint64_t R = dim(g, true), C = dim(g, R > LM);
    if (flat) {
        R = g.chance(40) ? 65535 + g.below(4) : (uint64_t) g.range(66000, g.chance(50) ? 100000 : 1000000);
        C = (1ull << 32) / R + g.below(g.chance(50) ? 5 : 1000);
        while (R * C < (1ull << 32)) C++;
        if (g.chance(50)) std::swap(R, C);
    }
    Mat m = tiny ? tiny_blocks(g, f, b, wide) : matrix(g, R, C);
    if (tiny) { count("divisions into about 2^32 blocks"); if (wide) count("divisions into more than 2^32 blocks"); }
    else if (f == "csbr3") b.br = b.bc = g.chance(10) ? (uint64_t) (IT) -1 - g.below(g.chance(50) ? 3 : 2 * LM) : std::max<uint64_t>(1, g.chance(50) ? dim(g, false) : std::min(R, C));
    else if (F::is_blocked(f)) {
        b.constant = g.chance(60);
        if (b.constant) { b.br = g.chance(50) ? R : dim(g, true); b.bc = g.chance(50) ? C : dim(g, true); if (g.chance(10)) b.br = (uint64_t) (IT) -1 - g.below(3); if (g.chance(10)) b.bc = (uint64_t) (IT) -1 - g.below(3); }
        else { b.ro = random_offsets(g, R, R, 300); b.co = random_offsets(g, C, C, 300); }
    }
    uint64_t width = 0;
    if (f == "cswr") width = g.chance(20) ? (uint64_t) (IT) -1 - g.below(g.chance(50) ? 3 : 2 * LM) : dim(g, true);
    if (flat) { wide = true; count("dense matrices of 2^32 cells and more"); }
    else if (tiny) {}
    else if (f == "cswr") wide = width > LM && R > LM;
    else if (!F::is_blocked(f)) wide = !F::fits(f, m);
    else if (b.constant) wide = last_block(R, b.br) > LM || last_block(C, b.bc) > LM;
    else {
        wide = false;
        for (size_t i = 1; i < b.ro.size(); i++) wide |= b.ro[i] - b.ro[i - 1] > LM;
        for (size_t i = 1; i < b.co.size(); i++) wide |= b.co[i] - b.co[i - 1] > LM;
    }
    if (!tiny && (f == "csbr" || f == "csbr2")) wide = false;      // these have full indices
    std::string w = f + " " + m.describe() + (F::is_blocked(f) ? " " + b.describe() : "") + (width ? fmt(" width %llu", (unsigned long long) width) : "");
    step(w); sample(w);
    count("format " + f);
    distinct(hash_mix(hash_mix(m.hash(), b.hash()), hash_bytes(f.data(), f.size()) + width));
    auto x = int_vector(g, m.cols, -50, 50);
    auto y0 = int_vector(g, m.rows, -50, 50);
    auto want = product(m, x, y0);
    int threads = (int) g.range(1, 4);
    pid_t pid = clean_fork();
    if (pid < 0) { perror("fork"); _exit(3); }
    if (pid == 0) {
        struct rlimit none = {0, 0};
        setrlimit(RLIMIT_CORE, &none);
        struct rlimit some = {8ull << 30, 8ull << 30};
        if (tiny || flat) setrlimit(RLIMIT_AS, &some);
        int fd = open("/dev/null", O_WRONLY);
        dup2(fd, 1); dup2(fd, 2);
        omp_set_num_threads(threads);
        Guarded<T> gx(m.cols), gy(m.rows);
        for (size_t j = 0; j < m.cols; j++) gx[j] = (T) x[j];
        for (size_t i = 0; i < m.rows; i++) gy[i] = (T) y0[i];
        if (f == "cswr") {
            Coo3<T, IT> s; F::fill(&s, m);
            Cswr<T, IT, SIT> A; Coo_to_Cswr(&A, &s, (IT) width);
            A.spmv(gx.p, gy.p);
        } else {
            auto A = F::make(f, m, b, g);
            A->mul(gx.p, gy.p);
        }
        bool ok = true;
        for (size_t i = 0; i < m.rows; i++) ok &= (double) gy[i] == (double) want[i];
        if (!gy.slack_intact()) _exit(43);
        _exit(ok ? 42 : 41);
    }
    int s = 0;
    waitpid(pid, &s, 0);
    forget_child(pid);
    st().checks++;
    if (wide) count("cases beyond the local index type");
    if (WIFEXITED(s) && WEXITSTATUS(s) == 42) { count(wide ? "beyond the limit: exact result" : "within the limit: exact result"); return; }
    if (WIFEXITED(s) && WEXITSTATUS(s) == 41) { violation("narrow:wrong-product", w + " is accepted and multiplied wrongly"); return; }
    if (WIFEXITED(s) && WEXITSTATUS(s) == 43) { violation("narrow:wrote-outside-y", w); return; }
    bool refused = (WIFSIGNALED(s) && WTERMSIG(s) == SIGABRT) || (WIFEXITED(s) && WEXITSTATUS(s) != 0);
    if (refused && wide) { count("beyond the limit: refused"); return; }
    if (refused) { violation("narrow:refused-valid", w + " fits the local index type but is refused"); return; }
    violation("narrow:crash", w + fmt(" ends with status %d signal %d", WIFEXITED(s) ? WEXITSTATUS(s) : -1, WIFSIGNALED(s) ? WTERMSIG(s) : 0));
}

// Divisions whose blocks, expanded to one size, end before or behind what the
// index type can hold: expanded exactly, or refused
template <class I>
static void expand_body(Rng& g) {
    using u128 = unsigned __int128;
    const uint64_t top = (uint64_t) std::numeric_limits<I>::max();
    const int bits = (int) sizeof(I) * 8;
    uint64_t blocks = g.chance(70) ? (uint64_t) g.range(1, 40) : g.chance(70) ? (uint64_t) g.range(1, 3000) : (uint64_t) g.range(65000, 66000);
    int power = 0;                      // the smallest power of two that is too large
    while (power < bits && ((u128) blocks << power) <= (u128) top + 1) power++;
    if (g.chance(30) && power > 0) power--;
    else if (g.chance(30) && power + 1 < bits) power += (int) g.below((uint64_t) (bits - power));
    const uint64_t half = power ? 1ull << (power - 1) : 0;
    const u128 size = (u128) 1 << power;
    std::vector<I> sizes(blocks);
    u128 all = 0;
    for (auto& v : sizes) { v = (I) (1 + g.below(g.chance(50) ? 3 : 1 + std::min<uint64_t>(half / blocks, 1000))); }
    sizes[g.chance(30) ? blocks - 1 : g.below(blocks)] = (I) (half + (g.chance(50) || half < 2 ? 1 : 1 + g.below(half - 1)));
    std::vector<uint64_t> from(blocks + 1);
    for (uint64_t b = 0; b < blocks; b++) { all += sizes[b]; from[b + 1] = (uint64_t) all; if (sizes[b] > size) return; }
    if (all > (u128) top) return;
    const bool fits = (u128) blocks * size <= (u128) top + 1 && size <= top;
    bool right = (u128) (blocks - 1) * size + sizes[blocks - 1] <= (u128) top + 1;     // all positions are representable
    uint64_t k = (uint64_t) g.range(1, 200);
    std::vector<I> idx(k);
    std::vector<u128> to(k);
    for (uint64_t i = 0; i < k; i++) {
        uint64_t b = g.chance(20) ? blocks - 1 : g.below(blocks), s = sizes[b], o = g.chance(20) ? 0 : g.chance(25) ? s - 1 : g.below(s);
        idx[i] = (I) (from[b] + o); to[i] = b * size + o;
        if (to[i] > (u128) top) right = false;
    }
    const bool elements = g.chance(50) && (u128) blocks * blocks <= (u128) top;
    int threads = (int) g.range(1, 4);
    std::string w = fmt("%llu blocks expanded to 2^%d, indices of %d bits, %s", (unsigned long long) blocks, power, bits, elements ? "elements" : "array");
    step(w); sample(w);
    uint64_t h = hash_mix(power, k);
    for (auto v : sizes) h = hash_mix(h, v);
    distinct(h);
    pid_t pid = clean_fork();
    if (pid < 0) { perror("fork"); _exit(3); }
    if (pid == 0) {
        struct rlimit none = {0, 0};
        setrlimit(RLIMIT_CORE, &none);
        int fd = open("/dev/null", O_WRONLY);
        dup2(fd, 1); dup2(fd, 2);
        omp_set_num_threads(threads);
        bool ok;
        if (elements) {
            std::vector<I> off(blocks + 1);
            std::vector<Element<T, I>> e(k);
            size_to_offset(off.data(), sizes.data(), (I) blocks);
            for (uint64_t i = 0; i < k; i++) { e[i].row = idx[i]; e[i].col = idx[k - 1 - i]; e[i].val = 1; }
            calculate_block_id(e.data(), (I) k, off.data(), (I) blocks, off.data(), (I) blocks);
            ok = (u128) expand_indeces(e.data(), (I) k, sizes.data(), off.data(), (I) blocks) == size;
            for (uint64_t i = 0; i < k; i++) ok &= (u128) e[i].row == to[i] && (u128) e[i].col == to[k - 1 - i];
        } else {
            ok = (u128) expand_indeces(idx.data(), (I) k, sizes.data(), (I) blocks) == size;
            for (uint64_t i = 0; i < k; i++) ok &= (u128) idx[i] == to[i];
        }
        _exit(ok ? 42 : 41);
    }
    int s = 0;
    waitpid(pid, &s, 0);
    forget_child(pid);
    st().checks++;
    count(fits ? "expansions that fit" : right ? "expansions whose padding does not fit" : "expansions that do not fit");
    if (WIFEXITED(s) && WEXITSTATUS(s) == 42) return;
    if (WIFEXITED(s) && WEXITSTATUS(s) == 41) { violation("expand:wrapped", w + " is accepted and expanded wrongly"); return; }
    bool refused = (WIFSIGNALED(s) && WTERMSIG(s) == SIGABRT) || (WIFEXITED(s) && WEXITSTATUS(s) != 0);
    if (refused && !fits) { count("expansions refused"); return; }
    if (refused) { violation("expand:refused-valid", w + " fits the index type but is refused"); return; }
    violation("expand:crash", w + fmt(" ends with status %d signal %d", WIFEXITED(s) ? WEXITSTATUS(s) : -1, WIFSIGNALED(s) ? WTERMSIG(s) : 0));
}

static int run(int argc, char** argv) {
    init(argc, argv, "narrow");
    if (opt("mode") == "expand") return run_cases([](uint64_t i, Rng& g) { if (i % 2) expand_body<uint64_t>(g); else expand_body<uint32_t>(g); });
    return run_cases(body);
}
}
int main(int argc, char** argv) { return vf::run(argc, argv); }
