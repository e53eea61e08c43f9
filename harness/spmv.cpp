// Multiplication through every storage format, judged by an exact oracle.
//   --mode exact | blocking | threads | frame | repro | concurrent | real
#include "formats.hpp"
#include "ompt_monitor.hpp"
#include <thread>
#include <condition_variable>
// Everything is inside the namespace, so that no name of the code under test
// can get in the way
namespace vf {

#ifndef CFG_T
#define CFG_T float
#define CFG_IT uint32_t
#define CFG_SIT uint16_t
#endif
typedef CFG_T T;
typedef Formats<CFG_T, CFG_IT, CFG_SIT> F;

static const std::vector<int> THREADS = {1, 2, 3, 4, 5, 7, 8, 12, 16};
static int pick_team(Rng& g) {                   // sometimes far more threads than anyone has cores
    static const int percent = opt("teams").empty() ? 0 : atoi(opt("teams").c_str());
    static const std::vector<int> large = {24, 32, 33, 63, 64, 65, 100, 127, 128, 129};
    return percent && g.chance(percent) ? g.pick(large) : g.pick(THREADS);
}
static bool light = false;      // instrumented builds get smaller inputs

static GenLimits limits(Rng& g, const std::string& f) {
    GenLimits l;
    bool big = g.chance(light ? 3 : 5);
    l.max_nnz = big ? (light ? 30000 : 70000) : light ? 2500 : 6000;
    if (light) l.max_dim = g.chance(6) ? 70000 : 3000;
    else if (g.chance(7)) l.max_dim = 1100000;
    if (g.chance((int) opt_n("big", 0))) { l.max_nnz = light ? 40000 : 70000; l.want_nnz = (size_t) g.range(3000, (int64_t) l.max_nnz); }
    if (g.chance((int) opt_n("wide", 4))) { l.wide = true; l.max_dim = 300000; l.max_nnz = std::min<size_t>(l.max_nnz, 6000); }
    if (g.chance((int) opt_n("tall", 0))) { l.tall = true; l.wide = false; l.max_dim = 300000; }
    if (g.chance((int) opt_n("heavy", 0))) { l.heavy = true; l.wide = false; l.max_dim = g.chance(40) ? 100 : g.chance(50) ? 3000 : 140000; }
    if (g.chance((int) opt_n("huge", 0))) { l.heavy = l.huge = true; l.wide = false; l.max_dim = g.chance(25) ? 300 : g.chance(25) ? 1300 : g.chance(50) ? 140000 : 2500000; }
    if (f.substr(0, 5) == "dense") {
        l.wide = false;
        l.max_cells = l.tall || (l.huge && g.chance(60)) ? 3000000 : 60000;
        l.max_dim = l.tall ? 300000 : l.max_cells > 60000 && g.chance(40) ? 140000 : std::min<uint64_t>(l.max_dim, l.max_dim == 1300 ? 1300 : g.chance(20) ? 70000 : 4000);
    }
    if (f == "blockcoo" || f == "blockcoo2" || f == "cooblock" || f == "blockcsr" || f == "csrserial" || f == "csrparallel")
        l.wide = l.wide && F::local_max > 300000, l.max_dim = std::min<uint64_t>(l.max_dim, F::local_max);
    return l;
}

// x holds large values where A has no non-zeros: they must not matter
struct Input {
    std::vector<int> x, y0;
    std::vector<char> col_used, row_used;
    Guarded<T> gx;
    Input(Rng& g, const Mat& m, bool trap = true) : gx(m.cols, g.chance(60)) {
        x = int_vector(g, m.cols, -5, 5);
        y0 = int_vector(g, m.rows, -20, 20);
        if (g.chance(20)) std::fill(y0.begin(), y0.end(), 0);
        col_used.assign(m.cols, 0); row_used.assign(m.rows, 0);
        for (size_t i = 0; i < m.nnz(); i++) { col_used[m.c[i]] = 1; row_used[m.r[i]] = 1; }
        for (size_t j = 0; j < m.cols; j++) {
            gx[j] = (T) x[j];
            if (trap && !col_used[j] && std::is_floating_point<T>::value) gx[j] = (T) ((j & 1) ? 1e30 : -3e29);
        }
        gx.readonly();
    }
};

static std::string first_diff(const std::vector<int64_t>& want, T* got) {
    size_t bad = 0, at = 0;
    for (size_t i = 0; i < want.size(); i++) if (!((double) got[i] == (double) want[i])) { if (!bad++) at = i; }
    return fmt("%zu of %zu results wrong, first y[%zu] = %.9g instead of %lld", bad, want.size(), at, (double) got[at], (long long) want[at]);
}
static bool same(const std::vector<int64_t>& want, T* got) {
    for (size_t i = 0; i < want.size(); i++) if (!((double) got[i] == (double) want[i])) return false;
    return true;
}

static void multiply_once(AnyMat<T>& A, const Mat& m, const Input& in, Rng& g, bool serial, const std::string& what, const char* key) {
    Guarded<T> y(m.rows, g.chance(60));
    for (size_t i = 0; i < m.rows; i++) y[i] = (T) in.y0[i];
    if (serial) A.mul_serial(in.gx.p, y.p); else A.mul(in.gx.p, y.p);
    st().checks++;
    auto want = product(m, in.x, in.y0);
    if (!same(want, y.p)) violation(fmt("%s:wrong-product", key), what + (serial ? " (serial) " : " ") + first_diff(want, y.p));
    if (!y.slack_intact()) violation(fmt("%s:wrote-outside-y", key), what);
    if (!in.gx.slack_intact()) violation(fmt("%s:wrote-outside-x", key), what);
}

static std::string pick_format(Rng& g, bool blocked_only = false) {
    if (!opt("format").empty()) return opt("format");
    if (opt_n("tall", 0) && g.chance(75)) return g.pick(F::plain_names());
    if (blocked_only || g.chance(55)) return g.pick(F::blocked_names());
    return g.pick(F::plain_names());
}

static void record(const std::string& f, const Mat& m, const Blocking& b, int tc, int tm, uint64_t extra = 0) {
    count("format " + f);
    count("pattern " + m.kind.substr(0, m.kind.find('/')));
    seen("shapes", hash_mix(m.rows, m.cols));
    if (F::is_blocked(f)) seen("blockings", b.hash());
    seen("thread pairs", tc * 1000 + tm);
    count("nonzeros multiplied", m.nnz());
    if (m.nnz() > 0) distinct(hash_mix(hash_mix(m.hash(), b.hash()), hash_mix(hash_bytes(f.data(), f.size()), tc * 64 + tm + extra * 4096)));
}

static std::string where(const std::string& f, const Mat& m, const Blocking& b, int tc, int tm) {
    return f + " " + m.describe() + (F::is_blocked(f) ? " " + b.describe() : "") + fmt(" threads %d/%d", tc, tm);
}

// ---------------------------------------------------------------------------
static void mode_exact(uint64_t, Rng& g) {
    std::string f = pick_format(g);
    Mat m = generate(g, limits(g, f));
    Blocking b = F::blocking_for(f, m, g);
    int tc = pick_team(g), tm = g.chance(50) ? tc : pick_team(g);
    if (light) { tc = std::min(tc, 4); tm = std::min(tm, 4); }
    record(f, m, b, tc, tm);
    std::string w = where(f, m, b, tc, tm);
    step(w);
    sample(w);
    Input in(g, m);
    omp_set_num_threads(tc);
    { auto A = F::make(f, m, b, g);
      omp_set_num_threads(tm);
      multiply_once(*A, m, in, g, false, w, "exact");
      if (A->has_serial()) multiply_once(*A, m, in, g, true, w, "exact"); }
}

// Small integers times powers of two chosen for each row and column: values over
// the whole range of the type, the smallest ones included, and still exact
static void scaled_case(Rng& g) {
    std::string f = pick_format(g);
    Mat m = generate(g, limits(g, f));
    Blocking b = F::blocking_for(f, m, g);
    const int low = std::numeric_limits<T>::min_exponent - std::numeric_limits<T>::digits, high = std::numeric_limits<T>::max_exponent - 28;
    const int style = (int) g.below(4);
    const int base = (int) g.range(low, high);
    std::vector<int> er(m.rows), ec(m.cols);
    for (auto& e : er) e = style == 0 ? base : style == 1 ? (int) g.range(low, high) : style == 2 ? std::max(low, std::min(high, base + (int) g.range(-8, 8))) : g.chance(10) ? base : 0;
    const int wide = g.chance(50) ? 0 : style == 1 ? 20 : high / 2;
    for (auto& e : ec) e = wide ? (int) g.range(-wide, wide) : 0;
    std::vector<char> used(m.cols, 0);
    for (size_t i = 0; i < m.nnz(); i++) {      // the value and its factor have to be representable
        int& e = er[m.r[i]];
        int c = ec[m.c[i]];
        e = std::min(high - std::max(c, 0), std::max(low - std::min(c, 0), e));
        used[m.c[i]] = 1;
    }
    std::vector<double> scaled(m.nnz());
    for (size_t i = 0; i < m.nnz(); i++) scaled[i] = ldexp((double) m.v[i], er[m.r[i]] + ec[m.c[i]]);
    m.real = scaled;
    int tc = pick_team(g), tm = pick_team(g);
    record(f, m, b, tc, tm);
    std::string w = where(f, m, b, tc, tm) + fmt(" values around 2^%d", base);
    step(w);
    sample("scaled: " + w);
    auto xi = int_vector(g, m.cols, -5, 5), yi = int_vector(g, m.rows, -20, 20);
    Guarded<T> x(m.cols), y(m.rows);
    for (size_t j = 0; j < m.cols; j++) x[j] = (T) ldexp((double) xi[j], -ec[j]);
    for (size_t i = 0; i < m.rows; i++) y[i] = (T) ldexp((double) yi[i], er[i]);
    auto want = product(m, xi, yi);
    omp_set_num_threads(tc);
    auto A = F::make(f, m, b, g);
    omp_set_num_threads(tm);
    A->mul(x.p, y.p);
    st().checks++;
    count("scaled products");
    for (size_t i = 0; i < m.rows; i++) if (!((double) y[i] == ldexp((double) want[i], er[i]))) {
        violation("exact:wrong-scaled-product", w + fmt(" y[%zu] = %.9g instead of %lld * 2^%d", i, (double) y[i], (long long) want[i], er[i]));
        break;
    }
}

// Non-integer values, compared within a rounding bound
static void mode_real(uint64_t, Rng& g) {
    if (g.chance(40)) { scaled_case(g); return; }
    std::string f = pick_format(g);
    Mat m = generate(g, limits(g, f));
    Blocking b = F::blocking_for(f, m, g);
    for (size_t i = 0; i < m.nnz(); i++) m.real.push_back((double) (float) (g.range(-1000000, 1000000) / 7919.0 * (g.chance(5) ? 1e6 : 1)));
    int tc = pick_team(g), tm = pick_team(g);
    record(f, m, b, tc, tm);
    std::string w = where(f, m, b, tc, tm);
    step(w);
    sample("real values: " + w);
    Guarded<T> x(m.cols), y(m.rows);
    std::vector<double> y0(m.rows);
    for (size_t j = 0; j < m.cols; j++) x[j] = (T) (g.range(-1000000, 1000000) / 104729.0);
    for (size_t i = 0; i < m.rows; i++) { y[i] = (T) (g.range(-1000, 1000) / 13.0); y0[i] = y[i]; }
    std::vector<long double> ref(m.rows), mag(m.rows); std::vector<int> cnt(m.rows);
    for (size_t i = 0; i < m.rows; i++) { ref[i] = y0[i]; mag[i] = fabs(y0[i]); }
    for (size_t i = 0; i < m.nnz(); i++) {
        long double p = (long double) (T) m.real[i] * (long double) x[m.c[i]];
        ref[m.r[i]] += p; mag[m.r[i]] += fabsl(p); cnt[m.r[i]]++;
    }
    omp_set_num_threads(tc);
    auto A = F::make(f, m, b, g);
    omp_set_num_threads(tm);
    A->mul(x.p, y.p);
    st().checks++;
    long double eps = std::numeric_limits<T>::epsilon();
    for (size_t i = 0; i < m.rows; i++) {
        long double bound = (cnt[i] + 4) * eps * mag[i] * 1.5L + std::numeric_limits<T>::min();
        if (!(fabsl((long double) y[i] - ref[i]) <= bound)) {
            violation("exact:outside-rounding", w + fmt(" y[%zu] = %.9g instead of %.9Lg (bound %.3Lg)", i, (double) y[i], ref[i], bound));
            break;
        }
    }
}

// Same matrix, several valid blockings
static void mode_blocking(uint64_t, Rng& g) {
    std::string f = opt("format").empty() ? g.pick(F::blocked_names()) : opt("format");
    GenLimits l = limits(g, f);
    Mat m = generate(g, l);
    int tc = pick_team(g);
    if (light) tc = std::min(tc, 4);
    for (int k = 0; k < 3; k++) {
        Blocking b = F::blocking_for(f, m, g);
        Input in(g, m);
        int tm = g.chance(60) ? tc : pick_team(g);
        record(f, m, b, tc, tm);
        std::string w = where(f, m, b, tc, tm);
        step(w);
        sample(w);
        omp_set_num_threads(tc);
        auto A = F::make(f, m, b, g);
        omp_set_num_threads(tm);
        // Unit probes locate a lost or repeated non-zero: one column at a time
        multiply_once(*A, m, in, g, false, w, "blocking");
        if (A->has_serial()) multiply_once(*A, m, in, g, true, w, "blocking");
        if (A->nonzeros() != ~0ull && A->nonzeros() != m.nnz())
            violation("blocking:nonzero-count", w + fmt(" holds %llu non-zeros instead of %zu", (unsigned long long) A->nonzeros(), m.nnz()));
        // Every non-zero exactly once: probe with x = e_j, entries tagged by row
        std::vector<uint64_t> cols;
        if (m.nnz()) for (int q = 0; q < 4; q++) cols.push_back(m.c[g.below(m.nnz())]);
        cols.push_back(g.below(m.cols)); cols.push_back(m.cols - 1); cols.push_back(0);
        for (uint64_t j : cols) {
            Guarded<T> x(m.cols), y(m.rows);
            for (size_t i = 0; i < m.cols; i++) x[i] = 0;
            for (size_t i = 0; i < m.rows; i++) y[i] = 0;
            x[j] = 1;
            x.readonly();
            std::vector<int64_t> want(m.rows, 0);
            for (size_t i = 0; i < m.nnz(); i++) if (m.c[i] == j) want[m.r[i]] += m.v[i];
            A->mul(x.p, y.p);
            st().checks++;
            if (!same(want, y.p)) { violation("blocking:column-content", w + fmt(" column %llu: ", (unsigned long long) j) + first_diff(want, y.p)); break; }
        }
        // x only inside one stretch of columns, results only in matching rows
    }
}

// Thread counts, nesting, calls from inside parallel regions, perturbed schedules
static void mode_threads(uint64_t i, Rng& g) {
    std::string f = pick_format(g, g.chance(50));
    GenLimits l = limits(g, f);
    if (g.chance(30)) l.min_dim = 40;
    Mat m = generate(g, l);
    Blocking b = F::blocking_for(f, m, g);
    int tc = pick_team(g);
    Input in(g, m);
#ifdef __clang__
    int levels = 1;
#else
    int levels = (int) g.range(1, 3);
#endif
    int context = (int) g.below(4);
    uint64_t lv = ompt().active ? g.below(4) : 0;
    perturb_with(lv, g.next());
    if (!opt("teams").empty()) levels = 1;       // many threads, but not many times many
    omp_set_max_active_levels(levels);
    omp_set_dynamic(g.chance(15));
    omp_set_num_threads(tc);
    std::string w0 = where(f, m, b, tc, 0) + fmt(" levels %d context %d perturb %d", levels, context, (int) lv);
    step("convert " + w0);
    sample(w0);
    typename F::Ptr A;
    if (context == 1) {            // conversion inside a parallel region
        Rng* pg = &g;
        #pragma omp parallel num_threads(3)
        #pragma omp single
        A = F::make(f, m, b, *pg);
    } else A = F::make(f, m, b, g);
    for (int k = 0; k < 4; k++) {
        int tm = pick_team(g);
        if (light) tm = std::min(tm, 8);
        record(f, m, b, tc, tm, levels * 8 + context);
        omp_set_num_threads(tm);
        std::string w = where(f, m, b, tc, tm) + fmt(" levels %d context %d perturb %d", levels, context, (int) lv);
        step(w);
        if (context == 2) {        // multiplication by one thread of a team
            Rng* pg = &g;
            #pragma omp parallel num_threads(4)
            #pragma omp single
            multiply_once(*A, m, in, *pg, false, w, "threads");
        } else multiply_once(*A, m, in, g, false, w, "threads");
    }
    omp_set_dynamic(0);
    omp_set_max_active_levels(1);
    A.reset();
    perturb_with(0, 1);
}

static bool bits_equal(T a, T b) { return memcmp(&a, &b, sizeof(T)) == 0 || (a == b); }

// y += A x, and nothing else
static void mode_frame(uint64_t, Rng& g) {
    std::string f = pick_format(g);
    Mat m = generate(g, limits(g, f));
    Blocking b = F::blocking_for(f, m, g);
    int tc = pick_team(g), tm = pick_team(g);
    if (light) { tc = std::min(tc, 4); tm = std::min(tm, 4); }
    record(f, m, b, tc, tm);
    std::string w = where(f, m, b, tc, tm);
    step(w);
    sample(w);
    omp_set_num_threads(tc);
    auto A = F::make(f, m, b, g);
    omp_set_num_threads(tm);
    Input in(g, m);
    // Rows without non-zeros keep whatever they had
    std::vector<T> special;
    if (std::is_floating_point<T>::value)
        special = {(T) 1e30, (T) -2.5e-30, std::numeric_limits<T>::infinity(), -std::numeric_limits<T>::infinity(),
                   std::numeric_limits<T>::quiet_NaN(), std::numeric_limits<T>::denorm_min(), std::numeric_limits<T>::max(), (T) 0.1};
    else special = {std::numeric_limits<T>::max(), (T) 77};
    int n1 = (int) g.range(1, 4);
    Guarded<T> y(m.rows, g.chance(60)), z(m.rows, true);
    std::vector<T> before(m.rows);
    for (size_t i = 0; i < m.rows; i++) {
        y[i] = in.row_used[i] ? (T) in.y0[i] : special[g.below(special.size())];
        before[i] = y[i];
        z[i] = 0;
    }
    Input in2(g, m);
    for (int k = 0; k < n1; k++) {
        if (A->has_serial() && g.chance(25)) A->mul_serial(in.gx.p, y.p); else A->mul(in.gx.p, y.p);
        if (g.chance(60)) {   // an unrelated multiplication in between, into another vector
            std::vector<int64_t> want;
            std::vector<int> z0(m.rows);
            for (size_t i = 0; i < m.rows; i++) { z0[i] = (int) g.range(-3, 3); z[i] = (T) z0[i]; }
            A->mul(in2.gx.p, z.p);
            want = product(m, in2.x, z0);
            st().checks++;
            if (!same(want, z.p)) violation("frame:other-product", w + " " + first_diff(want, z.p));
        }
    }
    auto want = product(m, in.x, in.y0, n1);
    st().checks++;
    for (size_t i = 0; i < m.rows; i++) {
        if (in.row_used[i]) {
            if ((double) y[i] != (double) want[i]) {
                violation("frame:accumulate", w + fmt(" after %d multiplications y[%zu] = %.9g instead of %lld", n1, i, (double) y[i], (long long) want[i]));
                break;
            }
        } else if (!bits_equal(y[i], before[i])) {
            violation("frame:untouched-row", w + fmt(" row %zu has no non-zeros but y changed from %.9g to %.9g", i, (double) before[i], (double) y[i]));
            break;
        } else count("rows without non-zeros watched");
    }
    if (!y.slack_intact() || !z.slack_intact()) violation("frame:wrote-outside-y", w);
    if (A->nonzeros() != ~0ull && A->nonzeros() != m.nnz())
        violation("frame:matrix-changed", w + fmt(" reports %llu non-zeros", (unsigned long long) A->nonzeros()));
    // Vectors that change in place between two multiplications, and change their parts
    if (g.chance(35)) {
        Guarded<T> p(std::max(m.rows, m.cols)), q(std::max(m.rows, m.cols));
        std::vector<int> xi = int_vector(g, m.cols, -5, 5);
        int n2 = (int) g.range(2, 5);
        bool turned = false;
        for (int k = 0; k < n2; k++) {
            if (k && g.chance(30)) turned = !turned;
            if (g.chance(40)) xi = int_vector(g, m.cols, -5, 5);
            else if (m.nnz() && g.chance(80)) { int& e = xi[m.c[g.below(m.nnz())]]; e = e == 5 ? -5 : e + 1; }
            T *xp = turned ? q.p : p.p, *yp = turned ? p.p : q.p;
            std::vector<int> yi = int_vector(g, m.rows, -20, 20);
            for (size_t i = 0; i < m.cols; i++) xp[i] = (T) xi[i];
            for (size_t i = 0; i < m.rows; i++) yp[i] = (T) yi[i];
            A->mul(xp, yp);
            auto now = product(m, xi, yi);
            st().checks++;
            count("products after a change of x in place");
            if (!same(now, yp)) { violation("frame:changed-in-place", w + fmt(" multiplication %d ", k) + first_diff(now, yp)); break; }
        }
    }
    // An element of x that is no number concerns only the rows with a non-zero
    // in its column. Dense storage multiplies it with zeros as well.
    if (std::is_floating_point<T>::value && m.nnz() && f.substr(0, 5) != "dense" && f.substr(0, 4) != "cgbr" && g.chance(30)) {
        uint64_t c = m.c[g.below(m.nnz())];
        Guarded<T> xs(m.cols);
        for (size_t i = 0; i < m.cols; i++) xs[i] = (T) in.x[i];
        xs[c] = g.chance(50) ? std::numeric_limits<T>::infinity() : std::numeric_limits<T>::quiet_NaN();
        xs.readonly();
        std::vector<char> hit(m.rows);
        for (size_t i = 0; i < m.nnz(); i++) if (m.c[i] == c) hit[m.r[i]] = 1;
        std::vector<int> z0(m.rows);
        for (size_t i = 0; i < m.rows; i++) z[i] = (T) (z0[i] = (int) g.range(-3, 3));
        A->mul(xs.p, z.p);
        auto only = product(m, in.x, z0);
        st().checks++;
        count("products with an element of x that is no number");
        for (size_t i = 0; i < m.rows; i++)
            if (hit[i] ? std::isfinite((double) z[i]) : (double) z[i] != (double) only[i]) {
                violation("frame:other-columns", w + fmt(" x[%llu] is %g and y[%zu], which has %s non-zero there, becomes %g instead of %lld", (unsigned long long) c, (double) xs[c], i, hit[i] ? "a" : "no", (double) z[i], (long long) only[i]));
                break;
            }
    }
}

// The same bits for every number of threads and every run
static void mode_repro(uint64_t, Rng& g) {
    std::string f = pick_format(g, g.chance(60));
    GenLimits l = limits(g, f);
    if (g.chance(50)) l.min_dim = 60;
    Mat m = generate(g, l);
    Blocking b = F::blocking_for(f, m, g);
    for (size_t i = 0; i < m.nnz(); i++) m.real.push_back(g.range(-1000000, 1000000) / 7919.0 * (g.chance(20) ? 1e7 : 1));
    int tc = pick_team(g);
    std::string w0 = where(f, m, b, tc, 0);
    step(w0);
    sample(w0);
    Guarded<T> x(m.cols);
    std::vector<T> y0(m.rows);
    for (size_t j = 0; j < m.cols; j++) x[j] = (T) (g.range(-1000000, 1000000) / 104729.0);
    for (auto& e : y0) e = (T) (g.range(-1000, 1000) / 13.0);
    x.readonly();
    omp_set_num_threads(tc);
    uint64_t save = g.s;
    auto A = F::make(f, m, b, g);
    g.s = save;
    perturb_with(0, 1);
    auto B = F::make(f, m, b, g);      // converted again, with the same number of threads
    std::vector<T> first;
    for (int k = 0; k < 6; k++) {
        int tm = k == 0 ? 1 : pick_team(g);
        int levels = 1;
        omp_set_num_threads(tm);
        omp_set_max_active_levels(levels);
        perturb_with(ompt().active ? g.below(4) : 0, g.next());
        record(f, m, b, tc, tm, 100 + k);
        std::vector<T> y = y0;
        (k == 5 ? B : A)->mul(x.p, y.data());
        st().checks++;
        if (k == 0) first = y;
        else if (memcmp(first.data(), y.data(), y.size() * sizeof(T))) {
            size_t at = 0;
            while (!memcmp(&first[at], &y[at], sizeof(T))) at++;
            violation(k == 5 ? "repro:second-conversion" : "repro:bits-differ",
                      where(f, m, b, tc, tm) + fmt(" y[%zu] = %.17g and with 1 thread %.17g", at, (double) y[at], (double) first[at]));
            break;
        }
    }
    perturb_with(0, 1);
    omp_set_max_active_levels(1);
}

// One matrix used by several callers at once; several conversions at once
static void mode_concurrent(uint64_t, Rng& g) {
    std::string f = pick_format(g, g.chance(40));
    GenLimits l = limits(g, f);
    l.max_nnz = std::min<size_t>(l.max_nnz, 3000);
    Mat m = generate(g, l);
    Blocking b = F::blocking_for(f, m, g);
    int callers = (int) g.range(2, 5), tc = pick_team(g), tm = (int) g.range(1, 4);
    // libomp itself crashes now and then with nested active regions: those
    // are left to the build with the other runtime
#ifdef __clang__
    int kind = g.chance(50) ? 0 : 2;
#else
    int kind = (int) g.below(4);
#endif
    uint64_t lv = ompt().active ? g.below(4) : 0;
    perturb_with(lv, g.next());
    record(f, m, b, tc, tm, 200 + kind * 8 + callers);
    std::string w = where(f, m, b, tc, tm) + fmt(" %d callers kind %d", callers, kind);
    step(w);
    sample(w);
    count(kind == 0 ? "shared matrix, threads" : kind == 1 ? "shared matrix, parallel region" : kind == 2 ? "separate conversions, threads" : "separate conversions, parallel region");
    omp_set_num_threads(tc);
    typename F::Ptr A;
    if (kind < 2) A = F::make(f, m, b, g);
    std::vector<std::unique_ptr<Input>> ins;
    std::vector<std::unique_ptr<Guarded<T>>> ys;
    std::vector<Rng> gs;
    for (int k = 0; k < callers; k++) {
        ins.emplace_back(new Input(g, m));
        ys.emplace_back(new Guarded<T>(m.rows));
        for (size_t i = 0; i < m.rows; i++) (*ys[k])[i] = (T) ins[k]->y0[i];
        gs.push_back(Rng(g.next()));
    }
    auto work = [&](int k) {
        for (int rep = 0; rep < 2; rep++) {
            if (kind >= 2) { auto B = F::make(f, m, b, gs[k]); B->mul(ins[k]->gx.p, ys[k]->p); }
            else A->mul(ins[k]->gx.p, ys[k]->p);
        }
    };
    if (kind & 1) {
        omp_set_max_active_levels(2);
        #pragma omp parallel for schedule(static, 1) num_threads(callers)
        for (int k = 0; k < callers; k++) work(k);
        omp_set_max_active_levels(1);
    } else {
        callers_pool().run(callers, [&](int k) { omp_set_num_threads(tm); work(k); });
    }
    for (int k = 0; k < callers; k++) {
        auto want = product(m, ins[k]->x, ins[k]->y0, 2);
        st().checks++;
        if (!same(want, ys[k]->p)) violation("concurrent:wrong-product", w + fmt(" caller %d: ", k) + first_diff(want, ys[k]->p));
        if (!ys[k]->slack_intact()) violation("concurrent:wrote-outside-y", w);
    }
    perturb_with(0, 1);
}

static int run(int argc, char** argv) {
    init(argc, argv, "spmv");
    light = opt_n("light", 0);
    std::string mode = opt("mode", "exact");
    st().engine += ":" + mode;
    std::function<void(uint64_t, Rng&)> body;
    if (mode == "exact") body = mode_exact;
    else if (mode == "real") body = mode_real;
    else if (mode == "blocking") body = mode_blocking;
    else if (mode == "threads") body = mode_threads;
    else if (mode == "frame") body = mode_frame;
    else if (mode == "repro") body = mode_repro;
    else if (mode == "concurrent") body = mode_concurrent;
    else return 3;
    return run_cases([&](uint64_t i, Rng& g) {
        body(i, g);
        if (i + 1 == st().to) {
            Ompt& o = ompt();
            if (o.active) {
                count("observed parallel regions", o.parallels); count("observed explicit tasks", o.tasks);
                count("observed task switches", o.switches); count("observed loop starts", o.loops);
                count("observed loop chunks", o.chunks); count("observed task waits", o.waits); count("injected delays", o.delays);
            }
        }
    });
}
}
int main(int argc, char** argv) { return vf::run(argc, argv); }
