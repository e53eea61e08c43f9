// Ownership: what conversions and multiplications allocate is given back by
// release, with the matching function, and nothing is released twice.
//   --mode formats | sources
#include "formats.hpp"
#include "ompt_monitor.hpp"
#include "ledger.hpp"
#include <functional>
#include <map>
// Everything is inside the namespace, so that no name of the code under test
// can get in the way
namespace vf {

#ifndef CFG_T
#define CFG_T float
#define CFG_IT uint32_t
#define CFG_SIT uint16_t
#endif
typedef CFG_T T;
typedef CFG_IT IT;
typedef CFG_SIT SIT;
typedef Formats<T, IT, SIT> F;
static bool light = false;

static GenLimits limits(Rng& g, const std::string& f) {
    GenLimits l;
    l.max_nnz = g.chance(4) ? (light ? 30000 : 70000) : light ? 2000 : 5000;
    l.max_dim = g.chance(5) ? 70000 : 3000;
    if (g.chance((int) opt_n("big", 0))) { l.max_nnz = light ? 40000 : 70000; l.want_nnz = (size_t) g.range(3000, (int64_t) l.max_nnz); }
    if (g.chance((int) opt_n("wide", 4))) { l.wide = true; l.max_dim = 300000; l.max_nnz = std::min<size_t>(l.max_nnz, 6000); }
    if (g.chance((int) opt_n("tall", 0))) { l.tall = true; l.wide = false; l.max_dim = 300000; }
    if (g.chance((int) opt_n("heavy", 0))) { l.heavy = true; l.wide = false; l.max_dim = g.chance(40) ? 100 : g.chance(50) ? 3000 : 140000; }
    if (g.chance((int) opt_n("huge", 0))) { l.heavy = l.huge = true; l.wide = false; l.max_dim = g.chance(25) ? 300 : g.chance(25) ? 1300 : g.chance(50) ? 140000 : 2500000; }
    if (f.substr(0, 5) == "dense") { l.wide = false; l.max_cells = l.tall ? 500000 : 60000; l.max_dim = l.tall ? 300000 : g.chance(20) ? 70000 : 3000; }
    if (f == "blockcoo" || f == "blockcoo2" || f == "cooblock" || f == "blockcsr" || f == "csrserial" || f == "csrparallel")
        l.wide = l.wide && F::local_max > 300000, l.max_dim = std::min<uint64_t>(l.max_dim, F::local_max);
    return l;
}
static bool same(const std::vector<int64_t>& want, T* got) {
    for (size_t i = 0; i < want.size(); i++) if (!((double) got[i] == (double) want[i])) return false;
    return true;
}

static void warm_up() {
    // The OpenMP runtime allocates on first use
    #pragma omp parallel num_threads(16)
    {
        #pragma omp single
        for (int i = 0; i < 64; i++) {
            #pragma omp task
            { volatile int x = i; (void) x; }
        }
    }
}

// ---------------------------------------------------------------------------
static void mode_formats(uint64_t, Rng& g) {
    std::string f = g.chance(60) ? g.pick(F::blocked_names()) : g.pick(F::plain_names());
    Mat m = generate(g, limits(g, f));
    Blocking b = F::blocking_for(f, m, g);
    int tc = (int) g.range(1, 8), tm = (int) g.range(1, 8), muls = (int) g.range(0, 3);
    std::string w = f + " " + m.describe() + (F::is_blocked(f) ? " " + b.describe() : "") + fmt(" threads %d/%d", tc, tm);
    step(w); sample(w);
    count("format " + f);
    distinct(hash_mix(hash_mix(m.hash(), b.hash()), hash_mix(hash_bytes(f.data(), f.size()), tc * 64 + tm)));
    Guarded<T> x(m.cols), y(m.rows);
    for (size_t j = 0; j < m.cols; j++) x[j] = 1;
    for (size_t j = 0; j < m.rows; j++) y[j] = 0;
    {
        Watch watch(f.c_str(), w);
        omp_set_num_threads(tc);
        auto A = F::make(f, m, b, g);
        omp_set_num_threads(tm);
        for (int k = 0; k < muls; k++) A->mul(x.p, y.p);
        if (A->has_serial()) A->mul_serial(x.p, y.p);
    }
    count("matrices released");
}

// One source converted to several formats in a row: all but the last
// conversion only reorder it
template <class S> struct Src;
template <> struct Src<Coo2<T, IT>> { static Triplet<T, IT>* p(Coo2<T, IT>& s) { return s.triplets; } };
template <> struct Src<Coo3<T, IT>> { static Element<T, IT>* p(Coo3<T, IT>& s) { return s.elements; } };

typedef std::vector<std::array<int64_t, 3>> Content;
template <class S>
static Content content(S& s) {
    Content c;
    for (IT i = 0; i < s.nnz; i++) c.push_back({{(int64_t) s.get_row_index(i), (int64_t) s.get_column_index(i), (int64_t) s.get_value(i)}});
    std::sort(c.begin(), c.end());
    return c;
}

template <class M, class MUL>
static void use(const char* name, M& A, const Mat& m, const std::vector<int>& xi, T* x, const std::string& w, MUL mul) {
    std::vector<int> y0(m.rows, 1);
    Guarded<T> y(m.rows);
    for (size_t i = 0; i < m.rows; i++) y[i] = 1;
    mul(A, x, y.p);
    st().checks++;
    if (!same(product(m, xi, y0), y.p)) violation(fmt("sources:%s:wrong-product", name), w);
}

// Matrices kept while their source goes on changing and others are released, and
// objects that are prepared again after they were released
template <class X, class Y>
struct Shelf {
    struct Held { std::string name; std::function<void(X, Y)> mul; std::function<void()> drop; };
    std::vector<Held> held;
    std::map<std::string, void*> empty;
    std::vector<std::function<void()>> last;
    template <class M> M* object(const char* name, bool again) {
        auto it = empty.find(name);
        if (again && it != empty.end()) { M* A = (M*) it->second; empty.erase(it); count("objects prepared again"); return A; }
        M* A = new M;
        last.push_back([A] { delete A; });
        return A;
    }
    ~Shelf() {
        while (!held.empty()) { held.back().drop(); held.pop_back(); }
        for (auto& f : last) f();
    }
};

template <class S>
static void convert_chain(Rng& g, const char* sname) {
    GenLimits l;
    l.max_nnz = g.chance(6) ? 40000 : 4200; l.max_dim = g.chance(15) ? 70000 : 1200; l.max_cells = 200000;
    larger(g, l);
    Mat m = generate(g, l);
    auto xi = int_vector(g, m.cols, -4, 4);
    Guarded<T> x(m.cols);
    for (size_t j = 0; j < m.cols; j++) x[j] = (T) xi[j];
    x.readonly();
    int steps = (int) g.range(2, 6);
    std::string w = std::string(sname) + " " + m.describe();
    step(w);
    omp_set_num_threads((int) g.range(1, 8));
    auto mul = [](auto& A, T* x, T* y) { A.spmv(x, y); };
    S s;
    F::fill(&s, m);
    Content before = content(s);
    std::string path = w;
    distinct(hash_mix(m.hash(), g.s));
    Shelf<T*, T*> shelf;
    std::string held_path;
    const bool keeping = g.chance(50);
    auto held_are_right = [&](const char* when) {
        for (size_t k = 0; k < shelf.held.size(); k++) {
            std::vector<int> y0(m.rows, 1);
            Guarded<T> y(m.rows);
            for (size_t i = 0; i < m.rows; i++) y[i] = 1;
            shelf.held[k].mul(x.p, y.p);
            st().checks++;
            count("matrices multiplied after changes of others");
            if (!same(product(m, xi, y0), y.p)) { violation(fmt("sources:%s:changed-later", shelf.held[k].name.c_str()), path + " " + when); return; }
        }
    };
    for (int k = 0; k < steps; k++) {
        bool last = (k == steps - 1);
        int c = (int) g.below(std::is_same<S, Coo3<T, IT>>::value ? (last ? 11 : 9) : (last ? 8 : 7));
        uint64_t width = F::pick_width(g, m);
        Blocking b = random_blocking(g, m.rows, m.cols, F::local_max);
        uint64_t xs = g.s;
        const char* name = "";
        bool consuming = false, keep = keeping && g.chance(60), again = g.chance(60);
        step(path + fmt(" + conversion %d", c));
        // prepares A, multiplies with it, and keeps or releases it
        auto through = [&](const char* n, auto tag, auto make, auto times) {
            typedef typename std::remove_pointer<decltype(tag)>::type M;
            name = n;
            M* A = shelf.template object<M>(n, again);
            if (keep) {
                make(A);
                use(n, *A, m, xi, x.p, path, times);
                shelf.held.push_back({n, [A, times](T* x, T* y) { times(*A, x, y); }, [A] { release(*A); }});
            } else {
                { Watch watch(n, path); make(A); use(n, *A, m, xi, x.p, path, times); release(*A); }
                shelf.empty[n] = A;
            }
        };
        auto crcsr = [](auto& A, T* x, T* y) { spmv(&A, x, y); };
        switch (c) {
        case 0: through("csr", (Csr<T, IT>*) nullptr, [&](auto* A) { Coo_to_Csr(A, &s); }, mul); break;
        case 1: through("csr2", (Csr2<T, IT>*) nullptr, [&](auto* A) { Coo_to_Csr(A, &s); }, mul); break;
        case 2: through("crcsr", (CompRowCsr<T, IT>*) nullptr, [&](auto* A) { Coo_to_CrCsr(A, &s); }, crcsr); break;
        case 3: through("cswr", (Cswr<T, IT, SIT>*) nullptr, [&](auto* A) { if (width) Coo_to_Cswr(A, &s, (IT) width); else Coo_to_Cswr(A, &s); }, mul); break;
        case 4: through("dense", (BlockDense<T, IT>*) nullptr, [&](auto* A) { Coo_to_Dense(A, &s); }, mul); break;
        case 5: through("coo", (Coo<T, IT, IT>*) nullptr, [&](auto* A) {
                    if constexpr (std::is_same<S, Coo2<T, IT>>::value) Coo_to_Coo(A, &s);
                    else Coo_to_Coo(A, s.elements, s.rows, s.columns, s.nnz); }, mul); break;
        case 6: { name = "sort"; sort_triplets(Src<S>::p(s), s.nnz, g.chance(50)); break; }
        default: {
            auto blocked = [&](auto* A) { F::to_blocked(A, &s, b, (int) (xs & 1)); };
            if constexpr (std::is_same<S, Coo3<T, IT>>::value) {
                if (c == 7) through("csbr", (Csbr<T, IT>*) nullptr, blocked, mul);
                else if (c == 8) through("csbr2", (Csbr2<T, IT>*) nullptr, blocked, mul);
                else if (c == 9) { consuming = true; through("cgbr", (Cgbr<T, IT, SIT>*) nullptr, blocked, mul); }
                else { consuming = true; through("cgbr2", (Cgbr2<T, IT, SIT>*) nullptr, blocked, mul); }
            } else { consuming = true; through("csbr-coo2", (Csbr<T, IT>*) nullptr, blocked, mul); }
        } }
        path += std::string(" > ") + name + (keep ? " (kept)" : "");
        count(std::string("converted to ") + name);
        if (!consuming) {
            st().checks++;
            if (s.rows != m.rows || s.columns != m.cols || s.nnz != m.nnz())
                violation(fmt("sources:%s:size-changed", name), path);
            else if (content(s) != before) { violation(fmt("sources:%s:content-changed", name), path); break; }
            // The source itself still multiplies
            use(name, s, m, xi, x.p, path + " (source)", mul);
        }
    }
    sample(path);
    // Neither the end of the source nor of one another concerns those kept
    if (!shelf.held.empty()) {
        held_are_right("after the conversions");
        for (IT i = 0; i < s.nnz; i++) { Src<S>::p(s)[i].val = 111; Src<S>::p(s)[i].row = 0; Src<S>::p(s)[i].col = 0; }
    }
    release(s);
    while (!shelf.held.empty()) {
        held_are_right("after the release of others");
        size_t k = (size_t) g.below(shelf.held.size());
        shelf.held[k].drop();
        shelf.held.erase(shelf.held.begin() + k);
    }
}

static void mode_sources(uint64_t, Rng& g) {
    if (g.chance(50)) convert_chain<Coo2<T, IT>>(g, "coo2");
    else convert_chain<Coo3<T, IT>>(g, "coo3");
}

static int run(int argc, char** argv) {
    init(argc, argv, "own");
    light = opt_n("light", 0);
    std::string mode = opt("mode", "formats");
    st().engine += ":" + mode;
#ifdef WITH_LEDGER
    warm_up();
#endif
    return run_cases([&](uint64_t i, Rng& g) {
        if (mode == "formats") mode_formats(i, g); else mode_sources(i, g);
#ifdef WITH_LEDGER
        if (i + 1 == st().to) { count("pieces of memory watched", ledger().acquired); count("pieces given back", ledger().released); count("bytes watched", ledger().bytes); }
#endif
    });
}
}
int main(int argc, char** argv) { return vf::run(argc, argv); }
