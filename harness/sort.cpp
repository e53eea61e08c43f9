// Sorting operations: ordered, a permutation, stable, whatever the number of
// threads, the calling context and the memory available.
#include "formats.hpp"
#include "ompt_monitor.hpp"
#include <new>
// Everything is inside the namespace, so that no name of the code under test
// can get in the way
namespace vf {

// The sorts ask for scratch memory without exceptions; it can be refused
static std::atomic<int> refuse{0};
static std::atomic<uint64_t> refused{0};
}
#if defined(__has_feature)
#if __has_feature(thread_sanitizer)
#define VF_OWN_NEW 0    // the sanitizer has its own
#endif
#endif
#ifndef VF_OWN_NEW
#define VF_OWN_NEW 1
#endif
#if VF_OWN_NEW
void* operator new(size_t n, const std::nothrow_t&) noexcept {
    if (vf::refuse.load(std::memory_order_relaxed)) { vf::refused++; return nullptr; }
    return malloc(n ? n : 1);
}
void operator delete(void* p, const std::nothrow_t&) noexcept { free(p); }
void* operator new(size_t n) { void* p = malloc(n ? n : 1); if (!p) abort(); return p; }
void operator delete(void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
#endif
namespace vf {

static bool light = false;
static const std::vector<int> THREADS = {1, 2, 3, 4, 5, 7, 8, 12, 16};
static int pick_team(Rng& g) {                   // sometimes far more threads than anyone has cores
    static const int percent = opt("teams").empty() ? 0 : atoi(opt("teams").c_str());
    static const std::vector<int> large = {24, 32, 33, 63, 64, 65, 100, 127, 128, 129};
    return percent && g.chance(percent) ? g.pick(large) : g.pick(THREADS);
}

static size_t pick_size(Rng& g) {
    static const std::vector<size_t> e = {0, 1, 2, 3, 5, 16, 17, 33, 255, 499, 500, 501, 502, 999, 1000, 1001, 1002, 1003,
        1999, 2000, 2001, 2002, 2003, 3999, 4000, 4001, 4002, 4003, 8001, 10000, 16002};
    static const std::vector<size_t> large = {32768, 65534, 65535, 65536, 65537, 70000, 100000, 131071, 131073, 262145, 500000, 524289, 1000000, 1048577, 1500000};
    size_t n;
    if (g.chance((int) opt_n("large", 0))) return large[g.below(light ? 8 : large.size())];
    if (g.chance(60)) n = e[g.below(e.size())];
    else if (g.chance(70)) n = g.below(1500);
    else n = g.below(light ? 6000 : 40000);
    if (light && n > 9000) n /= 2;
    return n;
}

// Arrangement of the keys 0..range-1 over n places
static std::vector<uint64_t> keys(Rng& g, size_t n, uint64_t range, int style) {
    std::vector<uint64_t> k(n);
    for (size_t i = 0; i < n; i++) {
        switch (style) {
        case 0: k[i] = g.below(range); break;
        case 1: k[i] = n ? (uint64_t) ((double) i / n * (range - 1)) : 0; break;                    // ascending
        case 2: k[i] = n ? (uint64_t) ((double) (n - 1 - i) / n * (range - 1)) : 0; break;          // descending
        case 3: k[i] = range - 1; break;                                                            // all equal
        case 4: k[i] = (i < n / 2 ? i : n - i) % range; break;                                      // organ pipe
        case 5: k[i] = i < n / 2 ? range - 1 - g.below(1 + range / 8) : g.below(1 + range / 8); break; // halves swapped
        default: k[i] = g.chance(95) ? (n ? (uint64_t) ((double) i / n * (range - 1)) : 0) : g.below(range); break;
        }
    }
    return k;
}

struct Key { uint64_t a, b, c; size_t i; };

template <class P>
static void judge(const char* what, const std::vector<P>& before, const std::vector<P>& after,
                  const std::function<std::array<uint64_t, 3>(const P&)>& key, bool stable, const std::string& w) {
    st().checks++;
    size_t n = before.size();
    // values identify the original position
    std::vector<char> found(n, 0);
    for (size_t i = 0; i < n; i++) {
        double id = (double) after[i].val;
        if (!(id >= 0 && id < (double) n) || id != (double) (size_t) id || found[(size_t) id]) {
            violation(fmt("sort:%s:not-a-permutation", what), w + fmt(" place %zu holds value %.9g, lost or repeated", i, id));
            return;
        }
        const P& o = before[(size_t) id];
        found[(size_t) id] = 1;
        if (o.row != after[i].row || o.col != after[i].col) {
            violation(fmt("sort:%s:element-torn", what), w + fmt(" element %zu changed from (%llu,%llu) to (%llu,%llu)", (size_t) id,
                (unsigned long long) o.row, (unsigned long long) o.col, (unsigned long long) after[i].row, (unsigned long long) after[i].col));
            return;
        }
    }
    for (size_t i = 1; i < n; i++) {
        auto p = key(after[i - 1]), q = key(after[i]);
        if (q < p) { violation(fmt("sort:%s:out-of-order", what), w + fmt(" places %zu and %zu", i - 1, i)); return; }
        if (stable && p == q && after[i].val < after[i - 1].val) {
            violation(fmt("sort:%s:unstable", what), w + fmt(" equal elements at places %zu and %zu swapped", i - 1, i));
            return;
        }
    }
}

// Sometimes everything is in order already, or all but a little somewhere
template <class P, class KEY>
static void arrange(Rng& g, std::vector<P>& v, KEY key) {
    size_t n = v.size();
    if (n < 2 || !g.chance(12)) return;
    std::stable_sort(v.begin(), v.end(), [&](const P& a, const P& b) { return key(a) < key(b); });
    int k = (int) g.below(5);
    size_t few = std::min<size_t>(n, 1 + g.below(g.chance(50) ? 3 : 600));
    if (k == 1) std::swap(v[n - 1], v[g.below(n)]);                                                     // the last one
    else if (k == 2) { size_t at = n - few; for (size_t i = at; i < n; i++) std::swap(v[i], v[g.below(n)]); }   // among the last
    else if (k == 3) { size_t a = g.below(n), b = std::min(n - 1, a + few); std::swap(v[a], v[b]); }         // two of them
    else if (k == 4) std::rotate(v.begin(), v.begin() + (n - few), v.end());                            // a few more in front
    for (size_t i = 0; i < n; i++) v[i].val = (decltype(v[i].val)) i;
    count("in order but for a little");
}

// Run a sort in one of several contexts
template <class P, class FN>
static void run(std::vector<P>& v, int context, FN sort) {
    if (context == 1) {
        #pragma omp parallel num_threads(4)
        #pragma omp single
        sort(v.data(), v.size());
    } else if (context == 2) {      // several sorts at once in one team
        std::vector<P> w(v), u(v);
        #pragma omp parallel num_threads(3)
        {
            int me = omp_get_thread_num(), n = omp_get_num_threads();
            std::vector<P>* all[3] = {&v, &w, &u};
            for (int k = me; k < 3; k += n) sort(all[k]->data(), all[k]->size());
        }
    } else sort(v.data(), v.size());
}

template <class T, class IT>
static void one(Rng& g, const char* types) {
    size_t n = pick_size(g);
    if (sizeof(T) == 4 && n > 16000000) n = 16000000;
    int th = pick_team(g), context = g.chance(60) ? 0 : (int) g.range(1, 2);
    bool refuse_memory = g.chance(15);
    int which = (int) g.below(8);
    static const char* names[] = {"row-major triplets", "column-major triplets", "row-major elements", "column-major elements",
                                  "block elements", "wide rows", "morton", "block triplets"};
    int style = (int) g.below(7);
    uint64_t small = 1 + g.below(g.chance(50) ? 6 : 5000);
    uint64_t big = g.chance(25) ? (uint64_t) std::numeric_limits<IT>::max() : 1 + g.below(70000);
    if (sizeof(IT) == 8 && big > (1ull << 52)) big = 1ull << 52;
    uint64_t lv = ompt().active ? g.below(4) : 0;
    std::string w = fmt("%s n=%zu threads=%d context=%d refused=%d style=%d ranges %llu/%llu %s perturb %d", names[which], n, th, context, (int) refuse_memory, style,
                        (unsigned long long) small, (unsigned long long) big, types, (int) lv);
    step(w); sample(w);
    count(std::string("sort ") + names[which]);
    seen("sizes", n);
    seen("threads and contexts", th * 4 + context);
    count("elements sorted", n);
    if (n > 1) distinct(hash_mix(hash_mix(g.s, n), which * 8 + style));
    if (refuse_memory) count("sorts without scratch memory");
    perturb_with(lv, g.next());
    omp_set_num_threads(th);
    refuse = refuse_memory;
    auto rows = keys(g, n, small, style), cols = keys(g, n, big, g.chance(60) ? 0 : style);
    if (g.chance(50)) std::swap(rows, cols);
    if (which == 0 || which == 1) {
        std::vector<Triplet<T, IT>> v(n);
        for (size_t i = 0; i < n; i++) { v[i].row = (IT) rows[i]; v[i].col = (IT) cols[i]; v[i].val = (T) i; }
        { bool r = which == 0; arrange(g, v, [r](const Triplet<T, IT>& t) { return r ? std::make_pair(t.row, t.col) : std::make_pair(t.col, t.row); }); }
        auto o = v;
        bool rm = which == 0, wrapper = rm && g.chance(30);
        run(v, context, [&](Triplet<T, IT>* p, size_t k) { if (wrapper) sort_triplets(p, (IT) k); else sort_triplets(p, (IT) k, rm); });
        refuse = 0;
        judge<Triplet<T, IT>>(rm ? "row-major" : "column-major", o, v, [rm](const Triplet<T, IT>& t) {
            return rm ? std::array<uint64_t, 3>{{t.row, t.col, 0}} : std::array<uint64_t, 3>{{t.col, t.row, 0}}; }, true, w);
    } else if (which < 6) {
        std::vector<Element<T, IT>> v(n);
        auto blk = keys(g, n, 1 + g.below(200), (int) g.below(7));
        if (g.chance(50)) {          // block numbers over the whole range of the index type
            static const uint64_t steps[] = {255, 256, 65535, 65536, 1ull << 24, (1ull << 24) + 1, 1ull << 31, (1ull << 32) - 1, 1ull << 32, (1ull << 32) + 1, 1ull << 48, 1ull << 55};
            uint64_t step = g.chance(70) ? steps[g.below(sizeof(IT) == 8 ? 12 : 6)] : std::numeric_limits<IT>::max() / 200, from = g.chance(30) ? std::numeric_limits<IT>::max() - 199 * step : 0;
            if ((unsigned __int128) step * 199 > std::numeric_limits<IT>::max()) { step = std::numeric_limits<IT>::max() / 200; from = 0; }
            for (auto& b : blk) b = from + b * step;
        }
        for (size_t i = 0; i < n; i++) { v[i].row = (IT) rows[i]; v[i].col = (IT) cols[i]; v[i].val = (T) i; v[i].block = (IT) blk[i]; }
        // in rows of this width
        static const uint64_t widths[] = {255, 256, 257, 1024, 32768, 65535, 65536, 65537, 131072, 1ull << 20, 1ull << 31, (1ull << 32) - 1};
        IT width = (IT) (g.chance(30) ? widths[g.below(12)] : g.chance(60) ? 1 + g.below(40) : 1 + g.below(300));
        arrange(g, v, [=](const Element<T, IT>& t) {
            return which == 2 ? std::make_tuple(t.row, t.col, (IT) 0) : which == 3 ? std::make_tuple(t.col, t.row, (IT) 0)
                 : which == 4 ? std::make_tuple(t.block, t.row, t.col) : std::make_tuple((IT) (t.row / width), t.col, t.row); });
        auto o = v;
        if (which < 4) {
            bool rm = which == 2;
            run(v, context, [&](Element<T, IT>* p, size_t k) { sort_triplets(p, (IT) k, rm); });
            refuse = 0;
            judge<Element<T, IT>>(rm ? "row-major" : "column-major", o, v, [rm](const Element<T, IT>& t) {
                return rm ? std::array<uint64_t, 3>{{t.row, t.col, 0}} : std::array<uint64_t, 3>{{t.col, t.row, 0}}; }, true, w);
        } else if (which == 4) {
            run(v, context, [&](Element<T, IT>* p, size_t k) { sort_elements_blocks(p, (IT) k); });
            refuse = 0;
            judge<Element<T, IT>>("block-elements", o, v, [](const Element<T, IT>& t) { return std::array<uint64_t, 3>{{t.block, t.row, t.col}}; }, true, w);
            for (size_t i = 0; i < n; i++) if (v[i].block != o[(size_t) v[i].val].block) { violation("sort:block-elements:element-torn", w); break; }
            // as many blocks as there are
            std::set<IT> bs; for (auto& e : o) bs.insert(e.block);
            if ((size_t) count_blocks(v.data(), (IT) n) != bs.size()) violation("sort:count-blocks", w + fmt(" %zu blocks", bs.size()));
        } else {
            run(v, context, [&](Element<T, IT>* p, size_t k) { sort_triplets_widerows(p, (IT) k, width); });
            refuse = 0;
            judge<Element<T, IT>>("wide-rows", o, v, [width](const Element<T, IT>& t) { return std::array<uint64_t, 3>{{(uint64_t) (t.row / width), t.col, t.row}}; }, true, w + fmt(" width %llu", (unsigned long long) width));
        }
    } else if (which == 6) {
        // Indices of up to 16 bits, as in a block
        uint64_t cap = g.chance(40) ? 256 : 65536;
        std::vector<Triplet<T, uint16_t>> v(n);
        for (size_t i = 0; i < n; i++) { v[i].row = (uint16_t) (rows[i] % cap); v[i].col = (uint16_t) (cols[i] % cap); v[i].val = (T) i; }
        std::vector<Element<T, IT>> e(n);
        for (size_t i = 0; i < n; i++) { e[i].row = v[i].row; e[i].col = v[i].col; e[i].val = (T) i; e[i].block = 0; }
        auto mort = [](uint64_t r, uint64_t c) { uint64_t m = 0; for (int b = 0; b < 16; b++) m |= ((r >> b) & 1) << (2 * b) | ((c >> b) & 1) << (2 * b + 1); return m; };
        if (g.chance(50)) {
            // bit_interleave() gives back the type of the index: only 8 bits of each fit into 16
            for (auto& t : v) { t.row &= 255; t.col &= 255; }
            auto o = v;
            run(v, context, [&](Triplet<T, uint16_t>* p, size_t k) { sort_triplets_morton(p, (IT) k); });
            refuse = 0;
            judge<Triplet<T, uint16_t>>("morton", o, v, [&](const Triplet<T, uint16_t>& t) { return std::array<uint64_t, 3>{{mort(t.row, t.col), 0, 0}}; }, true, w);
        } else {
            auto o = e;
            run(e, context, [&](Element<T, IT>* p, size_t k) { sort_triplets_morton(p, (IT) k); });
            refuse = 0;
            judge<Element<T, IT>>("morton", o, e, [&](const Element<T, IT>& t) { return std::array<uint64_t, 3>{{mort(t.row, t.col), 0, 0}}; }, true, w);
        }
    } else {
        uint64_t R = 1 + g.below(g.chance(6) ? 200000 : 3000), C = 1 + g.below(g.chance(6) ? 200000 : 3000);
        uint64_t many = g.chance(10) ? 60000 : 300;
        auto ro = random_offsets(g, R, ~0ull, many), co = random_offsets(g, C, ~0ull, many);
        std::vector<Triplet<T, IT>> v(n);
        for (size_t i = 0; i < n; i++) { v[i].row = (IT) (rows[i] % R); v[i].col = (IT) (cols[i] % C); v[i].val = (T) i; }
        if (n && g.chance(50)) v[g.below(n)].row = (IT) (R - 1);
        auto o = v;
        Guarded<IT> pr(ro.size()), pc(co.size());
        for (size_t i = 0; i < ro.size(); i++) pr[i] = (IT) ro[i];
        for (size_t i = 0; i < co.size(); i++) pc[i] = (IT) co[i];
        Guarded<Triplet<T, IT>> gv(n);
        if (n) memcpy((void*) gv.p, v.data(), n * sizeof(v[0]));
        pr.readonly(); pc.readonly();
        sort_triplets_blocks(gv.p, (IT) n, pr.p, (IT) (ro.size() - 1), pc.p, (IT) (co.size() - 1));
        refuse = 0;
        if (n) memcpy((void*) v.data(), gv.p, n * sizeof(v[0]));
        if (!gv.slack_intact()) violation("sort:block-triplets:wrote-outside", w);
        auto bi = [](const std::vector<uint64_t>& off, uint64_t i) { return (uint64_t) (std::upper_bound(off.begin(), off.end(), i) - off.begin() - 1); };
        std::vector<uint64_t> rb(R), cb(C);
        for (uint64_t i = 0; i < R; i++) rb[i] = bi(ro, i);
        for (uint64_t i = 0; i < C; i++) cb[i] = bi(co, i);
        judge<Triplet<T, IT>>("block-triplets", o, v, [&](const Triplet<T, IT>& t) { return std::array<uint64_t, 3>{{rb[t.row], cb[t.col], 0}}; }, false, w);
    }
    refuse = 0;
    perturb_with(0, 1);
}

static int run(int argc, char** argv) {
    init(argc, argv, "sort");
    light = opt_n("light", 0);
    return run_cases([&](uint64_t i, Rng& g) {
        switch (g.below(3)) {
        case 0: one<float, uint32_t>(g, "float/u32"); break;
        case 1: one<double, uint32_t>(g, "double/u32"); break;
        default: one<double, uint64_t>(g, "double/u64"); break;
        }
        if (i + 1 == st().to) {
            count("scratch allocations refused", refused);
            Ompt& o = ompt();
            if (o.active) { count("observed explicit tasks", o.tasks); count("observed task switches", o.switches); count("observed task waits", o.waits); count("injected delays", o.delays); }
        }
    });
}
}
int main(int argc, char** argv) { return vf::run(argc, argv); }
