// Shared machinery of the harnesses: random choices, case bookkeeping, the
// matrix generator with its exact oracle, and guarded vectors.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <cmath>
#include <string>
#include <vector>
#include <array>
#include <map>
#include <set>
#include <algorithm>
#include <functional>
#include <memory>
#include <mutex>
#include <atomic>
#include <thread>
#include <condition_variable>
#include <limits>
#include <type_traits>
#include <fcntl.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <omp.h>

namespace vf {

// ------------------------------------------------------------------ random
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0xD1B54A32D192ED03ull) { next(); next(); }
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t) below((uint64_t) (hi - lo + 1)); }
    bool chance(int percent) { return (int) below(100) < percent; }
    template <class C> auto pick(const C& c) -> decltype(c[0]) { return c[below(c.size())]; }
};

inline uint64_t hash_mix(uint64_t h, uint64_t v) {
    h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdull;
    return h ^ (h >> 32);
}

inline uint64_t hash_bytes(const void* p, size_t n, uint64_t h = 14695981039346656037ull) {
    const unsigned char* c = (const unsigned char*) p;
    for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ull; }
    return h;
}

// ------------------------------------------------------------- bookkeeping
// Counts without ordering anything
struct Tally {
    std::atomic<uint64_t> n{0};
    void operator++(int) { n.fetch_add(1, std::memory_order_relaxed); }
    void operator+=(uint64_t k) { n.fetch_add(k, std::memory_order_relaxed); }
    operator uint64_t() const { return n.load(std::memory_order_relaxed); }
};
// What one of several cases running at once has seen. Kept apart until they
// are all done: a lock taken here would order what the race detector watches.
struct Notes {
    std::vector<std::pair<std::string, uint64_t>> counters, spread;
    std::vector<uint64_t> distinct;
    std::vector<std::string> samples;
    std::vector<std::pair<std::string, std::string>> violations;
};
inline Notes*& notes() { static thread_local Notes* n = nullptr; return n; }
struct State {
    std::string out, engine;
    uint64_t seed = 1, from = 0, to = 0;
    std::map<std::string, std::string> opt;
    uint64_t evaluations = 0, inputs = 0;
    Tally checks;
    std::set<uint64_t> distinct;
    std::map<std::string, uint64_t> counters;
    std::map<std::string, std::set<uint64_t>> spread;
    std::vector<std::string> samples;
    std::vector<std::pair<std::string, std::string>> violations;
    char* mark = nullptr;
    std::mutex mu;
};
inline State& st() { static State s; return s; }

// Memory of the harness itself, not of the code under test
inline thread_local int exempt = 0;
struct Exempt { Exempt() { exempt++; } ~Exempt() { exempt--; } };

inline void count(const std::string& key, uint64_t n = 1) {
    Exempt e;
    if (notes()) { notes()->counters.push_back({key, n}); return; }
    std::lock_guard<std::mutex> l(st().mu);
    st().counters[key] += n;
}
// Number of different values seen under a key
inline void seen(const std::string& key, uint64_t v) {
    Exempt e;
    if (notes()) { notes()->spread.push_back({key, v}); return; }
    std::lock_guard<std::mutex> l(st().mu);
    st().spread[key].insert(v);
}
inline void distinct(uint64_t h) {
    Exempt e;
    if (notes()) { notes()->distinct.push_back(h); return; }
    std::lock_guard<std::mutex> l(st().mu);
    st().distinct.insert(h);
    st().inputs++;
}
inline void sample(const std::string& s) {
    Exempt e;
    if (notes()) { notes()->samples.push_back(s); return; }
    std::lock_guard<std::mutex> l(st().mu);
    if (st().samples.size() < 6) st().samples.push_back(s);
}
inline std::string& current_case() { static thread_local std::string s; return s; }
// What is being executed, readable by the driver when the process dies
inline void mark(const std::string& s) {
    if (!st().mark || notes()) return;
    size_t n = std::min<size_t>(s.size(), 4000);
    memcpy(st().mark, s.data(), n);
    st().mark[n] = 0;
}
inline void step(const std::string& s) { mark(current_case() + " | " + s); }

inline std::string fmt(const char* f, ...) {
    char buf[1024];
    va_list ap;
    va_start(ap, f);
    vsnprintf(buf, sizeof buf, f, ap);
    va_end(ap);
    return buf;
}

inline void violation(const std::string& key, const std::string& detail) {
    Exempt e;
    if (notes()) { notes()->violations.push_back({key, detail}); return; }
    std::lock_guard<std::mutex> l(st().mu);
    if (st().violations.size() < 40)
        st().violations.push_back({key, current_case() + " : " + detail});
}

inline std::string json_str(const std::string& s) {
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
        else r += c;
    }
    return r + "\"";
}

inline void init(int argc, char** argv, const char* engine) {
    State& s = st();
    s.engine = engine;
    for (int i = 1; i + 1 < argc; i += 2) {
        std::string k = argv[i];
        if (k == "--seed") s.seed = strtoull(argv[i + 1], 0, 10);
        else if (k == "--from") s.from = strtoull(argv[i + 1], 0, 10);
        else if (k == "--to") s.to = strtoull(argv[i + 1], 0, 10);
        else if (k == "--out") s.out = argv[i + 1];
        else if (k.substr(0, 2) == "--") s.opt[k.substr(2)] = argv[i + 1];
    }
    if (!s.out.empty()) {
        int fd = open((s.out + ".mark").c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
        if (fd >= 0 && ftruncate(fd, 4096) == 0) {
            void* p = mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
            if (p != MAP_FAILED) s.mark = (char*) p;
        }
        if (fd >= 0) close(fd);
    }
}
inline std::string opt(const std::string& k, const std::string& d = "") {
    auto i = st().opt.find(k);
    return i == st().opt.end() ? d : i->second;
}
inline long opt_n(const std::string& k, long d) {
    auto i = st().opt.find(k);
    return i == st().opt.end() ? d : strtol(i->second.c_str(), 0, 10);
}

// libomp leaves a file behind for every process that ends without its exit
// handlers; one that was cut short there would later break a process that
// happens to get the same number
inline void forget_omp_registration() {
    unlink(fmt("/dev/shm/__KMP_REGISTERED_LIB_%d_%d", (int) getpid(), (int) getuid()).c_str());
}
inline pid_t clean_fork() {
    pid_t p = fork();
    if (p == 0) forget_omp_registration();
    return p;
}
inline void forget_child(pid_t p) { unlink(fmt("/dev/shm/__KMP_REGISTERED_LIB_%d_%d", (int) p, (int) getuid()).c_str()); }

inline int finish() {
    State& s = st();
    FILE* f = s.out.empty() ? stdout : fopen(s.out.c_str(), "w");
    if (!f) return 3;
    fprintf(f, "{\"engine\":%s,\"evaluations\":%llu,\"checks\":%llu,\"distinct\":[", json_str(s.engine).c_str(),
            (unsigned long long) s.evaluations, (unsigned long long) (uint64_t) s.checks);
    bool first = true;
    for (uint64_t h : s.distinct) { fprintf(f, "%s\"%llx\"", first ? "" : ",", (unsigned long long) h); first = false; }
    fprintf(f, "],\"counters\":{");
    first = true;
    for (auto& c : s.counters) { fprintf(f, "%s%s:%llu", first ? "" : ",", json_str(c.first).c_str(), (unsigned long long) c.second); first = false; }
    fprintf(f, "},\"spread\":{");
    first = true;
    for (auto& c : s.spread) {
        fprintf(f, "%s%s:[", first ? "" : ",", json_str(c.first).c_str()); first = false;
        bool g = true; size_t k = 0;
        for (uint64_t v : c.second) { if (k++ > 5000) break; fprintf(f, "%s\"%llx\"", g ? "" : ",", (unsigned long long) v); g = false; }
        fprintf(f, "]");
    }
    fprintf(f, "},\"samples\":[");
    first = true;
    for (auto& c : s.samples) { fprintf(f, "%s%s", first ? "" : ",", json_str(c).c_str()); first = false; }
    fprintf(f, "],\"violations\":[");
    first = true;
    for (auto& v : s.violations) { fprintf(f, "%s{\"key\":%s,\"detail\":%s}", first ? "" : ",", json_str(v.first).c_str(), json_str(v.second).c_str()); first = false; }
    fprintf(f, "]}\n");
    if (f != stdout) fclose(f);
    fflush(stdout);
    forget_omp_registration();
    // Skip static destructors and the runtime's own teardown
    _exit(s.violations.empty() ? 0 : 10);
}

// Native threads that live as long as the process
struct Pool {
    std::mutex mu;
    std::condition_variable cv, done_cv;
    std::function<void(int)> job;
    int want = 0, round = 0, left = 0;
    void run(int n, std::function<void(int)> j) {
        static std::vector<std::thread>* ts = new std::vector<std::thread>;
        std::unique_lock<std::mutex> l(mu);
        job = j; want = n; left = n;
        while ((int) ts->size() < n) { int id = (int) ts->size(), r = round; ts->emplace_back([this, id, r] { loop(id, r); }); }
        round++;
        cv.notify_all();
        done_cv.wait(l, [&] { return left == 0; });
    }
    void loop(int id, int last) {
        std::unique_lock<std::mutex> l(mu);
        for (;;) {
            cv.wait(l, [&] { return round != last; });
            last = round;
            if (id >= want) continue;
            l.unlock();
            job(id);
            l.lock();
            if (--left == 0) done_cv.notify_all();
        }
    }
};
inline Pool& callers_pool() { static Pool* p = new Pool; return *p; }

// The same cases, several at once: each in a thread of its own, or each by a
// member of one parallel region
inline int run_cases_at_once(const std::function<void(uint64_t, Rng&)>& body, uint64_t callers) {
    State& s = st();
    uint64_t from = s.from - s.from % callers, to = (s.to + callers - 1) / callers * callers;
    for (uint64_t i = from; i < to; i += callers) {
        std::vector<Notes> all(callers);
        auto work = [&](int k) {
            notes() = &all[k];
            uint64_t c = i + k;
            Rng r(s.seed * 1000003ull + c * 7919ull + hash_bytes(s.engine.data(), s.engine.size()) % 1000000007ull);
            current_case() = fmt("case %llu (with %llu others at once)", (unsigned long long) c, (unsigned long long) callers - 1);
            body(c, r);
            notes() = nullptr;
        };
        bool region = (i / callers) % 3 == 2;
        mark(fmt("case %llu and %llu others at once in %s", (unsigned long long) i, (unsigned long long) callers - 1, region ? "a parallel region" : "threads"));
        if (region) {
            #pragma omp parallel for schedule(static, 1) num_threads((int) callers)
            for (int k = 0; k < (int) callers; k++) work(k);
        } else callers_pool().run((int) callers, work);
        for (uint64_t k = 0; k < callers; k++) {
            Notes& n = all[k];
            current_case() = fmt("case %llu", (unsigned long long) (i + k));
            for (auto& c : n.counters) count(c.first, c.second);
            for (auto& c : n.spread) seen(c.first, c.second);
            for (auto& x : n.samples) sample(x);
            for (auto h : n.distinct) distinct(hash_mix(h, callers * 2 + region));
            for (auto& v : n.violations) violation("at-once:" + v.first, v.second + (region ? " (at once in a parallel region)" : " (at once in threads)"));
            s.evaluations += n.distinct.empty() ? 1 : n.distinct.size();
        }
        count(region ? "cases at once in a parallel region" : "cases at once in threads", callers);
    }
    mark("finishing");
    return finish();
}

// Run the cases [from, to)
inline int run_cases(const std::function<void(uint64_t, Rng&)>& body) {
    State& s = st();
    if (opt_n("callers", 1) > 1) return run_cases_at_once(body, (uint64_t) opt_n("callers", 1));
    for (uint64_t i = s.from; i < s.to; i++) {
        Rng r(s.seed * 1000003ull + i * 7919ull + hash_bytes(s.engine.data(), s.engine.size()) % 1000000007ull);
        current_case() = fmt("case %llu", (unsigned long long) i);
        mark(current_case());
        s.inputs = 0;
        body(i, r);
        s.evaluations += s.inputs ? s.inputs : 1;    // one per input judged
    }
    mark("finishing");
    return finish();
}

// ---------------------------------------------------------- guarded vectors
// A vector whose last (or first) element touches an inaccessible page. Can be
// made read-only.
template <class T>
struct Guarded {
    char* base = nullptr;
    size_t bytes = 0, map = 0;
    T* p = nullptr;
    size_t n = 0;
    Guarded() {}
    Guarded(size_t n_, bool at_end = true) { make(n_, at_end); }
    void make(size_t n_, bool at_end = true) {
        const size_t page = 4096;
        n = n_;
        bytes = (n * sizeof(T) + page - 1) / page * page;
        if (!bytes) bytes = page;
        map = bytes + 2 * page;
        base = (char*) mmap(nullptr, map, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        if (base == (char*) MAP_FAILED) { perror("mmap"); _exit(3); }
        if (mprotect(base + page, bytes, PROT_READ | PROT_WRITE)) { perror("mprotect"); _exit(3); }
        memset(base + page, 0xA7, bytes);
        p = at_end ? (T*) (base + page + bytes - n * sizeof(T)) : (T*) (base + page);
    }
    void readonly() { mprotect(base + 4096, bytes, PROT_READ); }
    void writable() { mprotect(base + 4096, bytes, PROT_READ | PROT_WRITE); }
    // The rest of the mapped pages keeps its fill
    bool slack_intact() const {
        const unsigned char* b = (const unsigned char*) base + 4096;
        for (const unsigned char* q = b; q < (const unsigned char*) p; q++) if (*q != 0xA7) return false;
        for (const unsigned char* q = (const unsigned char*) (p + n); q < b + bytes; q++) if (*q != 0xA7) return false;
        return true;
    }
    ~Guarded() { if (base) munmap(base, map); }
    Guarded(const Guarded&) = delete;
    Guarded& operator=(const Guarded&) = delete;
    T& operator[](size_t i) { return p[i]; }
};

// --------------------------------------------------------------- generator
struct Mat {
    uint64_t rows = 0, cols = 0;
    std::vector<uint64_t> r, c;
    std::vector<int> v;
    std::vector<double> real;      // values to use instead of v, if any
    std::string kind;
    size_t nnz() const { return v.size(); }
    void add(uint64_t i, uint64_t j, int x) { r.push_back(i); c.push_back(j); v.push_back(x); }
    uint64_t hash() const {
        uint64_t h = hash_mix(rows, cols);
        for (size_t i = 0; i < v.size(); i++) h = hash_mix(hash_mix(hash_mix(h, r[i]), c[i]), (uint64_t) v[i]);
        return h;
    }
    std::string describe() const {
        return fmt("%s %llux%llu nnz=%zu", kind.c_str(), (unsigned long long) rows, (unsigned long long) cols, v.size());
    }
};

struct GenLimits {
    uint64_t max_dim = 70000;
    size_t max_nnz = 6000;
    uint64_t max_cells = 0;   // limit rows * cols (0: none)
    uint64_t min_dim = 1;
    size_t want_nnz = 0;      // pad the pattern to at least as many triplets
    bool wide = false;        // beyond 65536 rows or columns, positions that agree in their lower bits
    bool huge = false;        // with heavy: up to a million non-zeros and more
    bool tall = false;        // more rows (or columns) than 16 bits can number, none of them empty
    bool heavy = false;       // around 65536 non-zeros or more in one row, one column or one small block
};

inline uint64_t pick_dim(Rng& g, const GenLimits& lim) {
    static const std::vector<uint64_t> edges = {
        1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 18, 31, 32, 33, 47, 48, 63, 64, 65, 95, 96, 97, 127, 128, 129,
        255, 256, 257, 500, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2049, 4095, 4096, 4097,
        32767, 32768, 65535, 65536, 65537, 70000, 131071, 131073, 200000, 262145, 1048576, 1048577 };
    uint64_t d;
    int w = (int) g.below(100);
    if (w < 35) d = g.range(1, 40);
    else if (w < 60) d = g.range(1, 300);
    else if (w < 92) d = edges[g.below(edges.size())];
    else d = g.range(300, (int64_t) std::max<uint64_t>(301, std::min<uint64_t>(lim.max_dim, 3000)));
    while (d > lim.max_dim) d = 1 + d / 3;
    return std::max(d, lim.min_dim);
}

inline int pick_val(Rng& g) { return g.chance(4) ? 0 : (g.chance(50) ? (int) g.range(1, 3) : (int) g.range(-3, 3)); }

// dims may be preset (non-zero) by the caller
// --wide P, --heavy P and --huge P: so many percent of the matrices are of that kind
inline void larger(Rng& g, GenLimits& l) {
    if (g.chance((int) opt_n("tall", 0))) { l.tall = true; l.max_dim = 300000; }
    if (g.chance((int) opt_n("wide", 0))) { l.wide = true; l.max_dim = 300000; l.max_nnz = std::min<size_t>(l.max_nnz, 6000); }
    if (g.chance((int) opt_n("heavy", 0))) { l.heavy = true; l.wide = false; l.max_dim = g.chance(40) ? 100 : g.chance(50) ? 3000 : 140000; }
    if (g.chance((int) opt_n("huge", 0))) { l.heavy = l.huge = true; l.wide = false; l.max_dim = g.chance(25) ? 300 : g.chance(25) ? 1300 : g.chance(50) ? 140000 : 2500000; }
}

inline Mat generate(Rng& g, const GenLimits& lim, uint64_t rows = 0, uint64_t cols = 0) {
    Mat m;
    m.rows = rows ? rows : pick_dim(g, lim);
    m.cols = cols ? cols : (g.chance(30) ? m.rows : pick_dim(g, lim));
    if (lim.wide && !rows && !cols) {
        static const uint64_t wide[] = {65537, 65538, 70000, 131072, 131073, 140000, 200000, 262145, 300000};
        bool a = g.chance(70), b = !a || g.chance(30);
        if (a) m.rows = wide[g.below(9)];
        if (b) m.cols = wide[g.below(9)];
    }
    if (lim.heavy && lim.max_dim > 100000 && !rows && !cols && g.chance(70)) {   // more rows or columns than 16 bits can number
        static const uint64_t many[] = {65537, 70000, 90000, 131072, 131073, 140000, 140000};
        (g.chance(60) ? m.rows : m.cols) = many[g.below(7)];
    }
    if (lim.tall && !rows && !cols) {
        static const uint64_t many[] = {65536, 65537, 66000, 70000, 90000, 131071, 131073, 140000, 200000};
        bool by_rows = g.chance(60);
        (by_rows ? m.rows : m.cols) = std::min(many[g.below(9)], lim.max_dim);
        if (lim.max_cells) (by_rows ? m.cols : m.rows) = g.range(1, std::max<int64_t>(1, (int64_t) (lim.max_cells / std::max(m.rows, m.cols))));
    }
    if (lim.max_cells)
        while (m.rows * m.cols > lim.max_cells) {
            if (m.rows > m.cols) m.rows = (m.rows + 1) / 2; else m.cols = (m.cols + 1) / 2;
        }
    const uint64_t R = m.rows, C = m.cols;
    auto cap = [&](uint64_t n) { return (size_t) std::min<uint64_t>(n, lim.max_nnz); };
    int k = lim.wide && g.chance(75) ? 14 : (int) g.below(20);
    switch (k) {
    case 0: m.kind = "empty"; if (g.chance(60)) { m.kind = "single"; m.add(g.below(R), g.below(C), pick_val(g)); } break;
    case 1: { m.kind = "corners"; m.add(0, 0, 2); m.add(R - 1, C - 1, 3); m.add(0, C - 1, -1); m.add(R - 1, 0, 1); break; }
    case 2: { m.kind = "diagonal"; for (size_t i = 0; i < cap(std::min(R, C)); i++) m.add(i, i, pick_val(g)); break; }
    case 3: { m.kind = "heavyrow"; uint64_t r0 = g.below(R);
              size_t n = cap(C); for (size_t i = 0; i < n; i++) m.add(r0, n == C ? i : g.below(C), pick_val(g));
              for (size_t i = 0; i < cap(R / 4); i++) m.add(g.below(R), g.below(C), pick_val(g)); break; }
    case 4: { m.kind = "heavycol"; uint64_t c0 = g.below(C);
              size_t n = cap(R); for (size_t i = 0; i < n; i++) m.add(n == R ? i : g.below(R), c0, pick_val(g)); break; }
    case 5: { m.kind = "band"; int64_t bw = g.range(1, 9);
              size_t n = cap(R * 2); for (size_t i = 0; i < n; i++) { uint64_t r = g.below(R); int64_t c = (int64_t) (r * C / R) + g.range(-bw, bw); if (c >= 0 && c < (int64_t) C) m.add(r, c, pick_val(g)); } break; }
    case 6: case 7: { m.kind = "denseblock"; // some sub-block completely full
              uint64_t h = std::min<uint64_t>(R, g.range(1, 70)), w = std::min<uint64_t>(C, g.range(1, 70));
              while (h * w > lim.max_nnz) { h = (h + 1) / 2; w = (w + 1) / 2; }
              uint64_t r0 = g.below(R - h + 1), c0 = g.below(C - w + 1);
              int fill = g.chance(50) ? 100 : (int) g.range(15, 98);   // or nearly
              for (uint64_t i = 0; i < h; i++) for (uint64_t j = 0; j < w; j++) if (fill == 100 || g.chance(fill)) m.add(r0 + i, c0 + j, pick_val(g));
              for (size_t i = 0; i < cap((R + C) / 8); i++) m.add(g.below(R), g.below(C), pick_val(g)); break; }
    case 8: { m.kind = "heavyblockrow"; uint64_t h = std::min<uint64_t>(R, g.range(1, 40)), r0 = g.below(R - h + 1);
              size_t n = cap(g.range(20, 6000)); for (size_t i = 0; i < n; i++) m.add(r0 + g.below(h), g.below(C), pick_val(g));
              for (size_t i = 0; i < 10; i++) m.add(g.below(R), g.below(C), pick_val(g)); break; }
    case 9: { m.kind = "duplicates"; uint64_t h = std::min<uint64_t>(R, 6), w = std::min<uint64_t>(C, 6);
              uint64_t r0 = g.below(R - h + 1), c0 = g.below(C - w + 1);
              size_t n = cap(g.range(2, 900)); for (size_t i = 0; i < n; i++) m.add(r0 + g.below(h), c0 + g.below(w), pick_val(g)); break; }
    case 10: { m.kind = "lastrowcol"; size_t n = cap(g.range(1, 200)); for (size_t i = 0; i < n; i++) { if (g.chance(50)) m.add(R - 1, g.below(C), pick_val(g)); else m.add(g.below(R), C - 1, pick_val(g)); } break; }
    case 11: { m.kind = "powerlaw"; size_t n = cap(g.range(10, 6000));
              for (size_t i = 0; i < n; i++) { double u = (g.below(1000000) + 1) / 1000000.0; m.add((uint64_t) (u * u * u * (R - 1)), g.below(C), pick_val(g)); } break; }
    case 12: { m.kind = "full"; uint64_t h = R, w = C; while (h * w > lim.max_nnz) { if (h > w) h = (h + 1) / 2; else w = (w + 1) / 2; }
              int fill = g.chance(40) ? 100 : (int) g.range(15, 98);
              for (uint64_t i = 0; i < h; i++) for (uint64_t j = 0; j < w; j++) if (fill == 100 || g.chance(fill)) m.add(i, j, pick_val(g)); break; }
    case 13: { m.kind = "everyotherrow"; size_t n = cap(R); for (size_t i = 0; i < n; i += 2) { m.add(i, g.below(C), pick_val(g)); if (g.chance(30)) m.add(i, g.below(C), pick_val(g)); } break; }
    case 14: case 15: { m.kind = "stride";       // positions that agree in their lower bits
              static const uint64_t steps[] = {256, 65536, 128, 512, 1024, 4096, 16, 32768};
              auto at = [&](uint64_t n, uint64_t s) { uint64_t q = (n - 1) / s, p = g.below(q + 1) * s + (g.chance(70) ? 0 : g.below(3)); return std::min(p, n - 1); };
              uint64_t sr = steps[g.below(8)], sc = steps[g.below(8)];
              if (g.chance(50)) { if (R > 65536) sr = 65536; else if (R > 256) sr = 256; }
              if (g.chance(50)) { if (C > 65536) sc = 65536; else if (C > 256) sc = 256; }
              bool jr = g.chance(35), jc = g.chance(35);
              size_t n = cap((uint64_t) g.range(2, 600)); for (size_t i = 0; i < n; i++) m.add(jr ? g.below(R) : at(R, sr), jc ? g.below(C) : at(C, sc), pick_val(g)); break; }
    case 16: { m.kind = "rowlengths";            // numbers of non-zeros in a row around powers of two
              static const uint64_t len[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 2049, 4096, 4097};
              size_t top = g.chance(25) ? 37 : g.chance(50) ? 26 : 14;
              uint64_t r0 = g.below(R), left = lim.max_nnz;
              for (uint64_t i = 0; i < R && left; i++) { uint64_t k = std::min(left, len[g.below(top)]); bool run = g.chance(60) && k <= C; uint64_t c0 = run ? g.below(C - k + 1) : 0;
                  for (uint64_t j = 0; j < k; j++) m.add((r0 + i) % R, run ? c0 + j : g.below(C), pick_val(g)); left -= k; if (!g.chance(90)) i += g.below(5); } break; }
    default: { m.kind = "uniform"; size_t n = cap((uint64_t) g.range(1, 1 + (int64_t) std::min<uint64_t>(R * C * 2, lim.max_nnz))); for (size_t i = 0; i < n; i++) m.add(g.below(R), g.below(C), pick_val(g)); break; }
    }
    if (lim.tall) {
        m.kind = R >= C ? "everyrow" : "everycolumn"; m.r.clear(); m.c.clear(); m.v.clear();
        int more = (int) g.below(60);
        for (uint64_t i = 0; i < std::max(R, C); i++) {
            do { if (R >= C) m.add(i, g.below(C), pick_val(g)); else m.add(g.below(R), i, pick_val(g)); } while (g.chance(more));
        }
    } else
    if (k > 1 && g.chance(14)) {                 // a number of triplets around a power of two
        static const uint64_t edge[] = {15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1001, 1023, 1024, 1025, 2000, 2001, 2047, 2048, 2049,
            4095, 4096, 4097, 8191, 8192, 8193, 16384, 16385, 32768, 32769, 65535, 65536, 65537};
        uint64_t n = edge[g.below(sizeof edge / sizeof edge[0])];
        if (g.chance(50)) while (2 * n <= lim.max_nnz && 2 * n < 70000 && (n & (n - 1)) == 0) n *= 2;
        if (n <= lim.max_nnz) {
            if (m.nnz() > n) { m.r.resize(n); m.c.resize(n); m.v.resize(n); }
            while (m.nnz() < n) { size_t q = m.nnz(); if (q && g.chance(50)) m.add(m.r[q - 1], m.c[q - 1], pick_val(g)); else m.add(g.below(R), g.below(C), pick_val(g)); }
        }
    }
    if (lim.heavy) {
        static const uint64_t counts[] = {65534, 65535, 65536, 65537, 65538, 66000, 70000, 98304, 131071, 131072, 131073};
        static const char* names[] = {"heavyrow64k", "heavycol64k", "heavyblock64k", "heavystripe64k", "large"};
        static const uint64_t more[] = {200000, 262143, 262144, 262145, 524287, 524289, 1000000, 1048575, 1048576, 1048577, 1200000};
        uint64_t n = lim.huge ? more[g.below(11)] : counts[g.below(11)], how = g.below(lim.huge ? 5 : 4);
        if (lim.huge && lim.max_dim == 1300 && !rows && !cols) {   // a million cells, most of them filled
            m.rows = g.range(900, 1300); m.cols = g.range(900, 1300); how = 4; n = g.range(500000, 1200000);
        }
        const uint64_t R = m.rows, C = m.cols;
        m.kind = names[how];
        m.r.clear(); m.c.clear(); m.v.clear();
        uint64_t h = std::min<uint64_t>(R, g.range(1, 300)), w = std::min<uint64_t>(C, g.range(1, 300));
        uint64_t r0 = g.below(R - h + 1), c0 = g.below(C - w + 1);
        if (how == 0 || how == 3) { c0 = 0; w = C; }
        if (how == 1) { r0 = 0; h = R; }
        if (how == 0) h = 1;
        if (how == 1) w = 1;
        if (how == 4) { r0 = c0 = 0; h = R; w = C; }
        for (size_t i = 0; i < 200; i++) m.add(g.below(R), g.below(C), pick_val(g));
        for (uint64_t i = 0; i < n; i++) m.add(r0 + (h > 1 ? g.below(h) : 0), c0 + (w == n ? i : g.below(w)), pick_val(g));
        if (g.chance(70)) for (size_t i = 0; i < 200; i++) m.add(g.below(R), g.below(C), pick_val(g));
    } else
    if (!lim.tall && m.nnz() && m.nnz() < lim.want_nnz) {     // denser in the same places
        size_t have = m.nnz(), n = std::min(lim.want_nnz, lim.max_nnz);
        bool keep_row = g.chance(60), keep_col = g.chance(30);
        while (m.nnz() < n) { size_t q = g.below(have); m.add(keep_row ? m.r[q] : g.below(R), keep_col ? m.c[q] : g.below(C), pick_val(g)); }
    }
    if (!lim.heavy && !lim.tall && m.nnz() > lim.max_nnz) { m.r.resize(lim.max_nnz); m.c.resize(lim.max_nnz); m.v.resize(lim.max_nnz); }
    // Order of the triplets
    std::vector<size_t> o(m.nnz());
    for (size_t i = 0; i < o.size(); i++) o[i] = i;
    int ord = (int) g.below(5);
    auto rm = [&](size_t a, size_t b) { return m.r[a] != m.r[b] ? m.r[a] < m.r[b] : m.c[a] < m.c[b]; };
    auto cm = [&](size_t a, size_t b) { return m.c[a] != m.c[b] ? m.c[a] < m.c[b] : m.r[a] < m.r[b]; };
    if (ord == 0) std::stable_sort(o.begin(), o.end(), rm);
    else if (ord == 1) std::stable_sort(o.begin(), o.end(), cm);
    else if (ord == 2) { std::stable_sort(o.begin(), o.end(), rm); std::reverse(o.begin(), o.end()); }
    else if (ord == 3) for (size_t i = o.size(); i > 1; i--) std::swap(o[i - 1], o[g.below(i)]);
    static const char* ordn[] = {"rowmajor", "colmajor", "reversed", "shuffled", "asis"};
    m.kind += std::string("/") + ordn[ord];
    Mat s = m;
    for (size_t i = 0; i < o.size(); i++) { s.r[i] = m.r[o[i]]; s.c[i] = m.c[o[i]]; s.v[i] = m.v[o[i]]; }
    return s;
}

// Exact result, in integers
inline std::vector<int64_t> product(const Mat& m, const std::vector<int>& x, const std::vector<int>& y0, int times = 1) {
    std::vector<int64_t> y(y0.begin(), y0.end());
    for (size_t i = 0; i < m.nnz(); i++) y[m.r[i]] += (int64_t) times * m.v[i] * x[m.c[i]];
    return y;
}

inline std::vector<int> int_vector(Rng& g, size_t n, int lo, int hi) {
    std::vector<int> v(n);
    for (auto& e : v) e = (int) g.range(lo, hi);
    return v;
}

} // namespace vf
