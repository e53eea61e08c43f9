// Reading and writing matrices.
//   --mode mtx        MatrixMarket files in every spelling the format allows
//   --mode roundtrip  what is written is what is read back; file layouts
//   --mode malformed  damaged input is rejected, never half-read
//   --mode wfault     writers report every fault of the device
//   --mode rfault     readers report every fault of the device, and refused memory
#include "formats.hpp"
#include "ledger.hpp"
#include "io/input.h"
#include "io/output.h"
#include "io/blocked.h"
#include "expand.h"
#include <sys/resource.h>
#include <sys/wait.h>
#include <signal.h>
#include <errno.h>
#include <string>
// Everything is inside the namespace, so that no name of the code under test
// can get in the way
namespace vf {

#ifndef CFG_T
#define CFG_T float
#define CFG_IT uint32_t
#define CFG_SIT uint16_t
#endif
typedef CFG_T T;
typedef CFG_IT IT;
typedef CFG_SIT SIT;
typedef Formats<T, IT, SIT> F;
static thread_local std::string dir;    // of the case
static bool several = false;            // several cases at once
static bool forks = true;

static std::string path(const char* name) { return dir + "/" + name; }
static void put(const std::string& p, const std::string& data) {
    int fd = open(p.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    if (fd < 0) { perror(p.c_str()); _exit(3); }
    size_t at = 0;
    while (at < data.size()) { ssize_t k = ::write(fd, data.data() + at, data.size() - at); if (k <= 0) { perror("write"); _exit(3); } at += k; }
    close(fd);
}
static std::string get(const std::string& p) {
    std::string s;
    int fd = open(p.c_str(), O_RDONLY);
    if (fd < 0) return "<missing>";
    char b[65536];
    ssize_t k;
    while ((k = ::read(fd, b, sizeof b)) > 0) s.append(b, k);
    close(fd);
    return s;
}

// ------------------------------------------------------------------ contents
struct Entry {
    uint64_t r, c; T v;
    bool operator<(const Entry& o) const {
        if (r != o.r) return r < o.r;
        if (c != o.c) return c < o.c;
        return memcmp(&v, &o.v, sizeof v) < 0;
    }
    bool operator==(const Entry& o) const { return r == o.r && c == o.c && memcmp(&v, &o.v, sizeof v) == 0; }
};
struct Content {
    uint64_t rows = 0, cols = 0;
    std::vector<Entry> e;
    void sort() { std::sort(e.begin(), e.end()); }
    uint64_t hash() const { uint64_t h = hash_mix(rows, cols); for (auto& x : e) h = hash_mix(hash_mix(h, x.r), hash_mix(x.c, hash_bytes(&x.v, sizeof x.v))); return h; }
};
template <class S> static Content content(S& s) {
    Content c; c.rows = s.rows; c.cols = s.columns;
    for (size_t i = 0; i < (size_t) s.nnz; i++) c.e.push_back({(uint64_t) s.get_row_index((IT) i), (uint64_t) s.get_column_index((IT) i), (T) s.get_value((IT) i)});
    return c;
}
static std::string difference(Content a, Content b) {      // wanted, got
    if (a.rows != b.rows || a.cols != b.cols)
        return fmt("size %llux%llu instead of %llux%llu", (unsigned long long) b.rows, (unsigned long long) b.cols, (unsigned long long) a.rows, (unsigned long long) a.cols);
    if (a.e.size() != b.e.size()) return fmt("%zu entries instead of %zu", b.e.size(), a.e.size());
    a.sort(); b.sort();
    for (size_t i = 0; i < a.e.size(); i++) if (!(a.e[i] == b.e[i]))
        return fmt("entry (%llu,%llu,%.17g) instead of (%llu,%llu,%.17g)", (unsigned long long) b.e[i].r, (unsigned long long) b.e[i].c, (double) b.e[i].v,
                   (unsigned long long) a.e[i].r, (unsigned long long) a.e[i].c, (double) a.e[i].v);
    return "";
}

static T random_value(Rng& g, bool finite) {
    int k = (int) g.below(10);
    T v;
    if (k < 3) return (T) g.range(-5, 5);
    if (k == 3) return (T) -0.0;
    if (k == 4) return std::numeric_limits<T>::denorm_min() * (T) g.range(1, 1000);
    if (k == 5) return g.chance(50) ? std::numeric_limits<T>::max() : std::numeric_limits<T>::lowest();
    if (k == 6 && !finite) return g.chance(50) ? std::numeric_limits<T>::infinity() : (T) -std::numeric_limits<T>::infinity();
    do { uint64_t b = g.next(); memcpy(&v, &b, sizeof v); } while (!(v == v) || !std::isfinite((double) v));
    return v;
}
static Content to_content(const Mat& m) {
    Content c; c.rows = m.rows; c.cols = m.cols;
    for (size_t i = 0; i < m.nnz(); i++) c.e.push_back({m.r[i], m.c[i], (T) m.v[i]});
    return c;
}
// The same entries in a matrix of nearly any size
static void stretch(Rng& g, Mat& m, uint64_t most, bool square) {
    if (!m.rows || !m.cols) return;
    auto line = [&](std::vector<uint64_t>& at, uint64_t& n) {
        uint64_t to = g.chance(50) ? most - g.below(3) : (uint64_t) g.range((int64_t) n, (int64_t) (most >> g.below(30)) + (int64_t) n);
        if (to > most) to = most;
        uint64_t step = g.chance(60) ? to / n : 1, first = g.chance(50) ? to - 1 - (n - 1) * step : 0;
        for (auto& v : at) v = first + v * step;
        n = to;
    };
    Rng again = g;
    line(m.r, m.rows);
    if (square) { Rng now = g; g = again; line(m.c, m.cols); g = now; }
    else if (g.chance(70)) line(m.c, m.cols);
    count("matrices of nearly any size");
}
static const uint64_t index_top = std::min<uint64_t>(std::numeric_limits<IT>::max(), 1ull << 61);

static Content random_content(Rng& g, size_t max_nnz, uint64_t max_dim, bool finite, bool plain_values = false, int stretched = 0) {
    GenLimits l; l.max_nnz = max_nnz; l.max_dim = max_dim;
    Mat m = generate(g, l);
    if (stretched && g.chance(stretched)) stretch(g, m, g.chance(50) ? index_top : std::min<uint64_t>(index_top, 2147483647), false);
    Content c = to_content(m);
    if (max_nnz > 60000 && c.e.size() && g.chance(15)) {       // as many as 16 bits wrap around at
        size_t n = 65536 * (1 + g.below(3)) - 1 + g.below(3);
        for (size_t i = 0; c.e.size() < n; i++) { auto e = c.e[i]; if (g.chance(30)) e.c = g.below(c.cols); c.e.push_back(e); }
        c.e.resize(n);
        count("matrices with a multiple of 2^16 entries");
    }
    if (!plain_values) for (auto& e : c.e) e.v = random_value(g, finite);
    return c;
}
template <class S> static void fill(S* s, const Content& c) {
    s->rows = (IT) c.rows; s->columns = (IT) c.cols;
    allocate(s, (IT) c.e.size());
    for (size_t i = 0; i < c.e.size(); i++) set_point(s, (IT) i, (IT) c.e[i].r, (IT) c.e[i].c, c.e[i].v);
}

// Quiet stderr while the library complains
struct Quiet {
    int saved;
    Quiet() { fflush(stderr); saved = dup(2); int n = open("/dev/null", O_WRONLY); dup2(n, 2); close(n); }
    ~Quiet() { fflush(stderr); dup2(saved, 2); close(saved); }
};

// In a child. 0..255: exit status; 256+s: ended by signal s
static int in_child(const std::function<int()>& f) {
    fflush(stdout); fflush(stderr);
    pid_t p = clean_fork();
    if (p == 0) { alarm(120); _exit(f()); }
    int s = 0;
    while (waitpid(p, &s, 0) < 0 && errno == EINTR) {}
    forget_child(p);
    return WIFEXITED(s) ? WEXITSTATUS(s) : 256 + WTERMSIG(s);
}

// ---------------------------------------------------------------- mode mtx
static std::string spell(Rng& g, const char* w) {
    std::string s = w;
    int k = (int) g.below(4);
    if (k == 1) for (auto& c : s) c = (char) toupper(c);
    if (k == 2) s[0] = (char) toupper(s[0]);
    if (k == 3) for (auto& c : s) if (g.chance(50)) c = (char) toupper(c);
    return s;
}
static std::string gap(Rng& g) { int k = (int) g.below(8); return k < 5 ? " " : k == 5 ? "   " : k == 6 ? "\t" : " \t "; }
static std::string number(Rng& g, bool integer, T* out) {
    std::string s;
    if (integer) {
        s = fmt("%lld", (long long) g.range(-100000, 100000));
        if (g.chance(6)) s = fmt("%lld", (long long) g.next() >> g.below(60));
        else if (g.chance(1)) { s = g.chance(50) ? "-9" : "8"; for (uint64_t k = 19 + g.below(12); k; k--) s += (char) ('0' + g.below(10)); } 
        if (g.chance(5) && s[0] != '-') s = "+" + s;
    }
    else switch (g.below(8)) {
        case 0: s = fmt("%d", (int) g.range(-9, 9)); break;
        case 1: s = fmt("%.3f", g.range(-99999, 99999) / 1000.0); break;
        case 2: s = fmt("%.16e", (double) random_value(g, true)); break;
        case 3: s = fmt("%.7E", g.range(-99999, 99999) / 777.0); break;
        case 4: s = fmt("%s.%de%d", g.chance(50) ? "-" : "", (int) g.below(1000), (int) g.range(-20, 20)); break;
        case 5: s = fmt("%d.", (int) g.range(-99, 99)); break;
        case 6: s = fmt("+%d.%de+0%d", (int) g.below(100), (int) g.below(100), (int) g.below(10)); break;
        default: s = fmt("%.9g", (double) random_value(g, true)); break;
    }
    *out = (T) strtod(s.c_str(), nullptr);
    return s;
}

struct MtxFile { std::string text; Content want; std::string what; uint64_t listed = 0; };
static MtxFile make_mtx(Rng& g, size_t max_nnz, uint64_t max_dim, bool plain = false) {
    MtxFile f;
    static const char* fields[] = {"real", "integer", "pattern"};
    static const char* syms[] = {"general", "symmetric", "skew-symmetric"};
    int field = (int) g.below(3), sym = g.chance(45) ? 0 : (int) g.range(1, 2);
    GenLimits l; l.max_nnz = max_nnz; l.max_dim = max_dim;
    uint64_t n = sym ? pick_dim(g, l) : 0;
    Mat m = generate(g, l, n, n);
    if (g.chance(8)) stretch(g, m, std::min<uint64_t>(index_top, 2147483647), sym != 0);
    std::string eol = plain || g.chance(80) ? "\n" : "\r\n";
    if (plain) f.text = std::string("%%MatrixMarket matrix coordinate ") + fields[field] + " " + syms[sym] + "\n";
    else {
        f.text = "%%MatrixMarket" + gap(g) + spell(g, "matrix") + gap(g) + spell(g, "coordinate") + gap(g) + spell(g, fields[field]) + gap(g) + spell(g, syms[sym]);
        if (g.chance(20)) f.text += " ";
        f.text += eol;
        int comments = (int) g.below(5);
        if (g.chance(1)) comments = (int) g.range(100, 900);   // more than 64 KB of them at times
        for (int i = 0; i < comments; i++) {
            f.text += "%";
            int len = g.chance(10) || comments > 4 ? (int) g.below(900) : (int) g.below(50);
            for (int j = 0; j < len; j++) f.text += "% 0123456789abc.-\t"[g.below(18)];
            f.text += eol;
        }
        if (g.chance(10)) { int k = g.chance(5) ? (int) g.range(100, 70000) : (int) g.range(1, 3); for (int i = 0; i < k; i++) f.text += (g.chance(30) ? "  " : "") + eol; }
    }
    std::vector<size_t> keep;
    bool any_triangle = g.chance(10);
    for (size_t i = 0; i < m.nnz(); i++) {
        if (sym && !any_triangle && m.r[i] < m.c[i]) std::swap(m.r[i], m.c[i]);
        if (sym == 2 && m.r[i] == m.c[i]) continue;
        keep.push_back(i);
    }
    f.want.rows = m.rows; f.want.cols = m.cols;
    std::string lead = !plain && g.chance(10) ? "  " : "";
    auto sep = [&] { return plain ? std::string(" ") : gap(g); };
    f.text += lead + fmt("%llu", (unsigned long long) m.rows) + sep() + fmt("%llu", (unsigned long long) m.cols) + sep() + fmt("%zu", keep.size()) + (!plain && g.chance(10) ? " " : "") + eol;
    bool zeros = !plain && g.chance(5), spread = !plain && g.chance(10), late = !plain && g.chance(10);
    for (size_t k = 0; k < keep.size(); k++) {
        size_t i = keep[k];
        T v = 1;
        if (late && g.chance(10)) f.text += eol;
        if (spread && g.chance(30)) f.text += "  ";
        f.text += fmt(zeros ? "%06llu" : "%llu", (unsigned long long) m.r[i] + 1) + sep() + fmt("%llu", (unsigned long long) m.c[i] + 1);
        if (field != 2) f.text += sep() + number(g, field == 1, &v);
        if (k + 1 < keep.size() || !g.chance(15)) f.text += ((spread && g.chance(20)) ? " " : "") + eol;
        f.want.e.push_back({m.r[i], m.c[i], v});
        if (sym && m.r[i] != m.c[i]) f.want.e.push_back({m.c[i], m.r[i], sym == 2 ? (T) -v : v});
    }
    f.listed = keep.size();
    f.what = fmt("%s %s %llux%llu, %zu entries listed%s%s", fields[field], syms[sym], (unsigned long long) m.rows, (unsigned long long) m.cols, keep.size(), plain ? "" : ", free format", eol.size() == 2 ? ", CRLF" : "");
    count(std::string("file ") + fields[field] + " " + syms[sym]);
    return f;
}

template <class S>
static void check_read_mtx(const MtxFile& f, const std::string& p, bool dispatch, const char* kind) {
    S s;
    int ret = dispatch ? read_COO(&s, p.c_str()) : read_mm_COO(&s, p.c_str());
    st().checks++;
    if (ret != 0) { violation(fmt("mtx:%s:rejected", kind), f.what + fmt(" rejected with %d", ret)); return; }
    std::string d = difference(f.want, content(s));
    if (!d.empty()) violation(fmt("mtx:%s:content", kind), f.what + " read as " + d);
    count("entries compared", f.want.e.size());
    release(s);
}

static void mode_mtx(uint64_t i, Rng& g) {
    MtxFile f = make_mtx(g, g.chance(2) ? 20000 : 3000, g.chance(5) ? 1100000 : 70000);
    std::string p = path(g.chance(50) ? "m.mtx" : "a.b.bin.mtx");
    put(p, f.text);
    distinct(hash_bytes(f.text.data(), f.text.size()));
    step(f.what);
    if (i % 40 == 0) sample(f.what + ": " + f.text.substr(0, 160));
    { Watch w("read mtx", f.what); check_read_mtx<Coo2<T, IT>>(f, p, g.chance(50), "coo2"); }
    { Watch w("read mtx", f.what); check_read_mtx<Coo3<T, IT>>(f, p, g.chance(50), "coo3"); }
    unlink(p.c_str());
}

// ----------------------------------------------------------- mode roundtrip
template <class V> static void app(std::string& s, V v) { s.append((const char*) &v, sizeof v); }
static std::string bin_bytes(const Content& c) {        // as README describes
    std::string s;
    app<IT>(s, (IT) c.rows); app<IT>(s, (IT) c.cols); app<IT>(s, (IT) c.e.size());
    for (auto& e : c.e) app<IT>(s, (IT) e.r);
    for (auto& e : c.e) app<IT>(s, (IT) e.c);
    for (auto& e : c.e) app<T>(s, e.v);
    return s;
}
template <class S>
static void expect(const char* key, const std::string& what, const Content& want, S& s, int ret) {
    st().checks++;
    if (ret != 0) { violation(key, what + fmt(" rejected with %d", ret)); return; }
    std::string d = difference(want, content(s));
    if (!d.empty()) violation(key, what + " reads back as " + d);
    count("entries compared", want.e.size());
    release(s);
}
static void wrote(const char* key, const std::string& what, int ret) {
    st().checks++;
    if (ret != 0) violation(key, what + fmt(" could not be written (%d)", ret));
}
template <class S>
static void unchanged(const char* key, const std::string& what, const Content& want, S& s) {
    st().checks++;
    Content c = content(s);
    if (c.e.size() != want.e.size() || !(c.e == want.e) || c.rows != want.rows || c.cols != want.cols) violation(fmt("roundtrip:%s:source-changed", key), what);
}
template <class V>
static void array_case(Rng& g, const char* name) {
    size_t n = g.chance(10) ? 0 : (size_t) g.range(1, g.chance(20) ? 20000 : g.chance(3) ? 1200000 : 50);
    std::vector<V> a(n);
    for (auto& v : a) { uint64_t b = g.next(); memcpy(&v, &b, sizeof v); }
    std::string p = path("array"), what = fmt("array of %zu %s", n, name);
    if (g.chance(50)) put(p, std::string((size_t) g.below(5000), 'x')); else unlink(p.c_str());
    step(what);
    std::vector<V> copy = a;
    wrote("roundtrip:array:write", what, write_bin_array(p.c_str(), copy.data(), n));
    std::string raw = get(p);
    st().checks++;
    if (raw != std::string((const char*) a.data(), n * sizeof(V))) violation("roundtrip:array:bytes", what);
    V* back = nullptr; size_t m = 12345;
    {
        Watch w("read array", what);
        int ret = read_bin_array(p.c_str(), &back, &m);
        st().checks++;
        if (ret != 0 && n) violation("roundtrip:array:read", what + fmt(" rejected with %d", ret));
        else if (ret == 0 && (m != n || (n && memcmp(back, a.data(), n * sizeof(V))))) violation("roundtrip:array:content", what);
        if (ret == 0) free(back);
    }
    count("arrays");
}

static void blocked_case(Rng& g) {
    GenLimits l; l.max_nnz = g.chance(8) ? 20000 : 2500; l.max_dim = g.chance(10) ? 70000 : 2500;
    larger(g, l);
    Mat m = generate(g, l);
    if (!m.nnz()) m.add(0, 0, 1);
    Blocking b;
    b.constant = false;
    uint64_t most = opt_n("many", 0) ? 65535 : 300;
    b.ro = random_offsets(g, m.rows, F::local_max, most);
    b.co = random_offsets(g, m.cols, F::local_max, most);
    if (m.rows == m.cols && g.chance(50)) b.co = b.ro;
    if (g.chance(40)) fill_blocks(g, m, b);
    IT nr = (IT) (b.ro.size() - 1), nc = (IT) (b.co.size() - 1);
    std::vector<IT> ro(b.ro.begin(), b.ro.end()), co(b.co.begin(), b.co.end());
    std::string what = "blocked file of " + m.describe() + " " + b.describe();
    step(what);
    distinct(hash_mix(m.hash(), b.hash()));
    // Sometimes values of any bits, each at a position of its own
    std::vector<T> any;
    if (g.chance(35)) {
        std::set<std::pair<uint64_t, uint64_t>> taken;
        size_t k = 0;
        for (size_t i = 0; i < m.nnz(); i++) if (taken.insert({m.r[i], m.c[i]}).second) { m.r[k] = m.r[i]; m.c[k] = m.c[i]; m.v[k++] = m.v[i]; }
        m.r.resize(k); m.c.resize(k); m.v.resize(k);
        for (size_t i = 0; i < k; i++) any.push_back(random_value(g, true));
        count("blocked files with values of any bits");
    }
    Coo3<T, IT> s;
    F::fill(&s, m);
    for (size_t i = 0; i < any.size(); i++) s.elements[i].val = any[i];
    calculate_block_id(s.elements, s.nnz, ro.data(), nr, co.data(), nc);
    sort_elements_blocks(s.elements, s.nnz);
    s.blockrows = nr; s.blockcols = nc;
    s.nnzblocks = count_blocks(s.elements, s.nnz);
    std::string p = path("m.block");
    if (g.chance(30)) put(p, std::string(100000, 'x')); else unlink(p.c_str());
    wrote("roundtrip:blocked:write", what, write_bin_blocked(s, p.c_str()));
    // Layout: header of six, then block, row, column, value of each element
    std::set<std::pair<uint64_t, uint64_t>> nzb;
    std::string raw = get(p), bytes;
    {
        auto bi = [](const std::vector<uint64_t>& o, uint64_t i) { return (uint64_t) (std::upper_bound(o.begin(), o.end(), i) - o.begin() - 1); };
        std::vector<std::array<uint64_t, 4>> el;
        for (size_t i = 0; i < m.nnz(); i++) { uint64_t R = bi(b.ro, m.r[i]), C = bi(b.co, m.c[i]); nzb.insert({R, C}); el.push_back({{R * nc + C, m.r[i], m.c[i], i}}); }
        std::stable_sort(el.begin(), el.end(), [](auto& x, auto& y) { return std::tie(x[0], x[1], x[2]) < std::tie(y[0], y[1], y[2]); });
        app<IT>(bytes, (IT) m.rows); app<IT>(bytes, (IT) m.cols); app<IT>(bytes, (IT) m.nnz());
        app<IT>(bytes, nr); app<IT>(bytes, nc); app<IT>(bytes, (IT) nzb.size());
        for (auto& e : el) { app<IT>(bytes, (IT) e[0]); app<IT>(bytes, (IT) e[1]); app<IT>(bytes, (IT) e[2]); app<T>(bytes, any.empty() ? (T) m.v[e[3]] : any[e[3]]); }
    }
    st().checks++;
    if (raw != bytes) violation("roundtrip:blocked:bytes", what + fmt(" has %zu bytes, wanted %zu, or their contents differ", raw.size(), bytes.size()));
    auto xi = int_vector(g, m.cols, -4, 4);
    auto y0 = int_vector(g, m.rows, -4, 4);
    auto want = product(m, xi, y0);
    Guarded<T> x(m.cols), y(m.rows);
    for (size_t j = 0; j < m.cols; j++) x[j] = (T) xi[j];
    auto mult = [&](auto& A, const char* name) {
        if (!any.empty()) {                       // one column at a time
            std::map<uint64_t, std::vector<size_t>> columns;
            for (size_t i = 0; i < m.nnz(); i++) columns[m.c[i]].push_back(i);
            for (size_t j = 0; j < m.cols; j++) x[j] = 0;
            int most = 30;
            for (auto& c : columns) {
                if (columns.size() > 30 && !g.chance(2)) continue;
                if (!most--) break;
                for (size_t j = 0; j < m.rows; j++) y[j] = 0;
                x[c.first] = 1;
                A.spmv(x.p, y.p);
                x[c.first] = 0;
                std::map<uint64_t, T> has;
                for (size_t i : c.second) has[m.r[i]] = any[i];
                st().checks++;
                for (size_t j = 0; j < m.rows; j++) {
                    auto h = has.find(j);
                    T v = h == has.end() ? (T) 0 : h->second;
                    if (y[j] != v) { violation(fmt("roundtrip:blocked:%s:values", name), what + fmt(" element (%zu,%llu) is %.17g instead of %.17g", j, (unsigned long long) c.first, (double) y[j], (double) v)); break; }
                }
            }
            count("columns of such files read back", 30 - most);
        } else
        for (size_t j = 0; j < m.rows; j++) y[j] = (T) y0[j];
        if (any.empty()) { A.spmv(x.p, y.p); st().checks++; }
        for (size_t j = 0; j < m.rows && any.empty(); j++) if ((double) y[j] != (double) want[j]) { violation(fmt("roundtrip:blocked:%s", name), what + fmt(" row %zu is %g instead of %g", j, (double) y[j], (double) want[j])); break; }
        st().checks++;
        if ((uint64_t) A.nonzeros() != m.nnz() || (uint64_t) A.nnzblocks != nzb.size()) violation(fmt("roundtrip:blocked:%s-counts", name), what);
        count(std::string("blocked files read to ") + name);
    };
    auto dup = [](const std::vector<IT>& v) { IT* p = new IT[v.size()]; std::copy(v.begin(), v.end(), p); return p; };
    int which = (int) g.below(3);
    omp_set_num_threads((int) g.range(1, 4));
    if (which == 0) { Csbr<T, IT> A; int r = read_bin_blocked(&A, p.c_str(), dup(ro), nr, dup(co), nc); wrote("roundtrip:blocked:read", what, r);
        if (!r) { mult(A, "csbr"); release(A); } }
    else if (which == 1) { Csbr2<T, IT> A; int r = read_bin_blocked(&A, p.c_str(), dup(ro), nr, dup(co), nc); wrote("roundtrip:blocked:read", what, r); if (!r) { mult(A, "csbr2"); release(A); } }
    else { Cgbr<T, IT, SIT> A; int r = read_bin_blocked(&A, p.c_str(), dup(ro), nr, dup(co), nc); wrote("roundtrip:blocked:read", what, r); if (!r) { mult(A, "cgbr"); for (int t = 0; t < MATRIX_TYPE_NUM; t++) if (A.type_block_count[t]) count(fmt("blocked files with blocks of kind %d", t)); release(A); } }
    unlink(p.c_str());
    release(s);
}

template <class S>
static void roundtrip_coo(Rng& g, const char* kind) {
    Content c = random_content(g, g.chance(5) ? 70000 : 9000, g.chance(6) ? 1100000 : 70000, true, false, 12);
    std::string what = fmt("%s %llux%llu, %zu entries", kind, (unsigned long long) c.rows, (unsigned long long) c.cols, c.e.size());
    distinct(c.hash());
    sample(what);
    S s; fill(&s, c);
    std::string pm = path("r.mtx"), pb = path("r.bin");
    auto old = [&](const std::string& p) { if (g.chance(30)) put(p, std::string((size_t) g.below(300000), '1')); else unlink(p.c_str()); };
    // MatrixMarket
    old(pm);
    step(what + " as mtx");
    // The sizes in such a file are ints for its reader: what is larger is written in full, or refused
    const bool beyond = c.rows > 2147483647 || c.cols > 2147483647;
    int written;
    { Quiet q; Watch w("write mtx", what); written = write_mm_COO(&s, pm.c_str()); }
    if (!beyond) wrote("roundtrip:mtx:write", what + " as MatrixMarket", written);
    else { count("matrices beyond what MatrixMarket files hold"); if (written != 0) count("matrices refused for MatrixMarket"); }
    unchanged("mtx", what, c, s);
    if (beyond) {
        st().checks++;
        if (written == 0) {
            std::string t = get(pm), want = fmt("\n%llu %llu %zu\n", (unsigned long long) c.rows, (unsigned long long) c.cols, c.e.size());
            if (t.find(want) == std::string::npos) violation("roundtrip:mtx:wrapped", what + " is written with other sizes: " + t.substr(0, 120));
        }
    } else {
    { Coo2<T, IT> b; int r = g.chance(50) ? read_mm_COO(&b, pm.c_str()) : read_COO(&b, pm.c_str()); expect("roundtrip:mtx:coo2", what + " as MatrixMarket", c, b, r); }
    { Coo3<T, IT> b; int r = read_mm_COO(&b, pm.c_str()); expect("roundtrip:mtx:coo3", what + " as MatrixMarket", c, b, r); }
    {   // the text itself: header, one line per entry, and nothing else
        std::string t = get(pm);
        size_t lines = std::count(t.begin(), t.end(), '\n');
        st().checks++;
        if (t.compare(0, 14, "%%MatrixMarket") || lines != c.e.size() + 2) violation("roundtrip:mtx:text", what + fmt(": %zu lines", lines));
    }
    }
    // .bin. NaN and infinities too
    for (auto& e : c.e) if (g.chance(3)) e.v = g.chance(50) ? std::numeric_limits<T>::quiet_NaN() : std::numeric_limits<T>::infinity();
    release(s); fill(&s, c);
    old(pb);
    step(what + " as bin");
    { Watch w("write bin", what); wrote("roundtrip:bin:write", what + " as .bin", write_bin_COO(s, pb.c_str())); }
    unchanged("bin", what, c, s);
    st().checks++;
    if (get(pb) != bin_bytes(c)) violation("roundtrip:bin:bytes", what + ": layout differs from the documented one");
    { Coo2<T, IT> b; int r = g.chance(50) ? read_bin_COO(&b, pb.c_str()) : read_COO(&b, pb.c_str()); expect("roundtrip:bin:coo2", what + " as .bin", c, b, r); }
    { Coo3<T, IT> b; int r = g.chance(50) ? read_bin_COO(&b, pb.c_str()) : read_COO(&b, pb.c_str()); expect("roundtrip:bin:coo3", what + " as .bin", c, b, r); }
    // .bin to Csr, rows in order
    if (c.rows < 5000000) {
        Content o = c;
        for (auto& e : o.e) e.v = (T) g.range(-3, 3);
        std::stable_sort(o.e.begin(), o.e.end(), [](const Entry& a, const Entry& b) { return a.r != b.r ? a.r < b.r : a.c < b.c; });
        put(pb, bin_bytes(o));
        Watch w("read csr", what);
        Csr<T, IT> A;
        int r = read_bin_CSR(&A, pb.c_str());
        st().checks++;
        if (r != 0) violation("roundtrip:csr:read", what + fmt(" rejected with %d", r));
        else {
            Content got; got.rows = A.rows; got.cols = A.columns;
            for (IT i = 0; i < A.rows; i++) for (IT k = A.row_ptr[i]; k < A.row_ptr[i + 1]; k++) got.e.push_back({(uint64_t) i, (uint64_t) A.col_ind[k], A.val[k]});
            std::string d = difference(o, got);
            if (!d.empty()) violation("roundtrip:csr:content", what + " read to Csr has " + d);
            release(A);
        }
    }
    // Three files: no sizes in them, the largest indices define the matrix
    {
        std::string fr = path("r.row"), fc = path("r.col"), fv = path("r.val");
        old(fr); old(fc); old(fv);
        step(what + " as three files");
        { Watch w("write three files", what); wrote("roundtrip:three:write", what + " as three files", write_bin_COO(&s, fr.c_str(), fc.c_str(), fv.c_str())); }
        unchanged("three", what, c, s);
        Content d = c; d.rows = d.cols = 1;
        std::string br, bc, bv;
        for (auto& e : c.e) { d.rows = std::max(d.rows, e.r + 1); d.cols = std::max(d.cols, e.c + 1); app<IT>(br, (IT) e.r); app<IT>(bc, (IT) e.c); app<T>(bv, e.v); }
        st().checks++;
        if (get(fr) != br || get(fc) != bc || get(fv) != bv) violation("roundtrip:three:bytes", what);
        if (!c.e.empty()) {
            { Coo2<T, IT> b; int r = read_bin_COO(&b, fr.c_str(), fc.c_str(), fv.c_str()); expect("roundtrip:three:coo2", what + " as three files", d, b, r); }
            { Coo3<T, IT> b; int r = read_bin_COO(&b, fr.c_str(), fc.c_str(), fv.c_str()); expect("roundtrip:three:coo3", what + " as three files", d, b, r); }
            { Coo<T, IT, IT> b; int r = read_bin_COO(&b, fr.c_str(), fc.c_str(), fv.c_str()); expect("roundtrip:three:coo", what + " as three files", d, b, r); }
        }
        unlink(fr.c_str()); unlink(fc.c_str()); unlink(fv.c_str());
    }
    release(s);
    unlink(pm.c_str()); unlink(pb.c_str());
}

static void mode_roundtrip(uint64_t i, Rng& g) {
    switch (i % 5) {
    case 0: roundtrip_coo<Coo2<T, IT>>(g, "coo2"); count("matrices"); break;
    case 1: roundtrip_coo<Coo3<T, IT>>(g, "coo3"); count("matrices"); break;
    case 2: case 3: blocked_case(g); count("matrices"); break;
    default:
        switch (g.below(5)) {
        case 0: array_case<uint8_t>(g, "uint8"); break;
        case 1: array_case<uint32_t>(g, "uint32"); break;
        case 2: array_case<uint64_t>(g, "uint64"); break;
        case 3: array_case<float>(g, "float"); break;
        default: array_case<double>(g, "double"); break;
        }
    }
}

// ----------------------------------------------------------- mode malformed
// Independent judgement of a MatrixMarket file
enum Verdict { ACCEPT, REJECT, EITHER };
struct Judgement { Verdict v = REJECT; Content c; };
static bool full_uint(const std::string& t, uint64_t* out, bool* starts) {
    // *starts: begins like a number, so a lenient reader may use a part of it
    size_t k = 0;
    if (k < t.size() && (t[k] == '+')) k++;
    size_t d = k;
    while (k < t.size() && isdigit((unsigned char) t[k])) k++;
    *starts = (k > d);
    if (k == d || k != t.size() || k - d > 18) return false;
    *out = strtoull(t.c_str() + d, nullptr, 10);
    return true;
}
static Judgement judge(const std::string& text) {
    Judgement j;
    size_t e = text.find('\n');
    std::string banner = text.substr(0, e == std::string::npos ? text.size() : e);
    if (banner.find('\0') != std::string::npos) { j.v = EITHER; return j; }
    std::vector<std::string> w;
    { std::string cur; for (char ch : banner + " ") { if (isspace((unsigned char) ch)) { if (!cur.empty()) w.push_back(cur); cur.clear(); } else cur += ch; } }
    if (w.size() < 5) return j;
    for (size_t i = 1; i < 5; i++) for (auto& ch : w[i]) ch = (char) tolower(ch);
    if (w[0].compare(0, 14, "%%MatrixMarket")) return j;
    if (w[0] != "%%MatrixMarket" || w.size() > 5 || banner.size() > 1000) j.v = EITHER;
    if (w[1] != "matrix" || w[2] != "coordinate") { j.v = REJECT; return j; }
    if (w[3] != "real" && w[3] != "integer" && w[3] != "pattern") { j.v = REJECT; return j; }
    if (w[4] != "general" && w[4] != "symmetric" && w[4] != "skew-symmetric") { j.v = REJECT; return j; }
    bool either = (j.v == EITHER);
    j.v = REJECT;
    bool pattern = w[3] == "pattern";
    int sym = w[4] == "general" ? 0 : w[4] == "symmetric" ? 1 : 2;
    if (e == std::string::npos) return j;
    size_t at = e + 1;
    while (at < text.size() && text[at] == '%') { size_t n = text.find('\n', at); if (n == std::string::npos) return j; at = n + 1; }
    // The size line is the first that is not blank
    std::string size;
    for (;;) {
        if (at >= text.size()) return j;
        size_t n = text.find('\n', at);
        size = text.substr(at, n == std::string::npos ? n : n - at);
        at = (n == std::string::npos) ? text.size() : n + 1;
        size_t k = size.find_first_not_of(" \t\r\n\v\f");
        if (k != std::string::npos && size[k] == '%') { either = true; continue; }    // a comment below a blank line
        if (k != std::string::npos) break;
    }
    auto tokens = [](const std::string& s) {
        std::vector<std::string> t;
        std::string cur;
        for (size_t i = 0; i <= s.size(); i++) { char ch = i < s.size() ? s[i] : ' '; if (isspace((unsigned char) ch)) { if (!cur.empty()) t.push_back(cur); cur.clear(); } else cur += ch; }
        return t;
    };
    std::vector<std::string> t = tokens(size);
    if (t.size() < 3) {    // may be glued together from pieces: 3+4+5
        if (size.find_first_of("+-", 1) != std::string::npos) j.v = EITHER;
        return j;
    }
    uint64_t R, C, N; bool st_;
    uint64_t* o[3] = {&R, &C, &N};
    for (int k = 0; k < 3; k++) if (!full_uint(t[k], o[k], &st_)) { if ((st_ && k == 2) || t[k] == "-0" || size.find_first_of("+-", 1) != std::string::npos) j.v = EITHER; return j; }
    if (t.size() > 3 || size.find('\0') != std::string::npos || size.size() > 1000) either = true;
    if (R > INT32_MAX || C > INT32_MAX) { j.v = (N <= text.size()) ? EITHER : REJECT; return j; }
    if (sym && R != C) return j;
    j.c.rows = R; j.c.cols = C;
    size_t per = pattern ? 2 : 3;
    // Every entry has a line of its own; blank lines do not count
    auto next_line = [&](std::vector<std::string>* w) {
        while (at < text.size()) {
            size_t n = text.find('\n', at);
            std::string l = text.substr(at, n == std::string::npos ? n : n - at);
            at = (n == std::string::npos) ? text.size() : n + 1;
            if (l.size() > 1000) either = true;
            *w = tokens(l);
            if (!w->empty()) return true;
        }
        return false;
    };
    std::vector<std::string> w2;
    for (uint64_t i = 0; i < N; i++) {
        T v = 1; uint64_t p[2];
        if (!next_line(&w2) || w2.size() != per) { j.c.e.clear(); j.v = either ? EITHER : REJECT; return j; }
        for (size_t k = 0; k < per; k++) {
            const std::string& q = w2[k];
            if (k < 2) {
                if (full_uint(q, p + k, &st_)) continue;
                // more digits than any position needs
                j.v = (either || q.find_first_not_of("0123456789+-") == std::string::npos && (q[0] == '0' || q == "-0" || q.size() > 1 && q[1] == '0')) ? EITHER : REJECT;
                return j;
            }
            char* end; double d = strtod(q.c_str(), &end);
            if (end == q.c_str() || *end) { if (either) j.v = EITHER; return j; }
            if (strpbrk(q.c_str(), "xXnNiI")) { j.v = EITHER; return j; }
            v = (T) d;
        }
        uint64_t r = p[0], c = p[1];
        if (r < 1 || r > R || c < 1 || c > C) { if (either) j.v = EITHER; return j; }
        j.c.e.push_back({r - 1, c - 1, v});
        if (sym && r != c) j.c.e.push_back({c - 1, r - 1, sym == 2 ? (T) -v : v});
    }
    if (next_line(&w2)) either = true;      // more entries than there should be
    j.v = either ? EITHER : ACCEPT;
    return j;
}

template <class S>
static void try_mtx(const std::string& p, const std::string& text, const std::string& what, const char* key) {
    Judgement j = judge(text);
    if (text.find('\0') != std::string::npos) j.v = EITHER;   // the readers work with C strings
    if (j.v == ACCEPT && text.find_first_of("\v\f") != std::string::npos) j.v = EITHER;   // hardly blanks
    S s;
    int ret;
    {
        Quiet q;
        Watch w("read damaged mtx", what);
        ret = read_mm_COO(&s, p.c_str());
        if (ret == 0) {
            st().checks++;
            if (j.v == REJECT) violation(fmt("malformed:mtx:%s:accepted", key), what + " was accepted");
            else if (j.v == ACCEPT) { std::string d = difference(j.c, content(s)); if (!d.empty()) violation(fmt("malformed:mtx:%s:content", key), what + " read as " + d); }
            // whatever was accepted is in range
            Content c = content(s);
            for (auto& e : c.e) if (e.r >= c.rows || e.c >= c.cols) { violation(fmt("malformed:mtx:%s:range", key), what + fmt(" gave entry (%llu,%llu) of %llux%llu", (unsigned long long) e.r, (unsigned long long) e.c, (unsigned long long) c.rows, (unsigned long long) c.cols)); break; }
            release(s);
        }
    }
    st().checks++;
    if (ret > 0) violation(fmt("malformed:mtx:%s:code", key), what + fmt(" returned %d", ret));
    if (ret != 0 && j.v == ACCEPT) violation(fmt("malformed:mtx:%s:rejected", key), what + fmt(" is valid but was rejected with %d", ret));
    count(ret == 0 ? "mtx accepted" : "mtx rejected");
    count(std::string("verdict ") + (j.v == ACCEPT ? "valid" : j.v == REJECT ? "damaged" : "either"));
    distinct(hash_bytes(text.data(), text.size()));
}
static void one_mtx(Rng& g, const std::string& text, const std::string& what, const char* key) {
    std::string p = path("d.mtx");
    put(p, text);
    step(what);
    if (g.chance(50)) try_mtx<Coo2<T, IT>>(p, text, what, key); else try_mtx<Coo3<T, IT>>(p, text, what, key);
}

static void malformed_mtx(Rng& g) {
    MtxFile f = make_mtx(g, g.chance(70) ? 6 : 60, g.chance(50) ? 9 : 200, g.chance(60));
    // Every prefix
    size_t stride = f.text.size() > 400 ? 1 + f.text.size() / 300 : 1;
    for (size_t n = g.below(stride); n < f.text.size(); n += stride)
        one_mtx(g, f.text.substr(0, n), fmt("first %zu of %zu bytes of %s", n, f.text.size(), f.what.c_str()), "prefix");
    count("prefixes of whole files tried");
    one_mtx(g, f.text, "all of " + f.what, "whole");
    // Damaged pieces
    std::vector<std::string> lines;
    { std::string cur; for (char ch : f.text) { if (ch == '\n') { lines.push_back(cur); cur.clear(); } else if (ch != '\r') cur += ch; } if (!cur.empty()) lines.push_back(cur); }
    size_t size_line = 1;
    while (size_line < lines.size() && (lines[size_line].empty() || lines[size_line][0] == '%' || lines[size_line].find_first_not_of(" \t") == std::string::npos)) size_line++;
    auto join = [&](const std::vector<std::string>& l) { std::string s; for (auto& x : l) s += x + "\n"; return s; };
    auto words = [](const std::string& s) { std::vector<std::string> w; std::string cur; for (char ch : s + " ") { if (ch == ' ' || ch == '\t') { if (!cur.empty()) w.push_back(cur); cur.clear(); } else cur += ch; } return w; };
    auto glue = [](const std::vector<std::string>& w) { std::string s; for (size_t i = 0; i < w.size(); i++) s += (i ? " " : "") + w[i]; return s; };
    static const char* bad_num[] = {"0", "-1", "x", "", "4294967297", "18446744073709551616", "99999999999", "1e3", "nan", "-0", "--2", "2147483648", "65537", "*", "1,"};
    for (int k = 0; k < 25; k++) {
        auto l = lines;
        std::string what, key;
        int kind = (int) g.below(8);
        if (kind == 0) {            // banner
            auto w = words(l[0]);
            size_t i = g.below(w.size());
            static const char* sub[] = {"matrix", "coordinate", "array", "complex", "hermitian", "vector", "real", "pattern", "general", "unsymmetric", "", "MatrixMarket", "%MatrixMarket", "%%matrixmarket"};
            w[i] = sub[g.below(14)];
            l[0] = glue(w); what = "banner \"" + l[0] + "\""; key = "banner";
        } else if (kind == 1) {     // size line
            auto w = words(l[size_line]);
            size_t i = g.below(w.size());
            if (g.chance(30)) w[i] = fmt("%lld", (long long) strtoll(w[i].c_str(), 0, 10) + g.range(-3, 3)); else w[i] = bad_num[g.below(15)];
            l[size_line] = glue(w); what = "size line \"" + l[size_line] + "\""; key = "size";
        } else if (kind <= 4 && lines.size() > size_line + 1) {  // an entry
            size_t n = size_line + 1 + g.below(lines.size() - size_line - 1);
            auto w = words(l[n]);
            if (w.empty()) continue;
            size_t i = g.below(w.size());
            if (i < 2 && g.chance(40)) w[i] = fmt("%llu", (unsigned long long) (i ? f.want.cols : f.want.rows) + (unsigned long long) g.below(3)); else w[i] = bad_num[g.below(15)];
            l[n] = glue(w); what = fmt("entry line %zu \"%s\"", n, l[n].c_str()); key = "entry";
        } else if (kind == 7 && lines.size() > size_line + 1) {  // a field too many or too few, or something behind a number
            size_t n = g.chance(30) ? lines.size() - 1 : size_line + 1 + g.below(lines.size() - size_line - 1);
            auto w = words(l[n]);
            if (w.empty()) continue;
            size_t i = g.below(w.size());
            static const char* tails[] = {".5", "x", ",", ".0", "e", "d0", ";", "%", "-1", "+"};
            static const char* fields[] = {"1", "2", "0", "1.5", "x", "%", "-3"};
            int how = (int) g.below(4);
            if (how == 0) w.erase(w.begin() + i);
            else if (how == 1) w.insert(w.begin() + i + (g.chance(50) ? 1 : 0), fields[g.below(7)]);
            else if (how == 2) w[i] += tails[g.below(10)];
            else if (n + 1 < lines.size()) { l[n] = glue(w) + " " + l[n + 1]; l.erase(l.begin() + n + 1); w = words(l[n]); }
            l[n] = glue(w); what = fmt("fields of line %zu \"%s\"", n, l[n].c_str()); key = "fields";
        } else if (kind == 5 && lines.size() > size_line + 1) {  // a line lost
            size_t n = size_line + g.below(lines.size() - size_line);
            what = fmt("line %zu lost", n); key = "lost-line";
            l.erase(l.begin() + n);
        } else {                    // any byte
            std::string s = join(l);
            size_t n = g.below(s.size());
            char ch = (char) g.below(256);
            if (g.chance(70)) ch = "0123456789 -.%\nexa"[g.below(18)];
            s[n] = ch;
            // a byte in the banner or in a comment may hide the rest
            one_mtx(g, s, fmt("byte %zu of %s changed to %d (%s)", n, f.what.c_str(), (int) ch, s.substr(0, 200).c_str()), "byte");
            continue;
        }
        one_mtx(g, join(l), what + " in " + f.what, key.c_str());
    }
    unlink(path("d.mtx").c_str());
}

template <class S> static int read_one(S* s, const std::string& p, bool dispatch) { return dispatch ? read_COO(s, p.c_str()) : read_bin_COO(s, p.c_str()); }
// A .bin file through the three readers
static void one_bin(Rng& g, const std::string& data, const std::string& what, const char* key) {
    std::string p = path("d.bin");
    put(p, data);
    step(what);
    Verdict v = REJECT;
    Content c;
    bool sorted = true;
    if (data.size() >= 3 * sizeof(IT)) {
        auto at = [&](size_t i) { IT x; memcpy(&x, data.data() + i * sizeof(IT), sizeof x); return x; };
        c.rows = at(0); c.cols = at(1);
        uint64_t n = at(2);
        unsigned __int128 need = (unsigned __int128) n * (2 * sizeof(IT) + sizeof(T)) + 3 * sizeof(IT);
        if (need <= data.size()) {
            v = (need == data.size()) ? ACCEPT : EITHER;
            for (uint64_t i = 0; i < n; i++) {
                T x; memcpy(&x, data.data() + (3 + 2 * n) * sizeof(IT) + i * sizeof(T), sizeof x);
                c.e.push_back({(uint64_t) at(3 + i), (uint64_t) at(3 + n + i), x});
                if (c.e[i].r >= c.rows || c.e[i].c >= c.cols) v = REJECT;
                if (i && c.e[i].r < c.e[i - 1].r) sorted = false;
            }
        }
    }
    distinct(hash_bytes(data.data(), data.size()));
    count(std::string("verdict ") + (v == ACCEPT ? "valid" : v == REJECT ? "damaged" : "either"));
    auto verdict = [&](const char* reader, int ret, const Content* got) {
        st().checks++;
        if (ret == 0 && v == REJECT) violation(fmt("malformed:bin:%s:%s:accepted", reader, key), what + " was accepted");
        if (ret == 0 && v == ACCEPT && got) { std::string d = difference(c, *got); if (!d.empty()) violation(fmt("malformed:bin:%s:%s:content", reader, key), what + " read as " + d); }
        if (ret > 0) violation(fmt("malformed:bin:%s:%s:code", reader, key), what + fmt(" returned %d", ret));
        if (ret != 0 && v == ACCEPT) violation(fmt("malformed:bin:%s:%s:rejected", reader, key), what + fmt(" is valid but was rejected with %d", ret));
        count(ret == 0 ? "bin accepted" : "bin rejected");
    };
    Quiet q;
    int which = (int) g.below(3);
    Watch w("read damaged bin", what);
    if (which == 0) { Coo2<T, IT> s; int r = read_one(&s, p, g.chance(30)); Content got; if (!r) got = content(s); verdict("coo2", r, &got); if (!r) release(s); }
    else if (which == 1) { Coo3<T, IT> s; int r = read_one(&s, p, g.chance(30)); Content got; if (!r) got = content(s); verdict("coo3", r, &got); if (!r) release(s); }
    else if (sorted && c.rows < 1000000) {
        Csr<T, IT> A; int r = read_bin_CSR(&A, p.c_str());
        Content got;
        if (!r) { got.rows = A.rows; got.cols = A.columns; for (IT i = 0; i < A.rows; i++) for (IT k = A.row_ptr[i]; k < A.row_ptr[i + 1]; k++) got.e.push_back({(uint64_t) i, (uint64_t) A.col_ind[k], A.val[k]}); }
        verdict("csr", r, &got);
        if (!r) release(A);
    }
}
static void malformed_bin(Rng& g) {
    Content c = random_content(g, g.chance(70) ? 5 : 40, g.chance(60) ? 9 : 300, true, true);
    if (g.chance(60)) std::stable_sort(c.e.begin(), c.e.end(), [](const Entry& a, const Entry& b) { return a.r < b.r; });
    std::string d = bin_bytes(c), what = fmt(".bin file %llux%llu, %zu entries", (unsigned long long) c.rows, (unsigned long long) c.cols, c.e.size());
    size_t stride = d.size() > 400 ? 1 + d.size() / 250 : 1;
    for (size_t n = g.below(stride); n < d.size(); n += stride) one_bin(g, d.substr(0, n), fmt("first %zu of %zu bytes of a ", n, d.size()) + what, "prefix");
    one_bin(g, d, "all of a " + what, "whole");
    for (int k = 0; k < 20; k++) {
        std::string s = d;
        uint64_t words = s.size() / sizeof(IT);
        auto set = [&](size_t i, IT x) { memcpy(&s[i * sizeof(IT)], &x, sizeof x); };
        std::string w2; const char* key;
        if (g.chance(40) || c.e.empty()) {
            size_t i = g.below(3);
            IT x = g.chance(50) ? (IT) g.below(12) : g.chance(30) ? (IT) -1 : g.chance(30) ? (IT) 1 << (sizeof(IT) * 8 - 1 - g.below(4)) : (IT) (g.next() >> 20);
            if (i == 2 && g.chance(30)) x = (IT) (c.e.size() + g.range(0, 2));
            // sizes a Csr can be allocated for
            if (i == 0) x = std::min<IT>(x, 100000);
            set(i, x); key = "header"; w2 = fmt("header word %zu set to %llu in a ", i, (unsigned long long) x);
        } else {
            size_t i = 3 + g.below(2 * c.e.size());
            bool row = i < 3 + c.e.size();
            IT x = g.chance(60) ? (IT) ((row ? c.rows : c.cols) + g.range(-1, 1)) : (IT) -1 - (IT) g.below(3);
            if (i < words) set(i, x);
            key = "index"; w2 = fmt("%s index set to %llu in a ", row ? "row" : "column", (unsigned long long) x);
        }
        one_bin(g, s, w2 + what, key);
    }
    unlink(path("d.bin").c_str());
}

template <class S>
static void three(Rng& g, const char* kind) {
    Content c = random_content(g, 40, 300, true);
    if (c.e.empty()) return;
    std::string b[3];
    for (auto& e : c.e) { app<IT>(b[0], (IT) e.r); app<IT>(b[1], (IT) e.c); app<T>(b[2], e.v); }
    std::string p[3] = {path("d.row"), path("d.col"), path("d.val")};
    for (int k = 0; k < 12; k++) {
        int which = (int) g.below(3), how = (int) g.below(which == 2 ? 1 : 4);
        size_t keep = g.below(b[which].size());
        if (which == 2) { // a value that is cut off
            keep = g.below(c.e.size()) * sizeof(T) + (g.chance(70) ? 1 + g.below(sizeof(T) - 1) : 0);
        }
        std::string bad = b[which].substr(0, keep);
        std::string what = fmt("three files to %s, %zu entries, file %d has %zu of %zu bytes", kind, c.e.size(), which, keep, b[which].size());
        if (how == 1) { // longer than the others
            bad = b[which];
            size_t more = 1 + g.below(3 * sizeof(IT));
            bad.append(more, (char) g.below(3));
            what = fmt("three files to %s, %zu entries, file %d is %zu bytes too long", kind, c.e.size(), which, more);
        } else if (how == 2) { // a position that has no number of rows or columns
            bad = b[which];
            IT x = (IT) -1;
            memcpy(&bad[g.below(c.e.size()) * sizeof(IT)], &x, sizeof x);
            what = fmt("three files to %s, %zu entries, file %d has an index of %llu", kind, c.e.size(), which, (unsigned long long) x);
        }
        for (int i = 0; i < 3; i++) put(p[i], i == which ? bad : b[i]);
        step(what);
        distinct(hash_mix(hash_bytes(bad.data(), bad.size()), which));
        Quiet q;
        Watch w("read damaged three files", what);
        S s;
        int r = read_bin_COO(&s, p[0].c_str(), p[1].c_str(), p[2].c_str());
        st().checks++;
        if (r >= 0) { violation(fmt("malformed:three:%s:short-accepted", kind), what + fmt(" returned %d", r)); if (r == 0) release(s); }
        count("three-file sets rejected");
    }
    // More values than indices
    for (int i = 0; i < 3; i++) put(p[i], b[i]);
    { std::string more = b[2]; for (int i = 0; i < 3; i++) app<T>(more, (T) 1); put(p[2], more); }
    { Quiet q; Watch w("read damaged three files", kind); S s; int r = read_bin_COO(&s, p[0].c_str(), p[1].c_str(), p[2].c_str()); st().checks++; if (r >= 0) violation(fmt("malformed:three:%s:values-left-over", kind), fmt("returned %d", r)); if (r == 0) release(s); }
    // One is missing
    for (int i = 0; i < 3; i++) put(p[i], b[i]);
    int gone = (int) g.below(3);
    unlink(p[gone].c_str());
    if (gone < 2) { Quiet q; Watch w("read missing file", kind); S s; int r = read_bin_COO(&s, p[0].c_str(), p[1].c_str(), p[2].c_str()); st().checks++; if (r >= 0) violation(fmt("malformed:three:%s:missing", kind), fmt("file %d missing, returned %d", gone, r)); }
    else if (forks) {
        Quiet q;
        int r = in_child([&] { S s; return read_bin_COO(&s, p[0].c_str(), p[1].c_str(), p[2].c_str()) < 0 ? 77 : 0; });
        st().checks++;
        if (r == 0 || r >= 256) violation(fmt("malformed:three:%s:missing", kind), fmt("value file missing, ended with %d", r));
    }
    for (int i = 0; i < 3; i++) unlink(p[i].c_str());
}

// Blocked files: the header, then block, row, column and value of each element
static void malformed_blocked(Rng& g) {
    GenLimits l; l.max_nnz = g.chance(20) ? 400 : 14; l.max_dim = g.chance(20) ? 400 : 12;
    Mat m = generate(g, l);
    if (g.chance(10)) { m.r.clear(); m.c.clear(); m.v.clear(); }
    else if (!m.nnz()) m.add(0, 0, 1);
    Blocking b;
    b.constant = false;
    b.ro = random_offsets(g, m.rows, F::local_max, 30);
    b.co = random_offsets(g, m.cols, F::local_max, 30);
    IT nr = (IT) (b.ro.size() - 1), nc = (IT) (b.co.size() - 1);
    struct El { uint64_t b, r, c; T v; };
    std::vector<El> el;
    auto bi = [](const std::vector<uint64_t>& o, uint64_t i) { return (uint64_t) (std::upper_bound(o.begin(), o.end(), i) - o.begin() - 1); };
    for (size_t i = 0; i < m.nnz(); i++) el.push_back({bi(b.ro, m.r[i]) * nc + bi(b.co, m.c[i]), m.r[i], m.c[i], (T) m.v[i]});
    std::stable_sort(el.begin(), el.end(), [](const El& x, const El& y) { return std::tie(x.b, x.r, x.c) < std::tie(y.b, y.r, y.c); });
    std::set<uint64_t> ids;
    for (auto& e : el) ids.insert(e.b);
    auto bytes = [&](const std::vector<El>& v) {
        std::string s;
        for (uint64_t x : {(uint64_t) m.rows, (uint64_t) m.cols, (uint64_t) m.nnz(), (uint64_t) nr, (uint64_t) nc, (uint64_t) ids.size()}) app<IT>(s, (IT) x);
        for (auto& e : v) { app<IT>(s, (IT) e.b); app<IT>(s, (IT) e.r); app<IT>(s, (IT) e.c); app<T>(s, e.v); }
        return s;
    };
    std::string good = bytes(el), p = path("d.block"), base = " blocked file of " + m.describe() + " " + b.describe();
    auto one = [&](const std::string& data, const std::string& what, const char* key, bool valid) {
        put(p, data);
        step(what);
        distinct(hash_bytes(data.data(), data.size()));
        Quiet q;
        int which = (int) g.below(3);
        const char* names[] = {"csbr", "csbr2", "cgbr"};
        Watch w("read damaged blocked", what);
        auto go = [&](auto& A) {
            IT* ro = new IT[nr + 1]; IT* co = new IT[nc + 1];
            for (size_t i = 0; i <= nr; i++) ro[i] = (IT) b.ro[i];
            for (size_t i = 0; i <= nc; i++) co[i] = (IT) b.co[i];
            int r = read_bin_blocked(&A, p.c_str(), ro, nr, co, nc);
            st().checks++;
            if (r == 0 && !valid) violation(fmt("malformed:blocked:%s:%s:accepted", names[which], key), what + " was accepted");
            if (r != 0 && valid) violation(fmt("malformed:blocked:%s:%s:rejected", names[which], key), what + fmt(" was rejected with %d", r));
            if (r > 0) violation(fmt("malformed:blocked:%s:%s:code", names[which], key), what + fmt(" returned %d", r));
            if (r == 0) release(A); else { delete[] ro; delete[] co; }
            count(r == 0 ? "blocked accepted" : "blocked rejected");
        };
        if (which == 0) { Csbr<T, IT> A; go(A); }
        else if (which == 1) { Csbr2<T, IT> A; go(A); }
        else { Cgbr<T, IT, SIT> A; go(A); }
    };
    one(good, "all of a" + base, "whole", true);
    size_t stride = good.size() > 300 ? 1 + good.size() / 100 : 1;
    for (size_t n = g.below(stride); n < good.size(); n += stride) one(good.substr(0, n), fmt("first %zu of %zu bytes of a", n, good.size()) + base, "prefix", false);
    for (int k = 0; k < 8; k++) {
        std::string s = good;
        size_t i = g.below(6);
        IT old, x;
        memcpy(&old, &s[i * sizeof(IT)], sizeof old);
        x = g.chance(50) ? (IT) (old + (IT) g.range(-1, 1)) : g.chance(30) ? (IT) -1 : g.chance(30) ? (IT) 1 << (sizeof(IT) * 8 - 1 - g.below(4)) : (IT) g.below(12);
        if (x == old) continue;
        // fewer elements are declared than there are: what follows may be ignored, if the blocks are right
        if (i == 2 && x < old && x > 0) { std::set<uint64_t> some; for (size_t e = 0; e < x; e++) some.insert(el[e].b); if (some.size() == ids.size()) continue; }
        memcpy(&s[i * sizeof(IT)], &x, sizeof x);
        one(s, fmt("header word %zu set to %llu in a", i, (unsigned long long) x) + base, "header", false);
    }
    for (int k = 0; k < 10 && !el.empty(); k++) {
        std::vector<El> v = el;
        size_t i = g.below(v.size());
        int how = (int) g.below(6);
        uint64_t br = v[i].b / nc, bc = v[i].b % nc;
        std::string w2; const char* key = "element";
        if (how == 0) { v[i].b += g.chance(50) ? 1 : (uint64_t) nr * nc; w2 = "block number"; }
        else if (how == 1) { v[i].b = (IT) -1 - g.below(3); w2 = "huge block number"; }
        else if (how == 2) { v[i].r = g.chance(50) || b.ro[br] == 0 ? b.ro[br + 1] + g.below(2) : b.ro[br] - 1; w2 = "row"; }
        else if (how == 3) { v[i].c = g.chance(50) || b.co[bc] == 0 ? b.co[bc + 1] + g.below(2) : b.co[bc] - 1; w2 = "column"; }
        else if (how == 4) { v[i].r = (IT) -1; w2 = "huge row"; }
        else {
            if (i == 0 || (v[i].b == v[i - 1].b && v[i].r == v[i - 1].r)) continue;
            std::swap(v[i], v[i - 1]); w2 = "order"; key = "order";
        }
        // Empty blocks make neighbouring numbers meaningless, but never valid:
        // an element belongs to exactly one block
        one(bytes(v), "wrong " + w2 + fmt(" of element %zu in a", i) + base, key, false);
    }
    {
        std::string none = path("no.block");
        IT ro[2] = {0, 1};
        Csbr<T, IT> A; Quiet q; Watch w("read missing file", "blocked"); st().checks++;
        if (read_bin_blocked(&A, none.c_str(), ro, (IT) 1, ro, (IT) 1) >= 0) violation("malformed:missing:blocked", none);
    }
    unlink(p.c_str());
    count("blocked files damaged");
}

static void missing(Rng& g) {
    Quiet q;
    std::string none = path("none") + fmt("%d", (int) g.below(10)), d = dir;
    struct { std::string p; const char* what; } places[] = {{none + ".mtx", "missing .mtx"}, {none + ".bin", "missing .bin"}, {dir + "/no/such.mtx", "missing directory"}, {none, "no extension"}, {path("x.txt"), "unknown extension"}, {path("mtx"), "no dot"}, {path("x.mtx "), "blank after extension"}, {"", "empty name"}};
    put(path("x.txt"), "%%MatrixMarket matrix coordinate real general\n1 1 1\n1 1 1\n");
    put(path("mtx"), "%%MatrixMarket matrix coordinate real general\n1 1 1\n1 1 1\n");
    put(path("x.mtx "), "%%MatrixMarket matrix coordinate real general\n1 1 1\n1 1 1\n");
    for (auto& pl : places) {
        Watch w("read missing file", pl.what);
        Coo2<T, IT> a; Coo3<T, IT> b;
        step(pl.what);
        st().checks += 2;
        if (read_COO(&a, pl.p.c_str()) >= 0) violation("malformed:missing:coo2", pl.what);
        if (read_COO(&b, pl.p.c_str()) >= 0) violation("malformed:missing:coo3", pl.what);
    }
    { Watch w("read missing file", "csr"); Csr<T, IT> A; st().checks++; if (read_bin_CSR(&A, none.c_str()) >= 0) violation("malformed:missing:csr", none); }
    { Watch w("read missing file", "mtx"); Coo2<T, IT> A; st().checks++; if (read_mm_COO(&A, dir.c_str()) >= 0) violation("malformed:directory:mtx", dir); }
    { Watch w("read missing file", "bin"); Coo2<T, IT> A; st().checks++; if (read_bin_COO(&A, dir.c_str()) >= 0) violation("malformed:directory:bin", dir); }
    for (int k = 0; k < 5; k++) {
        // Arrays whose last element is cut off
        size_t bytes = g.below(40);
        std::string p = path("d.arr");
        put(p, std::string(bytes, (char) 1));
        Watch w("read damaged array", fmt("%zu bytes", bytes));
        T* a = nullptr; size_t n = 0;
        int r = read_bin_array(p.c_str(), &a, &n);
        st().checks++;
        if (bytes % sizeof(T) ? r >= 0 : (r != 0 || n != bytes / sizeof(T))) violation("malformed:array:partial", fmt("%zu bytes as elements of %zu: returned %d, %zu elements", bytes, sizeof(T), r, n));
        if (r == 0) free(a);
        unlink(p.c_str());
    }
    if (forks) {
        int r = in_child([&] { uint32_t* a; size_t n; return read_bin_array(none.c_str(), &a, &n) < 0 ? 77 : 0; });
        st().checks++;
        if (r == 0 || r >= 256) violation("malformed:missing:array", fmt("ended with %d", r));
    }
    unlink(path("x.txt").c_str()); unlink(path("mtx").c_str()); unlink(path("x.mtx ").c_str());
    count("missing files tried", 8);
}

static void mode_malformed(uint64_t i, Rng& g) {
    switch (i % 7) {
    case 0: case 1: malformed_mtx(g); break;
    case 2: case 3: malformed_bin(g); break;
    case 6: malformed_blocked(g); break;
    case 4: { int k = (int) g.below(3); if (k == 0) three<Coo2<T, IT>>(g, "coo2"); else if (k == 1) three<Coo3<T, IT>>(g, "coo3"); else three<Coo<T, IT, IT>>(g, "coo"); break; }
    default: missing(g); break;
    }
}

// -------------------------------------------------------------- mode wfault
// Faults are injected below stdio. With WITH_FAULTS, fopen() for writing gives
// a stream on a device that fails as told; otherwise only real limits apply.
struct Fault {
    enum { NONE, FULL, ONCE, CLOSE, OPEN, READ, READ_ONCE, READ_SUM, SHORT, NOSEEK, NOTHING } kind = NONE;
    std::string target;          // path it applies to
    size_t at = 0;               // bytes accepted before the fault
    uint64_t opened = 0, fired = 0, seeks = 0, sum = 0;
    size_t buffer = 0;           // size of the stream's buffer, 0: as it is
};
static Fault fault;
#ifdef WITH_FAULTS
struct Dev { int fd; size_t written; bool done; };
static ssize_t dev_write(void* c, const char* b, size_t n) {
    Dev* d = (Dev*) c;
    size_t take = n;
    if (fault.kind == Fault::FULL || (fault.kind == Fault::ONCE && !d->done)) {
        if (d->written >= fault.at && n) { d->done = true; fault.fired++; errno = ENOSPC; return 0; }
        take = std::min(n, fault.at - d->written);
    }
    ssize_t k = ::write(d->fd, b, take);
    if (k > 0) d->written += k;
    return k;
}
static int dev_close(void* c) {
    Dev* d = (Dev*) c;
    close(d->fd);
    int r = 0;
    if (fault.kind == Fault::CLOSE) { fault.fired++; errno = EIO; r = -1; }
    delete d;
    return r;
}
// For reading
struct In { int fd; size_t at; bool done; char buffer[64]; };
static ssize_t in_read(void* c, char* b, size_t n) {
    In* d = (In*) c;
    size_t take = n;
    if (fault.kind == Fault::READ || (fault.kind == Fault::READ_ONCE && !d->done && !fault.fired)) {
        if (d->at >= fault.at && n) { d->done = true; fault.fired++; errno = EIO; return -1; }
        take = std::min(n, fault.at - d->at);
    }
    if (fault.kind == Fault::READ_SUM) {      // once that much has been read altogether, again or not
        if (fault.sum >= fault.at && n) { fault.fired++; errno = EIO; return -1; }
        take = std::min<size_t>(n, fault.at - fault.sum);
    }
    if (fault.kind == Fault::SHORT) { take = std::min(n, fault.at + 1); fault.fired++; }      // in small pieces, as from a pipe
    ssize_t k = ::pread(d->fd, b, take, (off_t) d->at);
    if (k > 0) { d->at += k; fault.sum += k; }
    return k;
}
static int in_seek(void* c, off64_t* o, int whence) {
    In* d = (In*) c;
    if (fault.kind == Fault::NOSEEK && fault.seeks++ >= fault.at) { fault.fired++; errno = ESPIPE; return -1; }
    off64_t base = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? (off64_t) d->at : lseek(d->fd, 0, SEEK_END);
    if (base + *o < 0) { errno = EINVAL; return -1; }
    d->at = (size_t) (*o = base + *o);
    return 0;
}
static int in_close(void* c) { In* d = (In*) c; close(d->fd); delete d; return 0; }
extern "C" FILE* __real_fopen(const char*, const char*);
static FILE* faulty_fopen(const char* p, const char* m) {
    if (fault.kind >= Fault::OPEN && fault.kind != Fault::NOTHING && m[0] == 'r' && fault.target == p) {
        fault.opened++;
        if (fault.kind == Fault::OPEN) {
            if (fault.opened - 1 != fault.at) return __real_fopen(p, m);
            fault.fired++; errno = EMFILE; return nullptr;
        }
        int fd = open(p, O_RDONLY);
        if (fd < 0) return nullptr;
        cookie_io_functions_t io = {in_read, nullptr, in_seek, in_close};
        In* in = new In{fd, 0, false, {}};
        FILE* f = fopencookie(in, m, io);
        if (f && fault.buffer) setvbuf(f, in->buffer, fault.buffer == 1 ? _IONBF : _IOFBF, std::min(fault.buffer, sizeof in->buffer));
        return f;
    }
    if (fault.kind == Fault::NONE || (m[0] != 'w' && m[0] != 'a') || fault.target != p) return __real_fopen(p, m);
    fault.opened++;
    if (fault.kind == Fault::OPEN) { fault.fired++; errno = EACCES; return nullptr; }
    int fd = open(p, O_WRONLY | O_CREAT | (m[0] == 'w' ? O_TRUNC : O_APPEND), 0644);
    if (fd < 0) return nullptr;
    cookie_io_functions_t io = {nullptr, dev_write, nullptr, dev_close};
    return fopencookie(new Dev{fd, 0, false}, m, io);
}
#ifndef WITH_LEDGER
extern "C" FILE* __wrap_fopen(const char* p, const char* m) { return faulty_fopen(p, m); }
#endif
#endif

struct Writer {
    std::string name;
    std::vector<std::string> files;
    std::function<int()> run;
};
static void limit(rlim_t n) { (void) omp_get_max_threads(); // has its own files, made without limits
    struct rlimit l; getrlimit(RLIMIT_FSIZE, &l); l.rlim_cur = n; setrlimit(RLIMIT_FSIZE, &l); }

static void mode_wfault(uint64_t i, Rng& g) {
    Content c = random_content(g, i % 3 == 0 ? 2500 : i % 3 == 1 ? 3 : 40, 500, true);
    Coo2<T, IT> a; Coo3<T, IT> b;
    fill(&a, c); fill(&b, c);
    for (size_t k = 0; k < c.e.size(); k++) b.elements[k].block = 0;
    b.blockrows = b.blockcols = b.nnzblocks = 1;
    std::vector<IT> arr(c.e.size() + 1, (IT) 7);
    std::string pm = path("w.mtx"), pb = path("w.bin"), pk = path("w.block"), pa = path("w.array"), p3[3] = {path("w.row"), path("w.col"), path("w.val")};
    bool c3 = g.chance(50);
    std::vector<Writer> ws = {
        {"write_mm_COO", {pm}, [&] { return c3 ? write_mm_COO(&b, pm.c_str()) : write_mm_COO(&a, pm.c_str()); }},
        {"write_bin_COO", {pb}, [&] { return c3 ? write_bin_COO(b, pb.c_str()) : write_bin_COO(a, pb.c_str()); }},
        {"write_bin_blocked", {pk}, [&] { return write_bin_blocked(b, pk.c_str()); }},
        {"write_bin_array", {pa}, [&] { return write_bin_array(pa.c_str(), arr.data(), arr.size()); }},
        {"write_bin_COO (three files)", {p3[0], p3[1], p3[2]}, [&] { return c3 ? write_bin_COO(&b, p3[0].c_str(), p3[1].c_str(), p3[2].c_str()) : write_bin_COO(&a, p3[0].c_str(), p3[1].c_str(), p3[2].c_str()); }},
    };
    Writer& w = ws[i % ws.size()];
    std::string what = w.name + fmt(" of %zu entries", c.e.size());
    step(what);
    sample(what);
    auto clean = [&] { for (auto& p : w.files) unlink(p.c_str()); };
    // Without faults
    clean();
    int r0 = w.run();
    std::vector<std::string> whole;
    size_t most = 0;
    for (auto& p : w.files) { whole.push_back(get(p)); most = std::max(most, whole.back().size()); }
    st().checks++;
    if (r0 != 0) { violation("wfault:refused:" + w.name, what + fmt(" returned %d without a fault", r0)); goto out; }
    {
        auto failed = [&](const char* kind, const std::string& detail, int r) {
            st().checks++;
            count(fmt("fault %s", kind));
            distinct(hash_mix(hash_mix(c.hash(), hash_bytes(detail.data(), detail.size())), hash_bytes(w.name.data(), w.name.size())));
            if (r >= 0) violation(fmt("wfault:%s:%s", kind, w.name.c_str()), what + " " + detail + fmt(" returned %d", r));
        };
        Quiet q;
        // The file cannot grow beyond n bytes, every n for small files
        size_t stride = most > 300 ? 1 + most / 60 : 1;
        for (size_t n = g.below(stride); n < most; n += stride) {
            clean();
            int r;
            { Watch wa("write fails", what); limit(n); r = w.run(); limit(RLIM_INFINITY); }
            failed("size limit", fmt("limited to %zu of %zu bytes", n, most), r);
        }
        clean();
        limit(most);
        int r = w.run();
        limit(RLIM_INFINITY);
        st().checks++;
        if (r != 0) violation("wfault:limit-enough:" + w.name, what + fmt(" returned %d with enough room", r));
        for (size_t k = 0; k < w.files.size(); k++) if (get(w.files[k]) != whole[k]) violation("wfault:content:" + w.name, what + " with enough room left something else");
        // A device that is full, a directory that is missing, a name that is a directory
        for (size_t k = 0; k < w.files.size(); k++) {
            const std::string& p = w.files[k];
            if (!whole[k].empty()) {
                clean();
                if (symlink("/dev/full", p.c_str()) == 0) { Watch wa("write fails", what); failed("full device", fmt("file %zu on a full device", k), w.run()); unlink(p.c_str()); }
            }
            clean();
            if (symlink((dir + "/no/such/file").c_str(), p.c_str()) == 0) { Watch wa("write fails", what); failed("missing directory", fmt("file %zu in a missing directory", k), w.run()); unlink(p.c_str()); }
            clean();
            if (mkdir(p.c_str(), 0755) == 0) { { Watch wa("write fails", what); failed("directory", fmt("file %zu is a directory", k), w.run()); } rmdir(p.c_str()); }
        }
#ifdef WITH_FAULTS
        for (size_t k = 0; k < w.files.size(); k++) {
            fault.target = w.files[k];
            auto inject = [&](decltype(fault.kind) kind, size_t at, const char* name) {
                clean();
                fault.kind = kind; fault.at = at; fault.fired = 0;
                int r;
                { Watch wa("write fails", what); r = w.run(); fault.kind = Fault::NONE; }
                if (fault.fired) failed(name, fmt("%s after %zu of %zu bytes of file %zu", name, at, whole[k].size(), k), r);
                else count("injections that did not happen");
            };
            inject(Fault::OPEN, 0, "open fails");
            inject(Fault::CLOSE, 0, "close fails");
            size_t n = whole[k].size(), st2 = n > 60 ? 1 + n / 25 : 1;
            for (size_t at = g.below(st2); at < n; at += st2) {
                inject(Fault::FULL, at, "device fills up");
                inject(Fault::ONCE, at, "one write fails");
            }
        }
#endif
        // and nothing is left of the faults
        clean();
        if (w.run() != 0) violation("wfault:afterwards:" + w.name, what + " fails after the faults are over");
    }
out:
    clean();
    release(a); release(b);
}

// -------------------------------------------------------------- mode rfault
// Whatever goes wrong below a reader, it succeeds only with all there is
#if defined(WITH_FAULTS) && defined(WITH_LEDGER)
struct Reader {
    std::string name;
    std::vector<std::string> files;
    std::function<int(std::string*)> run;      // returns what the reader returned; says what is wrong with what was read
};
template <class S> static std::string verdict(const Content& want, S& s) { std::string d = difference(want, content(s)); release(s); return d; }

static void mode_rfault(uint64_t i, Rng& g) {
    Content c = random_content(g, i % 4 == 0 ? 1500 : i % 2 ? 4 : 30, i % 4 == 0 ? 4000 : 60, true, g.chance(50));
    if (c.e.empty()) c.e.push_back({g.below(c.rows), g.below(c.cols), (T) 3});
    std::string text, fr = path("f.row"), fc = path("f.col"), fv = path("f.val"), br, bc, bv, pm = path("f.mtx"), pb = path("f.bin"), pk = path("f.block"), pa = path("f.array"), ps = path("s.bin");
    Content sorted = c, three = c;
    std::stable_sort(sorted.e.begin(), sorted.e.end(), [](const Entry& a, const Entry& b) { return a.r < b.r; });
    three.rows = three.cols = 1;
    for (auto& e : c.e) { three.rows = std::max(three.rows, e.r + 1); three.cols = std::max(three.cols, e.c + 1); app<IT>(br, (IT) e.r); app<IT>(bc, (IT) e.c); app<T>(bv, e.v); }
    { Coo2<T, IT> a; fill(&a, c); if (write_mm_COO(&a, pm.c_str()) != 0) _exit(3); release(a); }
    text = get(pm);
    // Only half of it in the file, so that it is read twice
    Content half = c;
    bool twice = g.chance(50);
    if (twice) {
        bool skew = g.chance(30);
        half.e.clear();
        half.rows = half.cols = std::max(c.rows, c.cols);
        text = fmt("%%%%MatrixMarket matrix coordinate real %ssymmetric\n%llu %llu %zu\n", skew ? "skew-" : "", (unsigned long long) half.rows, (unsigned long long) half.cols, c.e.size());
        for (auto e : c.e) {
            if (e.r < e.c) std::swap(e.r, e.c);
            text += fmt("%llu %llu %.17g\n", (unsigned long long) e.r + 1, (unsigned long long) e.c + 1, (double) e.v);
            half.e.push_back(e);
            if (e.r != e.c) half.e.push_back({e.c, e.r, skew ? -e.v : e.v});
        }
    }
    if (g.chance(50)) { size_t at = text.find('\n') + 1; text.insert(at, "% a comment\n%\n"); }
    if (g.chance(50) && !text.empty()) text.pop_back();      // no newline at the end
    put(pm, text); put(pb, bin_bytes(c)); put(ps, bin_bytes(sorted)); put(fr, br); put(fc, bc); put(fv, bv); put(pa, br);
    // a blocked file
    Blocking b; b.constant = false;
    b.ro = random_offsets(g, c.rows, F::local_max, 6); b.co = random_offsets(g, c.cols, F::local_max, 6);
    IT nr = (IT) (b.ro.size() - 1), nc = (IT) (b.co.size() - 1);
    std::vector<IT> ro(b.ro.begin(), b.ro.end()), co(b.co.begin(), b.co.end());
    Mat m; m.rows = c.rows; m.cols = c.cols;
    for (auto& e : c.e) m.add(e.r, e.c, (int) g.range(-4, 4));
    { Coo3<T, IT> s; F::fill(&s, m);
      calculate_block_id(s.elements, s.nnz, ro.data(), nr, co.data(), nc); sort_elements_blocks(s.elements, s.nnz);
      s.blockrows = nr; s.blockcols = nc; s.nnzblocks = count_blocks(s.elements, s.nnz);
      if (write_bin_blocked(s, pk.c_str()) != 0) _exit(3);
      release(s); }
    auto xi = int_vector(g, m.cols, -4, 4);
    auto y0 = int_vector(g, m.rows, -4, 4);
    auto want = product(m, xi, y0);
    std::vector<T> x(m.cols), y(m.rows);
    for (size_t j = 0; j < m.cols; j++) x[j] = (T) xi[j];
    auto blocked = [&](auto A, std::string* d) {
        IT* a = new IT[nr + 1]; IT* e = new IT[nc + 1];
        std::copy(ro.begin(), ro.end(), a); std::copy(co.begin(), co.end(), e);
        int r = read_bin_blocked(&A, pk.c_str(), a, nr, e, nc);
        if (r != 0) { delete[] a; delete[] e; return r; }
        for (size_t j = 0; j < m.rows; j++) y[j] = (T) y0[j];
        A.spmv(x.data(), y.data());
        for (size_t j = 0; j < m.rows && d->empty(); j++) if ((double) y[j] != (double) want[j]) *d = fmt("a product with row %zu %g instead of %lld", j, (double) y[j], (long long) want[j]);
        release(A);
        return r;
    };
    auto plain = [](auto s, const Content& k, auto f, std::string* d) { int r = f(&s); if (r == 0) *d = verdict(k, s); return r; };
    std::vector<Reader> rs = {
        {"read_mm_COO (Coo2)", {pm}, [&](std::string* d) { return plain(Coo2<T, IT>(), half, [&](auto* s) { return read_mm_COO(s, pm.c_str()); }, d); }},
        {"read_mm_COO (Coo3)", {pm}, [&](std::string* d) { return plain(Coo3<T, IT>(), half, [&](auto* s) { return read_mm_COO(s, pm.c_str()); }, d); }},
        {"read_COO of .mtx", {pm}, [&](std::string* d) { return plain(Coo2<T, IT>(), half, [&](auto* s) { return read_COO(s, pm.c_str()); }, d); }},
        {"read_bin_COO (Coo2)", {pb}, [&](std::string* d) { return plain(Coo2<T, IT>(), c, [&](auto* s) { return read_bin_COO(s, pb.c_str()); }, d); }},
        {"read_bin_COO (Coo3)", {pb}, [&](std::string* d) { return plain(Coo3<T, IT>(), c, [&](auto* s) { return read_bin_COO(s, pb.c_str()); }, d); }},
        {"read_COO of .bin", {pb}, [&](std::string* d) { return plain(Coo3<T, IT>(), c, [&](auto* s) { return read_COO(s, pb.c_str()); }, d); }},
        {"three files (Coo2)", {fr, fc, fv}, [&](std::string* d) { return plain(Coo2<T, IT>(), three, [&](auto* s) { return read_bin_COO(s, fr.c_str(), fc.c_str(), fv.c_str()); }, d); }},
        {"three files (Coo3)", {fr, fc, fv}, [&](std::string* d) { return plain(Coo3<T, IT>(), three, [&](auto* s) { return read_bin_COO(s, fr.c_str(), fc.c_str(), fv.c_str()); }, d); }},
        {"three files (Coo)", {fr, fc, fv}, [&](std::string* d) { return plain(Coo<T, IT, IT>(), three, [&](auto* s) { return read_bin_COO(s, fr.c_str(), fc.c_str(), fv.c_str()); }, d); }},
        {"read_bin_CSR", {ps}, [&](std::string* d) {
            Csr<T, IT> A;
            int r = read_bin_CSR(&A, ps.c_str());
            if (r != 0) return r;
            Content got; got.rows = A.rows; got.cols = A.columns;
            for (IT k = 0; k < A.rows; k++) for (IT q = A.row_ptr[k]; q < A.row_ptr[k + 1]; q++) got.e.push_back({(uint64_t) k, (uint64_t) A.col_ind[q], A.val[q]});
            *d = difference(sorted, got);
            release(A);
            return r; }},
        {"read_bin_array", {pa}, [&](std::string* d) {
            IT* a = nullptr; size_t n = 0;
            int r = read_bin_array(pa.c_str(), &a, &n);
            if (r != 0) return r;
            if (n * sizeof(IT) != br.size() || memcmp(a, br.data(), br.size())) *d = fmt("%zu elements, or others", n);
            free(a);
            return r; }},
        {"read_bin_blocked (Csbr)", {pk}, [&](std::string* d) { return blocked(Csbr<T, IT>(), d); }},
        {"read_bin_blocked (Csbr2)", {pk}, [&](std::string* d) { return blocked(Csbr2<T, IT>(), d); }},
        {"read_bin_blocked (Cgbr)", {pk}, [&](std::string* d) { return blocked(Cgbr<T, IT, SIT>(), d); }},
    };
    Reader& rd = rs[i % rs.size()];
    std::string what = rd.name + fmt(" of %zu entries", c.e.size());
    step(what);
    sample(what);
    omp_set_num_threads(2);
    fopen_instead = faulty_fopen;
    auto attempt = [&](const char* kind, const std::string& detail, bool must_work) {
        std::string d;
        int r;
        { Quiet q; Watch w("read fails", what + " " + detail); r = rd.run(&d); }
        st().checks++;
        if (r > 0) violation(fmt("rfault:code:%s", rd.name.c_str()), what + " " + detail + fmt(" returned %d", r));
        if (r >= 0 && !d.empty()) violation(fmt("rfault:%s:%s", kind, rd.name.c_str()), what + " " + detail + " succeeded with " + d);
        if (r < 0 && must_work) violation(fmt("rfault:refused:%s:%s", kind, rd.name.c_str()), what + " " + detail + fmt(" returned %d", r));
        return r;
    };
    fault.kind = Fault::NOTHING;
    requests = 0; refuse_request = INT64_MAX;
    attempt("none", "without a fault", true);
    int64_t asked = requests;
    refuse_request = -1;
    auto fired = [&](const char* kind, const std::string& detail, int r) {
        if (!fault.fired) { count("injections that did not happen"); return; }
        count(fmt("fault %s, %s", kind, r < 0 ? "reported" : "survived"));
        distinct(hash_mix(hash_mix(c.hash(), hash_bytes(detail.data(), detail.size())), hash_bytes(rd.name.data(), rd.name.size())));
    };
    for (size_t k = 0; k < rd.files.size(); k++) {
        fault.target = rd.files[k];
        size_t n = get(rd.files[k]).size(), stride = n > 200 ? 1 + n / 50 : 1;
        fault.buffer = std::vector<size_t>{0, n < 1000 ? 1u : 32u, 16, 64}[g.below(4)];
        auto inject = [&](decltype(fault.kind) kind, size_t at, const char* name, bool works) {
            std::string detail = fmt("with %s at %zu of %zu bytes of file %zu", name, at, n, k);
            fault.kind = kind; fault.at = at; fault.fired = fault.opened = fault.seeks = fault.sum = 0;
            int r = attempt(name, detail, works);
            fault.kind = Fault::NOTHING;
            fired(name, detail, r);
        };
        for (size_t at = g.below(stride); at <= n; at += stride) {
            inject(Fault::READ, at, "a bad place", false);
            if (g.chance(50)) inject(Fault::READ_ONCE, at, "one failing read", false);
        }
        // the device is lost after so many bytes, wherever they come from
        if (twice && rd.files[k] == pm) for (size_t at = n + g.below(stride); at <= 2 * n; at += stride) inject(Fault::READ_SUM, at, "a lost device", false);
        inject(Fault::READ, n - g.below(std::min<size_t>(n, 12)), "a bad place", false);
        inject(Fault::SHORT, g.below(9), "short reads", true);
        // (where the size of a file is asked, the program may end)
        for (int kind : {(int) Fault::OPEN, (int) Fault::NOSEEK}) for (size_t at = 0; at < 4; at++) {
            if (!forks || !g.chance(30)) continue;
            std::string detail = kind == Fault::OPEN ? fmt("with file %zu impossible to open the %zuth time", k, at + 1) : fmt("with file %zu impossible to seek in after %zu times", k, at);
            int e;
            { Quiet q;
              e = in_child([&] {
                struct rlimit l = {6ul << 30, 6ul << 30};      // no more than it could need
                setrlimit(RLIMIT_AS, &l);
                fault.kind = (decltype(fault.kind)) kind; fault.at = at; fault.fired = fault.opened = fault.seeks = fault.sum = 0;
                std::string d;
                int r = rd.run(&d);
                if (!fault.fired) return 79;
                return r < 0 ? 77 : d.empty() ? 78 : 76; }); }
            st().checks++;
            if (e == 79) { count("injections that did not happen"); continue; }
            if (e == 76) violation(fmt("rfault:open:%s", rd.name.c_str()), what + " " + detail + " succeeds with something else");
            if (e == 0 || e >= 256) violation(fmt("rfault:open:%s", rd.name.c_str()), what + " " + detail + fmt(" ends with %d", e));
            count(fmt("fault %s, %s", kind == Fault::OPEN ? "open fails" : "seek fails", e == 78 ? "survived" : "reported"));
            distinct(hash_mix(hash_mix(c.hash(), hash_bytes(detail.data(), detail.size())), hash_bytes(rd.name.data(), rd.name.size())));
        }
    }
    // every direct request for memory refused in turn (operator new ends the program instead)
    for (int64_t k = 0; k < std::min<int64_t>(asked, 60); k++) {
        int64_t n = asked <= 60 ? k : (int64_t) g.below((uint64_t) asked);
        requests = 0; refuse_request = n;
        std::string detail = fmt("with request %lld of %lld for memory refused", (long long) n, (long long) asked);
        std::string d;
        int r;
        { Quiet q; Watch w("read fails", what + " " + detail); r = rd.run(&d); }
        bool happened = requests > n;
        refuse_request = -1;
        st().checks++;
        if (!happened) { count("injections that did not happen"); continue; }
        if (r >= 0 && !d.empty()) violation(fmt("rfault:memory:%s", rd.name.c_str()), what + " " + detail + " succeeds with " + d);
        count(fmt("memory refused, %s", r < 0 ? "reported" : "survived"));
        distinct(hash_mix(hash_mix(c.hash(), (uint64_t) n + 7777777), hash_bytes(rd.name.data(), rd.name.size())));
    }
    fault.kind = Fault::NONE;
    attempt("none", "after the faults are over", true);
    fopen_instead = nullptr;
    for (auto& p : {pm, pb, ps, fr, fc, fv, pa, pk}) unlink(p.c_str());
}
#else
static void mode_rfault(uint64_t, Rng&) { fprintf(stderr, "built without faults\n"); _exit(3); }
#endif

static int run(int argc, char** argv) {
    init(argc, argv, "io");
    dir = opt("dir", ".");
    forks = opt_n("forks", 1);
    std::string mode = opt("mode", "mtx");
    st().engine += ":" + mode;
    signal(SIGXFSZ, SIG_IGN);
    several = opt_n("callers", 1) > 1;
    std::string top = dir;
    { volatile double d = 1; char b[64]; snprintf(b, sizeof b, "%g", d); }
    return run_cases([&](uint64_t i, Rng& g) {
        if (several) { dir = top + fmt("/%llu", (unsigned long long) (i % (uint64_t) opt_n("callers", 1))); mkdir(dir.c_str(), 0755); }
        if (mode == "mtx") mode_mtx(i, g);
        else if (mode == "roundtrip") mode_roundtrip(i, g);
        else if (mode == "malformed") mode_malformed(i, g);
        else if (mode == "rfault") mode_rfault(i, g);
        else mode_wfault(i, g);
    });
}
}
int main(int argc, char** argv) { return vf::run(argc, argv); }
