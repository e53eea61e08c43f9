// Every storage format behind one interface. Only the library's public
// operations are used: conversions, spmv, spmv_serial, nonzeros, release.
#pragma once
#include "common.hpp"

#include "typedefs.h"
#include "utils.h"
#include "matrix/coo.1.h"
#include "matrix/coo.2.h"
#include "matrix/coo.3.h"
#include "matrix/block_coo.1.h"
#include "matrix/block_coo.2.h"
#include "matrix/csr.1.h"
#include "matrix/csr.2.h"
#include "matrix/block_csr.h"
#include "matrix/crcsr.h"
#include "matrix/cswr.h"
#include "matrix/dense.h"
#include "matrix/csbr.h"
#include "matrix/csbr.2.h"
#include "matrix/csbr.3.h"
#include "matrix/cgbr.h"
#include "matrix/cgbr.2.h"
#include "spmv/omp/csbr.3.h"

namespace vf {

// How the rows and columns are split
struct Blocking {
    bool constant = true;
    uint64_t br = 1, bc = 1;                 // constant sizes
    std::vector<uint64_t> ro, co;            // offsets otherwise
    bool shared = false;                     // one array for rows and columns
    std::string describe() const {
        if (constant) return fmt("blocks %llux%llu", (unsigned long long) br, (unsigned long long) bc);
        std::string s = shared ? "offsets(shared) r:" : "offsets r:";
        for (size_t i = 0; i < ro.size() && i < 12; i++) s += fmt("%llu,", (unsigned long long) ro[i]);
        s += fmt("(%zu) c:", ro.size());
        for (size_t i = 0; i < co.size() && i < 12; i++) s += fmt("%llu,", (unsigned long long) co[i]);
        return s + fmt("(%zu)", co.size());
    }
    uint64_t hash() const {
        uint64_t h = hash_mix(constant, hash_mix(br, bc));
        for (auto v : ro) h = hash_mix(h, v);
        for (auto v : co) h = hash_mix(h, v);
        return h;
    }
};

inline std::vector<uint64_t> random_offsets(Rng& g, uint64_t n, uint64_t max_block, uint64_t max_blocks) {
    std::vector<uint64_t> o{0};
    int style = (int) g.below(6);
    uint64_t at = 0;
    while (at < n) {
        uint64_t left = n - at, s;
        if (style == 0) s = g.range(1, 3);
        else if (style == 1) s = g.range(1, (int64_t) std::max<uint64_t>(1, n / 3));
        else if (style == 2) s = g.chance(70) ? 1 : g.range(1, (int64_t) std::max<uint64_t>(1, n / 2));
        else if (style == 3) s = n;
        else if (style == 5) s = g.range(8, 70);
        else s = 1ull << g.below(8);
        if (o.size() >= max_blocks) s = left;
        s = std::min(s, left);
        s = std::min(s, max_block);
        at += s;
        o.push_back(at);
    }
    return o;
}

// Block sizes that the format with local indices below max_local can hold
inline Blocking random_blocking(Rng& g, uint64_t rows, uint64_t cols, uint64_t max_local, bool square_only = false,
                                uint64_t most_pairs = 1ull << 26) {
    Blocking b;
    // number of blocks is bounded to keep runs short
    uint64_t most_rows = 600, most_cols = 600;
    if (!square_only && g.chance((int) opt_n("many", 0))) {
        // as many as can be numbered together
        most_rows = 150000; most_cols = 150000;
        if (std::min(rows, most_rows) * std::min(cols, most_cols) > most_pairs) {
            if (g.chance(50)) for (most_rows = most_cols = 65535; most_rows * most_cols > most_pairs;) most_rows = most_cols = most_rows / 2;
            else if (g.chance(50)) most_cols = std::max<uint64_t>(1, most_pairs / std::min(rows, most_rows));
            else most_rows = std::max<uint64_t>(1, most_pairs / std::min(cols, most_cols));
        }
    }
    auto size_for = [&](uint64_t n, uint64_t most) -> uint64_t {
        static const std::vector<uint64_t> edges = {1, 2, 3, 4, 5, 7, 8, 15, 16, 17, 31, 32, 33, 64, 100, 127, 128, 129, 255, 256, 257, 1000, 1024, 4096, 32768};
        uint64_t s = g.chance(50) ? edges[g.below(edges.size())] : (uint64_t) g.range(1, (int64_t) std::max<uint64_t>(1, n + n / 4));
        if (most > 600 && g.chance(50)) s = g.range(1, 3);
        else if (g.chance(6)) s = std::max<uint64_t>(1, pick_block_size((uint32_t) rows, (uint32_t) cols, g.chance(50) ? 4 : 8, (int) g.range(1, 17)));
        while (n / s > most) s *= 2;
        return s;
    };
    b.constant = square_only || g.chance(55);
    if (b.constant) {
        b.br = size_for(rows, most_rows);
        b.bc = g.chance(50) ? b.br : size_for(cols, most_cols);
        if (square_only) b.bc = b.br;
        while (cols / b.bc > most_cols) b.bc *= 2;
        if (square_only) b.br = b.bc;
        // the last block can be almost twice as large, or as large as the matrix
        auto last = [](uint64_t n, uint64_t s) { uint64_t k = n / s; if (!k) k = 1; return n - (k - 1) * s; };
        while (b.br > 1 && std::max(last(rows, b.br), std::min(b.br, rows)) > max_local) b.br /= 2;
        while (b.bc > 1 && std::max(last(cols, b.bc), std::min(b.bc, cols)) > max_local) b.bc /= 2;
        if (square_only) b.br = b.bc = std::min(std::min(b.br, b.bc), max_local);
    } else {
        b.ro = random_offsets(g, rows, max_local, most_rows);
        b.co = random_offsets(g, cols, max_local, most_cols);
        if (rows == cols && g.chance(40)) { b.co = b.ro; b.shared = g.chance(60); }
        for (uint64_t most = most_rows; (b.ro.size() - 1) * (b.co.size() - 1) > most_pairs && most > 1;) {
            b.ro = random_offsets(g, rows, max_local, most /= 2);
            if (b.shared) b.co = b.ro;
        }
    }
    return b;
}

// Fill some blocks of the division, to any degree: every way of storing a
// block then occurs, for blocks of any shape and at any place
inline void fill_blocks(Rng& g, Mat& m, const Blocking& b) {
    auto limits = [](const std::vector<uint64_t>& o, uint64_t n, uint64_t s, bool constant, uint64_t k) -> std::pair<uint64_t, uint64_t> {
        if (!constant) { k %= o.size() - 1; return {o[k], o[k + 1]}; }
        uint64_t blocks = n / s; if (!blocks) blocks = 1;
        k %= blocks;
        return {k * s, k + 1 == blocks ? n : (k + 1) * s};
    };
    size_t budget = 2500;
    static const int fills[] = {4, 12, 20, 27, 33, 45, 70, 95, 100};
    for (int64_t i = g.range(1, 6); i > 0; i--) {
        auto r = limits(b.ro, m.rows, b.br, b.constant, g.chance(25) ? ~0ull >> 1 : g.next() >> 8), c = limits(b.co, m.cols, b.bc, b.constant, g.next() >> 8);
        uint64_t h = r.second - r.first, w = c.second - c.first;
        int fill = fills[g.below(9)];
        size_t before = m.nnz();
        if (h < 5000 && w < 5000 && h * w < 8000) {
            if (h * w * fill / 100 > budget) continue;
            for (uint64_t y = 0; y < h; y++) for (uint64_t x = 0; x < w; x++) if (fill == 100 || g.chance(fill)) m.add(r.first + y, c.first + x, pick_val(g));
        } else if (budget > 400)
            for (int k = 0; k < 400; k++) m.add(r.first + g.below(h), c.first + g.below(w), pick_val(g));
        budget -= std::min(budget, m.nnz() - before);
    }
    if (g.chance(40)) {                          // exactly as many as 8 or 16 bits can count, or wrap around at
        auto r = limits(b.ro, m.rows, b.br, b.constant, g.next() >> 8), c = limits(b.co, m.cols, b.bc, b.constant, g.next() >> 8);
        static const size_t counts[] = {16, 32, 64, 128, 255, 256, 257, 512, 1024, 2048, 65536, 131072};
        size_t have = 0, n = counts[opt_n("heavy", 0) ? 10 + g.below(2) : g.below(10)];
        for (size_t i = 0; i < m.nnz(); i++) have += m.r[i] >= r.first && m.r[i] < r.second && m.c[i] >= c.first && m.c[i] < c.second;
        for (; r.first < r.second && c.first < c.second && have < n; have++) m.add(r.first + g.below(r.second - r.first), c.first + g.below(c.second - c.first), pick_val(g));
    }
    if (g.chance(60)) {                          // in no order
        for (size_t i = m.nnz(); i > 1; i--) { size_t j = g.below(i); std::swap(m.r[i - 1], m.r[j]); std::swap(m.c[i - 1], m.c[j]); std::swap(m.v[i - 1], m.v[j]); }
    }
}

template <class T>
T val(const Mat& m, size_t i) { return m.real.empty() ? (T) m.v[i] : (T) m.real[i]; }

template <class T>
struct AnyMat {
    virtual ~AnyMat() {}
    virtual void mul(T const* x, T* y) const = 0;
    virtual bool has_serial() const { return false; }
    virtual void mul_serial(T const*, T*) const {}
    virtual uint64_t nonzeros() const { return ~0ull; }      // ~0: not reported
    virtual uint64_t blocks() const { return ~0ull; }        // non-zero blocks
    virtual const void* raw() const = 0;
    virtual void info() const {}                             // printed report
};

template <class T, class IT, class SIT>
struct Formats {
    using Tri = Triplet<T, IT>;
    using Ele = Element<T, IT>;

    // ---- sources
    static void fill(Coo2<T, IT>* A, const Mat& m) {
        A->rows = (IT) m.rows; A->columns = (IT) m.cols;
        allocate(A, (IT) m.nnz());
        for (size_t i = 0; i < m.nnz(); i++) set_point(A, (IT) i, (IT) m.r[i], (IT) m.c[i], val<T>(m, i));
    }
    static void fill(Coo3<T, IT>* A, const Mat& m) {
        A->rows = (IT) m.rows; A->columns = (IT) m.cols;
        allocate(A, (IT) m.nnz());
        for (size_t i = 0; i < m.nnz(); i++) {
            set_point(A, (IT) i, (IT) m.r[i], (IT) m.c[i], val<T>(m, i));
        }
    }
    // Offsets are handed over to the matrix
    static IT* offs(const std::vector<uint64_t>& o) {
        IT* p = new IT[o.size()];
        for (size_t i = 0; i < o.size(); i++) p[i] = (IT) o[i];
        return p;
    }

    template <class M>
    struct Simple : AnyMat<T> {
        M A;
        void mul(T const* x, T* y) const override { A.spmv(x, y); }
        const void* raw() const override { return &A; }
    };

    struct FCoo2 : AnyMat<T> {
        Coo2<T, IT> A;
        FCoo2(const Mat& m) { fill(&A, m); }
        ~FCoo2() { release(A); }
        void mul(T const* x, T* y) const override { A.spmv(x, y); }
        uint64_t nonzeros() const override { return A.nonzeros(); }
        const void* raw() const override { return &A; }
    };
    struct FCoo3 : AnyMat<T> {
        Coo3<T, IT> A;
        FCoo3(const Mat& m) { fill(&A, m); }
        ~FCoo3() { release(A); }
        void mul(T const* x, T* y) const override { A.spmv(x, y); }
        uint64_t nonzeros() const override { return A.nonzeros(); }
        const void* raw() const override { return &A; }
    };
    struct FCoo1 : AnyMat<T> {      // three arrays, full indices
        Coo<T, IT, IT> A;
        FCoo1(const Mat& m, int how) {
            if (how == 0) { Coo2<T, IT> s; fill(&s, m); Coo_to_Coo(&A, &s); release(s); }
            else if (how == 1) {
                Coo3<T, IT> s; fill(&s, m);
                Coo_to_Coo(&A, s.elements, s.rows, s.columns, s.nnz); release(s);
            } else {
                std::vector<T> v; std::vector<IT> I, J;
                for (size_t i = 0; i < m.nnz(); i++) { v.push_back(val<T>(m, i)); I.push_back((IT) m.r[i]); J.push_back((IT) m.c[i]); }
                Coo_to_Coo(&A, v.data(), I.data(), J.data(), (IT) m.rows, (IT) m.cols, (IT) m.nnz());
            }
        }
        ~FCoo1() { release(A); }
        void mul(T const* x, T* y) const override { A.spmv(x, y); }
        uint64_t nonzeros() const override { return A.nonzeros(); }
        const void* raw() const override { return &A; }
    };
    struct FCooBlk : AnyMat<T> {    // narrow indices, from an element array
        Coo<T, IT, SIT>* A;
        FCooBlk(const Mat& m) { Coo3<T, IT> s; fill(&s, m); A = new Coo<T, IT, SIT>(s.elements, s.nnz); release(s); }
        ~FCooBlk() { delete A; }
        void mul(T const* x, T* y) const override { A->spmv(x, y); }
        uint64_t nonzeros() const override { return A->nonzeros(); }
        const void* raw() const override { return A; }
    };
    struct FBlockCoo : AnyMat<T> {
        BlockCoo<T, IT, SIT> A;
        FBlockCoo(const Mat& m) { Coo3<T, IT> s; fill(&s, m); Coo_to_Coo(&A, s.elements, s.nnz); release(s); }
        ~FBlockCoo() { release(A); }
        void mul(T const* x, T* y) const override { A.spmv(x, y); }
        uint64_t nonzeros() const override { return A.nonzeros(); }
        const void* raw() const override { return &A; }
    };
    struct FBlockCoo2 : AnyMat<T> {
        BlockCoo2<T, IT, SIT> A;
        FBlockCoo2(const Mat& m) { Coo2<T, IT> s; fill(&s, m); Coo_to_Coo(&A, s.triplets, s.nnz); release(s); }
        ~FBlockCoo2() { release(A); }
        void mul(T const* x, T* y) const override { A.spmv(x, y); }
        uint64_t nonzeros() const override { return A.nonzeros(); }
        const void* raw() const override { return &A; }
    };
    template <class CSR>
    struct FCsr : AnyMat<T> {
        CSR A;
        FCsr(const Mat& m, int how) {
            if (how == 0) { Coo2<T, IT> s; fill(&s, m); Coo_to_Csr(&A, &s); release(s); }
            else if (how == 1) { Coo3<T, IT> s; fill(&s, m); Coo_to_Csr(&A, &s); release(s); }
            else {   // already sorted input
                Coo2<T, IT> s; fill(&s, m);
                sort_triplets(s.triplets, s.nnz, true);
                Coo_to_Csr(&A, s.triplets, s.rows, s.columns, s.nnz, true, true);
                release(s);
            }
        }
        ~FCsr() { release(A); }
        void mul(T const* x, T* y) const override { A.spmv(x, y); }
        bool has_serial() const override { return true; }
        void mul_serial(T const* x, T* y) const override { A.spmv_serial(x, y); }
        uint64_t nonzeros() const override { return A.nonzeros(); }
        const void* raw() const override { return &A; }
        void info() const override { print_info(A); }
    };
    struct FBlockCsr : AnyMat<T> {
        BlockCsr<T, IT, SIT> A;
        FBlockCsr(const Mat& m, int how) {
            Coo3<T, IT> s; fill(&s, m);
            if (how == 0) Coo_to_Csr(&A, s.elements, s.rows, s.columns, s.nnz, false);
            else { sort_triplets(s.elements, s.nnz); Coo_to_Csr(&A, s.elements, s.rows, s.columns, s.nnz); }
            release(s);
        }
        ~FBlockCsr() { release(A); }
        void mul(T const* x, T* y) const override { A.spmv(x, y); }
        bool has_serial() const override { return true; }
        void mul_serial(T const* x, T* y) const override { A.spmv_serial(x, y); }
        uint64_t nonzeros() const override { return A.nonzeros(); }
        const void* raw() const override { return &A; }
    };
    template <class B>
    struct FBlock : AnyMat<T> {       // abstract blocks, from an element array
        BlockBase<T, IT>* A;
        FBlock(const Mat& m) {
            Coo3<T, IT> s; fill(&s, m);
            sort_triplets(s.elements, s.nnz);
            A = new B(s.elements, s.rows, s.columns, s.nnz);
            release(s);
        }
        ~FBlock() { delete A; }
        void mul(T const* x, T* y) const override { A->spmv(x, y); }
        uint64_t nonzeros() const override { return A->nonzeros(); }
        const void* raw() const override { return A; }
    };
    struct FDense : AnyMat<T> {
        BlockDense<T, IT> A;
        FDense(const Mat& m, int how) {
            if (how == 0) { Coo2<T, IT> s; fill(&s, m); Coo_to_Dense(&A, &s); release(s); }
            else { Coo3<T, IT> s; fill(&s, m); Coo_to_Dense(&A, &s); release(s); }
        }
        ~FDense() { release(A); }
        void mul(T const* x, T* y) const override { A.spmv(x, y); }
        bool has_serial() const override { return true; }
        void mul_serial(T const* x, T* y) const override { A.spmv_serial(x, y); }
        const void* raw() const override { return &A; }
    };
    struct FCrCsr : AnyMat<T> {
        CompRowCsr<T, IT> A;
        FCrCsr(const Mat& m, int how) {
            if (how == 0) { Coo2<T, IT> s; fill(&s, m); Coo_to_CrCsr(&A, &s); release(s); }
            else { Coo3<T, IT> s; fill(&s, m); Coo_to_CrCsr(&A, &s); release(s); }
        }
        ~FCrCsr() { release(A); }
        void mul(T const* x, T* y) const override { spmv(&A, x, y); }
        bool has_serial() const override { return true; }
        void mul_serial(T const* x, T* y) const override { spmv_serial(&A, x, y); }
        uint64_t nonzeros() const override { return A.nonzeros(); }
        const void* raw() const override { return &A; }
    };
    struct FCswr : AnyMat<T> {
        Cswr<T, IT, SIT> A;
        FCswr(const Mat& m, int how, uint64_t width) {
            if (how == 0) { Coo2<T, IT> s; fill(&s, m); if (width) Coo_to_Cswr(&A, &s, (IT) width); else Coo_to_Cswr(&A, &s); release(s); }
            else { Coo3<T, IT> s; fill(&s, m); if (width) Coo_to_Cswr(&A, &s, (IT) width); else Coo_to_Cswr(&A, &s); release(s); }
        }
        ~FCswr() { release(A); }
        void mul(T const* x, T* y) const override { A.spmv(x, y); }
        uint64_t nonzeros() const override { return A.nonzeros(); }
        const void* raw() const override { return &A; }
        void info() const override { print_info(A); }
    };

    template <class M, class SRC>
    static void to_blocked(M* A, SRC* s, const Blocking& b, int how) {
        if (b.constant) {
            if (how == 0) Coo_to_Blocked(A, s, (IT) b.br, (IT) b.bc);
            else if constexpr (std::is_same<M, Cgbr<T, IT, SIT>>::value || std::is_same<M, Cgbr2<T, IT, SIT>>::value)
                Coo_to_Cgbr(A, s, (IT) b.br, (IT) b.bc);
            else Coo_to_Csbr(A, s, (IT) b.br, (IT) b.bc);
        } else {
            IT* ro = offs(b.ro);
            IT* co = b.shared ? ro : offs(b.co);
            IT nr = (IT) (b.ro.size() - 1), nc = (IT) (b.co.size() - 1);
            if (how == 0) Coo_to_Blocked(A, s, ro, nr, co, nc);
            else if constexpr (std::is_same<M, Cgbr<T, IT, SIT>>::value || std::is_same<M, Cgbr2<T, IT, SIT>>::value)
                Coo_to_Cgbr(A, s, ro, nr, co, nc);
            else Coo_to_Csbr(A, s, ro, nr, co, nc);
        }
    }

    struct FCsbr : AnyMat<T> {
        Csbr<T, IT> A;
        FCsbr(const Mat& m, const Blocking& b, bool coo2, int how) {
            if (coo2) { Coo2<T, IT> s; fill(&s, m); to_blocked(&A, &s, b, how); release(s); }
            else { Coo3<T, IT> s; fill(&s, m); to_blocked(&A, &s, b, how); release(s); }
        }
        ~FCsbr() { release(A); }
        void mul(T const* x, T* y) const override { A.spmv(x, y); }
        uint64_t nonzeros() const override { return A.nonzeros(); }
        uint64_t blocks() const override { return A.nnzblocks; }
        const void* raw() const override { return &A; }
        void info() const override { print_info(A); }
    };
    template <class M>
    struct FBlocked : AnyMat<T> {    // Csbr2, Cgbr, Cgbr2
        M A;
        FBlocked(const Mat& m, const Blocking& b, int how) { Coo3<T, IT> s; fill(&s, m); to_blocked(&A, &s, b, how); release(s); }
        ~FBlocked() { release(A); }
        void mul(T const* x, T* y) const override { A.spmv(x, y); }
        bool has_serial() const override { return std::is_same<M, Cgbr<T, IT, SIT>>::value; }
        void mul_serial(T const* x, T* y) const override { if constexpr (std::is_same<M, Cgbr<T, IT, SIT>>::value) A.spmv_serial(x, y); }
        uint64_t nonzeros() const override { return A.nonzeros(); }
        uint64_t blocks() const override { return A.nnzblocks; }
        const void* raw() const override { return &A; }
        void info() const override { print_info(A); }
    };
    struct FCsbr3 : AnyMat<T> {
        Csbr3<T, IT, SIT> A;
        FCsbr3(const Mat& m, uint64_t bs, int how) {
            Coo3<T, IT> s; fill(&s, m);
            if (how == 0) Coo_to_Csbr(&A, &s, (IT) bs); else Coo_to_Blocked(&A, &s, (IT) bs, (IT) bs);
            release(s);
        }
        ~FCsbr3() { release(A); }
        void mul(T const* x, T* y) const override { spmv_balanced(&A, x, y); }
        uint64_t nonzeros() const override { return A.nonzeros(); }
        uint64_t blocks() const override { return A.nnzblocks; }
        const void* raw() const override { return &A; }
        void info() const override { print_info(A); }
    };

    using Ptr = std::unique_ptr<AnyMat<T>>;
    static constexpr uint64_t local_max = sizeof(SIT) >= 4 ? (1ull << 32) - 1 : (1ull << (8 * sizeof(SIT)));

    static const std::vector<std::string>& plain_names() {
        static const std::vector<std::string> n = {"coo2", "coo3", "coo", "csr", "csr2", "crcsr", "cswr",
            "blockcoo", "blockcoo2", "cooblock", "blockcsr", "csrserial", "csrparallel", "dense", "denseserial", "denseparallel"};
        return n;
    }
    static const std::vector<std::string>& blocked_names() {
        static const std::vector<std::string> n = {"csbr", "csbr-coo2", "csbr2", "csbr3", "cgbr", "cgbr2"};
        return n;
    }
    // Can the format hold a matrix of this shape?
    static bool fits(const std::string& f, const Mat& m) {
        if (f == "blockcoo" || f == "blockcoo2" || f == "cooblock") return m.rows <= local_max && m.cols <= local_max;
        if (f == "blockcsr" || f == "csrserial" || f == "csrparallel") return m.cols <= local_max;
        if (f.substr(0, 5) == "dense") return m.rows * m.cols <= 400000;
        return true;
    }
    static uint64_t pick_width(Rng& g, const Mat& m) {
        static const uint64_t w[] = {1, 2, 3, 4, 7, 8, 16, 31, 32, 33, 64, 100, 128, 255, 256};
        uint64_t x = g.chance(30) ? 0 : (g.chance(20) ? (uint64_t) g.range(1, (int64_t) (m.rows + 5)) : w[g.below(sizeof w / sizeof w[0])]);
        return std::min<uint64_t>(x, local_max);
    }
    // `how` selects between equivalent ways of building the same thing
    static Ptr make(const std::string& f, const Mat& m, const Blocking& b, Rng& g) {
        int h = (int) g.below(6);
        if (f == "coo2") return Ptr(new FCoo2(m));
        if (f == "coo3") return Ptr(new FCoo3(m));
        if (f == "coo") return Ptr(new FCoo1(m, h % 3));
        if (f == "csr") return Ptr(new FCsr<Csr<T, IT>>(m, h % 3));
        if (f == "csr2") return Ptr(new FCsr<Csr2<T, IT>>(m, h % 3));
        if (f == "crcsr") return Ptr(new FCrCsr(m, h % 2));
        if (f == "cswr") return Ptr(new FCswr(m, h % 2, pick_width(g, m)));
        if (f == "blockcoo") return Ptr(new FBlockCoo(m));
        if (f == "blockcoo2") return Ptr(new FBlockCoo2(m));
        if (f == "cooblock") return Ptr(new FCooBlk(m));
        if (f == "blockcsr") return Ptr(new FBlockCsr(m, h % 2));
        if (f == "csrserial") return Ptr(new FBlock<BlockCsrSerial<T, IT, SIT>>(m));
        if (f == "csrparallel") return Ptr(new FBlock<BlockCsrParallel<T, IT, SIT>>(m));
        if (f == "dense") return Ptr(new FDense(m, h % 2));
        if (f == "denseserial") return Ptr(new FBlock<DenseSerial<T, IT>>(m));
        if (f == "denseparallel") return Ptr(new FBlock<DenseParallel<T, IT>>(m));
        if (f == "csbr") return Ptr(new FCsbr(m, b, false, h % 2));
        if (f == "csbr-coo2") return Ptr(new FCsbr(m, b, true, 1 - h % 2));
        if (f == "csbr2") return Ptr(new FBlocked<Csbr2<T, IT>>(m, b, h % 2));
        if (f == "cgbr") return Ptr(new FBlocked<Cgbr<T, IT, SIT>>(m, b, h % 2));
        if (f == "cgbr2") return Ptr(new FBlocked<Cgbr2<T, IT, SIT>>(m, b, h % 2));
        if (f == "csbr3") return Ptr(new FCsbr3(m, b.br, h % 2));
        return Ptr();
    }
    static bool is_blocked(const std::string& f) {
        auto& n = blocked_names();
        return std::find(n.begin(), n.end(), f) != n.end();
    }
    static bool narrow_blocks(const std::string& f) { return f == "cgbr" || f == "cgbr2" || f == "csbr3"; }
    // May fill some of the blocks
    static Blocking blocking_for(const std::string& f, Mat& m, Rng& g) {
        Blocking b = random_blocking(g, m.rows, m.cols, narrow_blocks(f) ? local_max : ~0ull, f == "csbr3",
                                     f.substr(0, 4) == "csbr" ? 1ull << 26 : 4294967295ull); // csbr keeps a counter for every pair
        if (is_blocked(f) && m.real.empty() && g.chance(opt_n("heavy", 0) ? 40 : 20)) fill_blocks(g, m, b);
        return b;
    }
};

} // namespace vf
