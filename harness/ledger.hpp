// A ledger of everything the code under test allocates or opens: what is given
// back, by which function, and what is still out when an operation is over.
// Active when compiled with WITH_LEDGER (and linked with --wrap for malloc,
// calloc, realloc, free, aligned_alloc, fopen, fclose); does nothing otherwise.
#pragma once
#include "common.hpp"

#ifdef WITH_LEDGER
#include <new>
#include <atomic>
#include <errno.h>
extern "C" {
void* __real_malloc(size_t); void* __real_calloc(size_t, size_t); void* __real_realloc(void*, size_t);
void __real_free(void*); void* __real_aligned_alloc(size_t, size_t);
FILE* __real_fopen(const char*, const char*); int __real_fclose(FILE*);
}
namespace vf {
// Faults: another fopen(), and the direct request for memory that is refused
inline FILE* (*fopen_instead)(const char*, const char*) = nullptr;
inline std::atomic<int64_t> requests{0}, refuse_request{-1};
inline bool refused_now() { return refuse_request.load() >= 0 && requests++ == refuse_request.load(); }
enum Kind : uint8_t { K_FREE = 0, K_MALLOC, K_NEW, K_NEWARRAY, K_FILE, K_GONE };
inline const char* kind_name(int k) { static const char* n[] = {"nothing", "malloc", "new", "new[]", "fopen", "released"}; return n[k]; }
struct Ledger {
    struct Slot { void* p; size_t n; uint64_t session; uint8_t kind; };
    static constexpr size_t SLOTS = 1 << 21;
    Slot* slots;
    std::atomic_flag lock = ATOMIC_FLAG_INIT;
    uint64_t session = 0;          // 0: nothing is being watched
    uint64_t acquired = 0, released = 0, files = 0, bytes = 0;
    size_t used = 0;
    char trouble[512] = {0};
    uint64_t troubles = 0;
    Ledger() { slots = (Slot*) mmap(nullptr, SLOTS * sizeof(Slot), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); }
    size_t where(void* p) const { size_t h = ((uintptr_t) p >> 4) * 0x9E3779B97F4A7C15ull >> 43; return h & (SLOTS - 1); }
    void enter(void* p, size_t n, uint8_t k) {
        if (!p) return;
        while (lock.test_and_set(std::memory_order_acquire)) {}
        size_t i = where(p), reuse = SLOTS;
        while (slots[i].p && slots[i].p != p) { i = (i + 1) & (SLOTS - 1); }
        (void) reuse;
        if (!slots[i].p) { used++; if (used > SLOTS / 2) { fprintf(stderr, "ledger full\n"); _exit(3); } }
        slots[i] = {p, n, exempt ? 0 : session, k};
        if (session && !exempt) { acquired++; bytes += n; if (k == K_FILE) files++; }
        lock.clear(std::memory_order_release);
    }
    // true: may really be released
    bool leave(void* p, uint8_t k) {
        if (!p) return true;
        bool ok = false;
        while (lock.test_and_set(std::memory_order_acquire)) {}
        size_t i = where(p);
        while (slots[i].p && slots[i].p != p) i = (i + 1) & (SLOTS - 1);
        if (!slots[i].p) { ok = true; }        // from an allocator that is not watched
        else if (slots[i].kind == K_GONE) {
            if (!troubles++) snprintf(trouble, sizeof trouble, "%s of something that was released before", k == K_FILE ? "fclose" : k == K_MALLOC ? "free" : k == K_NEW ? "delete" : "delete[]");
        } else if (slots[i].kind != k) {
            if (!troubles++) snprintf(trouble, sizeof trouble, "memory of %zu bytes from %s released by %s", slots[i].n, kind_name(slots[i].kind), k == K_MALLOC ? "free" : k == K_NEW ? "delete" : k == K_FILE ? "fclose" : "delete[]");
            ok = false;
            slots[i].kind = K_GONE;
        } else { ok = true; slots[i].kind = K_GONE; if (slots[i].session) released++; }
        lock.clear(std::memory_order_release);
        return ok;
    }
};
// The first user may be a static constructor
inline Ledger& ledger() { alignas(Ledger) static char mem[sizeof(Ledger)]; static Ledger* l = new (mem) Ledger; return *l; }

// Everything acquired between open and close has to be given back by then
inline void ledger_open() { static uint64_t n = 0; Ledger& l = ledger(); l.troubles = 0; l.session = ++n; }
inline void ledger_close(const char* key, const std::string& what) {
    Ledger& l = ledger();
    uint64_t s = l.session;
    l.session = 0;
    if (l.troubles) violation(fmt("ledger:%s:bad-release", key), what + " " + l.trouble);
    l.troubles = 0;
}
struct Outstanding { size_t blocks = 0, bytes = 0, files = 0; };
inline Outstanding ledger_outstanding(uint64_t session) {
    Ledger& l = ledger();
    Outstanding o;
    for (size_t i = 0; i < Ledger::SLOTS; i++) {
        auto& s = l.slots[i];
        if (s.p && s.kind != K_GONE && s.session == session) { if (s.kind == K_FILE) o.files++; else { o.blocks++; o.bytes += s.n; } }
    }
    return o;
}
// As a scope. The table is cleared of finished entries now and then.
struct Watch {
    const char* key; std::string what;
    uint64_t a0, r0;
    Watch(const char* k, const std::string& w) : key(k), what(w) { Ledger& l = ledger(); a0 = l.acquired; r0 = l.released; ledger_open(); }
    ~Watch() {
        Ledger& l = ledger();
        uint64_t s = l.session, a = l.acquired - a0, r = l.released - r0;
        ledger_close(key, what);
        st().checks++;
        if (a != r) {
            Outstanding o = ledger_outstanding(s);
            if (o.blocks) violation(fmt("ledger:%s:memory-kept", key), what + fmt(" keeps %zu pieces of memory, %zu bytes", o.blocks, o.bytes));
            if (o.files) violation(fmt("ledger:%s:file-kept", key), what + fmt(" keeps %zu files open", o.files));
        }
        if (l.used > Ledger::SLOTS / 4) {    // forget what is gone
            std::vector<Ledger::Slot> live;
            for (size_t i = 0; i < Ledger::SLOTS; i++) if (l.slots[i].p && l.slots[i].kind != K_GONE) live.push_back(l.slots[i]);
            memset((void*) l.slots, 0, Ledger::SLOTS * sizeof(Ledger::Slot));
            l.used = 0;
            for (auto& x : live) { size_t i = l.where(x.p); while (l.slots[i].p) i = (i + 1) & (Ledger::SLOTS - 1); l.slots[i] = x; l.used++; }
        }
    }
};
}
extern "C" {
void* __wrap_malloc(size_t n) { if (vf::refused_now()) { errno = ENOMEM; return nullptr; } void* p = __real_malloc(n); vf::ledger().enter(p, n, vf::K_MALLOC); return p; }
void* __wrap_calloc(size_t a, size_t b) { if (vf::refused_now()) { errno = ENOMEM; return nullptr; } void* p = __real_calloc(a, b); vf::ledger().enter(p, a * b, vf::K_MALLOC); return p; }
void* __wrap_aligned_alloc(size_t a, size_t n) { void* p = __real_aligned_alloc(a, n); vf::ledger().enter(p, n, vf::K_MALLOC); return p; }
void* __wrap_realloc(void* q, size_t n) {
    if (q && !vf::ledger().leave(q, vf::K_MALLOC)) return nullptr;
    void* p = __real_realloc(q, n); vf::ledger().enter(p, n, vf::K_MALLOC); return p;
}
void __wrap_free(void* p) { if (vf::ledger().leave(p, vf::K_MALLOC)) __real_free(p); }
FILE* __wrap_fopen(const char* a, const char* b) { FILE* f = vf::fopen_instead ? vf::fopen_instead(a, b) : __real_fopen(a, b); vf::ledger().enter(f, 0, vf::K_FILE); return f; }
int __wrap_fclose(FILE* f) { if (!vf::ledger().leave(f, vf::K_FILE)) return -1; return __real_fclose(f); }
}
void* operator new(size_t n) { void* p = __real_malloc(n ? n : 1); if (!p) abort(); vf::ledger().enter(p, n, vf::K_NEW); return p; }
void* operator new[](size_t n) { void* p = __real_malloc(n ? n : 1); if (!p) abort(); vf::ledger().enter(p, n, vf::K_NEWARRAY); return p; }
void* operator new(size_t n, const std::nothrow_t&) noexcept { void* p = __real_malloc(n ? n : 1); vf::ledger().enter(p, n, vf::K_NEW); return p; }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { void* p = __real_malloc(n ? n : 1); vf::ledger().enter(p, n, vf::K_NEWARRAY); return p; }
void operator delete(void* p) noexcept { if (vf::ledger().leave(p, vf::K_NEW)) __real_free(p); }
void operator delete(void* p, size_t) noexcept { if (vf::ledger().leave(p, vf::K_NEW)) __real_free(p); }
void operator delete[](void* p) noexcept { if (vf::ledger().leave(p, vf::K_NEWARRAY)) __real_free(p); }
void operator delete[](void* p, size_t) noexcept { if (vf::ledger().leave(p, vf::K_NEWARRAY)) __real_free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { if (vf::ledger().leave(p, vf::K_NEW)) __real_free(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { if (vf::ledger().leave(p, vf::K_NEWARRAY)) __real_free(p); }
#else
namespace vf {
struct Watch { Watch(const char*, const std::string&) {} };
}
#endif
