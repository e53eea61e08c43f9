// State of the OMPT tool (ompt_tool.cpp): what the OpenMP runtime did, and the
// delays injected at its scheduling points.
#pragma once
#include <atomic>
#include <cstdint>
#include <cstdlib>
#include <ctime>
#include <sched.h>

namespace vf {
struct Ompt {
    std::atomic<uint64_t> parallels{0}, tasks{0}, switches{0}, loops{0}, chunks{0}, waits{0}, delays{0}, active{0};
    std::atomic<uint64_t> level{0};       // how hard to perturb (0: not at all)
    std::atomic<uint64_t> seed{1};
};
#ifdef OMPT_TOOL
inline Ompt* ompt_ptr = nullptr;
inline Ompt& ompt() { return *ompt_ptr; }
#else
}
extern "C" __attribute__((visibility("default"), used)) inline void* vf_ompt_state() { static vf::Ompt o; return &o; }
namespace vf {
inline Ompt& ompt() { return *(Ompt*) vf_ompt_state(); }
#endif
inline void perturb_with(uint64_t level, uint64_t seed) { ompt().level = level; ompt().seed = seed; }

inline uint64_t& ompt_tls() {
    static std::atomic<uint64_t> next{1};
    static thread_local uint64_t s = 0;
    if (!s) s = ((next++ * 0x9E3779B97F4A7C15ull) ^ (ompt().seed.load() * 0xBF58476D1CE4E5B9ull)) | 1;
    return s;
}
inline void ompt_delay() {
    uint64_t lv = ompt().level.load(std::memory_order_relaxed);
    if (!lv) return;
    uint64_t& s = ompt_tls();
    s ^= s << 13; s ^= s >> 7; s ^= s << 17;
    uint64_t r = (s >> 8) % 100;
    if (r < 6 * lv) { ompt().delays++; sched_yield(); }
    else if (r == 99 && (s >> 40) % 8 < lv) { ompt().delays++; struct timespec t = {0, (long) ((s >> 20) % 60000)}; nanosleep(&t, nullptr); }
    else if (r < 22 * lv) { for (volatile unsigned i = 0; i < (s >> 30) % 400; i = i + 1) {} }
}
}

