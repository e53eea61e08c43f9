// The same observation and perturbation for libgomp: its entry points are
// wrapped at link time (-Wl,--wrap=...).
#include "ompt_monitor.hpp"
using namespace vf;
extern "C" {
void __real_GOMP_parallel(void (*fn)(void*), void* data, unsigned n, unsigned flags);
void __wrap_GOMP_parallel(void (*fn)(void*), void* data, unsigned n, unsigned flags) {
    ompt().active = 1; ompt().parallels++; ompt_delay();
    __real_GOMP_parallel(fn, data, n, flags);
}
void __real_GOMP_parallel_loop_dynamic(void (*)(void*), void*, unsigned, long, long, long, long, unsigned);
void __wrap_GOMP_parallel_loop_dynamic(void (*fn)(void*), void* d, unsigned n, long a, long b, long c, long k, unsigned fl) {
    ompt().active = 1; ompt().parallels++; ompt().loops++; ompt_delay();
    __real_GOMP_parallel_loop_dynamic(fn, d, n, a, b, c, k, fl);
}
void __real_GOMP_parallel_loop_nonmonotonic_dynamic(void (*)(void*), void*, unsigned, long, long, long, long, unsigned);
void __wrap_GOMP_parallel_loop_nonmonotonic_dynamic(void (*fn)(void*), void* d, unsigned n, long a, long b, long c, long k, unsigned fl) {
    ompt().active = 1; ompt().parallels++; ompt().loops++; ompt_delay();
    __real_GOMP_parallel_loop_nonmonotonic_dynamic(fn, d, n, a, b, c, k, fl);
}
#define NEXT(name, T) \
bool __real_##name(T* a, T* b); \
bool __wrap_##name(T* a, T* b) { ompt().chunks++; ompt_delay(); return __real_##name(a, b); }
NEXT(GOMP_loop_dynamic_next, long)
NEXT(GOMP_loop_nonmonotonic_dynamic_next, long)
NEXT(GOMP_loop_ull_dynamic_next, unsigned long long)
NEXT(GOMP_loop_ull_nonmonotonic_dynamic_next, unsigned long long)
#define START(name) \
bool __real_##name(bool up, unsigned long long a, unsigned long long b, unsigned long long c, unsigned long long k, unsigned long long* s, unsigned long long* e); \
bool __wrap_##name(bool up, unsigned long long a, unsigned long long b, unsigned long long c, unsigned long long k, unsigned long long* s, unsigned long long* e) { \
    ompt().loops++; ompt_delay(); return __real_##name(up, a, b, c, k, s, e); }
START(GOMP_loop_ull_dynamic_start)
START(GOMP_loop_ull_nonmonotonic_dynamic_start)
#define ONE(name, c) void __real_##name(); void __wrap_##name() { c; ompt_delay(); __real_##name(); ompt_delay(); }
ONE(GOMP_taskwait, ompt().waits++)
ONE(GOMP_barrier, )
ONE(GOMP_critical_start, )
ONE(GOMP_atomic_start, )
void __real_GOMP_task(void (*fn)(void*), void* data, void (*cpy)(void*, void*), long sz, long al, bool cl, unsigned fl, void** dep, int pr, void* det);
void __wrap_GOMP_task(void (*fn)(void*), void* data, void (*cpy)(void*, void*), long sz, long al, bool cl, unsigned fl, void** dep, int pr, void* det) {
    ompt().tasks++; ompt_delay();
    __real_GOMP_task(fn, data, cpy, sz, al, cl, fl, dep, pr, det);
    ompt_delay();
}
}
