// OMPT tool, loaded by libomp through OMP_TOOL_LIBRARIES. Its state lives in the
// harness (ompt_monitor.hpp).
#define OMPT_TOOL
#include "ompt_monitor.hpp"
#include <dlfcn.h>
#include <omp-tools.h>
namespace vf {
static void cb_parallel(ompt_data_t*, const ompt_frame_t*, ompt_data_t*, unsigned, int, const void*) { ompt().parallels++; ompt_delay(); }
static void cb_task(ompt_data_t*, const ompt_frame_t*, ompt_data_t*, int flags, int, const void*) { if (flags & ompt_task_explicit) ompt().tasks++; ompt_delay(); }
static void cb_schedule(ompt_data_t*, ompt_task_status_t, ompt_data_t*) { ompt().switches++; ompt_delay(); }
static void cb_implicit(ompt_scope_endpoint_t, ompt_data_t*, ompt_data_t*, unsigned, unsigned, int) { ompt_delay(); }
static void cb_work(ompt_work_t, ompt_scope_endpoint_t e, ompt_data_t*, ompt_data_t*, uint64_t, const void*) { if (e == ompt_scope_begin) ompt().loops++; ompt_delay(); }
static void cb_dispatch(ompt_data_t*, ompt_data_t*, ompt_dispatch_t, ompt_data_t) { ompt().chunks++; ompt_delay(); }
static void cb_sync(ompt_sync_region_t k, ompt_scope_endpoint_t e, ompt_data_t*, ompt_data_t*, const void*) { if (e == ompt_scope_begin && k == ompt_sync_region_taskwait) ompt().waits++; ompt_delay(); }
static int cb_init(ompt_function_lookup_t lookup, int, ompt_data_t*) {
    auto state = (void* (*)()) dlsym(RTLD_DEFAULT, "vf_ompt_state");
    if (!state) return 0;
    ompt_ptr = (Ompt*) state();
    auto set = (ompt_set_callback_t) lookup("ompt_set_callback");
    set(ompt_callback_parallel_begin, (ompt_callback_t) cb_parallel);
    set(ompt_callback_task_create, (ompt_callback_t) cb_task);
    set(ompt_callback_task_schedule, (ompt_callback_t) cb_schedule);
    set(ompt_callback_implicit_task, (ompt_callback_t) cb_implicit);
    set(ompt_callback_work, (ompt_callback_t) cb_work);
    set(ompt_callback_dispatch, (ompt_callback_t) cb_dispatch);
    set(ompt_callback_sync_region, (ompt_callback_t) cb_sync);
    ompt().active = 1;
    return 1;
}
static void cb_fini(ompt_data_t*) {}
}
extern "C" __attribute__((visibility("default"))) ompt_start_tool_result_t* ompt_start_tool(unsigned, const char*) {
    static ompt_start_tool_result_t r = {vf::cb_init, vf::cb_fini, {0}};
    return &r;
}
