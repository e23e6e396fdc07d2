/* clusters and wasi-threads for the schedule harnesses */
#ifndef VERIF_THREADSC_H
#define VERIF_THREADSC_H
#include "tw.h"
#ifdef __cplusplus
extern "C" {
#endif
struct cluster;
struct cluster *tc_new(void);
void tc_free(struct cluster *);
void tc_add(struct cluster *);
void tc_remove(struct cluster *);
void tc_join(struct cluster *);
/* 1 when this was the first request */
int tc_interrupt(struct cluster *);
size_t tc_mctx_size(void);

struct wasi_threads_instance;
struct tc_main {
        int ret;      /* of the function */
        int trap;     /* of the main thread */
        int reported; /* trap after wasi_threads_complete_exec, TWT_* */
};
struct wasi_threads_instance *tc_wt_new(tw_env *);
void tc_wt_free(struct wasi_threads_instance *);
int tc_wt_imports(tw_imports *, tw_env *, struct wasi_threads_instance *);
int tc_wt_spawn_args(struct wasi_threads_instance *, tw_mod *, tw_imports *);
void tc_wt_memory(struct wasi_threads_instance *, tw_inst *, uint32_t memidx);
/* wasi preview1, for proc_exit */
struct wasi_instance;
struct wasi_instance *tc_wasi_new(tw_env *);
void tc_wasi_free(struct wasi_instance *);
int tc_wasi_imports(tw_imports *, tw_env *, struct wasi_instance *);
void tc_wasi_memory(struct wasi_instance *, tw_inst *, uint32_t memidx);
uint32_t tc_wasi_exit_code(struct wasi_instance *);
/* the shared memories a module imports; takes over */
int tc_shared_memories(tw_env *, tw_mod *, tw_imports *);
void tc_wt_run(struct wasi_threads_instance *, tw_env *, tw_inst *,
               uint32_t funcidx, uint32_t check_interval, struct tc_main *);
#ifdef __cplusplus
}
#endif
#endif
