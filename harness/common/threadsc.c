#include <stdlib.h>
#include <string.h>

#include "toywasm_config.h"

#include "cluster.h"
#include "exec_context.h"
#include "instance.h"
#include "mem.h"
#include "type.h"
#include "wasi.h"
#include "wasi_threads.h"

#include "threadsc.h"

int tw_trap_of(int trapid);

struct cluster *
tc_new(void)
{
        struct cluster *c = calloc(1, sizeof(*c));
        cluster_init(c);
        return c;
}
void
tc_free(struct cluster *c)
{
        cluster_destroy(c);
        free(c);
}
void
tc_add(struct cluster *c)
{
        toywasm_mutex_lock(&c->lock);
        cluster_add_thread(c);
        toywasm_mutex_unlock(&c->lock);
}
void
tc_remove(struct cluster *c)
{
        toywasm_mutex_lock(&c->lock);
        cluster_remove_thread(c);
        toywasm_mutex_unlock(&c->lock);
}
void
tc_join(struct cluster *c)
{
        cluster_join(c);
}
int
tc_interrupt(struct cluster *c)
{
        toywasm_mutex_lock(&c->lock);
        int r = cluster_set_interrupt(c);
        toywasm_mutex_unlock(&c->lock);
        return r;
}
size_t
tc_mctx_size(void)
{
        return sizeof(struct mem_context);
}

struct wasi_threads_instance *
tc_wt_new(tw_env *e)
{
        struct wasi_threads_instance *wt = NULL;
        if (wasi_threads_instance_create(tw_env_mctx(e), &wt)) {
                return NULL;
        }
        return wt;
}
void
tc_wt_free(struct wasi_threads_instance *wt)
{
        wasi_threads_instance_destroy(wt);
}
int
tc_wt_imports(tw_imports *im, tw_env *e, struct wasi_threads_instance *wt)
{
        struct import_object *io = NULL;
        int ret = import_object_create_for_wasi_threads(tw_env_mctx(e), wt,
                                                        &io);
        if (ret == 0) {
                tw_imports_add_raw(im, io);
        }
        return ret;
}
struct wasi_instance *
tc_wasi_new(tw_env *e)
{
        struct wasi_instance *w = NULL;
        if (wasi_instance_create(tw_env_mctx(e), &w)) {
                return NULL;
        }
        return w;
}
void
tc_wasi_free(struct wasi_instance *w)
{
        wasi_instance_destroy(w);
}
int
tc_wasi_imports(tw_imports *im, tw_env *e, struct wasi_instance *w)
{
        struct import_object *io = NULL;
        int ret = import_object_create_for_wasi(tw_env_mctx(e), w, &io);
        if (ret == 0) {
                tw_imports_add_raw(im, io);
        }
        return ret;
}
void
tc_wasi_memory(struct wasi_instance *w, tw_inst *i, uint32_t memidx)
{
        wasi_instance_set_memory(w,
                                 VEC_ELEM(tw_inst_instance(i)->mems, memidx));
}
uint32_t
tc_wasi_exit_code(struct wasi_instance *w)
{
        return wasi_instance_exit_code(w);
}
int
tc_wt_spawn_args(struct wasi_threads_instance *wt, tw_mod *m, tw_imports *im)
{
        return wasi_threads_instance_set_thread_spawn_args(
                wt, tw_mod_module(m), tw_imports_head(im));
}
void
tc_wt_memory(struct wasi_threads_instance *wt, tw_inst *i, uint32_t memidx)
{
        wasi_threads_instance_set_memory(
                wt, VEC_ELEM(tw_inst_instance(i)->mems, memidx));
}
int
tc_shared_memories(tw_env *e, tw_mod *m, tw_imports *im)
{
        struct import_object *io = NULL;
        int ret = create_satisfying_shared_memories(
                tw_env_mctx(e), tw_env_mctx(e), tw_mod_module(m), &io);
        if (ret == 0) {
                tw_imports_add_raw(im, io);
        }
        return ret;
}
void
tc_wt_run(struct wasi_threads_instance *wt, tw_env *e, tw_inst *i,
          uint32_t funcidx, uint32_t check_interval, struct tc_main *r)
{
        struct exec_context ctx;
        DEFINE_RESULTTYPE(static const, rt, NULL, 0);
        const struct trap_info *trap = NULL;
        exec_context_init(&ctx, tw_inst_instance(i), tw_env_mctx(e));
        if (check_interval) {
                ctx.check_interval = check_interval;
        }
        wasi_threads_setup_exec_context(wt, &ctx);
        int ret = instance_execute_func(&ctx, funcidx, &rt, &rt);
        ret = instance_execute_handle_restart(&ctx, ret);
        r->ret = ret;
        r->trap = TWT_NONE;
        if (ret == ETOYWASMTRAP) {
                trap = &ctx.trap;
                r->trap = tw_trap_of(ctx.trap.trapid);
        }
        wasi_threads_complete_exec(wt, &trap);
        r->reported = trap == NULL ? TWT_NONE : tw_trap_of(trap->trapid);
        exec_context_clear(&ctx);
}

/* messages about threads which ended with a trap */
void
__wrap_xlog_error(const char *fmt, ...)
{
}
