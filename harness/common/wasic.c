#include <errno.h>
#include <stdbool.h>
#include <stdlib.h>

#include "toywasm_config.h"

#include "instance.h"
#include "mem.h"
#include "type.h"
#include "wasi.h"

#include "wasic.h"

#if defined(VERIF_OOM)
void *__real_calloc(size_t, size_t);
#define calloc __real_calloc
#endif

struct wz {
        tw_env *env;
        struct wasi_instance *w;
};

wz *
wz_new(tw_env *env, int *err)
{
        struct wasi_instance *w = NULL;
        int ret = wasi_instance_create(tw_env_mctx(env), &w);
        *err = ret;
        if (ret != 0) {
                return NULL;
        }
        wz *z = calloc(1, sizeof(*z));
        z->env = env;
        z->w = w;
        return z;
}

struct wasi_instance *
wz_instance(wz *z)
{
        return z->w;
}

void
wz_free(wz *z)
{
        if (z == NULL) {
                return;
        }
        wasi_instance_destroy(z->w);
        free(z);
}

void
wz_args(wz *z, int n, const char *const *v)
{
        wasi_instance_set_args(z->w, n, v);
}

void
wz_environ(wz *z, int n, const char *const *v)
{
        wasi_instance_set_environ(z->w, n, v);
}

int
wz_preopen(wz *z, const char *spec)
{
        return wasi_instance_prestat_add(z->w, spec);
}

int
wz_addfd(wz *z, uint32_t wasifd, int hostfd)
{
        return wasi_instance_add_hostfd(z->w, wasifd, hostfd);
}

int
wz_stdio(wz *z)
{
        return wasi_instance_populate_stdio_with_hostfd(z->w);
}

int
wz_imports(wz *z, tw_imports *im)
{
        struct import_object *io;
        int ret = import_object_create_for_wasi(tw_env_mctx(tw_imports_env(im)),
                                            z->w, &io);
        if (ret != 0) {
                return ret;
        }
        tw_imports_add_raw(im, io);
        return 0;
}

void
wz_memory(wz *z, tw_inst *inst, uint32_t memidx)
{
        wasi_instance_set_memory(
                z->w, VEC_ELEM(tw_inst_instance(inst)->mems, memidx));
}

uint32_t
wz_exit_code(wz *z)
{
        return wasi_instance_exit_code(z->w);
}
