#include <assert.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>

#include "dyld.h"
#include "instance.h"
#include "type.h"

#include "dyldc.h"

#if defined(VERIF_OOM)
void *__real_calloc(size_t, size_t);
#define calloc __real_calloc
#endif

struct dz {
        struct dyld d;
        tw_env *env;
        tw_inst *main;
        int loaded;
};

tw_inst *tw_inst_wrap(tw_env *, struct instance *);
void tw_inst_unwrap(tw_inst *);

/* the linker's messages are not looked at */
void
__wrap_xlog_error(const char *fmt, ...)
{
}

dz *
dz_new(tw_env *env, tw_imports *base, const struct dz_opts *o)
{
        dz *z = calloc(1, sizeof(*z));
        z->env = env;
        dyld_init(&z->d, tw_env_mctx(env));
        z->d.opts.paths = o->paths;
        z->d.opts.npaths = o->npaths;
        z->d.opts.stack_size = o->stack_size;
        z->d.opts.bindnow = o->bindnow;
        z->d.opts.enable_dlfcn = o->dlfcn;
        z->d.opts.base_import_obj = base ? tw_imports_head(base) : NULL;
        return z;
}

int
dz_load(dz *z, const char *file)
{
        int ret = dyld_load(&z->d, file);
        if (ret == 0) {
                z->loaded = 1;
                z->main = tw_inst_wrap(z->env, dyld_main_object_instance(&z->d));
        }
        return ret;
}

int
dz_init(dz *z)
{
        return dyld_execute_init_funcs(&z->d);
}

tw_inst *
dz_main(dz *z)
{
        return z->main;
}

uint64_t
dz_memsize(dz *z)
{
        struct meminst *m = dyld_memory(&z->d);
        return (uint64_t)m->size_in_pages << memtype_page_shift(m->type);
}

uint32_t
dz_tabsize(dz *z)
{
        return dyld_func_table(&z->d)->size;
}

void
dz_free(dz *z)
{
        if (z->loaded) {
                tw_inst_unwrap(z->main);
                dyld_clear(&z->d);
        }
        free(z);
}
