/* shim over the dynamic linker's public interface */
#ifndef VERIF_DYLDC_H
#define VERIF_DYLDC_H
#include "tw.h"
#ifdef __cplusplus
extern "C" {
#endif
typedef struct dz dz;
struct dz_opts {
        const char *const *paths;
        unsigned npaths;
        uint32_t stack_size;
        int bindnow, dlfcn;
};
dz *dz_new(tw_env *, tw_imports *base, const struct dz_opts *);
/* 0 or an error; the linker has cleaned up after an error */
int dz_load(dz *, const char *file);
int dz_init(dz *);
/* the main module's instance, its memory and table; valid until dz_free */
tw_inst *dz_main(dz *);
uint64_t dz_memsize(dz *);
uint32_t dz_tabsize(dz *);
void dz_free(dz *);
#ifdef __cplusplus
}
#endif
#endif
