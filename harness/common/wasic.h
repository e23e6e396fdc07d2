/* C shim over the WASI embedding API, to be used together with tw.h */
#ifndef VERIF_WASIC_H
#define VERIF_WASIC_H

#include "tw.h"

#ifdef __cplusplus
extern "C" {
#endif

struct wasi_instance;
typedef struct wz wz;

wz *wz_new(tw_env *, int *err);
struct wasi_instance *wz_instance(wz *);
void wz_free(wz *);
/* the arrays have to outlive the instance */
void wz_args(wz *, int n, const char *const *v);
void wz_environ(wz *, int n, const char *const *v);
int wz_preopen(wz *, const char *spec);
int wz_addfd(wz *, uint32_t wasifd, int hostfd);
int wz_stdio(wz *);
int wz_imports(wz *, tw_imports *);
void wz_memory(wz *, tw_inst *, uint32_t memidx);
uint32_t wz_exit_code(wz *);

#ifdef __cplusplus
}
#endif
#endif
