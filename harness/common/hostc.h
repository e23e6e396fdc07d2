/*
 * Host functions written with the library's own host-function API (type
 * strings, HOST_FUNC macros, schedule_call_from_hostfunc), driven by a plan.
 */
#ifndef VERIF_HOSTC_H
#define VERIF_HOSTC_H
#include "tw.h"
#ifdef __cplusplus
extern "C" {
#endif
#define HC_MAXV 24
#define HC_MAXCB 3
struct hc_host;
struct hc_cb {
        uint64_t func; /* tw_func_identity */
        twv args[HC_MAXV];
        twv results[HC_MAXV]; /* out */
};
enum { HC_RETURN, HC_TRAP, HC_ERRNO, HC_TAIL };
struct hc_plan {
        int restarts[HC_MAXCB + 1]; /* restart requests before step i */
        int ncb;
        struct hc_cb cb[HC_MAXCB];
        int final;
        int err;       /* HC_ERRNO */
        uint64_t tail; /* HC_TAIL: same type */
        twv results[HC_MAXV];
        /* out */
        int ninvoke;  /* entries, restarts included */
        int nstart;   /* entries that began a new call */
        int ndone;
        int bad;      /* re-invoked with different arguments etc. */
        twv args[HC_MAXV];
        /* private */
        int step, left;
        int active;
};
/* types in the library's notation, e.g. "(iI)f" */
struct hc_host *hc_host_new(tw_env *, tw_imports *, const char *mod, const char *name, const char *type);
/* several functions in several host modules at once; one plan each */
struct hc_host *hc_host_new_multi(tw_env *, tw_imports *, int nmod, const char **mods, int perMod, const char **names, const char **types);
void hc_host_free(struct hc_host *);
struct hc_plan *hc_getplan(struct hc_host *, int i);
#ifdef __cplusplus
}
#endif
#endif
