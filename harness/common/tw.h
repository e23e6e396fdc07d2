/*
 * Thin C shim over toywasm's public embedding API, usable from C++.
 * Only installed headers are used, so that the harnesses keep working
 * whatever the library does internally.
 */
#ifndef VERIF_TW_H
#define VERIF_TW_H

#include <stddef.h>
#include <stdint.h>

#ifdef __cplusplus
extern "C" {
#endif

/* valtypes as encoded in the wasm binary format */
enum { T_I32 = 0x7f, T_I64 = 0x7e, T_F32 = 0x7d, T_F64 = 0x7c, T_V128 = 0x7b,
       T_FUNCREF = 0x70, T_EXTERNREF = 0x6f, T_EXNREF = 0x69 };

typedef struct twv {
        uint64_t lo, hi;
} twv;

/* load options */
enum { TWL_NO_JUMP_TABLE = 1, TWL_NO_RT_CELLIDX = 2, TWL_NO_LT_CELLIDX = 4 };

/* trap ids, independent of the library's numbering */
enum tw_trap {
        TWT_NONE = 0,
        TWT_DIV0, TWT_INTOVF, TWT_OOB_MEM, TWT_UNREACHABLE, TWT_FRAMES,
        TWT_STACK, TWT_CI_OOB, TWT_CI_NULL, TWT_CI_TYPE, TWT_INVCONV,
        TWT_EXIT, TWT_THREXIT, TWT_OOB_DATA, TWT_OOB_TABLE, TWT_OOB_ELEM,
        TWT_WAIT_UNSHARED, TWT_UNALIGNED_ATOMIC, TWT_UNALIGNED_MEM,
        TWT_NO_FTABLE, TWT_UNCAUGHT, TWT_THROW_NULL, TWT_UNRESOLVED,
        TWT_NO_MEM, TWT_MISC,
};
const char *tw_trap_name(int t);
int tw_trap_of(int trapid); /* from the library's numbering */

#define TW_TRAP (-1)
#define TW_USERINTR (-3)

struct mem_context;
struct instance;
struct module;
struct import_object;

typedef struct tw_env tw_env;   /* a memory context for everything below */
typedef struct tw_mod tw_mod;
typedef struct tw_inst tw_inst;
typedef struct tw_imports tw_imports;

tw_env *tw_env_new(void);
/* returns the number of bytes still accounted (0 expected) and frees */
size_t tw_env_free(tw_env *);
size_t tw_env_allocated(tw_env *);
size_t tw_env_peak(tw_env *);
int tw_env_setlimit(tw_env *, size_t);
/* to be called before anything is allocated */
void tw_env_setparent(tw_env *, tw_env *parent);
struct mem_context *tw_env_mctx(tw_env *);

/* err is 0 or an errno; msg may be NULL */
tw_mod *tw_load(tw_env *, const uint8_t *bytes, size_t n, unsigned opts,
                int *err, char *msg, size_t msgsz);
void tw_unload(tw_mod *);
/* have the instances of the module and their execution use other contexts */
void tw_mod_envs(tw_mod *, tw_env *inst, tw_env *exec);
struct module *tw_mod_module(tw_mod *);
/*
 * debug names; kind 0 func 1 global 2 data 3 module.  looks up with a table
 * that persists until tw_names_end
 */
struct tw_names;
struct tw_names *tw_names_begin(void);
void tw_names_end(struct tw_names *);
const char *tw_name(struct tw_names *, tw_mod *, int kind, uint32_t idx,
                    uint32_t *len);

/* host function: return 0, TW_TRAP after tw_host_trap, or errno */
struct exec_context;
typedef int (*tw_hostfn)(void *user, struct exec_context *ctx, const twv *args,
                         twv *results);
int tw_host_trap(struct exec_context *ctx, const char *msg);
int tw_host_restart(struct exec_context *ctx);

tw_imports *tw_imports_new(tw_env *);
void tw_imports_free(tw_imports *);
/* types as byte strings of valtypes */
/* the shared memories the module imports, made as it asks for them */
int tw_imports_add_shared(tw_imports *, tw_env *inst_env, tw_mod *);
int tw_imports_add_host(tw_imports *, const char *mod, const char *name,
                        const uint8_t *pt, size_t np, const uint8_t *rt,
                        size_t nr, tw_hostfn fn, void *user);
int tw_imports_add_exports(tw_imports *, tw_inst *, const char *mod);
void tw_imports_add_raw(tw_imports *, struct import_object *); /* takes over */
struct import_object *tw_imports_head(tw_imports *);
tw_env *tw_imports_env(tw_imports *);

tw_inst *tw_instantiate(tw_mod *, tw_imports *, int *err, int *trap);
/* two-step variant; init may trap but the instance stays */
tw_inst *tw_instantiate_noinit(tw_mod *, tw_imports *, int *err);
int tw_inst_init(tw_inst *, int *trap);
int tw_module_write(tw_mod *, const char *filename);
/* instance_create(): linking and initialisation in one call */
tw_inst *tw_instantiate_oneshot(tw_mod *, tw_imports *, int *err);
void tw_inst_destroy(tw_inst *);
struct instance *tw_inst_instance(tw_inst *);

struct tw_exec {
        uint32_t max_frames;     /* 0: default */
        uint32_t max_stackcells; /* 0: default */
        int intr;                /* request user interrupts */
        unsigned intr_delay;     /* fire after this many checks */
        unsigned intr_max;       /* stop interrupting after this many (0: no) */
        uint32_t check_interval; /* 0: default */
        int abandon;             /* give up at first interrupt */
        uint64_t n_restart, n_intr; /* out */
        struct cluster *cluster;
        struct mem_context *mctx; /* NULL: env's */
        void *user;
        int raw_restarts; /* do not continue restarts: return the code */
        void (*at_intr)(struct tw_exec *); /* called at each interrupt */
};
/* 0, TW_TRAP (with *trap), TW_USERINTR when abandoned, or errno */
int tw_call(tw_inst *, uint32_t funcidx, const twv *args, twv *results,
            struct tw_exec *x, int *trap);
int tw_find_export(tw_inst *, const char *name, int kind, uint32_t *idx);
int tw_mod_find_export(tw_mod *, const char *name, int kind, uint32_t *idx);

/* state inspection through public structures */
uint32_t tw_mem_pages(tw_inst *, uint32_t memidx);
/* copies [off, off+n) out; returns 0 or -1 when out of range */
int tw_mem_read(tw_inst *, uint32_t memidx, uint64_t off, void *p, size_t n);
int tw_mem_write(tw_inst *, uint32_t memidx, uint64_t off, const void *p,
                 size_t n);
twv tw_global_get(tw_inst *, uint32_t idx);
uint32_t tw_table_size(tw_inst *, uint32_t idx);
/* identity of a table entry: pointer bits */
twv tw_table_get(tw_inst *, uint32_t tidx, uint32_t i);
uint64_t tw_func_identity(tw_inst *, uint32_t fidx);
void tw_functype(tw_inst *, uint32_t fidx, const uint8_t **pt, uint32_t *np,
                 const uint8_t **rt, uint32_t *nr);

/* silences xlog output to stderr when built for it */
#ifdef __cplusplus
}
#endif
#endif
