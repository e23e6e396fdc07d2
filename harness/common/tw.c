#include <errno.h>
#include <stdatomic.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

#include "toywasm_config.h"

#include "cell.h"
#include "exec_context.h"
#include "host_instance.h"
#include "instance.h"
#include "load_context.h"
#include "mem.h"
#include "module_writer.h"
#include "module.h"
#include "name.h"
#include "report.h"
#include "type.h"

#include "tw.h"

#if defined(VERIF_OOM)
/* the allocations of this file are not the library's: never refuse them */
void *__real_malloc(size_t);
void *__real_calloc(size_t, size_t);
char *__real_strdup(const char *);
#undef strdup
#define malloc __real_malloc
#define calloc __real_calloc
#define strdup __real_strdup
#endif

struct tw_env {
        struct mem_context mctx;
};
struct tw_mod {
        tw_env *env;
        tw_env *ienv, *xenv; /* for instances and for execution */
        uint8_t *bytes;
        struct module *m;
};
struct tw_inst {
        tw_env *env, *xenv;
        struct instance *inst;
};

struct hostent {
        struct host_instance hi; /* must be first */
        tw_hostfn fn;
        void *user;
        struct funcinst fi;
        struct functype ft;
        struct name modname, name;
        enum valtype *types;
        struct import_object_entry ent;
        struct hostent *next;
};
struct implist {
        struct import_object *io;
        struct name *name;
        struct implist *next;
};
struct tw_imports {
        tw_env *env;
        struct hostent *hosts;
        struct implist *lists;
        struct import_object *head; /* chain */
        struct import_object *tail;
};

static const struct {
        int id, t;
} trapmap[] = {
        {TRAP_DIV_BY_ZERO, TWT_DIV0},
        {TRAP_INTEGER_OVERFLOW, TWT_INTOVF},
        {TRAP_OUT_OF_BOUNDS_MEMORY_ACCESS, TWT_OOB_MEM},
        {TRAP_UNREACHABLE, TWT_UNREACHABLE},
        {TRAP_TOO_MANY_FRAMES, TWT_FRAMES},
        {TRAP_TOO_MANY_STACKCELLS, TWT_STACK},
        {TRAP_CALL_INDIRECT_OUT_OF_BOUNDS_TABLE_ACCESS, TWT_CI_OOB},
        {TRAP_CALL_INDIRECT_NULL_FUNCREF, TWT_CI_NULL},
        {TRAP_CALL_INDIRECT_FUNCTYPE_MISMATCH, TWT_CI_TYPE},
        {TRAP_INVALID_CONVERSION_TO_INTEGER, TWT_INVCONV},
        {TRAP_VOLUNTARY_EXIT, TWT_EXIT},
        {TRAP_VOLUNTARY_THREAD_EXIT, TWT_THREXIT},
        {TRAP_OUT_OF_BOUNDS_DATA_ACCESS, TWT_OOB_DATA},
        {TRAP_OUT_OF_BOUNDS_TABLE_ACCESS, TWT_OOB_TABLE},
        {TRAP_OUT_OF_BOUNDS_ELEMENT_ACCESS, TWT_OOB_ELEM},
        {TRAP_ATOMIC_WAIT_ON_NON_SHARED_MEMORY, TWT_WAIT_UNSHARED},
        {TRAP_UNALIGNED_ATOMIC_OPERATION, TWT_UNALIGNED_ATOMIC},
        {TRAP_UNALIGNED_MEMORY_ACCESS, TWT_UNALIGNED_MEM},
        {TRAP_INDIRECT_FUNCTION_TABLE_NOT_FOUND, TWT_NO_FTABLE},
        {TRAP_UNCAUGHT_EXCEPTION, TWT_UNCAUGHT},
        {TRAP_THROW_REF_NULL, TWT_THROW_NULL},
        {TRAP_UNRESOLVED_IMPORTED_FUNC, TWT_UNRESOLVED},
        {TRAP_MEMORY_NOT_FOUND, TWT_NO_MEM},
};

static int
trap_to_twt(int id)
{
        size_t i;
        for (i = 0; i < sizeof(trapmap) / sizeof(trapmap[0]); i++) {
                if (trapmap[i].id == id) {
                        return trapmap[i].t;
                }
        }
        return TWT_MISC;
}

int
tw_trap_of(int id)
{
        return trap_to_twt(id);
}

const char *
tw_trap_name(int t)
{
        static const char *names[] = {
                "none", "div0", "intovf", "oob-mem", "unreachable", "frames",
                "stack", "ci-oob", "ci-null", "ci-type", "invconv", "exit",
                "threxit", "oob-data", "oob-table", "oob-elem",
                "wait-unshared", "unaligned-atomic", "unaligned-mem",
                "no-ftable", "uncaught", "throw-null", "unresolved", "no-mem",
                "misc"};
        if (t < 0 || t > TWT_MISC) {
                return "?";
        }
        return names[t];
}

tw_env *
tw_env_new(void)
{
        tw_env *e = calloc(1, sizeof(*e));
        mem_context_init(&e->mctx);
        return e;
}

size_t
tw_env_allocated(tw_env *e)
{
#if defined(TOYWASM_ENABLE_HEAP_TRACKING)
        return e->mctx.allocated;
#else
        return 0;
#endif
}

size_t
tw_env_peak(tw_env *e)
{
#if defined(TOYWASM_ENABLE_HEAP_TRACKING) &&                                  \
        defined(TOYWASM_ENABLE_HEAP_TRACKING_PEAK)
        return e->mctx.peak;
#else
        return 0;
#endif
}

int
tw_env_setlimit(tw_env *e, size_t l)
{
        return mem_context_setlimit(&e->mctx, l);
}

void
tw_env_setparent(tw_env *e, tw_env *parent)
{
        e->mctx.parent = &parent->mctx;
}

struct mem_context *
tw_env_mctx(tw_env *e)
{
        return &e->mctx;
}

size_t
tw_env_free(tw_env *e)
{
        size_t left = tw_env_allocated(e);
        if (left == 0) {
                mem_context_clear(&e->mctx);
        }
        free(e);
        return left;
}

tw_mod *
tw_load(tw_env *env, const uint8_t *bytes, size_t n, unsigned opts, int *err,
        char *msg, size_t msgsz)
{
        tw_mod *m = calloc(1, sizeof(*m));
        m->env = m->ienv = m->xenv = env;
        /* an exact-size copy, so that a sanitizer sees over-reads */
        m->bytes = malloc(n ? n : 1);
        if (n) {
                memcpy(m->bytes, bytes, n);
        }
        struct load_context lctx;
        load_context_init(&lctx, &env->mctx);
        if (opts & TWL_NO_JUMP_TABLE) {
                lctx.options.generate_jump_table = false;
        }
#if defined(TOYWASM_USE_RESULTTYPE_CELLIDX)
        if (opts & TWL_NO_RT_CELLIDX) {
                lctx.options.generate_resulttype_cellidx = false;
        }
#endif
#if defined(TOYWASM_USE_LOCALTYPE_CELLIDX)
        if (opts & TWL_NO_LT_CELLIDX) {
                lctx.options.generate_localtype_cellidx = false;
        }
#endif
        int ret = module_create(&m->m, m->bytes, m->bytes + n, &lctx);
        if (msg != NULL) {
                snprintf(msg, msgsz, "%s",
                         ret ? report_getmessage(&lctx.report) : "");
        }
        load_context_clear(&lctx);
        *err = ret;
        if (ret != 0) {
                free(m->bytes);
                free(m);
                return NULL;
        }
        return m;
}

void
tw_unload(tw_mod *m)
{
        if (m == NULL) {
                return;
        }
        module_destroy(&m->env->mctx, m->m);
        free(m->bytes);
        free(m);
}

void
tw_mod_envs(tw_mod *m, tw_env *inst, tw_env *exec)
{
        m->ienv = inst;
        m->xenv = exec;
}

struct module *
tw_mod_module(tw_mod *m)
{
        return m->m;
}

struct tw_names {
        struct nametable t;
};

struct tw_names *
tw_names_begin(void)
{
        struct tw_names *n = calloc(1, sizeof(*n));
        nametable_init(&n->t);
        return n;
}

void
tw_names_end(struct tw_names *n)
{
        nametable_clear(&n->t);
        free(n);
}

const char *
tw_name(struct tw_names *n, tw_mod *m, int kind, uint32_t idx, uint32_t *len)
{
        struct name nm;
        memset(&nm, 0, sizeof(nm));
        switch (kind) {
        case 0:
                nametable_lookup_func(&n->t, m->m, idx, &nm);
                break;
        case 1:
                nametable_lookup_global(&n->t, m->m, idx, &nm);
                break;
        case 2:
                nametable_lookup_data(&n->t, m->m, idx, &nm);
                break;
        default:
                nametable_lookup_module(&n->t, m->m, &nm);
                break;
        }
        *len = nm.nbytes;
        return nm.data;
}

tw_imports *
tw_imports_new(tw_env *env)
{
        tw_imports *im = calloc(1, sizeof(*im));
        im->env = env;
        return im;
}

static void
append(tw_imports *im, struct import_object *io)
{
        io->next = NULL;
        if (im->tail == NULL) {
                im->head = io;
        } else {
                im->tail->next = io;
        }
        im->tail = io;
        while (im->tail->next != NULL) {
                im->tail = im->tail->next;
        }
        struct implist *l = calloc(1, sizeof(*l));
        l->io = io;
        l->next = im->lists;
        im->lists = l;
}

void
tw_imports_add_raw(tw_imports *im, struct import_object *io)
{
        append(im, io);
}

int
tw_imports_add_shared(tw_imports *im, tw_env *inst_env, tw_mod *m)
{
        struct import_object *io = NULL;
        int ret = create_satisfying_shared_memories(
                tw_env_mctx(im->env), tw_env_mctx(inst_env), tw_mod_module(m),
                &io);
        if (ret == 0) {
                append(im, io);
        }
        return ret;
}

tw_env *
tw_imports_env(tw_imports *im)
{
        return im->env;
}

struct import_object *
tw_imports_head(tw_imports *im)
{
        return im->head;
}

static twv
val_to_twv(const struct val *v, int t)
{
        twv r = {0, 0};
        switch (t) {
        case T_I32:
        case T_F32:
                r.lo = v->u.i32;
                break;
        case T_I64:
        case T_F64:
                r.lo = v->u.i64;
                break;
#if defined(TOYWASM_ENABLE_WASM_SIMD)
        case T_V128:
                memcpy(&r, &v->u.v128, 16);
                break;
#endif
        case T_FUNCREF:
                r.lo = (uint64_t)(uintptr_t)v->u.funcref.func;
                break;
        case T_EXTERNREF:
                r.lo = (uint64_t)(uintptr_t)v->u.externref;
                break;
#if defined(TOYWASM_ENABLE_WASM_EXCEPTION_HANDLING)
        case T_EXNREF:
                r.lo = (uint64_t)(uintptr_t)v->u.exnref.tag;
                break;
#endif
        }
        return r;
}

static void
twv_to_val(struct val *v, twv x, int t)
{
        memset(v, 0, sizeof(*v));
        switch (t) {
        case T_I32:
        case T_F32:
                v->u.i32 = (uint32_t)x.lo;
                break;
        case T_I64:
        case T_F64:
                v->u.i64 = x.lo;
                break;
#if defined(TOYWASM_ENABLE_WASM_SIMD)
        case T_V128:
                memcpy(&v->u.v128, &x, 16);
                break;
#endif
        case T_FUNCREF:
                v->u.funcref.func = (void *)(uintptr_t)x.lo;
                break;
        case T_EXTERNREF:
                v->u.externref = (void *)(uintptr_t)x.lo;
                break;
        }
}

static int
host_trampoline(struct exec_context *ctx, struct host_instance *hi,
                const struct functype *ft, const struct cell *params,
                struct cell *results)
{
        struct hostent *h = (void *)hi;
        uint32_t np = ft->parameter.ntypes;
        uint32_t nr = ft->result.ntypes;
        /* no allocations here: they would count as the library's */
        struct val pvb[16], rvb[16];
        twv pb[16], rb[16];
        bool big = np > 16 || nr > 16;
        struct val *pv = big ? calloc(np + 1, sizeof(*pv)) : pvb;
        struct val *rv = big ? calloc(nr + 1, sizeof(*rv)) : rvb;
        twv *p = big ? calloc(np + 1, sizeof(*p)) : pb;
        twv *r = big ? calloc(nr + 1, sizeof(*r)) : rb;
        if (!big) {
                memset(pvb, 0, sizeof(pvb));
                memset(rvb, 0, sizeof(rvb));
                memset(pb, 0, sizeof(pb));
                memset(rb, 0, sizeof(rb));
        }
        uint32_t i;
        vals_from_cells(pv, params, &ft->parameter);
        for (i = 0; i < np; i++) {
                p[i] = val_to_twv(&pv[i], ft->parameter.types[i]);
        }
        int ret = h->fn(h->user, ctx, p, r);
        if (ret == 0) {
                for (i = 0; i < nr; i++) {
                        twv_to_val(&rv[i], r[i], ft->result.types[i]);
                }
                vals_to_cells(rv, results, &ft->result);
        }
        if (big) {
                free(pv);
                free(rv);
                free(p);
                free(r);
        }
        return ret;
}

int
tw_host_trap(struct exec_context *ctx, const char *msg)
{
        return trap_with_id(ctx, TRAP_MISC, "%s", msg);
}

int
tw_host_restart(struct exec_context *ctx)
{
        return ETOYWASMRESTART;
}

static void
name_set(struct name *n, const char *s)
{
        n->nbytes = strlen(s);
        n->data = strdup(s);
}

int
tw_imports_add_host(tw_imports *im, const char *mod, const char *name,
                    const uint8_t *pt, size_t np, const uint8_t *rt, size_t nr,
                    tw_hostfn fn, void *user)
{
        struct hostent *h = calloc(1, sizeof(*h));
        h->fn = fn;
        h->user = user;
        h->types = calloc(np + nr + 1, sizeof(*h->types));
        size_t i;
        for (i = 0; i < np; i++) {
                h->types[i] = pt[i];
        }
        for (i = 0; i < nr; i++) {
                h->types[np + i] = rt[i];
        }
        h->ft.parameter.types = h->types;
        h->ft.parameter.ntypes = np;
        h->ft.parameter.is_static = true;
        h->ft.result.types = h->types + np;
        h->ft.result.ntypes = nr;
        h->ft.result.is_static = true;
        h->fi.is_host = true;
        h->fi.u.host.instance = &h->hi;
        h->fi.u.host.type = &h->ft;
        h->fi.u.host.func = host_trampoline;
        name_set(&h->modname, mod);
        name_set(&h->name, name);
        struct import_object *io;
        int ret = import_object_alloc(&im->env->mctx, 1, &io);
        if (ret != 0) {
                free(h->types);
                free((void *)h->modname.data);
                free((void *)h->name.data);
                free(h);
                return ret;
        }
        io->entries[0].module_name = &h->modname;
        io->entries[0].name = &h->name;
        io->entries[0].type = EXTERNTYPE_FUNC;
        io->entries[0].u.func = &h->fi;
        append(im, io);
        h->next = im->hosts;
        im->hosts = h;
        return 0;
}

int
tw_imports_add_exports(tw_imports *im, tw_inst *inst, const char *mod)
{
        struct name *n = calloc(1, sizeof(*n));
        name_set(n, mod);
        struct import_object *io;
        int ret = import_object_create_for_exports(&im->env->mctx, inst->inst,
                                                   n, &io);
        if (ret != 0) {
                free((void *)n->data);
                free(n);
                return ret;
        }
        append(im, io);
        im->lists->name = n;
        return 0;
}

void
tw_imports_free(tw_imports *im)
{
        struct implist *l;
        if (im == NULL) {
                return;
        }
        while ((l = im->lists) != NULL) {
                im->lists = l->next;
                import_object_destroy(&im->env->mctx, l->io);
                if (l->name != NULL) {
                        free((void *)l->name->data);
                        free(l->name);
                }
                free(l);
        }
        struct hostent *h;
        while ((h = im->hosts) != NULL) {
                im->hosts = h->next;
                free(h->types);
                free((void *)h->modname.data);
                free((void *)h->name.data);
                free(h);
        }
        free(im);
}

tw_inst *
tw_instantiate_noinit(tw_mod *m, tw_imports *im, int *err)
{
        struct instance *inst;
        struct report report;
        report_init(&report);
        int ret = instance_create_no_init(&m->ienv->mctx, m->m, &inst,
                                          im ? im->head : NULL, &report);
        report_clear(&report);
        *err = ret;
        if (ret != 0) {
                return NULL;
        }
        tw_inst *i = calloc(1, sizeof(*i));
        i->env = m->ienv;
        i->xenv = m->xenv;
        i->inst = inst;
        return i;
}

int
tw_inst_init(tw_inst *i, int *trap)
{
        struct exec_context ctx;
        *trap = TWT_NONE;
        exec_context_init(&ctx, i->inst, &i->xenv->mctx);
        int ret = instance_execute_init(&ctx);
        ret = instance_execute_handle_restart(&ctx, ret);
        if (ret == ETOYWASMTRAP) {
                *trap = trap_to_twt(ctx.trap.trapid);
        }
        exec_context_clear(&ctx);
        return ret;
}

tw_inst *
tw_instantiate(tw_mod *m, tw_imports *im, int *err, int *trap)
{
        *trap = TWT_NONE;
        tw_inst *i = tw_instantiate_noinit(m, im, err);
        if (i == NULL) {
                return NULL;
        }
        *err = tw_inst_init(i, trap);
        if (*err != 0) {
                tw_inst_destroy(i);
                return NULL;
        }
        return i;
}

int
tw_module_write(tw_mod *m, const char *filename)
{
        return module_write(filename, m->m);
}

tw_inst *
tw_instantiate_oneshot(tw_mod *m, tw_imports *im, int *err)
{
        struct instance *inst = NULL;
        struct report report;
        report_init(&report);
        *err = instance_create(&m->ienv->mctx, m->m, &inst,
                               im ? im->head : NULL, &report);
        report_clear(&report);
        if (*err != 0) {
                return NULL;
        }
        tw_inst *i = calloc(1, sizeof(*i));
        i->env = m->ienv;
        i->xenv = m->xenv;
        i->inst = inst;
        return i;
}

void
tw_inst_destroy(tw_inst *i)
{
        if (i == NULL) {
                return;
        }
        instance_destroy(i->inst);
        free(i);
}

struct instance *
tw_inst_instance(tw_inst *i)
{
        return i->inst;
}

static const struct functype *
inst_functype(struct instance *inst, uint32_t fidx)
{
        const struct funcinst *fi = VEC_ELEM(inst->funcs, fidx);
        if (fi->is_host) {
                return fi->u.host.type;
        }
        return module_functype(fi->u.wasm.instance->module,
                               fi->u.wasm.funcidx);
}

tw_inst *tw_inst_wrap(tw_env *, struct instance *);
void tw_inst_unwrap(tw_inst *);

tw_inst *
tw_inst_wrap(tw_env *e, struct instance *inst)
{
        tw_inst *i = calloc(1, sizeof(*i));
        i->env = i->xenv = e;
        i->inst = inst;
        return i;
}

void
tw_inst_unwrap(tw_inst *i)
{
        free(i);
}

int
tw_call(tw_inst *i, uint32_t fidx, const twv *args, twv *results,
        struct tw_exec *x, int *trap)
{
        struct exec_context ctx;
        struct val stackbuf[32];
        struct tw_exec dx;
        *trap = TWT_NONE;
        if (x == NULL) {
                memset(&dx, 0, sizeof(dx));
                x = &dx;
        }
        const struct functype *ft = inst_functype(i->inst, fidx);
        const struct resulttype *pt = &ft->parameter;
        const struct resulttype *rt = &ft->result;
        uint32_t mx = pt->ntypes > rt->ntypes ? pt->ntypes : rt->ntypes;
        struct val *v = stackbuf;
        if (mx > 32) {
                v = calloc(mx, sizeof(*v));
        }
        uint32_t k;
        exec_context_init(&ctx, i->inst, x->mctx ? x->mctx : &i->xenv->mctx);
        if (x->max_frames) {
                ctx.options.max_frames = x->max_frames;
        }
        if (x->max_stackcells) {
                ctx.options.max_stackcells = x->max_stackcells;
        }
        if (x->check_interval) {
                ctx.check_interval = x->check_interval;
        }
        atomic_uint intr = 0;
        if (x->intr) {
                intr = 1;
                ctx.intrp = &intr;
                ctx.user_intr_delay = x->intr_delay;
        }
        if (x->cluster) {
                ctx.cluster = x->cluster;
        }
        for (k = 0; k < pt->ntypes; k++) {
                twv_to_val(&v[k], args[k], pt->types[k]);
        }
        int ret = exec_push_vals(&ctx, pt, v);
        if (ret == 0) {
                ret = instance_execute_func(&ctx, fidx, pt, rt);
                while (IS_RESTARTABLE(ret) && !x->raw_restarts) {
                        if (ret == ETOYWASMUSERINTERRUPT) {
                                x->n_intr++;
                                if (x->at_intr) {
                                        x->at_intr(x);
                                }
                                if (x->abandon) {
                                        break;
                                }
                                if (x->intr_max && x->n_intr >= x->intr_max) {
                                        intr = 0;
                                }
                        } else {
                                x->n_restart++;
                        }
                        ret = instance_execute_handle_restart_once(&ctx, ret);
                }
        }
        if (ret == 0) {
                exec_pop_vals(&ctx, rt, v);
                for (k = 0; k < rt->ntypes; k++) {
                        results[k] = val_to_twv(&v[k], rt->types[k]);
                }
        } else if (ret == ETOYWASMTRAP) {
                *trap = trap_to_twt(ctx.trap.trapid);
        }
        exec_context_clear(&ctx);
        if (v != stackbuf) {
                free(v);
        }
        return ret;
}

int
tw_mod_find_export(tw_mod *m, const char *name, int kind, uint32_t *idx)
{
        struct name n = NAME_FROM_CSTR(name);
        return module_find_export(m->m, &n, kind, idx);
}

int
tw_find_export(tw_inst *i, const char *name, int kind, uint32_t *idx)
{
        struct name n = NAME_FROM_CSTR(name);
        return module_find_export(i->inst->module, &n, kind, idx);
}

uint32_t
tw_mem_pages(tw_inst *i, uint32_t memidx)
{
        return VEC_ELEM(i->inst->mems, memidx)->size_in_pages;
}

int
tw_mem_read(tw_inst *i, uint32_t memidx, uint64_t off, void *p, size_t n)
{
        struct meminst *mi = VEC_ELEM(i->inst->mems, memidx);
        uint8_t *d = p;
        if (off + n > 0x100000000ull) {
                return -1;
        }
        while (n > 0) {
                uint32_t c = n > 0x8000 ? 0x8000 : (uint32_t)n;
                void *vp;
                bool moved;
                if (memory_instance_getptr2(mi, (uint32_t)off, 0, c, &vp,
                                            &moved) != 0) {
                        return -1;
                }
                memcpy(d, vp, c);
                d += c;
                off += c;
                n -= c;
        }
        return 0;
}

int
tw_mem_write(tw_inst *i, uint32_t memidx, uint64_t off, const void *p,
             size_t n)
{
        struct meminst *mi = VEC_ELEM(i->inst->mems, memidx);
        if (n == 0) {
                return 0;
        }
        void *vp;
        bool moved;
        if (memory_instance_getptr2(mi, (uint32_t)off, 0, n, &vp, &moved) !=
            0) {
                return -1;
        }
        memcpy(vp, p, n);
        return 0;
}

twv
tw_global_get(tw_inst *i, uint32_t idx)
{
        struct globalinst *g = VEC_ELEM(i->inst->globals, idx);
        struct val v;
        global_get(g, &v);
        return val_to_twv(&v, g->type->t);
}

uint32_t
tw_table_size(tw_inst *i, uint32_t idx)
{
        return VEC_ELEM(i->inst->tables, idx)->size;
}

twv
tw_table_get(tw_inst *i, uint32_t tidx, uint32_t n)
{
        struct tableinst *t = VEC_ELEM(i->inst->tables, tidx);
        struct val v;
        table_get(t, n, &v);
        return val_to_twv(&v, t->type->et);
}

uint64_t
tw_func_identity(tw_inst *i, uint32_t fidx)
{
        return (uint64_t)(uintptr_t)VEC_ELEM(i->inst->funcs, fidx);
}

void
tw_functype(tw_inst *i, uint32_t fidx, const uint8_t **pt, uint32_t *np,
            const uint8_t **rt, uint32_t *nr)
{
        const struct functype *ft = inst_functype(i->inst, fidx);
        static uint8_t pb[256], rb[256];
        uint32_t k;
        for (k = 0; k < ft->parameter.ntypes && k < 256; k++) {
                pb[k] = ft->parameter.types[k];
        }
        for (k = 0; k < ft->result.ntypes && k < 256; k++) {
                rb[k] = ft->result.types[k];
        }
        *pt = pb;
        *rt = rb;
        *np = ft->parameter.ntypes;
        *nr = ft->result.ntypes;
}
