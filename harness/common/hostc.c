#include <assert.h>
#include <errno.h>
#include <stdbool.h>
#include <stdlib.h>
#include <string.h>

#include "toywasm_config.h"

#include "cell.h"
#include "exec_context.h"
#include "host_instance.h"
#include "instance.h"
#include "mem.h"
#include "restart.h"
#include "type.h"

#include "hostc.h"

#define HC_MAXF 8

struct hc_host {
        struct host_instance hi; /* first */
        struct hc_plan plan[HC_MAXF];
        struct name modname[HC_MAXF];
        struct host_func funcs[HC_MAXF];
        struct host_module mods[HC_MAXF];
        char str[HC_MAXF * 3][64];
        /* for types that the string notation does not cover */
        struct funcinst fi;
        struct functype ft;
        enum valtype types[2 * HC_MAXV];
};

static enum valtype
chartype(char c)
{
        switch (c) {
        case 'i':
                return TYPE_i32;
        case 'I':
                return TYPE_i64;
        case 'f':
                return TYPE_f32;
        case 'F':
                return TYPE_f64;
        case 'v':
                return TYPE_v128;
        case 'c':
                return TYPE_funcref;
        case 'e':
                return TYPE_externref;
        case 'x':
                return TYPE_exnref;
        }
        abort();
}

static twv
to_twv(const struct val *v, int t)
{
        twv r = {0, 0};
        switch (t) {
        case T_I32:
        case T_F32:
                r.lo = v->u.i32;
                break;
        case T_I64:
        case T_F64:
                r.lo = v->u.i64;
                break;
#if defined(TOYWASM_ENABLE_WASM_SIMD)
        case T_V128:
                memcpy(&r, &v->u.v128, 16);
                break;
#endif
        case T_FUNCREF:
                r.lo = (uint64_t)(uintptr_t)v->u.funcref.func;
                break;
        case T_EXTERNREF:
                r.lo = (uint64_t)(uintptr_t)v->u.externref;
                break;
        }
        return r;
}

static void
to_val(struct val *v, twv x, int t)
{
        memset(v, 0, sizeof(*v));
        switch (t) {
        case T_I32:
        case T_F32:
                v->u.i32 = (uint32_t)x.lo;
                break;
        case T_I64:
        case T_F64:
                v->u.i64 = x.lo;
                break;
#if defined(TOYWASM_ENABLE_WASM_SIMD)
        case T_V128:
                memcpy(&v->u.v128, &x, 16);
                break;
#endif
        case T_FUNCREF:
                v->u.funcref.func = (void *)(uintptr_t)x.lo;
                break;
        case T_EXTERNREF:
                v->u.externref = (void *)(uintptr_t)x.lo;
                break;
        }
}

static int
entry(struct exec_context *ctx, struct hc_plan *p, const struct functype *ft,
      const struct cell *params, struct cell *results)
{
        struct restart_hostfunc *hf;
        uint32_t i;
        int ret;

        HOST_FUNC_CONVERT_PARAMS(ft, params);
        p->ninvoke++;
        if (!p->active) {
                p->active = 1;
                p->nstart++;
                p->step = 0;
                p->left = p->restarts[0];
                for (i = 0; i < ft->parameter.ntypes; i++) {
                        p->args[i] = to_twv(&converted_params[i], ft->parameter.types[i]);
                }
        } else {
                for (i = 0; i < ft->parameter.ntypes; i++) {
                        twv a = to_twv(&converted_params[i], ft->parameter.types[i]);
                        if (a.lo != p->args[i].lo || a.hi != p->args[i].hi) {
                                p->bad |= 1;
                        }
                }
        }
        ret = restart_info_prealloc(ctx);
        if (ret != 0) {
                goto out;
        }
        struct restart_info *restart = &VEC_NEXTELEM(ctx->restarts);
        if (restart->restart_type != RESTART_NONE) {
                /* back from a callback */
                if (restart->restart_type != RESTART_HOSTFUNC) {
                        p->bad |= 2;
                }
                hf = &restart->restart_u.hostfunc;
                uint32_t step = hf->user1;
                if (hf->user2 != 0xabc00000u + step || (int)step != p->step) {
                        p->bad |= 4;
                }
                uint32_t adj = hf->stack_adj;
                restart_info_clear(ctx);
                const struct functype *cft = funcinst_functype((const struct funcinst *)(uintptr_t)p->cb[step].func);
                struct val r[HC_MAXV];
                ctx->stack.lsize += adj;
                exec_pop_vals(ctx, &cft->result, r);
                for (i = 0; i < cft->result.ntypes; i++) {
                        p->cb[step].results[i] = to_twv(&r[i], cft->result.types[i]);
                }
                p->step++;
                p->left = p->restarts[p->step];
        }
        if (p->left > 0) {
                p->left--;
                ret = ETOYWASMRESTART;
                goto out;
        }
        if (p->step < p->ncb) {
                struct hc_cb *cb = &p->cb[p->step];
                const struct funcinst *fi = (const struct funcinst *)(uintptr_t)cb->func;
                const struct functype *cft = funcinst_functype(fi);
                struct val a[HC_MAXV];
                for (i = 0; i < cft->parameter.ntypes; i++) {
                        to_val(&a[i], cb->args[i], cft->parameter.types[i]);
                }
                ret = exec_push_vals(ctx, &cft->parameter, a);
                if (ret != 0) {
                        goto out;
                }
                ret = schedule_call_from_hostfunc(ctx, restart, fi);
                hf = &restart->restart_u.hostfunc;
                hf->user1 = (uint32_t)p->step;
                hf->user2 = 0xabc00000u + (uint32_t)p->step;
                goto out;
        }
        p->active = 0;
        p->ndone++;
        switch (p->final) {
        case HC_TRAP:
                ret = host_func_trap(ctx, "trap from the host function");
                break;
        case HC_ERRNO:
                ret = p->err;
                break;
        case HC_TAIL:
                ctx->event_u.call.func = (const struct funcinst *)(uintptr_t)p->tail;
                ctx->event = EXEC_EVENT_CALL;
                ret = ETOYWASMRESTART;
                break;
        default:
                for (i = 0; i < ft->result.ntypes; i++) {
                        struct val v;
                        to_val(&v, p->results[i], ft->result.types[i]);
                        switch (ft->result.types[i]) {
                        case TYPE_i32:
                        case TYPE_f32:
                                HOST_FUNC_RESULT_SET(ft, results, i, i32, v.u.i32);
                                break;
                        case TYPE_i64:
                        case TYPE_f64:
                                HOST_FUNC_RESULT_SET(ft, results, i, i64, v.u.i64);
                                break;
                        case TYPE_funcref:
                                HOST_FUNC_RESULT_SET(ft, results, i, funcref, v.u.funcref);
                                break;
                        case TYPE_externref:
                                HOST_FUNC_RESULT_SET(ft, results, i, externref, v.u.externref);
                                break;
#if defined(TOYWASM_ENABLE_WASM_SIMD)
                        case TYPE_v128:
                                HOST_FUNC_RESULT_SET(ft, results, i, v128, v.u.v128);
                                break;
#endif
#if defined(TOYWASM_ENABLE_WASM_EXCEPTION_HANDLING)
                        case TYPE_exnref:
                                /* echoes the parameter at the same position */
                                HOST_FUNC_RESULT_SET(ft, results, i, exnref, converted_params[i].u.exnref);
                                break;
#endif
                        default:
                                abort();
                        }
                }
                ret = 0;
                break;
        }
out:
        HOST_FUNC_FREE_CONVERTED_PARAMS();
        return ret;
}

#define E(N)                                                                  \
        static HOST_FUNC_DECL(entry##N)                                       \
        {                                                                     \
                struct hc_host *h = (void *)hi;                               \
                return entry(ctx, &h->plan[N], ft, params, results);          \
        }
E(0) E(1) E(2) E(3) E(4) E(5) E(6) E(7)
static const host_func_t entries[HC_MAXF] = {
        entry0, entry1, entry2, entry3, entry4, entry5, entry6, entry7,
};

static void
setname(struct name *n, const char *s)
{
        n->nbytes = (uint32_t)strlen(s);
        n->data = s;
}

struct hc_host *
hc_host_new_multi(tw_env *env, tw_imports *im, int nmod, const char **mods,
                  int per, const char **names, const char **types)
{
        struct hc_host *h = calloc(1, sizeof(*h));
        int i;
        int k = 0;
        if (nmod * per > HC_MAXF) {
                abort();
        }
        for (i = 0; i < nmod; i++) {
                setname(&h->modname[i], strcpy(h->str[HC_MAXF * 2 + i], mods[i]));
                h->mods[i].module_name = &h->modname[i];
                h->mods[i].funcs = &h->funcs[i * per];
                h->mods[i].nfuncs = (size_t)per;
        }
        for (k = 0; k < nmod * per; k++) {
                setname(&h->funcs[k].name, strcpy(h->str[k], names[k]));
                h->funcs[k].type = strcpy(h->str[HC_MAXF + k], types[k]);
                h->funcs[k].func = entries[k];
        }
        struct import_object *io;
        int ret = import_object_create_for_host_funcs(tw_env_mctx(env), h->mods, (size_t)nmod, &h->hi, &io);
        if (ret != 0) {
                free(h);
                return NULL;
        }
        tw_imports_add_raw(im, io);
        return h;
}

struct hc_host *
hc_host_new(tw_env *env, tw_imports *im, const char *mod, const char *name,
            const char *type)
{
        if (strpbrk(type, "vcex") != NULL) {
                struct hc_host *h = calloc(1, sizeof(*h));
                const char *p = type + 1;
                uint32_t n = 0;
                h->ft.parameter.types = h->types;
                h->ft.parameter.is_static = true;
                for (; *p != ')'; p++) {
                        h->types[n++] = chartype(*p);
                }
                h->ft.parameter.ntypes = n;
                h->ft.result.types = h->types + n;
                h->ft.result.is_static = true;
                for (p++; *p != 0; p++) {
                        h->types[n++] = chartype(*p);
                }
                h->ft.result.ntypes = n - h->ft.parameter.ntypes;
                setname(&h->modname[0], strcpy(h->str[1], mod));
                setname(&h->funcs[0].name, strcpy(h->str[0], name));
                h->fi.is_host = true;
                h->fi.u.host.instance = &h->hi;
                h->fi.u.host.type = &h->ft;
                h->fi.u.host.func = entries[0];
                struct import_object *io;
                if (import_object_alloc(tw_env_mctx(env), 1, &io) != 0) {
                        free(h);
                        return NULL;
                }
                io->entries[0].module_name = &h->modname[0];
                io->entries[0].name = &h->funcs[0].name;
                io->entries[0].type = EXTERNTYPE_FUNC;
                io->entries[0].u.func = &h->fi;
                tw_imports_add_raw(im, io);
                return h;
        }
        return hc_host_new_multi(env, im, 1, &mod, 1, &name, &type);
}

void
hc_host_free(struct hc_host *h)
{
        free(h);
}

struct hc_plan *
hc_getplan(struct hc_host *h, int i)
{
        return &h->plan[i];
}
