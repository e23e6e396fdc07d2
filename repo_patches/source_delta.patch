From 97c493e333c31f7e6483d55abfbb656b859042ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:02:44 +0000
Subject: [PATCH 01/43] fix: evaluate element expressions of table.init in
 their own context

table.init on a passive segment with initializer expressions evaluated the
expressions by re-entering the interpreter loop on the running context.
The loop then went on with the caller's frames and corrupted the stack.
---
 lib/exec_insn_subr.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/lib/exec_insn_subr.c b/lib/exec_insn_subr.c
index 1ce6f5d..04c7687 100644
--- a/lib/exec_insn_subr.c
+++ b/lib/exec_insn_subr.c
@@ -274,8 +274,16 @@ table_init(struct exec_context *ectx, uint32_t tableidx, uint32_t elemidx,
                         val.u.funcref.func =
                                 VEC_ELEM(inst->funcs, elem->funcs[s + i]);
                 } else {
+                        /*
+                         * Note: use a separate context because ectx can be
+                         * in the middle of the execution of an instruction.
+                         */
+                        struct exec_context ctx0;
+                        exec_context_init(&ctx0, ectx->instance,
+                                          exec_mctx(ectx));
                         ret = exec_const_expr(&elem->init_exprs[s + i],
-                                              elem->type, &val, ectx);
+                                              elem->type, &val, &ctx0);
+                        exec_context_clear(&ctx0);
                         if (ret != 0) {
                                 goto fail;
                         }
-- 
2.43.0


From fb0abd47082c3c6ab2091061809b83f745a731b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:02:44 +0000
Subject: [PATCH 02/43] fix: reject accesses to the last byte of the address
 space with 1-byte pages

(last_byte >> page_shift) + 1 wrapped to 0 for the address 0xffffffff of a
memory with the page size 1, so the bounds check passed.
---
 lib/exec_insn_subr.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lib/exec_insn_subr.c b/lib/exec_insn_subr.c
index 04c7687..68bb6e6 100644
--- a/lib/exec_insn_subr.c
+++ b/lib/exec_insn_subr.c
@@ -74,8 +74,7 @@ memory_instance_getptr2(struct meminst *meminst, uint32_t ptr, uint32_t offset,
         }
         if (__predict_false(last_byte >= meminst->allocated)) {
                 const uint32_t page_shift = memtype_page_shift(meminst->type);
-                uint32_t need_in_pages = (last_byte >> page_shift) + 1;
-                if (need_in_pages > meminst->size_in_pages) {
+                if (last_byte >> page_shift >= meminst->size_in_pages) {
 do_trap:
                         return ETOYWASMTRAP;
                 }
-- 
2.43.0


From 5e4132fc6fc6006ffcdc43982037956bc7a27935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:05:54 +0000
Subject: [PATCH 03/43] fix: compute the initial size of a shared memory in 64
 bits

For a shared memory of 65536 pages the shift was done in 32 bits and yielded
0, so nothing was allocated and the storage was extended on access, which must
not happen for memory other threads can be using.
---
 lib/instance.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/instance.c b/lib/instance.c
index 4d9ff3c..1b314b4 100644
--- a/lib/instance.c
+++ b/lib/instance.c
@@ -185,7 +185,8 @@ memory_instance_create(struct mem_context *mctx, struct meminst **mip,
                 uint32_t need_in_pages = mt->lim.min;
 #endif /* defined(TOYWASM_PREALLOC_SHARED_MEMORY) */
                 uint32_t page_shift = memtype_page_shift(mt);
-                uint64_t need_in_bytes = need_in_pages << page_shift;
+                uint64_t need_in_bytes = (uint64_t)need_in_pages
+                                         << page_shift;
                 if (need_in_bytes > SIZE_MAX) {
                         ret = EOVERFLOW;
                         goto fail1;
-- 
2.43.0


From ab613c9f7ea6cd0b9962a71b373842887bfc9adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:15:41 +0000
Subject: [PATCH 04/43] fix: keep the interrupt check count across restarts

The interpreter loop started counting towards the next interrupt check
from scratch every time it was entered.  A program which restarts often
(a loop calling a host function which calls back into wasm, or calling
through a dyld PLT) never reached the check, so that it could not be
interrupted.
---
 lib/exec.c         | 14 ++++++++------
 lib/exec_context.h |  6 ++++++
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/lib/exec.c b/lib/exec.c
index 77e0eef..3f7ac69 100644
--- a/lib/exec.c
+++ b/lib/exec.c
@@ -1244,8 +1244,10 @@ exec_expr_continue(struct exec_context *ctx)
         struct timespec last;
         bool has_last = false;
 #endif
-        uint32_t n = ctx->check_interval;
-        assert(n > 0);
+        if (ctx->check_count == 0) {
+                ctx->check_count = ctx->check_interval;
+        }
+        assert(ctx->check_count > 0);
         while (true) {
                 int ret;
                 switch (ctx->event) {
@@ -1321,8 +1323,8 @@ exec_expr_continue(struct exec_context *ctx)
                         return_to_hostfunc(ctx);
                         continue;
                 }
-                n--;
-                if (__predict_false(n == 0)) {
+                ctx->check_count--;
+                if (__predict_false(ctx->check_count == 0)) {
 #if defined(ADJUST_CHECK_INTERVAL)
                         struct timespec now;
                         ret = timespec_now(CLOCK_MONOTONIC, &now);
@@ -1342,8 +1344,8 @@ exec_expr_continue(struct exec_context *ctx)
                                 }
                                 return ret;
                         }
-                        n = ctx->check_interval;
-                        assert(n > 0);
+                        ctx->check_count = ctx->check_interval;
+                        assert(ctx->check_count > 0);
                 }
                 struct cell *stack = &VEC_NEXTELEM(ctx->stack);
                 ret = fetch_exec_next_insn(ctx->p, stack, ctx);
diff --git a/lib/exec_context.h b/lib/exec_context.h
index 08c3494..a2abdda 100644
--- a/lib/exec_context.h
+++ b/lib/exec_context.h
@@ -275,6 +275,12 @@ struct exec_context {
         unsigned int user_intr_delay_count;
         unsigned int user_intr_delay;
         uint32_t check_interval;
+        /*
+         * the number of iterations left until the next check_interrupt.
+         * it's kept across restarts so that an execution which restarts
+         * often still gets checked.
+         */
+        uint32_t check_count;
 
 #if defined(TOYWASM_USE_USER_SCHED)
         /* scheduler */
-- 
2.43.0


From 2e3946a92fb9438bf058211c034389370b4f0978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:21:16 +0000
Subject: [PATCH 05/43] fix: reject functions whose locals do not fit in 32-bit
 counters

The number of parameters and locals, and the number of cells they need,
were added up in 32 bits without checks.  A small module declaring
billions of locals made the loader or the interpreter write out of
bounds.
---
 lib/module.c | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/lib/module.c b/lib/module.c
index 3dcc019..fd3164c 100644
--- a/lib/module.c
+++ b/lib/module.c
@@ -1028,6 +1028,7 @@ read_locals(const uint8_t **pp, const uint8_t *ep, struct func *func,
         int ret;
         struct localchunk *chunks = NULL;
         uint32_t nlocals = 0;
+        uint32_t ncells = 0;
 
         ret = read_vec_count(&p, ep, &vec_count);
         if (ret != 0) {
@@ -1066,6 +1067,12 @@ read_locals(const uint8_t **pp, const uint8_t *ep, struct func *func,
                         ret = EINVAL;
                         goto fail;
                 }
+                uint32_t csz;
+                if (MUL_U32_OVERFLOW(count, valtype_cellsize(u8), &csz) ||
+                    ADD_U32_OVERFLOW(ncells, csz, &ncells)) {
+                        ret = E2BIG;
+                        goto fail;
+                }
                 if (count == 0) {
                         /*
                          * local count can be 0.
@@ -1143,11 +1150,22 @@ read_func(const uint8_t **pp, const uint8_t *ep, uint32_t idx,
         if (ret != 0) {
                 goto fail;
         }
+        uint32_t sz;
+        if (ADD_U32_OVERFLOW(ft->parameter.ntypes, lt->nlocals, &sz)) {
+                ret = E2BIG;
+                goto fail;
+        }
         ret = read_expr(&p, cep, &func->e, lt->nlocals, lt->localchunks,
                         &ft->parameter, &ft->result, ctx);
         if (ret != 0) {
                 goto fail;
         }
+        if (ADD_U32_OVERFLOW(resulttype_cellsize(&ft->parameter),
+                             localtype_cellsize(lt), &sz) ||
+            ADD_U32_OVERFLOW(sz, func->e.ei.maxcells, &sz)) {
+                ret = E2BIG;
+                goto fail;
+        }
         if (p != cep) {
                 xlog_trace("func has %zu trailing bytes", cep - p);
                 ret = EINVAL;
-- 
2.43.0


From 727f12808e57e517ed311909e1db6f0f243ad3a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:57:26 +0000
Subject: [PATCH 06/43] fix: reject trailing bytes in the data count section

The data count section reader skipped whatever followed the count, so a
malformed section was accepted.
---
 lib/module.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/module.c b/lib/module.c
index fd3164c..905fecf 100644
--- a/lib/module.c
+++ b/lib/module.c
@@ -1815,7 +1815,7 @@ read_datacount_section(const uint8_t **pp, const uint8_t *ep,
         ctx->has_datacount = true;
         ctx->ndatas_in_datacount = count;
         ret = 0;
-        *pp = ep;
+        *pp = p;
 fail:
         return ret;
 }
-- 
2.43.0


From 49b91d6df041c9dfb6cd6c0c6b2c170cd056beeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:57:48 +0000
Subject: [PATCH 07/43] fix: keep reading dylink.0 after an unknown subsection

An unimplemented subsection was meant to be skipped, but the reader left
the loop, and the module was rejected if any subsection followed.
---
 lib/module.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/lib/module.c b/lib/module.c
index 905fecf..10428ec 100644
--- a/lib/module.c
+++ b/lib/module.c
@@ -2105,7 +2105,6 @@ read_dylink_0_section(const uint8_t **pp, const uint8_t *ep,
                         xlog_trace("skipping unimplemented subsection (%u)",
                                    (unsigned int)type);
                         p = sep;
-                        break;
                 }
         } while (p < ep);
         ret = 0;
-- 
2.43.0


From 71f0f4fc8d08fca2ee8fce016f7e85b2b41a8196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:57:48 +0000
Subject: [PATCH 08/43] fix: handle allocation failure when reading dylink.0

When the dylink structure could not be allocated, the error path
dereferenced a null pointer.
---
 lib/module.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lib/module.c b/lib/module.c
index 10428ec..f1f4590 100644
--- a/lib/module.c
+++ b/lib/module.c
@@ -2111,9 +2111,11 @@ read_dylink_0_section(const uint8_t **pp, const uint8_t *ep,
         *pp = p;
         return 0;
 fail:
-        clear_dylink(mctx, m->dylink);
-        mem_free(mctx, m->dylink, sizeof(*m->dylink));
-        m->dylink = NULL;
+        if (m->dylink != NULL) {
+                clear_dylink(mctx, m->dylink);
+                mem_free(mctx, m->dylink, sizeof(*m->dylink));
+                m->dylink = NULL;
+        }
         return ret;
 }
 #endif /* defined(TOYWASM_ENABLE_DYLD) */
-- 
2.43.0


From 6b5ae7ea37993ae795ebb8fd2366dc5a4e3b2d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:01:09 +0000
Subject: [PATCH 09/43] fix: reject repeated subsections in the name section

The check for ascending subsection ids never updated the last seen id.
A repeated function name map left uninitialised entries in the table,
and looking up a name crashed.
---
 lib/name.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/name.c b/lib/name.c
index 4df6a38..177aadd 100644
--- a/lib/name.c
+++ b/lib/name.c
@@ -139,6 +139,7 @@ parse_name_section(struct nametable *table, const struct module *m)
                         ret = EINVAL;
                         goto fail;
                 }
+                prev = (int)name_type;
                 ret = read_leb_u32(&p, ep, &name_payload_len);
                 if (ret != 0) {
                         goto fail;
-- 
2.43.0


From b637bb8de7a337703b3c7e20305a53cf24d2fd75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:18:51 +0000
Subject: [PATCH 10/43] fix: module_writer: accept empty names and data
 segments

fwrite() of zero bytes returns 0, which was taken as an I/O error.
Modules with an empty name or an empty data segment could not be
written.
---
 lib/module_writer.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/module_writer.c b/lib/module_writer.c
index 9244cf7..3a41c6e 100644
--- a/lib/module_writer.c
+++ b/lib/module_writer.c
@@ -50,6 +50,9 @@ write_to_file(struct writer *w, const void *p, size_t sz)
         if (UINT32_MAX - w->size < sz) {
                 w->error = EOVERFLOW;
         }
+        if (sz == 0) {
+                return;
+        }
         size_t result = fwrite(p, sz, 1, w->fp);
         if (result != 1) {
                 w->error = ferror(w->fp);
-- 
2.43.0


From 3751f3d27e1fc0d484200a6d9ca3f175d0be963f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:18:51 +0000
Subject: [PATCH 11/43] fix: module_writer: accept empty element segments

An element segment without any elements has neither a function list nor
a list of expressions. Do not assume that the latter is there.
---
 lib/module_writer.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/module_writer.c b/lib/module_writer.c
index 3a41c6e..3be967d 100644
--- a/lib/module_writer.c
+++ b/lib/module_writer.c
@@ -283,7 +283,7 @@ write_element(struct writer *w, const struct element *e)
         /* suppress warnings */
         type = 0;
 #endif
-        if (e->funcs != NULL) {
+        if (e->init_exprs == NULL && e->type == TYPE_funcref) {
                 switch (e->mode) {
                 case ELEM_MODE_ACTIVE: /* 0, 2 */
                         if (e->table != 0 || e->type != TYPE_funcref) {
@@ -301,7 +301,7 @@ write_element(struct writer *w, const struct element *e)
                         break;
                 }
         } else {
-                assert(e->init_exprs != NULL);
+                assert(e->init_exprs != NULL || e->init_size == 0);
                 /* 4, 5, 6, 7 */
                 switch (e->mode) {
                 case ELEM_MODE_ACTIVE: /* 4, 6 */
-- 
2.43.0


From 3d4e3ea9721ef1adc53f769e3ac64d4420e906b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:18:51 +0000
Subject: [PATCH 12/43] fix: module_writer: add a missing break for element
 expressions

Writing an element segment of kinds 4 to 7 ended in assert(0).
---
 lib/module_writer.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/module_writer.c b/lib/module_writer.c
index 3be967d..0c14e76 100644
--- a/lib/module_writer.c
+++ b/lib/module_writer.c
@@ -381,6 +381,7 @@ write_element(struct writer *w, const struct element *e)
                 for (i = 0; i < e->init_size; i++) {
                         write_expr(w, &e->init_exprs[i]);
                 }
+                break;
         default:
                 assert(0);
         }
-- 
2.43.0


From 599dff3ecc34a19d4a855932852afbaf0af7619d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:18:51 +0000
Subject: [PATCH 13/43] fix: module_writer: write imported and exported tags

Imports and exports of tags ended in assert(0), or in a broken module
without assertions.
---
 lib/module_writer.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/lib/module_writer.c b/lib/module_writer.c
index 0c14e76..8fc0fce 100644
--- a/lib/module_writer.c
+++ b/lib/module_writer.c
@@ -220,6 +220,11 @@ write_importdesc(struct writer *w, const struct importdesc *desc)
         case 0x03:
                 write_globaltype(w, &desc->u.globaltype);
                 break;
+#if defined(TOYWASM_ENABLE_WASM_EXCEPTION_HANDLING)
+        case 0x04:
+                write_tagtype(w, &desc->u.tagtype);
+                break;
+#endif
         default:
                 assert(0);
         }
@@ -262,6 +267,11 @@ write_exportdesc(struct writer *w, const struct exportdesc *desc)
         case EXTERNTYPE_GLOBAL:
                 WRITE_U8(0x03);
                 break;
+#if defined(TOYWASM_ENABLE_WASM_EXCEPTION_HANDLING)
+        case EXTERNTYPE_TAG:
+                WRITE_U8(0x04);
+                break;
+#endif
         default:
                 assert(0);
         }
-- 
2.43.0


From 59e397348529ff235aa1260c9936d5ac259cd7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:20:49 +0000
Subject: [PATCH 14/43] fix: module_writer: skip empty local declarations

The loader leaves a placeholder without a type for each local declaration
with a zero count. Writing it gave a module that does not load.
---
 lib/module_writer.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/lib/module_writer.c b/lib/module_writer.c
index 8fc0fce..844d58b 100644
--- a/lib/module_writer.c
+++ b/lib/module_writer.c
@@ -400,10 +400,23 @@ write_element(struct writer *w, const struct element *e)
 static void
 write_locals(struct writer *w, const struct localtype *lt)
 {
-        WRITE_LEB_U32(lt->nlocalchunks);
+        /*
+         * Note: chunks with n == 0 are placeholders for empty declarations.
+         * they don't have a valid type.
+         */
+        uint32_t nchunks = 0;
         uint32_t i;
+        for (i = 0; i < lt->nlocalchunks; i++) {
+                if (lt->localchunks[i].n > 0) {
+                        nchunks++;
+                }
+        }
+        WRITE_LEB_U32(nchunks);
         for (i = 0; i < lt->nlocalchunks; i++) {
                 const struct localchunk *chunk = &lt->localchunks[i];
+                if (chunk->n == 0) {
+                        continue;
+                }
                 WRITE_LEB_U32(chunk->n);
                 WRITE_U8(chunk->type);
         }
-- 
2.43.0


From 92141c83f41733297a9404141593130f91e7119b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:33:25 +0000
Subject: [PATCH 15/43] fix: don't expand the descriptor table in fd_renumber

fd_renumber requires the target to be an open descriptor.  There is no
need to make room for it.  Worse, the expansion wraps around for
0xffffffff and overwrites host memory, and for other large numbers it
allocates a table of that size only to report EBADF.
---
 libwasi/wasi_abi_fd.c | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/libwasi/wasi_abi_fd.c b/libwasi/wasi_abi_fd.c
index fa59864..b8b4c03 100644
--- a/libwasi/wasi_abi_fd.c
+++ b/libwasi/wasi_abi_fd.c
@@ -890,12 +890,6 @@ wasi_fd_renumber(struct exec_context *ctx, struct host_instance *hi,
 
         toywasm_mutex_lock(&wasi->lock);
 
-        /* ensure the table size is big enough */
-        ret = wasi_table_expand(wasi, tblidx, wasifd_to);
-        if (ret != 0) {
-                goto fail_locked;
-        }
-
         /* Note: we check "to" first because it can involve a restart */
 
         /*
-- 
2.43.0


From ed2e6b8af074281ad55ddefcd23e6d12718f49e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:33:25 +0000
Subject: [PATCH 16/43] fix: make fd_renumber to the same descriptor a no-op

It closed the descriptor and reported success.  With assertions enabled
it aborted.
---
 libwasi/wasi_abi_fd.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/libwasi/wasi_abi_fd.c b/libwasi/wasi_abi_fd.c
index b8b4c03..5f8737b 100644
--- a/libwasi/wasi_abi_fd.c
+++ b/libwasi/wasi_abi_fd.c
@@ -890,6 +890,13 @@ wasi_fd_renumber(struct exec_context *ctx, struct host_instance *hi,
 
         toywasm_mutex_lock(&wasi->lock);
 
+        /* moving a descriptor onto itself is a no-op */
+        if (wasifd_from == wasifd_to) {
+                ret = wasi_table_lookup_locked(wasi, tblidx, wasifd_from,
+                                               &fdinfo_from);
+                goto fail_locked;
+        }
+
         /* Note: we check "to" first because it can involve a restart */
 
         /*
-- 
2.43.0


From 49c425b9460b001fc9eba43e515d55cf0c36b7e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:33:25 +0000
Subject: [PATCH 17/43] fix: initialize fdinfo in fd_advise, fd_allocate and
 set_size

When the descriptor is not open, the error path releases fdinfo, which
was left uninitialized when compiled with clang.
---
 libwasi/wasi_abi_fd.c | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/libwasi/wasi_abi_fd.c b/libwasi/wasi_abi_fd.c
index 5f8737b..c74188f 100644
--- a/libwasi/wasi_abi_fd.c
+++ b/libwasi/wasi_abi_fd.c
@@ -29,11 +29,8 @@ wasi_fd_advise(struct exec_context *ctx, struct host_instance *hi,
         uint64_t len = HOST_FUNC_PARAM(ft, params, 2, i64);
         uint32_t adv = HOST_FUNC_PARAM(ft, params, 3, i32);
 #endif
-        struct wasi_fdinfo *fdinfo;
+        struct wasi_fdinfo *fdinfo = NULL;
         int ret;
-#if defined(__GNUC__) && !defined(__clang__)
-        fdinfo = NULL;
-#endif
         ret = wasi_userfd_lookup(wasi, wasifd, &fdinfo);
         if (ret != 0) {
                 goto fail;
@@ -58,11 +55,8 @@ wasi_fd_allocate(struct exec_context *ctx, struct host_instance *hi,
         uint32_t wasifd = HOST_FUNC_PARAM(ft, params, 0, i32);
         uint64_t offset = HOST_FUNC_PARAM(ft, params, 1, i64);
         uint64_t len = HOST_FUNC_PARAM(ft, params, 2, i64);
-        struct wasi_fdinfo *fdinfo;
+        struct wasi_fdinfo *fdinfo = NULL;
         int ret;
-#if defined(__GNUC__) && !defined(__clang__)
-        fdinfo = NULL;
-#endif
         ret = wasi_userfd_lookup(wasi, wasifd, &fdinfo);
         if (ret != 0) {
                 goto fail;
@@ -85,11 +79,8 @@ wasi_fd_filestat_set_size(struct exec_context *ctx, struct host_instance *hi,
         HOST_FUNC_CONVERT_PARAMS(ft, params);
         uint32_t wasifd = HOST_FUNC_PARAM(ft, params, 0, i32);
         uint64_t size = HOST_FUNC_PARAM(ft, params, 1, i64);
-        struct wasi_fdinfo *fdinfo;
+        struct wasi_fdinfo *fdinfo = NULL;
         int ret;
-#if defined(__GNUC__) && !defined(__clang__)
-        fdinfo = NULL;
-#endif
         ret = wasi_userfd_lookup(wasi, wasifd, &fdinfo);
         if (ret != 0) {
                 goto fail;
-- 
2.43.0


From f1cd3d7c41e6792eeeb83d5709cc08d739833a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:33:37 +0000
Subject: [PATCH 18/43] fix: initialize path_info in path_create_directory

When the path can't be converted, the error path releases members of
path_info which were never set.
---
 libwasi/wasi_abi_path.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libwasi/wasi_abi_path.c b/libwasi/wasi_abi_path.c
index ef4b558..42a6928 100644
--- a/libwasi/wasi_abi_path.c
+++ b/libwasi/wasi_abi_path.c
@@ -138,7 +138,7 @@ wasi_path_create_directory(struct exec_context *ctx, struct host_instance *hi,
         uint32_t pathlen = HOST_FUNC_PARAM(ft, params, 2, i32);
         int host_ret;
         int ret = 0;
-        struct path_info pi;
+        struct path_info pi = PATH_INITIALIZER;
         host_ret = wasi_copyin_and_convert_path(ctx, wasi, dirwasifd, path,
                                                 pathlen, &pi, &ret);
         if (host_ret != 0 || ret != 0) {
-- 
2.43.0


From af6400d3a2a8465056156f83820686410958338f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:34:18 +0000
Subject: [PATCH 19/43] fix: close the host descriptor of a directory only once

After fdopendir, the descriptor belongs to the directory stream and
closedir closes it.  Closing it separately beforehand means that closedir
closes whatever another thread happened to open in the meantime.
---
 libwasi/wasi_host_fdop.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/libwasi/wasi_host_fdop.c b/libwasi/wasi_host_fdop.c
index 5ddfad0..63ce266 100644
--- a/libwasi/wasi_host_fdop.c
+++ b/libwasi/wasi_host_fdop.c
@@ -312,10 +312,13 @@ wasi_host_fd_close(struct wasi_fdinfo *fdinfo)
         struct wasi_fdinfo_host *fdinfo_host = wasi_fdinfo_to_host(fdinfo);
         int ret = 0;
         int hostfd = fdinfo_host->hostfd;
+        if (fdinfo_host->dir != NULL) {
+                /* Note: closedir closes the underlying descriptor as well */
+                ret = wasi_host_dir_close(fdinfo);
 #if defined(__wasi__) /* wasi has no dup */
-        if (hostfd != -1 && hostfd >= 3) {
+        } else if (hostfd != -1 && hostfd >= 3) {
 #else
-        if (hostfd != -1) {
+        } else if (hostfd != -1) {
 #endif
                 ret = close(hostfd);
                 ret = handle_errno(ret);
@@ -324,9 +327,6 @@ wasi_host_fd_close(struct wasi_fdinfo *fdinfo)
                                    hostfd, ret);
                 }
         }
-        if (fdinfo_host->dir != NULL) {
-                wasi_host_dir_close(fdinfo);
-        }
         fdinfo_host->hostfd = -1;
         fdinfo_host->dir = NULL;
         return ret;
-- 
2.43.0


From 3ec78d97537fad5b452dfbaab40d2559c77acfcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:45:06 +0000
Subject: [PATCH 20/43] fix: reject embedded NULs in symlink targets

path_symlink truncated the target at the first NUL and created the link.
Refuse it with EINVAL, as is done for the other paths.
---
 libwasi/wasi_abi_path.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libwasi/wasi_abi_path.c b/libwasi/wasi_abi_path.c
index 42a6928..e659311 100644
--- a/libwasi/wasi_abi_path.c
+++ b/libwasi/wasi_abi_path.c
@@ -213,6 +213,11 @@ wasi_path_symlink(struct exec_context *ctx, struct host_instance *hi,
                 goto fail;
         }
         target_buf[targetlen] = 0;
+        if (strlen(target_buf) != targetlen) {
+                /* embedded NULs */
+                ret = EINVAL;
+                goto fail;
+        }
         host_ret = wasi_copyin_and_convert_path(ctx, wasi, dirwasifd, path,
                                                 pathlen, &pi, &ret);
         if (host_ret != 0 || ret != 0) {
-- 
2.43.0


From ac73e4a61bb71cd058d596c523de1d4c15f047cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:45:22 +0000
Subject: [PATCH 21/43] fix: follow symlinks in path_link

path_link is only supported with the symlink_follow lookup flag, but
link(2) doesn't follow symlinks on Linux and the new name ended up as
another name of the symlink itself. Use linkat with AT_SYMLINK_FOLLOW.
---
 libwasi/wasi_host_pathop.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libwasi/wasi_host_pathop.c b/libwasi/wasi_host_pathop.c
index f587e17..e3b3da5 100644
--- a/libwasi/wasi_host_pathop.c
+++ b/libwasi/wasi_host_pathop.c
@@ -190,7 +190,13 @@ wasi_host_path_readlink(const struct path_info *pi, char *buf, size_t buflen,
 int
 wasi_host_path_link(const struct path_info *pi1, const struct path_info *pi2)
 {
+#if defined(AT_FDCWD) && defined(AT_SYMLINK_FOLLOW)
+        /* link(2) doesn't follow symlinks on some platforms including Linux */
+        int ret = linkat(AT_FDCWD, pi1->hostpath, AT_FDCWD, pi2->hostpath,
+                         AT_SYMLINK_FOLLOW);
+#else
         int ret = link(pi1->hostpath, pi2->hostpath);
+#endif
         return handle_errno(ret);
 }
 
-- 
2.43.0


From f5cd8fda8e3250c86fcb2c96669b85724d24519b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:49:46 +0000
Subject: [PATCH 22/43] fix: initialize the address length for accept

accept(2) reads the length. An uninitialized one makes it fail with
EINVAL when it happens to be negative.
---
 libwasi/wasi_host_sockop.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libwasi/wasi_host_sockop.c b/libwasi/wasi_host_sockop.c
index 26d3abd..10cef29 100644
--- a/libwasi/wasi_host_sockop.c
+++ b/libwasi/wasi_host_sockop.c
@@ -43,7 +43,7 @@ wasi_host_sock_accept(struct wasi_fdinfo *fdinfo, uint16_t fdflags,
 #if !defined(TOYWASM_OLD_WASI_LIBC)
         struct sockaddr_storage ss;
         struct sockaddr *sa = (void *)&ss;
-        socklen_t salen;
+        socklen_t salen = sizeof(ss);
 #endif
 #if defined(TOYWASM_OLD_WASI_LIBC)
         errno = ENOSYS;
-- 
2.43.0


From 7f52b5d5e4e5e324d042bff175a9908b03aac41f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:49:46 +0000
Subject: [PATCH 23/43] fix: don't report EINTR from random_get after retrying

The buffer was filled by the retry but the call still failed with the
EINTR of the first attempt.
---
 libwasi/wasi_abi_random.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libwasi/wasi_abi_random.c b/libwasi/wasi_abi_random.c
index 0e7861a..f87ec7a 100644
--- a/libwasi/wasi_abi_random.c
+++ b/libwasi/wasi_abi_random.c
@@ -47,6 +47,7 @@ wasi_random_get(struct exec_context *ctx, struct host_instance *hi,
                         ret = errno;
                         assert(ret > 0);
                         if (ret == EINTR) {
+                                ret = 0;
                                 continue;
                         }
                         break;
-- 
2.43.0


From 640ab35b89c7536a57b571aa8e95300ce306b878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:02:14 +0000
Subject: [PATCH 24/43] fix: accept a monotonic timeout that is already in the
 past

convert_timespec compared the wrong way round, so that converting a point
in time before now failed with EOVERFLOW. A poll_oneoff with a clock
subscription that has already elapsed reported an error instead of the
event.
---
 lib/timeutil.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/timeutil.c b/lib/timeutil.c
index cea79cf..0d22a67 100644
--- a/lib/timeutil.c
+++ b/lib/timeutil.c
@@ -228,7 +228,7 @@ convert_timespec(clockid_t from_id, clockid_t to_id,
         } else {
                 struct timespec t;
                 timespec_sub(&from_now, from_ts, &t);
-                if (timespec_cmp(&to_now, &t) > 0) {
+                if (timespec_cmp(&to_now, &t) < 0) {
                         ret = EOVERFLOW;
                         goto fail;
                 }
-- 
2.43.0


From 9eec343a925dc17dbf8b348eee6510ec32ac5e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:07:58 +0000
Subject: [PATCH 25/43] fix: don't abort when poll_oneoff buffers overlap

The subscriptions were read from the guest memory again after events had
been written to it. With overlapping buffers, or with another thread
modifying the subscriptions, the assertions on the event type and on the
number of events could fail. Work on a copy of the subscriptions instead.
---
 libwasi/wasi_abi_poll.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/libwasi/wasi_abi_poll.c b/libwasi/wasi_abi_poll.c
index 4b5c147..5d499de 100644
--- a/libwasi/wasi_abi_poll.c
+++ b/libwasi/wasi_abi_poll.c
@@ -26,7 +26,8 @@ wasi_poll_oneoff(struct exec_context *ctx, struct host_instance *hi,
         uint32_t nsubscriptions = HOST_FUNC_PARAM(ft, params, 2, i32);
         uint32_t retp = HOST_FUNC_PARAM(ft, params, 3, i32);
         struct pollfd *pollfds = NULL;
-        const struct wasi_subscription *subscriptions;
+        const void *guest_subscriptions;
+        struct wasi_subscription *subscriptions = NULL;
         struct wasi_fdinfo **fdinfos = NULL;
         uint32_t nfdinfos = 0;
         struct wasi_event *events;
@@ -62,7 +63,7 @@ retry:
         if (host_ret != 0) {
                 goto fail;
         }
-        subscriptions = p;
+        guest_subscriptions = p;
         bool moved = false;
         host_ret = host_func_check_align(ctx, out, WASI_EVENT_ALIGN);
         if (host_ret != 0) {
@@ -79,10 +80,17 @@ retry:
         events = p;
         pollfds = calloc(nsubscriptions, sizeof(*pollfds));
         fdinfos = calloc(nsubscriptions, sizeof(*fdinfos));
-        if (pollfds == NULL || fdinfos == NULL) {
+        /*
+         * take a copy because the app can modify the subscriptions while
+         * we are working on them. (eg. from another thread, or just by
+         * using a memory region overlapping with the events.)
+         */
+        subscriptions = malloc(insize);
+        if (pollfds == NULL || fdinfos == NULL || subscriptions == NULL) {
                 ret = ENOMEM;
                 goto fail;
         }
+        memcpy(subscriptions, guest_subscriptions, insize);
         uint32_t i;
         int timeout_ms = -1;
         uint64_t timeout_ns;
@@ -246,6 +254,7 @@ fail:
                                      wasi_convert_errno(ret));
         }
         free(pollfds);
+        free(subscriptions);
         if (!IS_RESTARTABLE(host_ret)) {
                 /*
                  * avoid leaving a stale restart state.
-- 
2.43.0


From 194a716b43456de80502abc592212f6a9ad19658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:10:19 +0000
Subject: [PATCH 26/43] fix: avoid integer overflow when copying in a very long
 path

A path length of UINT32_MAX made the allocation size wrap to 0, while the
whole path was copied to the buffer. It's possible only for a linear memory
with the maximum size.
---
 libwasi/wasi_abi_path.c  | 2 +-
 libwasi/wasi_path_subr.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/libwasi/wasi_abi_path.c b/libwasi/wasi_abi_path.c
index e659311..abff321 100644
--- a/libwasi/wasi_abi_path.c
+++ b/libwasi/wasi_abi_path.c
@@ -202,7 +202,7 @@ wasi_path_symlink(struct exec_context *ctx, struct host_instance *hi,
         struct path_info pi = PATH_INITIALIZER;
         int host_ret = 0;
         int ret = 0;
-        target_buf = malloc(targetlen + 1);
+        target_buf = malloc((size_t)targetlen + 1);
         if (target_buf == NULL) {
                 ret = ENOMEM;
                 goto fail;
diff --git a/libwasi/wasi_path_subr.c b/libwasi/wasi_path_subr.c
index 9bab4b2..9838970 100644
--- a/libwasi/wasi_path_subr.c
+++ b/libwasi/wasi_path_subr.c
@@ -39,7 +39,7 @@ wasi_copyin_and_convert_path(struct exec_context *ctx,
         struct wasi_fdinfo *dirfdinfo = NULL;
         int host_ret = 0;
         int ret = 0;
-        wasmpath = malloc(pathlen + 1);
+        wasmpath = malloc((size_t)pathlen + 1);
         if (wasmpath == NULL) {
                 ret = ENOMEM;
                 goto fail;
-- 
2.43.0


From 722a3927b07cfc66a8b998529fd83b81a7098a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:13:02 +0000
Subject: [PATCH 27/43] fix: avoid integer overflow for a very long name in
 load_object

A name length of UINT32_MAX made the allocation size wrap to 0, while the
whole name was copied to the buffer.
---
 libdyld/dyld_dlfcn.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libdyld/dyld_dlfcn.c b/libdyld/dyld_dlfcn.c
index a1ffb62..bf712ae 100644
--- a/libdyld/dyld_dlfcn.c
+++ b/libdyld/dyld_dlfcn.c
@@ -89,7 +89,7 @@ dyld_dlfcn_load_object(struct exec_context *ctx, struct host_instance *hi,
         struct dyld_dynamic_object *dobj = &VEC_ELEM(d->dynobjs, idx);
         memset(dobj, 0, sizeof(*dobj));
 
-        char *name_data = mem_alloc(d->mctx, namelen + 1);
+        char *name_data = mem_alloc(d->mctx, (size_t)namelen + 1);
         if (name_data == NULL) {
                 xlog_error("%s: malloc failed", __func__);
                 user_ret = 1;
@@ -105,7 +105,7 @@ dyld_dlfcn_load_object(struct exec_context *ctx, struct host_instance *hi,
         if (ret != 0) {
                 xlog_error("%s: dyld_dynamic_load_object_by_name failed",
                            __func__);
-                mem_free(d->mctx, name_data, namelen + 1);
+                mem_free(d->mctx, name_data, (size_t)namelen + 1);
                 user_ret = 1;
                 goto fail;
         }
-- 
2.43.0


From a913b2e202ba7ff7fa612f567f3d6da9362e1424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:52:35 +0000
Subject: [PATCH 28/43] fix: don't assume the suspending thread outlives the
 parked ones

After resume_threads, the thread which suspended others can exit before
parked threads wake up. In that case, the assertions in parked() failed
because the number of runners was already decremented.
---
 lib/suspend.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/suspend.c b/lib/suspend.c
index 8eb4d4a..ab660d3 100644
--- a/lib/suspend.c
+++ b/lib/suspend.c
@@ -23,10 +23,13 @@ parked(struct cluster *c) REQUIRES(c->lock)
         }
         xlog_trace("%s: parked %" PRIu32 " / %" PRIu32, __func__, c->nparked,
                    c->nrunners);
+        /*
+         * Note: the thread which suspended us might have already exited.
+         * (cluster_remove_thread)
+         */
         assert(c->nparked > 0);
-        assert(c->nrunners > c->nparked);
+        assert(c->nrunners >= c->nparked);
         c->nparked--;
-        assert(c->nrunners != c->nparked + 1);
         assert(c->suspend_state == SUSPEND_STATE_RESUMING);
         if (c->nparked == 0) {
                 c->suspend_state = SUSPEND_STATE_NONE;
-- 
2.43.0


From b087e9b66b5caa9879c69dcc0e7f638636a45e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:54:02 +0000
Subject: [PATCH 29/43] fix: resume other threads before retrying a racing
 memory.grow

When two threads grow the same shared memory concurrently, the one which
finds that the size has been changed meanwhile retried with the other
threads still suspended. They were never resumed if the retry failed,
and the second suspend_threads call parked the thread itself forever
otherwise.
---
 lib/exec_insn_subr.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/exec_insn_subr.c b/lib/exec_insn_subr.c
index 68bb6e6..47b8e3b 100644
--- a/lib/exec_insn_subr.c
+++ b/lib/exec_insn_subr.c
@@ -497,6 +497,7 @@ retry:
                         suspend_threads(c);
                         memory_lock(mi);
                         if (mi->size_in_pages != orig_size) {
+                                resume_threads(c);
                                 goto retry;
                         }
                         assert((mi->allocated % (1 << page_shift)) == 0);
-- 
2.43.0


From 8282b121f7d66b58568d1fb605b6466c493d27e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:54:45 +0000
Subject: [PATCH 30/43] fix: publish the new memory size before resuming
 threads

memory.grow on a shared memory resumed other threads after updating the
allocation but before updating the size. In the meantime, they could
access the new pages while memory.size still returned the old size.
In debug builds, an assertion in memory_instance_getptr2 failed.
---
 lib/exec_insn_subr.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/exec_insn_subr.c b/lib/exec_insn_subr.c
index 47b8e3b..58574fd 100644
--- a/lib/exec_insn_subr.c
+++ b/lib/exec_insn_subr.c
@@ -519,6 +519,12 @@ retry:
                                 mi->data = np;
                                 assert(new_size_in_bytes > mi->allocated);
                                 mi->allocated = new_size_in_bytes;
+                                /*
+                                 * Note: update the size before resuming
+                                 * other threads so that they never see
+                                 * the new allocation with the old size.
+                                 */
+                                mi->size_in_pages = new_size;
                         }
                 }
 #if defined(TOYWASM_ENABLE_WASM_THREADS)
-- 
2.43.0


From b9dc68261f815e335269dc0de668aea5209e2adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:51:20 +0000
Subject: [PATCH 31/43] fix: check bounds of preallocated shared memories
 against their size

With TOYWASM_PREALLOC_SHARED_MEMORY=ON, the bounds check compared with the
preallocated size.  Accesses beyond the current size of a shared memory
succeeded (or hit an assertion) instead of trapping.
---
 lib/exec_insn_subr.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/lib/exec_insn_subr.c b/lib/exec_insn_subr.c
index 58574fd..65c26b3 100644
--- a/lib/exec_insn_subr.c
+++ b/lib/exec_insn_subr.c
@@ -44,9 +44,11 @@ int
 memory_instance_getptr2(struct meminst *meminst, uint32_t ptr, uint32_t offset,
                         uint32_t size, void **pp, bool *movedp)
 {
+#if !defined(TOYWASM_PREALLOC_SHARED_MEMORY)
         assert(meminst->allocated <=
                (uint64_t)meminst->size_in_pages
                        << memtype_page_shift(meminst->type));
+#endif
         uint32_t ea;
         if (ADD_U32_OVERFLOW(ptr, offset, &ea)) {
                 /*
@@ -72,6 +74,17 @@ memory_instance_getptr2(struct meminst *meminst, uint32_t ptr, uint32_t offset,
         if (ADD_U32_OVERFLOW(ea, size - 1, &last_byte)) {
                 goto do_trap;
         }
+#if defined(TOYWASM_PREALLOC_SHARED_MEMORY)
+        /*
+         * Note: a preallocated shared memory usually has more than
+         * size_in_pages allocated.
+         */
+        if ((meminst->type->flags & MEMTYPE_FLAG_SHARED) != 0 &&
+            last_byte >> memtype_page_shift(meminst->type) >=
+                    meminst->size_in_pages) {
+                goto do_trap;
+        }
+#endif
         if (__predict_false(last_byte >= meminst->allocated)) {
                 const uint32_t page_shift = memtype_page_shift(meminst->type);
                 if (last_byte >> page_shift >= meminst->size_in_pages) {
-- 
2.43.0


From 344d3c965f03dfbb25c502459a157d3fd62e02c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:08:40 +0000
Subject: [PATCH 32/43] fix: do not free the function reference bitmap twice on
 allocation failure

---
 lib/bitmap.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/bitmap.c b/lib/bitmap.c
index 0c788ad..fcf98db 100644
--- a/lib/bitmap.c
+++ b/lib/bitmap.c
@@ -23,6 +23,7 @@ void
 bitmap_free(struct mem_context *mctx, struct bitmap *b, uint32_t n)
 {
         mem_free(mctx, b->data, HOWMANY(n, 32) * sizeof(uint32_t));
+        b->data = NULL;
 }
 
 void
-- 
2.43.0


From b3c1d8fe6e0f4e32f105ea553125d992434c1593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:19:15 +0000
Subject: [PATCH 33/43] fix: do not allocate memory to skip br_table

---
 lib/insn_impl_control.h | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/lib/insn_impl_control.h b/lib/insn_impl_control.h
index 3cc66bf..c450854 100644
--- a/lib/insn_impl_control.h
+++ b/lib/insn_impl_control.h
@@ -372,14 +372,16 @@ INSN_IMPL(br_table)
                  */
                 INSN_SUCCESS_RETURN;
         }
-        struct mem_context *mctx;
-        struct mem_context mctx0;
-        if (VALIDATING) {
-                mctx = VCTX->mctx;
-        } else {
-                mctx = &mctx0;
-                mem_context_init(mctx);
+        if (!VALIDATING) {
+                /* just skip the labels. this should not fail. */
+                vec_count = read_leb_u32_nocheck(&p);
+                do {
+                        read_leb_u32_nocheck(&p);
+                } while (vec_count-- > 0);
+                SAVE_PC;
+                INSN_SUCCESS;
         }
+        struct mem_context *mctx = VCTX->mctx;
         ret = read_vec_u32(mctx, &p, ep, &vec_count, &table);
         CHECK_RET(ret);
         READ_LEB_U32(defaultidx);
@@ -416,9 +418,6 @@ INSN_IMPL(br_table)
                 mark_unreachable(vctx);
         }
         mem_free(mctx, table, vec_count * sizeof(uint32_t));
-        if (!VALIDATING) {
-                mem_context_clear(mctx);
-        }
         SAVE_PC;
         INSN_SUCCESS;
 fail:
-- 
2.43.0


From 8e43574b99e4f17981f1fcc0955caf3dc6078e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:20:12 +0000
Subject: [PATCH 34/43] fix: close the file when path_open or sock_accept
 cannot add it to the table

---
 libwasi/wasi_abi_path.c | 1 +
 libwasi/wasi_abi_sock.c | 1 +
 2 files changed, 2 insertions(+)

diff --git a/libwasi/wasi_abi_path.c b/libwasi/wasi_abi_path.c
index abff321..3ef12ef 100644
--- a/libwasi/wasi_abi_path.c
+++ b/libwasi/wasi_abi_path.c
@@ -69,6 +69,7 @@ wasi_path_open(struct exec_context *ctx, struct host_instance *hi,
         uint32_t wasifd;
         ret = wasi_table_fdinfo_add(wasi, WASI_TABLE_FILES, fdinfo, &wasifd);
         if (ret != 0) {
+                wasi_fdinfo_close(fdinfo);
                 goto fail;
         }
         fdinfo = NULL;
diff --git a/libwasi/wasi_abi_sock.c b/libwasi/wasi_abi_sock.c
index f5f48eb..1b0f95e 100644
--- a/libwasi/wasi_abi_sock.c
+++ b/libwasi/wasi_abi_sock.c
@@ -67,6 +67,7 @@ retry:
         ret = wasi_table_fdinfo_add(wasi, WASI_TABLE_FILES, fdinfo_child,
                                     &wasichildfd);
         if (ret != 0) {
+                wasi_fdinfo_close(fdinfo_child);
                 goto fail;
         }
         fdinfo_child = NULL;
-- 
2.43.0


From f739c75ed8a8263776ba236b35c8de631ae75719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:46:39 +0000
Subject: [PATCH 35/43] fix: allow loading a non-PIE main module without base
 imports

---
 libdyld/dyld.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/libdyld/dyld.c b/libdyld/dyld.c
index 28546de..74c92ae 100644
--- a/libdyld/dyld.c
+++ b/libdyld/dyld.c
@@ -914,7 +914,6 @@ dyld_load_object_from_file(struct dyld *d, const struct name *name,
                    CSTR(name), obj->memory_base, obj->table_base);
         global_set_i32(&obj->memory_base_global, obj->memory_base);
         global_set_i32(&obj->table_base_global, obj->table_base);
-        assert(d->shared_import_obj != NULL);
         obj->local_import_obj->next = d->shared_import_obj;
         struct report report;
         report_init(&report);
-- 
2.43.0


From e897a96ba6a914bd05cd3cb10bad2cdbf8f2a186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:47:52 +0000
Subject: [PATCH 36/43] fix: do not assume that only dyld grows the memory and
 table

The regions for modules were calculated from what dyld itself had allocated
so far. When a module had grown the memory or the table before a library was
loaded with load_object, the region overlapped what the module uses, or an
assertion failed. Also, the sizes and alignments in the dylink.0 section can
be anything, so the calculation should not wrap around.
---
 libdyld/dyld.c | 88 ++++++++++++++++++++++++++++++++------------------
 1 file changed, 56 insertions(+), 32 deletions(-)

diff --git a/libdyld/dyld.c b/libdyld/dyld.c
index 74c92ae..a643458 100644
--- a/libdyld/dyld.c
+++ b/libdyld/dyld.c
@@ -146,20 +146,6 @@ static const struct globaltype globaltype_i32_const = {
         .mut = GLOBAL_CONST,
 };
 
-static uint32_t
-align_up(uint32_t v, uint32_t align)
-{
-        uint32_t mask = align - 1;
-        return (v + mask) & ~mask;
-}
-
-static uint32_t
-align_up_log(uint32_t v, uint32_t palign)
-{
-        uint32_t align = 1 << palign;
-        return align_up(v, align);
-}
-
 static uint32_t
 howmany(uint32_t a, uint32_t b)
 {
@@ -518,24 +504,55 @@ import_memory_type(const struct module *m)
         return NULL;
 }
 
+/*
+ * calculate a region of the given size, which starts at or after the base.
+ *
+ * Note: align and sz can come from untrusted modules.
+ */
+static int
+dyld_place_region(uint64_t base, uint32_t align, uint32_t sz,
+                  uint32_t *startp, uint32_t *endp)
+{
+        if (align >= 32) {
+                return EINVAL;
+        }
+        uint64_t mask = ((uint64_t)1 << align) - 1;
+        uint64_t start = (base + mask) & ~mask;
+        uint64_t end = start + sz;
+        if (end > UINT32_MAX) {
+                return ENOMEM;
+        }
+        *startp = (uint32_t)start;
+        *endp = (uint32_t)end;
+        return 0;
+}
+
 static int
 dyld_allocate_memory(struct dyld *d, uint32_t align, uint32_t sz,
                      uint32_t *resultp)
 {
-        uint32_t oldbase = d->memory_base;
-        uint32_t aligned = align_up_log(oldbase, align);
-        uint32_t newbase = aligned + sz;
-        assert(newbase >= oldbase);
-        const uint32_t page_size = 1 << memtype_page_shift(d->meminst->type);
-        uint32_t oldnpg = howmany(oldbase, page_size);
-        uint32_t newnpg = howmany(newbase, page_size);
-        assert(newnpg >= oldnpg);
+        const uint32_t page_shift = memtype_page_shift(d->meminst->type);
+        const uint32_t page_size = 1 << page_shift;
+        uint32_t oldnpg = d->meminst->size_in_pages;
+        uint64_t oldbase = d->memory_base;
+        uint32_t aligned;
+        uint32_t newbase;
+        if (oldnpg > (oldbase + page_size - 1) >> page_shift) {
+                /* modules have grown the memory. leave it to them. */
+                oldbase = (uint64_t)oldnpg << page_shift;
+        }
+        int ret = dyld_place_region(oldbase, align, sz, &aligned, &newbase);
+        if (ret != 0) {
+                return ret;
+        }
+        uint32_t newnpg =
+                (uint32_t)(((uint64_t)newbase + page_size - 1) >> page_shift);
         if (newnpg > oldnpg) {
-                uint32_t ret = memory_grow(d->meminst, newnpg - oldnpg);
-                if (ret == (uint32_t)-1) {
+                uint32_t npg = memory_grow(d->meminst, newnpg - oldnpg);
+                if (npg == (uint32_t)-1) {
                         return ENOMEM;
                 }
-                assert(ret == oldnpg);
+                assert(npg == oldnpg);
         }
         d->memory_base = newbase;
         *resultp = aligned;
@@ -546,17 +563,24 @@ static int
 dyld_allocate_table(struct dyld *d, uint32_t align, uint32_t sz,
                     uint32_t *resultp)
 {
-        uint32_t oldbase = d->table_base;
-        uint32_t aligned = align_up_log(oldbase, align);
-        uint32_t newbase = aligned + sz;
-        assert(newbase >= oldbase);
+        /*
+         * Note: this can be larger than d->table_base if modules have
+         * grown the table.
+         */
+        uint32_t oldbase = d->tableinst->size;
+        uint32_t aligned;
+        uint32_t newbase;
+        int ret = dyld_place_region(oldbase, align, sz, &aligned, &newbase);
+        if (ret != 0) {
+                return ret;
+        }
         if (newbase > oldbase) {
-                uint32_t ret =
+                uint32_t n =
                         table_grow(d->tableinst, &val_null, newbase - oldbase);
-                if (ret == (uint32_t)-1) {
+                if (n == (uint32_t)-1) {
                         return ENOMEM;
                 }
-                assert(ret == oldbase);
+                assert(n == oldbase);
         }
         d->table_base = newbase;
         *resultp = aligned;
-- 
2.43.0


From 2cc9b918996a50cf25477fc04bd2226cedcf25ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:48:37 +0000
Subject: [PATCH 37/43] fix: keep the names of dynamically loaded objects valid

load_object kept the names of the objects in a vector, which can be moved when
another object is loaded, or when an init function of the object loads
another object itself. Also, it freed the name on a failure even if the object
was left in the list of the loaded objects.
---
 libdyld/dyld.c       |  9 ++++++---
 libdyld/dyld.h       |  2 +-
 libdyld/dyld_dlfcn.c | 36 +++++++++++++++++++++++++++++-------
 3 files changed, 36 insertions(+), 11 deletions(-)

diff --git a/libdyld/dyld.c b/libdyld/dyld.c
index a643458..bdf0850 100644
--- a/libdyld/dyld.c
+++ b/libdyld/dyld.c
@@ -1528,10 +1528,13 @@ dyld_clear(struct dyld *d)
                 import_object_destroy(mctx, imp);
         }
 #if defined(TOYWASM_ENABLE_DYLD_DLFCN)
-        struct dyld_dynamic_object *it;
+        struct dyld_dynamic_object **it;
         VEC_FOREACH(it, d->dynobjs) {
-                size_t sz = strlen(it->name.data) + 1;
-                mem_free(mctx, (void *)it->name.data, sz); /* discard const */
+                struct dyld_dynamic_object *dobj = *it;
+                size_t sz = (size_t)dobj->name.nbytes + 1;
+                mem_free(mctx, (void *)dobj->name.data,
+                         sz); /* discard const */
+                mem_free(mctx, dobj, sizeof(*dobj));
         }
         VEC_FREE(mctx, d->dynobjs);
 #endif
diff --git a/libdyld/dyld.h b/libdyld/dyld.h
index 53cce31..64c9574 100644
--- a/libdyld/dyld.h
+++ b/libdyld/dyld.h
@@ -78,7 +78,7 @@ struct dyld {
         struct dyld_options opts;
 
 #if defined(TOYWASM_ENABLE_DYLD_DLFCN)
-        VEC(, struct dyld_dynamic_object) dynobjs;
+        VEC(, struct dyld_dynamic_object *) dynobjs;
 #endif
 
         struct mem_context *mctx;
diff --git a/libdyld/dyld_dlfcn.c b/libdyld/dyld_dlfcn.c
index bf712ae..5f55068 100644
--- a/libdyld/dyld_dlfcn.c
+++ b/libdyld/dyld_dlfcn.c
@@ -30,6 +30,7 @@ dyld_dynamic_load_object_by_name(struct dyld *d, const struct name *name,
         if (ret != 0) {
                 goto fail;
         }
+        *objp = obj;
         ret = dyld_resolve_dependencies(d, obj, bindnow);
         if (ret != 0) {
                 goto fail;
@@ -38,8 +39,6 @@ dyld_dynamic_load_object_by_name(struct dyld *d, const struct name *name,
         if (ret != 0) {
                 goto fail;
         }
-        *objp = obj;
-        return 0;
 fail:
         if (obj != NULL) {
                 /* TODO: implement cleanup */
@@ -86,12 +85,17 @@ dyld_dlfcn_load_object(struct exec_context *ctx, struct host_instance *hi,
                 user_ret = 1;
                 goto fail;
         }
-        struct dyld_dynamic_object *dobj = &VEC_ELEM(d->dynobjs, idx);
-        memset(dobj, 0, sizeof(*dobj));
+        struct dyld_dynamic_object *dobj = mem_zalloc(d->mctx, sizeof(*dobj));
+        if (dobj == NULL) {
+                xlog_error("%s: malloc failed", __func__);
+                user_ret = 1;
+                goto fail;
+        }
 
         char *name_data = mem_alloc(d->mctx, (size_t)namelen + 1);
         if (name_data == NULL) {
                 xlog_error("%s: malloc failed", __func__);
+                mem_free(d->mctx, dobj, sizeof(*dobj));
                 user_ret = 1;
                 goto fail;
         }
@@ -101,15 +105,29 @@ dyld_dlfcn_load_object(struct exec_context *ctx, struct host_instance *hi,
         struct name *name = &dobj->name;
         name->data = name_data;
         name->nbytes = namelen;
+        /*
+         * Note: init functions of the object can load other objects.
+         */
+        *VEC_PUSH(d->dynobjs) = dobj;
         ret = dyld_dynamic_load_object_by_name(d, name, false, &dobj->obj);
         if (ret != 0) {
                 xlog_error("%s: dyld_dynamic_load_object_by_name failed",
                            __func__);
-                mem_free(d->mctx, name_data, (size_t)namelen + 1);
+                if (dobj->obj == NULL) {
+                        assert(d->dynobjs.lsize == idx + 1);
+                        d->dynobjs.lsize--;
+                        mem_free(d->mctx, name_data, (size_t)namelen + 1);
+                        mem_free(d->mctx, dobj, sizeof(*dobj));
+                } else {
+                        /*
+                         * the object stays in the list and refers to
+                         * the name. keep the entry without the handle.
+                         */
+                        dobj->obj = NULL;
+                }
                 user_ret = 1;
                 goto fail;
         }
-        d->dynobjs.lsize++;
         uint32_t handle = idx + 1;
         xlog_trace(
                 "dyld: dyld:load_object succeeded for %.*s, handle %" PRIu32,
@@ -164,7 +182,11 @@ dyld_dlfcn_resolve_symbol(struct exec_context *ctx, struct host_instance *hi,
                 user_ret = 1;
                 goto fail;
         }
-        const struct dyld_dynamic_object *dobj = &VEC_ELEM(d->dynobjs, idx);
+        const struct dyld_dynamic_object *dobj = VEC_ELEM(d->dynobjs, idx);
+        if (dobj->obj == NULL) {
+                user_ret = 1;
+                goto fail;
+        }
 
         void *vp;
         host_ret = host_func_getptr(ctx, dyld_memory(d), namep, namelen, &vp);
-- 
2.43.0


From 02a2f4d0e059a83e8062ac3664e47aa6a5e10d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:49:32 +0000
Subject: [PATCH 38/43] fix: report errors of init functions which call a
 missing function

A call of a function which dyld can not resolve fails with ENOENT. It was
confused with the case where the module does not have the init function, and
the rest of the init function was silently skipped.
---
 libdyld/dyld.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/libdyld/dyld.c b/libdyld/dyld.c
index bdf0850..cdba5b8 100644
--- a/libdyld/dyld.c
+++ b/libdyld/dyld.c
@@ -735,15 +735,10 @@ dyld_object_destroy(struct dyld_object *obj)
 }
 
 static int
-dyld_execute_obj_init_func1(struct dyld_object *obj, const struct name *name)
+dyld_execute_obj_init_func1(struct dyld_object *obj, uint32_t funcidx)
 {
         struct module *m = obj->module;
-        uint32_t funcidx;
         int ret;
-        ret = module_find_export(m, name, EXTERNTYPE_FUNC, &funcidx);
-        if (ret != 0) {
-                return ret;
-        }
         const struct functype *ft = module_functype(m, funcidx);
         const struct resulttype *pt = &ft->parameter;
         const struct resulttype *rt = &ft->result;
@@ -778,12 +773,17 @@ dyld_execute_obj_init_func(struct dyld_object *obj, const struct name *names,
         unsigned int i;
         for (i = 0; i < nnames; i++) {
                 const struct name *funcname = &names[i];
-                int ret = dyld_execute_obj_init_func1(obj, funcname);
+                uint32_t funcidx;
+                int ret = module_find_export(obj->module, funcname,
+                                             EXTERNTYPE_FUNC, &funcidx);
                 if (ret == ENOENT) {
                         xlog_trace("dyld: %.*s doesn't have %.*s",
                                    CSTR(obj->name), CSTR(funcname));
                         continue;
                 }
+                if (ret == 0) {
+                        ret = dyld_execute_obj_init_func1(obj, funcidx);
+                }
                 if (ret != 0) {
                         xlog_error("dyld: %.*s %.*s failed with %d",
                                    CSTR(obj->name), CSTR(funcname), ret);
-- 
2.43.0


From 390976136c72e1db7ce6d4a35b112bd5e9b49d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:25:55 +0000
Subject: [PATCH 39/43] fix: do not destroy a shared memory twice when a later
 one cannot be created

---
 lib/shared_memory.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/lib/shared_memory.c b/lib/shared_memory.c
index 8cfa04d..30043a0 100644
--- a/lib/shared_memory.c
+++ b/lib/shared_memory.c
@@ -25,7 +25,6 @@ create_satisfying_shared_memories(struct mem_context *mctx,
         struct import_object *imo = NULL;
         uint32_t nsharedimports;
         uint32_t i;
-        struct meminst *mi = NULL;
         int ret;
 
         nsharedimports = 0;
@@ -57,6 +56,7 @@ create_satisfying_shared_memories(struct mem_context *mctx,
                 if ((mt->flags & MEMTYPE_FLAG_SHARED) == 0) {
                         continue;
                 }
+                struct meminst *mi;
                 ret = memory_instance_create(instance_mctx, &mi, mt);
                 if (ret != 0) {
                         goto fail;
@@ -75,8 +75,5 @@ fail:
         if (imo != NULL) {
                 import_object_destroy(mctx, imo);
         }
-        if (mi != NULL) {
-                memory_instance_destroy(instance_mctx, mi);
-        }
         return ret;
 }
-- 
2.43.0


From 4c19de75641e9d8199776af50b32092ac67a6706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:47:31 +0000
Subject: [PATCH 40/43] fix: reject out of range i32 and f32 arguments on the
 command line

A 32-bit argument larger than 0xffffffff was silently replaced with 0
and the function was called with it.
---
 cli/repl.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cli/repl.c b/cli/repl.c
index bffcc89..8f70f75 100644
--- a/cli/repl.c
+++ b/cli/repl.c
@@ -927,6 +927,7 @@ arg_conv(enum valtype type, const char *s, struct val *result)
                 ret = str_to_uint(s, 0, &u);
                 if (ret == 0) {
                         if (u > UINT32_MAX) {
+                                ret = EOVERFLOW;
                                 break;
                         }
                         result->u.i32 = (uint32_t)u;
-- 
2.43.0


From 61df7b60322ce42d1177864d99d00f797045f6b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:47:31 +0000
Subject: [PATCH 41/43] fix: reject v128 arguments which are not hexadecimal
 numbers

Only the length was checked. A sign or a character which is not a digit
gave another value than what was typed.
---
 cli/repl.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/repl.c b/cli/repl.c
index 8f70f75..b1c21cc 100644
--- a/cli/repl.c
+++ b/cli/repl.c
@@ -899,7 +899,7 @@ parse_v128(const char *s, struct val *result)
         uint64_t upper;
         uint64_t lower;
         int ret;
-        if (strlen(s) != 32) {
+        if (strlen(s) != 32 || strspn(s, "0123456789abcdefABCDEF") != 32) {
                 return EINVAL;
         }
         ret = sscanf(s, "%016" SCNx64 "%016" SCNx64, &upper, &lower);
-- 
2.43.0


From 95144372670ce3130fd689e3681753349747f0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:50:25 +0000
Subject: [PATCH 42/43] fix: do not look up the program counter of a context
 which executed nothing

A trap can happen before the first instruction, for example when the
parameters do not fit in the stack. The stack trace then printed a
meaningless number, or failed an assertion.
---
 lib/exec_debug.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/exec_debug.c b/lib/exec_debug.c
index 99453e0..04f646f 100644
--- a/lib/exec_debug.c
+++ b/lib/exec_debug.c
@@ -148,9 +148,12 @@ print_trace(const struct exec_context *ctx)
          *
          * Note: ctx->p can be a bit outdated because we don't always
          * keep it updated, especially on errors.
+         * it's NULL if we failed before executing any instructions.
          */
-        uint32_t pc = ptr2pc(ctx->instance->module, ctx->p);
-        nbio_printf("current pc %06" PRIx32 "\n", pc);
+        if (ctx->p != NULL) {
+                uint32_t pc = ptr2pc(ctx->instance->module, ctx->p);
+                nbio_printf("current pc %06" PRIx32 "\n", pc);
+        }
 
         nametable_init(&table);
         while (true) {
-- 
2.43.0


From ac988f7de65428f9acc173d47e191e31b82e308d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:50:33 +0000
Subject: [PATCH 43/43] fix: allow unresolved functions for a module which
 imports no function

An allocation of size 0 was requested, which fails an assertion.
---
 lib/dummy_host_func.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lib/dummy_host_func.c b/lib/dummy_host_func.c
index 5310083..9bbf28e 100644
--- a/lib/dummy_host_func.c
+++ b/lib/dummy_host_func.c
@@ -60,10 +60,12 @@ create_satisfying_functions(struct mem_context *mctx, const struct module *m,
         if (ret != 0) {
                 goto fail;
         }
-        fis = mem_zalloc(mctx, nfuncs * sizeof(*fis));
-        if (fis == NULL) {
-                ret = ENOMEM;
-                goto fail;
+        if (nfuncs > 0) {
+                fis = mem_zalloc(mctx, nfuncs * sizeof(*fis));
+                if (fis == NULL) {
+                        ret = ENOMEM;
+                        goto fail;
+                }
         }
         imo->dtor = _dtor;
         imo->dtor_arg = fis;
-- 
2.43.0

