From 2b45553987b8fce6eaaec3b1b108632e64def398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:23 +0000
Subject: [PATCH 01/32] fix: sized RMA passes the element size in bytes

The SIZE of the sized API (shmem_put16, ...) is a number of bits. It was
passed as the number of bytes per element, so active-message based RMA
sent 8 times as much as it received.
---
 src/shmem/rma_sized.c.tpl | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/shmem/rma_sized.c.tpl b/src/shmem/rma_sized.c.tpl
index 27b11f2..9ec43b4 100644
--- a/src/shmem/rma_sized.c.tpl
+++ b/src/shmem/rma_sized.c.tpl
@@ -12,26 +12,26 @@
 
 void shmem_getSIZENAME(void *dest, const void *source, size_t nelems, int pe)
 {
-    OSHMPI_ctx_get(SHMEM_CTX_DEFAULT, MPI_TYPE, SIZE, dest /* origin_addr */ ,
+    OSHMPI_ctx_get(SHMEM_CTX_DEFAULT, MPI_TYPE, SIZE / 8, dest /* origin_addr */ ,
                    source /* target_addr */ , nelems, pe);
 }
 
 void shmem_ctx_getSIZENAME(shmem_ctx_t ctx, void *dest, const void *source, size_t nelems, int pe)
 {
-    OSHMPI_ctx_get(ctx, MPI_TYPE, SIZE, dest /* origin_addr */ ,
+    OSHMPI_ctx_get(ctx, MPI_TYPE, SIZE / 8, dest /* origin_addr */ ,
                    source /* target_addr */ , nelems, pe);
 }
 
 void shmem_getSIZENAME_nbi(void *dest, const void *source, size_t nelems, int pe)
 {
-    OSHMPI_ctx_get_nbi(SHMEM_CTX_DEFAULT, MPI_TYPE, SIZE, dest /* origin_addr */ ,
+    OSHMPI_ctx_get_nbi(SHMEM_CTX_DEFAULT, MPI_TYPE, SIZE / 8, dest /* origin_addr */ ,
                        source /* target_addr */ , nelems, pe);
 }
 
 void shmem_ctx_getSIZENAME_nbi(shmem_ctx_t ctx, void *dest, const void *source,
                                size_t nelems, int pe)
 {
-    OSHMPI_ctx_get_nbi(ctx, MPI_TYPE, SIZE, dest /* origin_addr */ ,
+    OSHMPI_ctx_get_nbi(ctx, MPI_TYPE, SIZE / 8, dest /* origin_addr */ ,
                        source /* target_addr */ , nelems, pe);
 }
 
@@ -51,13 +51,13 @@ void shmem_ctx_igetSIZENAME(shmem_ctx_t ctx, void *dest, const void *source, ptr
 
 void shmem_putSIZENAME(void *dest, const void *source, size_t nelems, int pe)
 {
-    OSHMPI_ctx_put(SHMEM_CTX_DEFAULT, MPI_TYPE, SIZE, source /* origin_addr */ ,
+    OSHMPI_ctx_put(SHMEM_CTX_DEFAULT, MPI_TYPE, SIZE / 8, source /* origin_addr */ ,
                    dest /* target_addr */ , nelems, pe);
 }
 
 void shmem_ctx_putSIZENAME(shmem_ctx_t ctx, void *dest, const void *source, size_t nelems, int pe)
 {
-    OSHMPI_ctx_put(ctx, MPI_TYPE, SIZE, source /* origin_addr */ ,
+    OSHMPI_ctx_put(ctx, MPI_TYPE, SIZE / 8, source /* origin_addr */ ,
                    dest /* target_addr */ , nelems, pe);
 }
 
@@ -77,14 +77,14 @@ void shmem_ctx_iputSIZENAME(shmem_ctx_t ctx, void *dest, const void *source,
 
 void shmem_putSIZENAME_nbi(void *dest, const void *source, size_t nelems, int pe)
 {
-    OSHMPI_ctx_put_nbi(SHMEM_CTX_DEFAULT, MPI_TYPE, SIZE, source /* origin_addr */ ,
+    OSHMPI_ctx_put_nbi(SHMEM_CTX_DEFAULT, MPI_TYPE, SIZE / 8, source /* origin_addr */ ,
                        dest /* target_addr */ , nelems, pe);
 }
 
 void shmem_ctx_putSIZENAME_nbi(shmem_ctx_t ctx, void *dest, const void *source,
                                size_t nelems, int pe)
 {
-    OSHMPI_ctx_put_nbi(ctx, MPI_TYPE, SIZE, source /* origin_addr */ ,
+    OSHMPI_ctx_put_nbi(ctx, MPI_TYPE, SIZE / 8, source /* origin_addr */ ,
                        dest /* target_addr */ , nelems, pe);
 }
 /* TPL_BLOCK_END */
\ No newline at end of file
-- 
2.43.0


From 7b7addeaa1957b63f49b21b6a16d9907710d3c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:28 +0000
Subject: [PATCH 02/32] fix: the symmetric heap object spans the whole window,
 bookkeeping space included

---
 src/internal/setup_impl.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/internal/setup_impl.c b/src/internal/setup_impl.c
index 2c0e21d..a454384 100644
--- a/src/internal/setup_impl.c
+++ b/src/internal/setup_impl.c
@@ -181,7 +181,7 @@ static void attach_symm_heap(void)
 
     /* Setup sobj attributes */
     int symm_flag = 0;
-    OSHMPI_sobj_init_attr(&OSHMPI_global.symm_heap_attr, SHMEMX_MEM_HOST, base, size);
+    OSHMPI_sobj_init_attr(&OSHMPI_global.symm_heap_attr, SHMEMX_MEM_HOST, base, true_size);
     OSHMPI_sobj_symm_info_allgather(&OSHMPI_global.symm_heap_attr, &symm_flag);
     OSHMPI_sobj_set_handle(&OSHMPI_global.symm_heap_attr, OSHMPI_SOBJ_SYMM_HEAP, symm_flag, 0);
 
@@ -267,7 +267,7 @@ static void initialize_symm_heap(void)
 
     /* Setup sobj attributes */
     int symm_flag = 0;
-    OSHMPI_sobj_init_attr(&OSHMPI_global.symm_heap_attr, SHMEMX_MEM_HOST, base, size);
+    OSHMPI_sobj_init_attr(&OSHMPI_global.symm_heap_attr, SHMEMX_MEM_HOST, base, true_size);
     OSHMPI_sobj_symm_info_allgather(&OSHMPI_global.symm_heap_attr, &symm_flag);
     OSHMPI_sobj_set_handle(&OSHMPI_global.symm_heap_attr, OSHMPI_SOBJ_SYMM_HEAP, symm_flag, 0);
 
-- 
2.43.0


From 3128f22ac72af21674b9ae8bb0645a6efb7c88d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:40 +0000
Subject: [PATCH 03/32] fix: an exhausted symmetric heap returns NULL instead
 of growing outside the window

---
 src/internal/setup_impl.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/internal/setup_impl.c b/src/internal/setup_impl.c
index a454384..169598a 100644
--- a/src/internal/setup_impl.c
+++ b/src/internal/setup_impl.c
@@ -190,6 +190,8 @@ static void attach_symm_heap(void)
                                                              OSHMPI_global.thread_level ==
                                                              SHMEM_THREAD_MULTIPLE ? 1 : 0);
     OSHMPI_ASSERT(OSHMPI_global.symm_heap_mspace != NULL);
+    /* Never grow outside the registered window */
+    mspace_set_footprint_limit(OSHMPI_global.symm_heap_mspace, true_size);
     OSHMPI_THREAD_INIT_CS(&OSHMPI_global.symm_heap_mspace_cs);
 
     OSHMPI_CALLMPI(MPI_Win_attach(OSHMPI_global.symm_ictx.win, base, true_size));
@@ -276,6 +278,8 @@ static void initialize_symm_heap(void)
                                                              OSHMPI_global.thread_level ==
                                                              SHMEM_THREAD_MULTIPLE ? 1 : 0);
     OSHMPI_ASSERT(OSHMPI_global.symm_heap_mspace != NULL);
+    /* Never grow outside the registered window */
+    mspace_set_footprint_limit(OSHMPI_global.symm_heap_mspace, true_size);
     OSHMPI_THREAD_INIT_CS(&OSHMPI_global.symm_heap_mspace_cs);
 
     OSHMPI_CALLMPI(MPI_Win_lock_all(MPI_MODE_NOCHECK, OSHMPI_global.symm_heap_ictx.win));
-- 
2.43.0


From 96e9065f289d93e93b73da952059ab8fd9a58e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:57 +0000
Subject: [PATCH 04/32] fix: shmem_realloc(ptr, 0) frees the block and
 shmem_align(a, 0) returns NULL

---
 src/internal/mem_impl.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/internal/mem_impl.c b/src/internal/mem_impl.c
index 5b920e7..4091cf8 100644
--- a/src/internal/mem_impl.c
+++ b/src/internal/mem_impl.c
@@ -52,8 +52,12 @@ void *OSHMPI_realloc(void *ptr, size_t size)
 {
     void *rptr = NULL;
 
-    if (size == 0 && ptr == NULL)
-        return ptr;
+    if (size == 0) {
+        /* Equivalent to shmem_free if the block exists, no action otherwise */
+        if (ptr != NULL)
+            OSHMPI_free(ptr);
+        return NULL;
+    }
 
     OSHMPI_THREAD_ENTER_CS(&OSHMPI_global.symm_heap_mspace_cs);
     rptr = mspace_realloc(OSHMPI_global.symm_heap_mspace, ptr, size);
@@ -68,6 +72,9 @@ void *OSHMPI_align(size_t alignment, size_t size)
 {
     void *ptr = NULL;
 
+    if (size == 0)
+        return ptr;
+
     OSHMPI_THREAD_ENTER_CS(&OSHMPI_global.symm_heap_mspace_cs);
     ptr = mspace_memalign(OSHMPI_global.symm_heap_mspace, alignment, size);
     OSHMPI_THREAD_EXIT_CS(&OSHMPI_global.symm_heap_mspace_cs);
-- 
2.43.0


From 259885494c2b905ade86fa56353eac0359712841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:57 +0000
Subject: [PATCH 05/32] fix: shmem_realloc completes outstanding accesses
 before it changes the block

---
 src/internal/mem_impl.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/internal/mem_impl.c b/src/internal/mem_impl.c
index 4091cf8..b99f3e8 100644
--- a/src/internal/mem_impl.c
+++ b/src/internal/mem_impl.c
@@ -59,6 +59,10 @@ void *OSHMPI_realloc(void *ptr, size_t size)
         return NULL;
     }
 
+    /* Outstanding accesses to the existing block must complete before it is changed */
+    if (ptr != NULL)
+        OSHMPI_barrier_all();
+
     OSHMPI_THREAD_ENTER_CS(&OSHMPI_global.symm_heap_mspace_cs);
     rptr = mspace_realloc(OSHMPI_global.symm_heap_mspace, ptr, size);
     OSHMPI_THREAD_EXIT_CS(&OSHMPI_global.symm_heap_mspace_cs);
-- 
2.43.0


From 651c39947ca3b7f560a8e968a49a752e7c827491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:57 +0000
Subject: [PATCH 06/32] fix: shmem_clear_lock completes the accesses of the
 critical section before the release

---
 src/internal/lock_impl.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/internal/lock_impl.h b/src/internal/lock_impl.h
index 4928f7f..2d5d3f9 100644
--- a/src/internal/lock_impl.h
+++ b/src/internal/lock_impl.h
@@ -103,6 +103,9 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_clear_lock(long *lockp)
 
     lock_next_disp = lock_last_disp + sizeof(int);
 
+    /* Ensure that accesses issued in the critical section are completed before the release */
+    OSHMPI_ctx_quiet(SHMEM_CTX_DEFAULT);
+
     /* Release the lock in root process if I am the last one holding the lock */
     OSHMPI_CALLMPI(MPI_Compare_and_swap
                    (&zero, &myid, &curid, MPI_INT, OSHMPI_LOCK_ROOT_WRANK, lock_last_disp,
-- 
2.43.0


From d1746808951282e254d2f562c64794a3079c77cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:57 +0000
Subject: [PATCH 07/32] fix: fence and quiet on a created context cover
 operations sent as active messages

---
 src/internal/order_impl.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/internal/order_impl.h b/src/internal/order_impl.h
index 8d0bcb0..45435b6 100644
--- a/src/internal/order_impl.h
+++ b/src/internal/order_impl.h
@@ -38,6 +38,8 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_ctx_fence(shmem_ctx_t ctx OSHMPI_ATTRIBU
     if (ctx != SHMEM_CTX_DEFAULT) {
         /* Fence on specific context (window) */
         ctx_flush_impl(&(((OSHMPI_ctx_t *) ctx)->ictx));
+        /* Ensure AM ordered delivery (e.g., AM AMOs) */
+        OSHMPI_am_flush_all(ctx);
         return;
     }
 #ifdef OSHMPI_ENABLE_DYNAMIC_WIN
@@ -69,6 +71,8 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_ctx_quiet(shmem_ctx_t ctx)
     if (ctx != SHMEM_CTX_DEFAULT) {
         /* Quiet on specific context (window) */
         ctx_flush_impl(&(((OSHMPI_ctx_t *) ctx)->ictx));
+        /* Ensure AM completion (e.g., AM AMOs) */
+        OSHMPI_am_flush_all(ctx);
         return;
     }
 #ifdef OSHMPI_ENABLE_DYNAMIC_WIN
-- 
2.43.0


From a62ec3c18434978ef59af74c58cf5de2f5ac9cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:03 +0000
Subject: [PATCH 08/32] fix: fence and quiet skip a space that is not attached

---
 src/internal/order_impl.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/internal/order_impl.h b/src/internal/order_impl.h
index 45435b6..9a64120 100644
--- a/src/internal/order_impl.h
+++ b/src/internal/order_impl.h
@@ -54,6 +54,9 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_ctx_fence(shmem_ctx_t ctx OSHMPI_ATTRIBU
     OSHMPI_THREAD_ENTER_CS(&OSHMPI_global.space_list.cs);
     LL_FOREACH_SAFE(OSHMPI_global.space_list.head, space, tmp) {
         int i;
+        /* Windows exist only while the space is attached */
+        if (OSHMPI_SOBJ_HANDLE_GET_KIND(space->sobj_attr.handle) != OSHMPI_SOBJ_SPACE_ATTACHED_HEAP)
+            continue;
         for (i = 0; i < space->config.num_contexts; i++)
             ctx_flush_impl(&(space->ctx_list[i].ictx));
 #ifndef OSHMPI_ENABLE_DYNAMIC_WIN
@@ -87,6 +90,9 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_ctx_quiet(shmem_ctx_t ctx)
     OSHMPI_THREAD_ENTER_CS(&OSHMPI_global.space_list.cs);
     LL_FOREACH_SAFE(OSHMPI_global.space_list.head, space, tmp) {
         int i;
+        /* Windows exist only while the space is attached */
+        if (OSHMPI_SOBJ_HANDLE_GET_KIND(space->sobj_attr.handle) != OSHMPI_SOBJ_SPACE_ATTACHED_HEAP)
+            continue;
         for (i = 0; i < space->config.num_contexts; i++)
             ctx_flush_impl(&(space->ctx_list[i].ictx));
 #ifndef OSHMPI_ENABLE_DYNAMIC_WIN
-- 
2.43.0


From bc9060eaeca523fe17908c0ee3eee2807e55f3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:03 +0000
Subject: [PATCH 09/32] fix: barriers complete the operations on attached
 spaces and those to PEs outside the active set

---
 src/internal/coll_activeset_impl.h | 13 +++----------
 src/internal/coll_impl.h           | 12 +++---------
 2 files changed, 6 insertions(+), 19 deletions(-)

diff --git a/src/internal/coll_activeset_impl.h b/src/internal/coll_activeset_impl.h
index 36a9079..7006b4e 100644
--- a/src/internal/coll_activeset_impl.h
+++ b/src/internal/coll_activeset_impl.h
@@ -119,16 +119,9 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_barrier(int PE_start, int logPE_stride,
 {
     MPI_Comm comm = MPI_COMM_NULL;
 
-    /* Ensure completion of all outstanding Put, AMO, and nonblocking Put */
-#ifdef OSHMPI_ENABLE_DYNAMIC_WIN
-    OSHMPI_CALLMPI(MPI_Win_flush_all(OSHMPI_global.symm_ictx.win));
-#else
-    OSHMPI_CALLMPI(MPI_Win_flush_all(OSHMPI_global.symm_heap_ictx.win));
-    OSHMPI_CALLMPI(MPI_Win_flush_all(OSHMPI_global.symm_data_ictx.win));
-#endif
-
-    /* Ensure AM completion (e.g., AM AMOs) */
-    OSHMPI_am_flush(SHMEM_CTX_DEFAULT, PE_start, logPE_stride, PE_size);
+    /* Ensure completion of all outstanding Put, AMO, and nonblocking Put to any PE
+     * (including the attached spaces) */
+    OSHMPI_ctx_quiet(SHMEM_CTX_DEFAULT);
 
     /* Ensure completion of memory store */
 #ifdef OSHMPI_ENABLE_DYNAMIC_WIN
diff --git a/src/internal/coll_impl.h b/src/internal/coll_impl.h
index 243168d..a04b7cd 100644
--- a/src/internal/coll_impl.h
+++ b/src/internal/coll_impl.h
@@ -11,15 +11,9 @@
 #include "oshmpi_util.h"
 OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_barrier_all(void)
 {
-    /* Ensure completion of all outstanding Put, AMO, and nonblocking Put */
-#ifdef OSHMPI_ENABLE_DYNAMIC_WIN
-    OSHMPI_CALLMPI(MPI_Win_flush_all(OSHMPI_global.symm_ictx.win));
-#else
-    OSHMPI_CALLMPI(MPI_Win_flush_all(OSHMPI_global.symm_heap_ictx.win));
-    OSHMPI_CALLMPI(MPI_Win_flush_all(OSHMPI_global.symm_data_ictx.win));
-#endif
-    /* Ensure AM completion (e.g., AM AMOs) */
-    OSHMPI_am_flush_all(SHMEM_CTX_DEFAULT);
+    /* Ensure completion of all outstanding Put, AMO, and nonblocking Put
+     * (including the attached spaces) */
+    OSHMPI_ctx_quiet(SHMEM_CTX_DEFAULT);
 
     /* Ensure completion of memory store */
 #ifdef OSHMPI_ENABLE_DYNAMIC_WIN
-- 
2.43.0


From 6d44a7c0b1db57d58123bfa005beed7efd3f12c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:03 +0000
Subject: [PATCH 10/32] fix: finalize completes the outstanding active messages

---
 src/internal/setup_impl.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/internal/setup_impl.c b/src/internal/setup_impl.c
index 169598a..b2b8240 100644
--- a/src/internal/setup_impl.c
+++ b/src/internal/setup_impl.c
@@ -865,7 +865,8 @@ static void finalize_impl(void)
     /* Implicit global barrier is required to ensure
      * that pending communications are completed and that no resources
      * are released until all PEs have entered shmem_finalize.
-     * The completion part is ensured in unlock calls.*/
+     * The unlock calls do not cover active messages, thus complete everything here.*/
+    OSHMPI_ctx_quiet(SHMEM_CTX_DEFAULT);
     OSHMPI_am_progress_mpi_barrier(OSHMPI_global.team_world_comm);
 
     OSHMPI_coll_finalize();
-- 
2.43.0


From 5105d68b653b168a67b5af885646d62246064406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:03 +0000
Subject: [PATCH 11/32] fix: PE_root of an active-set broadcast is an ordinal
 in the active set

---
 src/internal/coll_activeset_impl.h | 44 ++++--------------------------
 1 file changed, 5 insertions(+), 39 deletions(-)

diff --git a/src/internal/coll_activeset_impl.h b/src/internal/coll_activeset_impl.h
index 7006b4e..7d29de5 100644
--- a/src/internal/coll_activeset_impl.h
+++ b/src/internal/coll_activeset_impl.h
@@ -151,53 +151,19 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_sync(int PE_start, int logPE_stride, int
     OSHMPI_am_progress_mpi_barrier(comm);
 }
 
-/* Return 1 if root is included in the active set, otherwise 0. */
-OSHMPI_STATIC_INLINE_PREFIX int coll_check_root_in_active_set(int PE_root,
-                                                              int PE_start, int logPE_stride,
-                                                              int PE_size)
-{
-    int i, included = 0;
-    const int pe_stride = 1 << logPE_stride;    /* Implement 2^pe_logs with bitshift. */
-    for (i = 0; i < PE_size; i++) {
-        if (PE_root == PE_start + i * pe_stride) {
-            included = 1;
-            break;
-        }
-    }
-    return included;
-}
-
 OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_broadcast(void *dest, const void *source, size_t nelems,
                                                   MPI_Datatype mpi_type, int PE_root, int PE_start,
                                                   int logPE_stride, int PE_size)
 {
     MPI_Comm comm = MPI_COMM_NULL;
+    const int pe_stride = 1 << logPE_stride;    /* Implement 2^pe_logs with bitshift. */
 
     coll_acquire_comm(PE_start, logPE_stride, PE_size, &comm);
 
-    /* Special path: directly use MPI_Bcast if root is included in active set */
-    if (coll_check_root_in_active_set(PE_root, PE_start, logPE_stride, PE_size)) {
-        OSHMPI_am_progress_mpi_bcast(PE_root ==
-                                     OSHMPI_global.team_world_my_pe ? (void *) source : dest,
-                                     nelems, mpi_type, PE_root, comm);
-    } else {
-        OSHMPI_ictx_t *ictx = NULL;
-        OSHMPI_sobj_attr_t *sobj_attr = NULL;
-        MPI_Aint target_disp = -1;
-
-        /* Generic path: every PE in active set gets data from root
-         * FIXME: the semantics ensures dest is updated only on local PE at return,
-         * thus we assume barrier is unneeded.*/
-        OSHMPI_sobj_query_attr_ictx(SHMEM_CTX_DEFAULT, source, PE_root, &sobj_attr, &ictx);
-        OSHMPI_ASSERT(sobj_attr && ictx);
-        OSHMPI_sobj_trans_vaddr_to_disp(sobj_attr, source, PE_root,
-                                        OSHMPI_ICTX_DISP_MODE(ictx), &target_disp);
-        OSHMPI_ASSERT(target_disp >= 0);
-
-        OSHMPI_CALLMPI(MPI_Get
-                       (dest, nelems, mpi_type, PE_root, target_disp, nelems, mpi_type, ictx->win));
-        OSHMPI_CALLMPI(MPI_Win_flush_local(PE_root, ictx->win));
-    }
+    /* PE_root is the ordinal of the root in the active set, thus its rank in comm. */
+    OSHMPI_am_progress_mpi_bcast(PE_start + PE_root * pe_stride ==
+                                 OSHMPI_global.team_world_my_pe ? (void *) source : dest,
+                                 nelems, mpi_type, PE_root, comm);
 }
 
 OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_collect(void *dest, const void *source, size_t nelems,
-- 
2.43.0


From 5b232de7a8d592cf3982a92d1d0630ba31a3b349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:03 +0000
Subject: [PATCH 12/32] fix: a host space starts at a page boundary, so that
 its chunks are aligned and disjoint from other memory

---
 src/internal/space_impl.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/internal/space_impl.c b/src/internal/space_impl.c
index 881054f..8972076 100644
--- a/src/internal/space_impl.c
+++ b/src/internal/space_impl.c
@@ -184,7 +184,8 @@ void OSHMPI_space_create(shmemx_space_config_t space_config, OSHMPI_space_t ** s
             break;
         case SHMEMX_MEM_HOST:
         default:
-            base = OSHMPIU_malloc(size);
+            if (posix_memalign(&base, OSHMPI_global.page_sz, size))
+                base = NULL;
             space_config.memkind = SHMEMX_MEM_HOST;
             break;
     }
-- 
2.43.0


From 1cbb59e33da12cac900ce61dcd7b373e17eb0464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:03 +0000
Subject: [PATCH 13/32] fix: shmemx_space_align never returns an unaligned
 block

---
 src/internal/space_impl.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/internal/space_impl.c b/src/internal/space_impl.c
index 8972076..91979b4 100644
--- a/src/internal/space_impl.c
+++ b/src/internal/space_impl.c
@@ -377,7 +377,10 @@ void *OSHMPI_space_malloc(OSHMPI_space_t * space, size_t size)
 /* Collectively allocate a buffer from the space with byte alignment */
 void *OSHMPI_space_align(OSHMPI_space_t * space, size_t alignment, size_t size)
 {
-    return OSHMPI_space_malloc(space, OSHMPI_ALIGN(size, alignment));
+    /* Every block starts at a chunk, thus it cannot be aligned beyond the chunk size */
+    if (alignment > space->mem_pool.chunk_size)
+        return NULL;
+    return OSHMPI_space_malloc(space, size);
 }
 
 /* Collectively free a buffer from the space */
-- 
2.43.0


From 615a1ee256b27841d204994ee71591726b8c9a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:24 +0000
Subject: [PATCH 14/32] fix: a space allocation of size zero or beyond the pool
 returns NULL

---
 src/internal/util/mem_pool.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/internal/util/mem_pool.c b/src/internal/util/mem_pool.c
index db2b3d5..27a6512 100644
--- a/src/internal/util/mem_pool.c
+++ b/src/internal/util/mem_pool.c
@@ -42,6 +42,9 @@ void *OSHMPIU_mempool_alloc(OSUMPIU_mempool_t * mem_pool, size_t size)
     int off = 0, navail = 0;
     void *ptr = NULL;
 
+    if (size == 0 || size > mem_pool->size)
+        return NULL;
+
     size_t aligned_sz = OSHMPI_ALIGN(size, mem_pool->chunk_size);
     int nalloc = aligned_sz / mem_pool->chunk_size;
 
-- 
2.43.0


From c1e9cd180b1e77a3d18087ce86f46668e66b5be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:24 +0000
Subject: [PATCH 15/32] fix: shmemx_space_calloc allocates and clears count
 elements

---
 src/include/oshmpi_impl.h |  1 +
 src/internal/space_impl.c | 22 ++++++++++++++++++++++
 src/shmemx/space.c        |  3 +--
 3 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/include/oshmpi_impl.h b/src/include/oshmpi_impl.h
index 74d4a8d..f2b3550 100644
--- a/src/include/oshmpi_impl.h
+++ b/src/include/oshmpi_impl.h
@@ -389,6 +389,7 @@ int OSHMPI_space_create_ctx(OSHMPI_space_t * space, long options, OSHMPI_ctx_t *
 void OSHMPI_space_attach(OSHMPI_space_t * space);
 void OSHMPI_space_detach(OSHMPI_space_t * space);
 void *OSHMPI_space_malloc(OSHMPI_space_t * space, size_t size);
+void *OSHMPI_space_calloc(OSHMPI_space_t * space, size_t count, size_t size);
 void *OSHMPI_space_align(OSHMPI_space_t * space, size_t alignment, size_t size);
 void OSHMPI_space_free(OSHMPI_space_t * space, void *ptr);
 
diff --git a/src/internal/space_impl.c b/src/internal/space_impl.c
index 91979b4..8b10f11 100644
--- a/src/internal/space_impl.c
+++ b/src/internal/space_impl.c
@@ -374,6 +374,28 @@ void *OSHMPI_space_malloc(OSHMPI_space_t * space, size_t size)
     return ptr;
 }
 
+/* Collectively allocate a zero-initialized array of count elements from the space */
+void *OSHMPI_space_calloc(OSHMPI_space_t * space, size_t count, size_t size)
+{
+    void *ptr = NULL;
+
+    /* Let the pool reject the request if count * size overflows */
+    size_t bytes = (size != 0 && count > SIZE_MAX / size) ? SIZE_MAX : count * size;
+
+    OSHMPI_THREAD_ENTER_CS(&space->mem_pool_cs);
+    ptr = OSHMPIU_mempool_alloc(&space->mem_pool, bytes);
+    OSHMPI_THREAD_EXIT_CS(&space->mem_pool_cs);
+
+    /* Initialize before any PE can access the buffer remotely */
+    if (ptr)
+        memset(ptr, 0, bytes);
+
+    OSHMPI_DBGMSG("space_calloc from space %p, count %ld, size %ld -> ptr %p, disp 0x%lx\n",
+                  space, count, size, ptr, (MPI_Aint) ptr - (MPI_Aint) space->sobj_attr.base);
+    OSHMPI_barrier_all();
+    return ptr;
+}
+
 /* Collectively allocate a buffer from the space with byte alignment */
 void *OSHMPI_space_align(OSHMPI_space_t * space, size_t alignment, size_t size)
 {
diff --git a/src/shmemx/space.c b/src/shmemx/space.c
index 4e45509..7353258 100644
--- a/src/shmemx/space.c
+++ b/src/shmemx/space.c
@@ -50,8 +50,7 @@ void *shmemx_space_calloc(shmemx_space_t space, size_t count, size_t size)
 {
     void *ptr = NULL;
     OSHMPI_NOINLINE_RECURSIVE()
-        ptr = OSHMPI_space_malloc((OSHMPI_space_t *) space, size);
-    memset(ptr, 0, size);
+        ptr = OSHMPI_space_calloc((OSHMPI_space_t *) space, count, size);
     return ptr;
 }
 
-- 
2.43.0


From 9c591a770675929b1460713ab1b3448c58a3a6b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:24 +0000
Subject: [PATCH 16/32] fix: shmem_team_sync works on every team

---
 src/internal/coll_impl.h |  7 +++++++
 src/shmem/coll.c         | 13 ++++++++-----
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/internal/coll_impl.h b/src/internal/coll_impl.h
index a04b7cd..6c33b41 100644
--- a/src/internal/coll_impl.h
+++ b/src/internal/coll_impl.h
@@ -39,6 +39,13 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_sync_all(void)
 
 OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_sync_team(OSHMPI_team_t * team)
 {
+    /* Ensure completion of previously issued memory store */
+#ifdef OSHMPI_ENABLE_DYNAMIC_WIN
+    OSHMPI_CALLMPI(MPI_Win_sync(OSHMPI_global.symm_ictx.win));
+#else
+    OSHMPI_CALLMPI(MPI_Win_sync(OSHMPI_global.symm_heap_ictx.win));
+    OSHMPI_CALLMPI(MPI_Win_sync(OSHMPI_global.symm_data_ictx.win));
+#endif
     OSHMPI_am_progress_mpi_barrier(team->comm);
 }
 
diff --git a/src/shmem/coll.c b/src/shmem/coll.c
index 972f3d2..fd26f34 100644
--- a/src/shmem/coll.c
+++ b/src/shmem/coll.c
@@ -13,11 +13,14 @@ void shmem_barrier_all(void)
 
 int shmem_team_sync(shmem_team_t team)
 {
-    if (team == SHMEM_TEAM_WORLD) {
-        OSHMPI_sync_all();
-        return SHMEM_SUCCESS;
-    }
-    return SHMEM_OTHER_ERR;
+    OSHMPI_team_t *team_obj;
+
+    if (team == SHMEM_TEAM_INVALID)
+        return SHMEM_OTHER_ERR;
+
+    OSHMPI_TEAM_GET_OBJ(team, team_obj);
+    OSHMPI_sync_team(team_obj);
+    return SHMEM_SUCCESS;
 }
 
 void shmem_sync_all(void)
-- 
2.43.0


From 82e1c5c71969eba28477f93d504c08fa523a266c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:09 +0000
Subject: [PATCH 17/32] fix: shmem_team_split_strided rejects an invalid size
 or stride

---
 src/shmem/team.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/shmem/team.c b/src/shmem/team.c
index cc3b68d..f7bae3b 100644
--- a/src/shmem/team.c
+++ b/src/shmem/team.c
@@ -122,15 +122,22 @@ int shmem_team_split_strided(shmem_team_t parent_team, int start, int stride, in
 
     /* sanity checks
      * 1. valid start pe rank
-     * 2. valid end pe rank */
+     * 2. valid size, stride and thus end pe rank */
     if (start < 0 || start >= _parent_team->n_pes) {
         goto fn_fail;
     }
 
-    int end_pe = start + stride * (size - 1);
-    if (end_pe < 0 || end_pe >= _parent_team->n_pes) {
+    if (size < 1) {
         goto fn_fail;
     }
+    if (size == 1) {
+        stride = 1;     /* irrelevant */
+    }
+    /* equivalent to start + stride * (size - 1) < n_pes without overflow */
+    if (stride < 1 || (size - 1) > (_parent_team->n_pes - 1 - start) / stride) {
+        goto fn_fail;
+    }
+    int end_pe = start + stride * (size - 1);
 
     /* There are two criterias for a PE to be included in the split team
      * 1. rank of the PE in parent team need to be between start and end (calculated using stride
-- 
2.43.0


From adb3418278c5ef01337526be3b44656080e88b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:09 +0000
Subject: [PATCH 18/32] fix: shmem_team_split_2d rejects a non-positive xrange

---
 src/shmem/team.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/shmem/team.c b/src/shmem/team.c
index f7bae3b..5761541 100644
--- a/src/shmem/team.c
+++ b/src/shmem/team.c
@@ -186,6 +186,10 @@ int shmem_team_split_2d(shmem_team_t parent_team, int xrange,
         _parent_team = OSHMPI_TEAM_HANDLE_TO_OBJ(parent_team);
     }
 
+    if (xrange < 1) {
+        goto fn_fail;
+    }
+
     /* X, Y position is used for determine the color of the sub group:
      * 1. PEs in the same X team should have the same Y position (same row)
      * 2. PEs in the same Y team should have the same X position (same col) */
-- 
2.43.0


From fd55c582c734c928424d90c1c4544b31e6799c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:09 +0000
Subject: [PATCH 19/32] fix: shmem_team_translate_pe returns -1 for a PE
 outside the source team

---
 src/shmem/team.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/shmem/team.c b/src/shmem/team.c
index 5761541..330214d 100644
--- a/src/shmem/team.c
+++ b/src/shmem/team.c
@@ -69,7 +69,7 @@ int shmem_team_translate_pe(shmem_team_t src_team, int src_pe, shmem_team_t dest
     OSHMPI_team_t *_src_team = NULL;
     OSHMPI_team_t *_dest_team = NULL;
     MPI_Group src_group, dest_group;
-    int dest_rank = 0;
+    int dest_rank = 0, src_size = 0;
 
     if (src_team == SHMEM_TEAM_INVALID || dest_team == SHMEM_TEAM_INVALID) {
         return -1;
@@ -92,6 +92,11 @@ int shmem_team_translate_pe(shmem_team_t src_team, int src_pe, shmem_team_t dest
         dest_group = _dest_team->group;
     }
 
+    OSHMPI_CALLMPI(MPI_Group_size(src_group, &src_size));
+    if (src_pe < 0 || src_pe >= src_size) {
+        return -1;
+    }
+
     OSHMPI_CALLMPI(MPI_Group_translate_ranks(src_group, 1, &src_pe, dest_group, &dest_rank));
     if (dest_rank == MPI_UNDEFINED) {
         dest_rank = -1;
-- 
2.43.0


From 7418c148eaab133e31466f1af9c582673c2fa81c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:09 +0000
Subject: [PATCH 20/32] fix: shmem_addr_accessible covers attached spaces

---
 src/shmem/setup.c | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/shmem/setup.c b/src/shmem/setup.c
index 2e619ff..d76bcb7 100644
--- a/src/shmem/setup.c
+++ b/src/shmem/setup.c
@@ -71,9 +71,27 @@ int shmem_pe_accessible(int pe)
 
 int shmem_addr_accessible(const void *addr, int pe)
 {
-    return ((OSHMPI_sobj_check_range(addr, OSHMPI_global.symm_heap_attr) ||
-             OSHMPI_sobj_check_range(addr, OSHMPI_global.symm_data_attr)) &&
-            (pe >= 0 && pe < OSHMPI_global.team_world_n_pes)) ? 1 : 0;
+    int accessible = 0;
+    OSHMPI_space_t *space, *tmp;
+
+    if (pe < 0 || pe >= OSHMPI_global.team_world_n_pes)
+        return 0;
+
+    if (OSHMPI_sobj_check_range(addr, OSHMPI_global.symm_heap_attr) ||
+        OSHMPI_sobj_check_range(addr, OSHMPI_global.symm_data_attr))
+        return 1;
+
+    /* Attached spaces are remotely accessible, too */
+    OSHMPI_THREAD_ENTER_CS(&OSHMPI_global.space_list.cs);
+    LL_FOREACH_SAFE(OSHMPI_global.space_list.head, space, tmp) {
+        if (OSHMPI_SOBJ_HANDLE_GET_KIND(space->sobj_attr.handle) == OSHMPI_SOBJ_SPACE_ATTACHED_HEAP
+            && OSHMPI_sobj_check_range(addr, space->sobj_attr)) {
+            accessible = 1;
+            break;
+        }
+    }
+    OSHMPI_THREAD_EXIT_CS(&OSHMPI_global.space_list.cs);
+    return accessible;
 }
 
 void *shmem_ptr(const void *dest, int pe)
-- 
2.43.0


From be70171e1b195294cc224dafe66f1c7cf7a2a5bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:09 +0000
Subject: [PATCH 21/32] fix: shmem_ctx_destroy completes the operations issued
 on the context

---
 src/internal/ctx_impl.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/internal/ctx_impl.c b/src/internal/ctx_impl.c
index 812a798..eba5a0d 100644
--- a/src/internal/ctx_impl.c
+++ b/src/internal/ctx_impl.c
@@ -8,6 +8,8 @@
 
 void OSHMPI_ctx_destroy(OSHMPI_ctx_t * ctx)
 {
+    /* Complete all operations issued on the context before it can be reused */
+    OSHMPI_ctx_quiet((shmem_ctx_t) ctx);
     OSHMPIU_ATOMIC_FLAG_STORE(ctx->used_flag, 0);
 
     /* Do not free window.
-- 
2.43.0


From 06bc6606c87c1adfd452bdbfda0441b9f6a181d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:09 +0000
Subject: [PATCH 22/32] fix: active message tags are reused instead of running
 out

---
 src/internal/am_impl.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/internal/am_impl.h b/src/internal/am_impl.h
index c5081be..31fc366 100644
--- a/src/internal/am_impl.h
+++ b/src/internal/am_impl.h
@@ -14,8 +14,10 @@
  * have specific source rank. However, here we use an atomic counter per PE for simplicity. */
 OSHMPI_STATIC_INLINE_PREFIX int OSHMPI_am_get_pkt_ptag(void)
 {
-    int tag = OSHMPIU_ATOMIC_CNT_FINC(OSHMPI_am.pkt_ptag_off) + OSHMPI_AM_PKT_PTAG_START;
-    OSHMPI_ASSERT(tag < OSHMPI_am.pkt_ptag_ub);
+    /* Start over when the tag space is used up, early tags are long retired */
+    unsigned int off = (unsigned int) OSHMPIU_ATOMIC_CNT_FINC(OSHMPI_am.pkt_ptag_off);
+    unsigned int ntags = (unsigned int) (OSHMPI_am.pkt_ptag_ub - OSHMPI_AM_PKT_PTAG_START);
+    int tag = (int) (off % ntags) + OSHMPI_AM_PKT_PTAG_START;
     return tag;
 }
 
-- 
2.43.0


From e926cee49eceaa3d438dfad17e39dfbc0cd5fd0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:09 +0000
Subject: [PATCH 23/32] fix: SHMEM_SYMMETRIC_SIZE is read in double precision

---
 src/include/oshmpi_util.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/oshmpi_util.h b/src/include/oshmpi_util.h
index 0d55ac3..ac64cc8 100644
--- a/src/include/oshmpi_util.h
+++ b/src/include/oshmpi_util.h
@@ -147,7 +147,7 @@ OSHMPI_STATIC_INLINE_PREFIX uint64_t OSHMPIU_str_to_size(char *s)
     double val;
     char *e;
 
-    val = (double) strtof(s, &e);
+    val = strtod(s, &e);
     if (e == NULL || *e == '\0')
         return val;
 
-- 
2.43.0


From 4d49dd2a0c8850060862bb6cdc1284c05f2ca16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:50 +0000
Subject: [PATCH 24/32] fix: PEs waiting in team creation and destruction serve
 active messages

---
 src/internal/team_impl.c | 2 ++
 src/shmem/team.c         | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/internal/team_impl.c b/src/internal/team_impl.c
index 048c83a..11afaf8 100644
--- a/src/internal/team_impl.c
+++ b/src/internal/team_impl.c
@@ -47,6 +47,8 @@ int OSHMPI_team_split(OSHMPI_team_t * team, int color, OSHMPI_team_t ** new_team
     MPI_Comm new_comm;
     MPI_Group new_group;
 
+    /* Serve active messages until all PEs arrive, MPI_Comm_split does not. */
+    OSHMPI_am_progress_mpi_barrier(team->comm);
     OSHMPI_CALLMPI(MPI_Comm_split(team->comm, color, team->my_pe, &new_comm));
 
     if (new_comm != MPI_COMM_NULL) {
diff --git a/src/shmem/team.c b/src/shmem/team.c
index 330214d..ff62fd6 100644
--- a/src/shmem/team.c
+++ b/src/shmem/team.c
@@ -234,5 +234,7 @@ void shmem_team_destroy(shmem_team_t team)
         return;
     }
     _team = OSHMPI_TEAM_HANDLE_TO_OBJ(team);
+    /* Serve active messages until all PEs arrive, MPI_Comm_free does not. */
+    OSHMPI_am_progress_mpi_barrier(_team->comm);
     OSHMPI_team_destroy(&_team);
 }
-- 
2.43.0


From 81a3056b67d3f5cec79f046ae800574cbed6b534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:50 +0000
Subject: [PATCH 25/32] fix: PEs waiting in space attach and detach serve
 active messages

---
 src/internal/space_impl.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/internal/space_impl.c b/src/internal/space_impl.c
index 8b10f11..f701b3c 100644
--- a/src/internal/space_impl.c
+++ b/src/internal/space_impl.c
@@ -281,6 +281,9 @@ void OSHMPI_space_attach(OSHMPI_space_t * space)
     /* Space should not be attached yet */
     OSHMPI_ASSERT(!space->ctx_list);
 
+    /* Serve active messages until all PEs arrive, the MPI collectives below do not. */
+    OSHMPI_am_progress_mpi_barrier(OSHMPI_global.team_world_comm);
+
     OSHMPI_CALLMPI(MPI_Info_create(&info));
     OSHMPI_set_mpi_info_args(info);
 
@@ -336,8 +339,10 @@ void OSHMPI_space_detach(OSHMPI_space_t * space)
 {
     int i;
 
-#ifdef OSHMPI_ENABLE_DYNAMIC_WIN
+    /* Serve active messages until all PEs arrive, the MPI collectives below do not. */
     OSHMPI_am_progress_mpi_barrier(OSHMPI_global.team_world_comm);
+
+#ifdef OSHMPI_ENABLE_DYNAMIC_WIN
     OSHMPI_CALLMPI(MPI_Win_detach(OSHMPI_global.symm_ictx.win, space->sobj_attr.base));
 #else
     /* Destroy internal window */
-- 
2.43.0


From 46f790ff6e9766f13c718a4ed7d2cf0078d67eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:50 +0000
Subject: [PATCH 26/32] fix: PEs waiting for the first use of an active set
 serve active messages

---
 src/internal/coll_activeset_impl.h | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/internal/coll_activeset_impl.h b/src/internal/coll_activeset_impl.h
index 7d29de5..00139fa 100644
--- a/src/internal/coll_activeset_impl.h
+++ b/src/internal/coll_activeset_impl.h
@@ -70,6 +70,25 @@ OSHMPI_STATIC_INLINE_PREFIX int coll_find_comm_cache(int PE_start, int logPE_str
     return found;
 }
 
+/* Block until all PEs in the active set arrive, while serving active messages. */
+OSHMPI_STATIC_INLINE_PREFIX void coll_gather_active_set(const int *pe_list, int PE_size)
+{
+    int me = 0;
+    while (me < PE_size && pe_list[me] != OSHMPI_global.team_world_my_pe)
+        me++;
+    OSHMPI_ASSERT(me < PE_size);
+
+    /* Dissemination barrier */
+    for (int dist = 1; dist < PE_size; dist *= 2) {
+        MPI_Request reqs[2];
+        OSHMPI_CALLMPI(MPI_Isend(NULL, 0, MPI_BYTE, pe_list[(me + dist) % PE_size],
+                                 pe_list[0] /* tag */ , OSHMPI_global.team_world_comm, &reqs[0]));
+        OSHMPI_CALLMPI(MPI_Irecv(NULL, 0, MPI_BYTE, pe_list[(me - dist + PE_size) % PE_size],
+                                 pe_list[0] /* tag */ , OSHMPI_global.team_world_comm, &reqs[1]));
+        OSHMPI_am_progress_mpi_waitall(2, reqs, MPI_STATUSES_IGNORE);
+    }
+}
+
 OSHMPI_STATIC_INLINE_PREFIX void coll_acquire_comm(int PE_start, int logPE_stride, int PE_size,
                                                    MPI_Comm * comm)
 {
@@ -104,6 +123,9 @@ OSHMPI_STATIC_INLINE_PREFIX void coll_acquire_comm(int PE_start, int logPE_strid
 
     OSHMPI_CALLMPI(MPI_Group_incl
                    (OSHMPI_global.team_world_group, PE_size, pe_list, &strided_group));
+    /* MPI_Comm_create_group does not serve active messages while waiting for others. */
+    coll_gather_active_set(pe_list, PE_size);
+
     /* Only collective on the strided_group. */
     OSHMPI_CALLMPI(MPI_Comm_create_group
                    (OSHMPI_global.team_world_comm, strided_group, PE_start /* tag */ , comm));
-- 
2.43.0


From 3e81b013ce5a0bb1ccdf418333ed6b364a7f0a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:50 +0000
Subject: [PATCH 27/32] fix: SHMEM_TEAM_SHARED holds the PEs that share memory,
 not all PEs

---
 src/internal/setup_impl.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/internal/setup_impl.c b/src/internal/setup_impl.c
index b2b8240..a9f977a 100644
--- a/src/internal/setup_impl.c
+++ b/src/internal/setup_impl.c
@@ -811,9 +811,9 @@ void OSHMPI_initialize_thread(int required, int *provided)
     OSHMPI_global.team_world->config.num_contexts = 0;
 
     /* Create SHMEM_TEAM_SHARED */
-    OSHMPI_CALLMPI(MPI_Comm_split(OSHMPI_global.team_world_comm, MPI_COMM_TYPE_SHARED,
-                                  OSHMPI_global.team_world_my_pe,
-                                  &(OSHMPI_global.team_shared_comm)));
+    OSHMPI_CALLMPI(MPI_Comm_split_type(OSHMPI_global.team_world_comm, MPI_COMM_TYPE_SHARED,
+                                       OSHMPI_global.team_world_my_pe, MPI_INFO_NULL,
+                                       &(OSHMPI_global.team_shared_comm)));
     OSHMPI_CALLMPI(MPI_Comm_size(OSHMPI_global.team_shared_comm, &OSHMPI_global.team_shared_n_pes));
     OSHMPI_CALLMPI(MPI_Comm_rank(OSHMPI_global.team_shared_comm, &OSHMPI_global.team_shared_my_pe));
     OSHMPI_CALLMPI(MPI_Comm_group(OSHMPI_global.team_shared_comm,
-- 
2.43.0


From 859b4863888b6b37e4f73a5a51946f68141a3827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:10 +0000
Subject: [PATCH 28/32] fix: serve active messages in polling calls (test_lock,
 get, quiet, direct fetching AMOs)

A PE that polled with shmem_test_lock, a blocking get, get_nbi+quiet or a
direct fetching atomic never handled active messages, so a PE whose atomic
targets the polling PE hung forever.
---
 src/internal/amo_impl.h   | 6 ++++++
 src/internal/lock_impl.h  | 3 +++
 src/internal/order_impl.h | 4 ++++
 src/internal/rma_impl.h   | 4 ++++
 4 files changed, 17 insertions(+)

diff --git a/src/internal/amo_impl.h b/src/internal/amo_impl.h
index d800246..b0f86be 100644
--- a/src/internal/amo_impl.h
+++ b/src/internal/amo_impl.h
@@ -29,6 +29,9 @@ OSHMPI_STATIC_INLINE_PREFIX void ctx_fetch_op_impl(OSHMPI_ictx_t * ictx,
         OSHMPI_SET_OUTSTANDING_OP(ictx, OSHMPI_OP_COMPLETED);   /* FETCH-only is always completed */
     else
         OSHMPI_SET_OUTSTANDING_OP(ictx, OSHMPI_OP_OUTSTANDING);
+
+    /* A PE that polls with this call must still serve the active messages sent to it */
+    OSHMPI_am_cb_progress();
 }
 
 OSHMPI_STATIC_INLINE_PREFIX void ctx_set_op_impl(OSHMPI_ictx_t * ictx,
@@ -69,6 +72,9 @@ OSHMPI_STATIC_INLINE_PREFIX void ctx_cswap_impl(OSHMPI_ictx_t * ictx,
     ctx_local_complete_impl(pe, ictx);
 
     OSHMPI_SET_OUTSTANDING_OP(ictx, OSHMPI_OP_OUTSTANDING);     /* remote SWAP is outstanding */
+
+    /* A PE that polls with this call must still serve the active messages sent to it */
+    OSHMPI_am_cb_progress();
 }
 
 OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_amo_cswap(shmem_ctx_t ctx
diff --git a/src/internal/lock_impl.h b/src/internal/lock_impl.h
index 2d5d3f9..cdccb00 100644
--- a/src/internal/lock_impl.h
+++ b/src/internal/lock_impl.h
@@ -167,6 +167,9 @@ OSHMPI_STATIC_INLINE_PREFIX int OSHMPI_test_lock(long *lockp)
         OSHMPI_DBGMSG("locked %p, curid=%d\n", lockp, curid - 1);
         return 0;
     }
+
+    /* The holder may need active messages to be served here before it can release the lock */
+    OSHMPI_am_cb_progress();
     return 1;
 }
 
diff --git a/src/internal/order_impl.h b/src/internal/order_impl.h
index 9a64120..2dd7872 100644
--- a/src/internal/order_impl.h
+++ b/src/internal/order_impl.h
@@ -76,6 +76,8 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_ctx_quiet(shmem_ctx_t ctx)
         ctx_flush_impl(&(((OSHMPI_ctx_t *) ctx)->ictx));
         /* Ensure AM completion (e.g., AM AMOs) */
         OSHMPI_am_flush_all(ctx);
+        /* A PE that polls with this call must still serve the active messages sent to it */
+        OSHMPI_am_cb_progress();
         return;
     }
 #ifdef OSHMPI_ENABLE_DYNAMIC_WIN
@@ -103,6 +105,8 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_ctx_quiet(shmem_ctx_t ctx)
 
     /* Ensure AM completion (e.g., AM AMOs) */
     OSHMPI_am_flush_all(ctx);
+    /* A PE that polls with this call must still serve the active messages sent to it */
+    OSHMPI_am_cb_progress();
 }
 
 #endif /* INTERNAL_ORDER_IMPL_H */
diff --git a/src/internal/rma_impl.h b/src/internal/rma_impl.h
index 09463a6..ccd4dd1 100644
--- a/src/internal/rma_impl.h
+++ b/src/internal/rma_impl.h
@@ -213,6 +213,8 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_ctx_get(shmem_ctx_t ctx,
         ctx_get_nbi_impl(ictx, mpi_type, mpi_type, origin_addr, target_addr,
                          nelems, nelems, pe, OSHMPI_OP_COMPLETED, sobj_attr);
         ctx_local_complete_impl(pe, ictx);
+        /* A PE that polls with this call must still serve the active messages sent to it */
+        OSHMPI_am_cb_progress();
     } else
         OSHMPI_rma_am_get(ictx, mpi_type, typesz, origin_addr, target_addr, nelems, pe, sobj_attr);
 }
@@ -237,6 +239,8 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_ctx_iget(shmem_ctx_t ctx,
         ctx_iget_nbi_impl(ictx, mpi_type, origin_addr, target_addr,
                           origin_st, target_st, nelems, pe, OSHMPI_OP_COMPLETED, sobj_attr);
         ctx_local_complete_impl(pe, ictx);
+        /* A PE that polls with this call must still serve the active messages sent to it */
+        OSHMPI_am_cb_progress();
     } else
         OSHMPI_rma_am_iget(ictx, mpi_type, mpi_type_idx, origin_addr, target_addr,
                            origin_st, target_st, nelems, pe, sobj_attr);
-- 
2.43.0


From 98caefcd43e4b45a269d99ced1dcc93f81e261ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:43 +0000
Subject: [PATCH 29/32] fix: no AM progress when both direct AMO and direct RMA
 are set at configure

---
 src/internal/am_impl.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/internal/am_impl.c b/src/internal/am_impl.c
index 08a4905..e3b35a8 100644
--- a/src/internal/am_impl.c
+++ b/src/internal/am_impl.c
@@ -286,6 +286,10 @@ void OSHMPI_am_finalize(void)
 
 void OSHMPI_am_cb_progress(void)
 {
+    /* AM is not used if direct AMO is enabled and direct RMA is set at configure. */
+    if (OSHMPI_ENABLE_DIRECT_AMO_RUNTIME && OSHMPI_ENABLE_DIRECT_RMA_CONFIG)
+        return;
+
     /* Make manual progress only when async thread is disabled */
     if (OSHMPI_ENABLE_AM_ASYNC_THREAD_RUNTIME)
         return;
-- 
2.43.0


From 17ae7c6d60fbe13d5da3984c1140f3565cf8c889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:43 +0000
Subject: [PATCH 30/32] fix: translate the lock's next field per PE (absolute
 displacements of dynamic windows)

---
 src/internal/lock_impl.h | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/internal/lock_impl.h b/src/internal/lock_impl.h
index cdccb00..c883c21 100644
--- a/src/internal/lock_impl.h
+++ b/src/internal/lock_impl.h
@@ -24,6 +24,20 @@ typedef struct OSHMPI_lock_s {
                                  * other bits: next pe who is waiting on me to release this lock */
 } OSHMPI_lock_t;
 
+/* Displacement of the next field on the specified PE. It may differ between PEs
+ * when absolute displacements are used. */
+OSHMPI_STATIC_INLINE_PREFIX MPI_Aint lock_get_next_disp(OSHMPI_lock_t * lock, int pe,
+                                                        OSHMPI_sobj_attr_t * sobj_attr,
+                                                        OSHMPI_ictx_t * ictx)
+{
+    MPI_Aint disp = -1;
+
+    OSHMPI_sobj_trans_vaddr_to_disp(sobj_attr, (const void *) &lock->next, pe,
+                                    OSHMPI_ICTX_DISP_MODE(ictx), &disp);
+    OSHMPI_ASSERT(disp >= 0);
+    return disp;
+}
+
 OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_set_lock(long *lockp)
 {
     int myid = OSHMPI_global.team_world_my_pe + 1;
@@ -46,7 +60,7 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_set_lock(long *lockp)
                                     OSHMPI_ICTX_DISP_MODE(ictx), &lock_last_disp);
     OSHMPI_ASSERT(lock_last_disp >= 0);
 
-    lock_next_disp = lock_last_disp + sizeof(int);
+    lock_next_disp = lock_get_next_disp(lock, OSHMPI_global.team_world_my_pe, sobj_attr, ictx);
 
     /* Reset my local bits. No one accesses to my next bits now. */
     lock->next = 0;
@@ -61,7 +75,8 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_set_lock(long *lockp)
 
     /* If I am not the last, notify the previous last about me, and wait for release */
     if (curid != zero) {
-        OSHMPI_CALLMPI(MPI_Accumulate(&next, 1, MPI_UNSIGNED, curid - 1, lock_next_disp,
+        OSHMPI_CALLMPI(MPI_Accumulate(&next, 1, MPI_UNSIGNED, curid - 1,
+                                      lock_get_next_disp(lock, curid - 1, sobj_attr, ictx),
                                       1, MPI_UNSIGNED, MPI_BOR, ictx->win));
         OSHMPI_CALLMPI(MPI_Win_flush(curid - 1, ictx->win));
 
@@ -101,7 +116,7 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_clear_lock(long *lockp)
                                     OSHMPI_ICTX_DISP_MODE(ictx), &lock_last_disp);
     OSHMPI_ASSERT(lock_last_disp >= 0);
 
-    lock_next_disp = lock_last_disp + sizeof(int);
+    lock_next_disp = lock_get_next_disp(lock, OSHMPI_global.team_world_my_pe, sobj_attr, ictx);
 
     /* Ensure that accesses issued in the critical section are completed before the release */
     OSHMPI_ctx_quiet(SHMEM_CTX_DEFAULT);
@@ -131,8 +146,9 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_clear_lock(long *lockp)
         OSHMPI_CALLMPI(MPI_Win_sync(ictx->win));
 
         /* Set next PE's signal bit */
-        OSHMPI_CALLMPI(MPI_Accumulate(&signal, 1, MPI_UNSIGNED, nextid - 1, lock_next_disp, 1,
-                                      MPI_UNSIGNED, MPI_BOR, ictx->win));
+        OSHMPI_CALLMPI(MPI_Accumulate(&signal, 1, MPI_UNSIGNED, nextid - 1,
+                                      lock_get_next_disp(lock, nextid - 1, sobj_attr, ictx),
+                                      1, MPI_UNSIGNED, MPI_BOR, ictx->win));
         OSHMPI_CALLMPI(MPI_Win_flush(nextid - 1, ictx->win));
         OSHMPI_DBGMSG("pass lock %p to %d\n", lockp, nextid - 1);
     }
-- 
2.43.0


From ee9b0d174af3d5e5368a2250a3edf64f8599b1a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:43 +0000
Subject: [PATCH 31/32] fix: page-align the separately allocated symmetric heap
 so that offsets agree on all PEs

---
 src/internal/setup_impl.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/internal/setup_impl.c b/src/internal/setup_impl.c
index a9f977a..92c84c5 100644
--- a/src/internal/setup_impl.c
+++ b/src/internal/setup_impl.c
@@ -174,9 +174,11 @@ static void attach_symm_heap(void)
     OSHMPI_global.symm_heap_true_size = true_size;
 
     /* Try to allocate symmetric heap. If fails, allocate separate heap
-     * and check if the start address is the same. */
-    if (OSHMPIU_allocate_symm_mem(true_size, &base))
-        base = OSHMPIU_malloc(true_size);
+     * and check if the start address is the same. The separate heaps have to
+     * start at a page so that aligned blocks have the same offset on all PEs. */
+    if (OSHMPIU_allocate_symm_mem(true_size, &base) &&
+        posix_memalign(&base, OSHMPI_global.page_sz, true_size))
+        base = NULL;
     OSHMPI_ASSERT(base);
 
     /* Setup sobj attributes */
-- 
2.43.0


From 7e29d442e536c5e2a305b6933add4bbfaadbfc13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:43 +0000
Subject: [PATCH 32/32] fix: keep the flags of outstanding operations under
 THREAD_MULTIPLE

---
 src/include/oshmpi_impl.h  | 9 +++++++++
 src/internal/am_impl.h     | 7 ++-----
 src/internal/amo_am_impl.h | 4 ++--
 src/internal/order_impl.h  | 2 +-
 src/internal/rma_am_impl.h | 4 ++--
 5 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/include/oshmpi_impl.h b/src/include/oshmpi_impl.h
index f2b3550..d49bef4 100644
--- a/src/include/oshmpi_impl.h
+++ b/src/include/oshmpi_impl.h
@@ -830,6 +830,15 @@ enum {
 #endif
 
 
+/* Reset a flag of outstanding operations after they are completed.
+ * Threaded: another thread might have issued an operation and set the flag
+ * meanwhile, or might have yet to complete its operations in a flush of its own,
+ * thus the flag remains set. */
+#define OSHMPI_RESET_OUTSTANDING_FLAG(flag) do {                    \
+        if (OSHMPI_global.thread_level != SHMEM_THREAD_MULTIPLE)    \
+            OSHMPIU_ATOMIC_FLAG_STORE(flag, 0);                     \
+        } while (0)
+
 OSHMPI_STATIC_INLINE_PREFIX size_t OSHMPI_get_mspace_sz(size_t bufsz)
 {
     size_t mspace_sz = 0;
diff --git a/src/internal/am_impl.h b/src/internal/am_impl.h
index 31fc366..154dff4 100644
--- a/src/internal/am_impl.h
+++ b/src/internal/am_impl.h
@@ -70,13 +70,10 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_am_flush(shmem_ctx_t ctx OSHMPI_ATTRIBUT
     OSHMPI_am_progress_mpi_waitall(nreqs, reqs, MPI_STATUS_IGNORE);
     OSHMPIU_free(reqs);
 
-    /* Reset all flags
-     * Threaded: the flag might be concurrently updated by another thread,
-     * however, the user must use additional thread sync to ensure a flush
-     * completes the specific AMO. */
+    /* Reset all flags */
     for (i = 0; i < PE_size; i++) {
         pe = PE_start + i * pe_stride;
-        OSHMPIU_ATOMIC_FLAG_STORE(OSHMPI_am.outstanding_op_flags[pe], 0);
+        OSHMPI_RESET_OUTSTANDING_FLAG(OSHMPI_am.outstanding_op_flags[pe]);
     }
 }
 
diff --git a/src/internal/amo_am_impl.h b/src/internal/amo_am_impl.h
index 25834a9..4b750c7 100644
--- a/src/internal/amo_am_impl.h
+++ b/src/internal/amo_am_impl.h
@@ -45,7 +45,7 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_amo_am_cswap(OSHMPI_ictx_t * ictx,
 
     /* Reset flag since remote PE should have finished previous post
      * before handling this fetch. */
-    OSHMPIU_ATOMIC_FLAG_STORE(OSHMPI_am.outstanding_op_flags[pe], 0);
+    OSHMPI_RESET_OUTSTANDING_FLAG(OSHMPI_am.outstanding_op_flags[pe]);
 }
 
 /* Issue a fetch (with op) operation. Blocking wait until return of old value. */
@@ -88,7 +88,7 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_amo_am_fetch(OSHMPI_ictx_t * ictx,
 
     /* Reset flag since remote PE should have finished previous post
      * before handling this fetch. */
-    OSHMPIU_ATOMIC_FLAG_STORE(OSHMPI_am.outstanding_op_flags[pe], 0);
+    OSHMPI_RESET_OUTSTANDING_FLAG(OSHMPI_am.outstanding_op_flags[pe]);
 }
 
 /* Issue a post operation. Return immediately after sent AMO packet */
diff --git a/src/internal/order_impl.h b/src/internal/order_impl.h
index 2dd7872..adafc96 100644
--- a/src/internal/order_impl.h
+++ b/src/internal/order_impl.h
@@ -15,7 +15,7 @@
 #endif
 
 #ifdef OSHMPI_ENABLE_OP_TRACKING
-#define RESET_FLAG(flag) do {OSHMPIU_ATOMIC_FLAG_STORE(flag, 0);} while (0)
+#define RESET_FLAG(flag) OSHMPI_RESET_OUTSTANDING_FLAG(flag)
 #else
 #define RESET_FLAG(flag) do {} while (0)
 #endif
diff --git a/src/internal/rma_am_impl.h b/src/internal/rma_am_impl.h
index 4089087..03c29da 100644
--- a/src/internal/rma_am_impl.h
+++ b/src/internal/rma_am_impl.h
@@ -77,7 +77,7 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_rma_am_get(OSHMPI_ictx_t * ictx,
 
     /* Reset flag since remote PE should have finished previous put
      * before handling this get. */
-    OSHMPIU_ATOMIC_FLAG_STORE(OSHMPI_am.outstanding_op_flags[pe], 0);
+    OSHMPI_RESET_OUTSTANDING_FLAG(OSHMPI_am.outstanding_op_flags[pe]);
 }
 
 /* Issue a strided PUT operation. Return immediately after sent PUT packet (local complete) */
@@ -169,7 +169,7 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_rma_am_iget(OSHMPI_ictx_t * ictx,
 
     /* Reset flag since remote PE should have finished previous put
      * before handling this get. */
-    OSHMPIU_ATOMIC_FLAG_STORE(OSHMPI_am.outstanding_op_flags[pe], 0);
+    OSHMPI_RESET_OUTSTANDING_FLAG(OSHMPI_am.outstanding_op_flags[pe]);
     OSHMPI_free_strided_dtype(mpi_type, &origin_type);
 }
 
-- 
2.43.0

