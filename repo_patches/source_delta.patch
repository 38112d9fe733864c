From 0bfd83c9d9213bc4f1b44102155b8108d4161628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:26 +0000
Subject: [PATCH 01/37] fix: list, slist: swap contents only, so that nodes
 follow their new list

---
 src/list/list_swap.c   | 27 +++++++++++++++++++++++----
 src/slist/slist_swap.c | 27 +++++++++++++++++++++++----
 2 files changed, 46 insertions(+), 8 deletions(-)

diff --git a/src/list/list_swap.c b/src/list/list_swap.c
index 3da3287..51bb134 100644
--- a/src/list/list_swap.c
+++ b/src/list/list_swap.c
@@ -38,15 +38,34 @@ RCPR_IMPORT_list_internal;
  */
 void RCPR_SYM(list_swap)(RCPR_SYM(list)* left, RCPR_SYM(list)* right)
 {
-    list tmp;
+    list_node* head;
+    list_node* tail;
+    size_t count;
 
     /* parameter sanity checks. */
     RCPR_MODEL_ASSERT(prop_list_valid(left));
     RCPR_MODEL_ASSERT(prop_list_valid(right));
 
-    memcpy(&tmp, left, sizeof(tmp));
-    memcpy(left, right, sizeof(tmp));
-    memcpy(right, &tmp, sizeof(tmp));
+    /* swap the contents, but not the identities, of these two instances. */
+    head = left->head;
+    tail = left->tail;
+    count = left->count;
+    left->head = right->head;
+    left->tail = right->tail;
+    left->count = right->count;
+    right->head = head;
+    right->tail = tail;
+    right->count = count;
+
+    /* each node is now owned by the instance that holds it. */
+    for (list_node* n = left->head; NULL != n; n = n->next)
+    {
+        n->parent = left;
+    }
+    for (list_node* n = right->head; NULL != n; n = n->next)
+    {
+        n->parent = right;
+    }
 
     /* postcondition sanity checks. */
     RCPR_MODEL_ASSERT(prop_list_valid(left));
diff --git a/src/slist/slist_swap.c b/src/slist/slist_swap.c
index 0a3ae3b..371eba6 100644
--- a/src/slist/slist_swap.c
+++ b/src/slist/slist_swap.c
@@ -38,15 +38,34 @@ RCPR_IMPORT_slist_internal;
  */
 void RCPR_SYM(slist_swap)(RCPR_SYM(slist)* left, RCPR_SYM(slist)* right)
 {
-    slist tmp;
+    slist_node* head;
+    slist_node* tail;
+    size_t count;
 
     /* parameter sanity checks. */
     RCPR_MODEL_ASSERT(prop_slist_valid(left));
     RCPR_MODEL_ASSERT(prop_slist_valid(right));
 
-    memcpy(&tmp, left, sizeof(tmp));
-    memcpy(left, right, sizeof(tmp));
-    memcpy(right, &tmp, sizeof(tmp));
+    /* swap the contents, but not the identities, of these two instances. */
+    head = left->head;
+    tail = left->tail;
+    count = left->count;
+    left->head = right->head;
+    left->tail = right->tail;
+    left->count = right->count;
+    right->head = head;
+    right->tail = tail;
+    right->count = count;
+
+    /* each node is now owned by the instance that holds it. */
+    for (slist_node* n = left->head; NULL != n; n = n->next)
+    {
+        n->parent = left;
+    }
+    for (slist_node* n = right->head; NULL != n; n = n->next)
+    {
+        n->parent = right;
+    }
 
     /* postcondition sanity checks. */
     RCPR_MODEL_ASSERT(prop_slist_valid(left));
-- 
2.43.0


From d898949cdc849d492a4168971b66929895ee0ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:26 +0000
Subject: [PATCH 02/37] fix: list, slist: keep the error when releasing a
 popped node fails

---
 src/list/list_pop.c             | 11 +++++++----
 src/slist/slist_node_next_pop.c | 11 +++++++----
 src/slist/slist_pop.c           | 11 +++++++----
 3 files changed, 21 insertions(+), 12 deletions(-)

diff --git a/src/list/list_pop.c b/src/list/list_pop.c
index f11d2b7..5992db1 100644
--- a/src/list/list_pop.c
+++ b/src/list/list_pop.c
@@ -109,11 +109,14 @@ RCPR_SYM(list_pop)(
             *r = NULL;
 
             /* clean up the resource, if possible. */
-            retval = resource_release(cleanup_resource);
-            if (STATUS_SUCCESS != retval)
+            if (NULL != cleanup_resource)
             {
-                /* bubble up the error for the resource release first. */
-                return retval;
+                status cleanup_retval = resource_release(cleanup_resource);
+                if (STATUS_SUCCESS != cleanup_retval)
+                {
+                    /* bubble up the error for the resource release first. */
+                    return cleanup_retval;
+                }
             }
 
             /* return the status to the caller. */
diff --git a/src/slist/slist_node_next_pop.c b/src/slist/slist_node_next_pop.c
index ddf8cb8..649bcf0 100644
--- a/src/slist/slist_node_next_pop.c
+++ b/src/slist/slist_node_next_pop.c
@@ -108,11 +108,14 @@ RCPR_SYM(slist_node_next_pop)(
             *r = NULL;
 
             /* clean up the resource, if possible. */
-            retval = resource_release(cleanup_resource);
-            if (STATUS_SUCCESS != retval)
+            if (NULL != cleanup_resource)
             {
-                /* bubble up the error for the resource release first. */
-                return retval;
+                status cleanup_retval = resource_release(cleanup_resource);
+                if (STATUS_SUCCESS != cleanup_retval)
+                {
+                    /* bubble up the error for the resource release first. */
+                    return cleanup_retval;
+                }
             }
 
             /* return the status to the caller. */
diff --git a/src/slist/slist_pop.c b/src/slist/slist_pop.c
index fb52528..f1c773d 100644
--- a/src/slist/slist_pop.c
+++ b/src/slist/slist_pop.c
@@ -104,11 +104,14 @@ RCPR_SYM(slist_pop)(
             *r = NULL;
 
             /* clean up the resource, if possible. */
-            retval = resource_release(cleanup_resource);
-            if (STATUS_SUCCESS != retval)
+            if (NULL != cleanup_resource)
             {
-                /* bubble up the error for the resource release first. */
-                return retval;
+                status cleanup_retval = resource_release(cleanup_resource);
+                if (STATUS_SUCCESS != cleanup_retval)
+                {
+                    /* bubble up the error for the resource release first. */
+                    return cleanup_retval;
+                }
             }
 
             /* return the status to the caller. */
-- 
2.43.0


From 5b6c267c95b303f8e649e9939809c0b040886bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:26 +0000
Subject: [PATCH 03/37] fix: list, slist: a list left partly cleared by a
 failed clear stays valid

---
 src/list/list_clear.c   | 10 ++++++++++
 src/slist/slist_clear.c |  6 ++++++
 2 files changed, 16 insertions(+)

diff --git a/src/list/list_clear.c b/src/list/list_clear.c
index c63f301..7978294 100644
--- a/src/list/list_clear.c
+++ b/src/list/list_clear.c
@@ -43,6 +43,16 @@ RCPR_SYM(list_clear)(RCPR_SYM(list)* l)
         l->head = l->head->next;
         l->count -= 1U;
 
+        /* the list must remain valid if cleaning up this node fails. */
+        if (NULL != l->head)
+        {
+            l->head->prev = NULL;
+        }
+        else
+        {
+            l->tail = NULL;
+        }
+
         t->parent = NULL;
         t->next = NULL;
         t->prev = NULL;
diff --git a/src/slist/slist_clear.c b/src/slist/slist_clear.c
index cdf0ae1..71d711d 100644
--- a/src/slist/slist_clear.c
+++ b/src/slist/slist_clear.c
@@ -42,6 +42,12 @@ RCPR_SYM(slist_clear)(RCPR_SYM(slist)* l)
         l->head = l->head->next;
         l->count -= 1U;
 
+        /* the list must remain valid if cleaning up this node fails. */
+        if (NULL == l->head)
+        {
+            l->tail = NULL;
+        }
+
         t->parent = NULL;
         t->next = NULL;
 
-- 
2.43.0


From da013644563bf0de8b799486ce834a14a09d6462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:45 +0000
Subject: [PATCH 04/37] fix: malloc allocator: resizing to zero bytes no longer
 frees the caller's region

---
 src/allocator/malloc_allocator_create.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/allocator/malloc_allocator_create.c b/src/allocator/malloc_allocator_create.c
index 4f43872..4863367 100644
--- a/src/allocator/malloc_allocator_create.c
+++ b/src/allocator/malloc_allocator_create.c
@@ -243,8 +243,9 @@ static status malloc_allocator_reallocate(
     RCPR_MODEL_ASSERT(property_allocator_valid(alloc));
     RCPR_MODEL_ASSERT(NULL != ptr);
 
-    /* attempt to reallocate memory. */
-    void* newptr = realloc(*ptr, size);
+    /* attempt to reallocate memory. A size of zero is rounded up, because
+     * realloc would otherwise free the region that the caller still owns. */
+    void* newptr = realloc(*ptr, (0 == size) ? 1 : size);
     if (NULL == newptr)
     {
         return ERROR_GENERAL_OUT_OF_MEMORY;
-- 
2.43.0


From 52394fc8166604d7a251b99a8b2426376f15b699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:45 +0000
Subject: [PATCH 05/37] fix: bump allocator: a huge request no longer wraps
 around, and a refused one yields NULL

---
 src/allocator/bump_allocator_create.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/allocator/bump_allocator_create.c b/src/allocator/bump_allocator_create.c
index 5ba25f9..f2f6b39 100644
--- a/src/allocator/bump_allocator_create.c
+++ b/src/allocator/bump_allocator_create.c
@@ -184,14 +184,14 @@ static status bump_allocator_allocate(
 
     /* verify that this computed offset does not exceed the total size of this
      * memory region. */
-    size_t bump_offset = mem_offset + size;
-    if (bump_offset >= bump->max_size)
+    if (mem_offset >= bump->max_size || size >= bump->max_size - mem_offset)
     {
+        *ptr = NULL;
         return ERROR_GENERAL_OUT_OF_MEMORY;
     }
 
     /* bump the allocator. */
-    bump->offset = bump_offset;
+    bump->offset = mem_offset + size;
 
     /* success. */
     *ptr = (bump->region + mem_offset);
-- 
2.43.0


From ac8e1858b76fa8781e6262cfdf8ae6a46ac42369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:19 +0000
Subject: [PATCH 06/37] fix: rbtree: deletion fix-up must run until the root
 and look at the sibling's color

---
 src/rbtree/rbtree_delete_fixup.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rbtree/rbtree_delete_fixup.c b/src/rbtree/rbtree_delete_fixup.c
index 4e746e9..5e56edb 100644
--- a/src/rbtree/rbtree_delete_fixup.c
+++ b/src/rbtree/rbtree_delete_fixup.c
@@ -25,7 +25,7 @@ void
 RCPR_SYM(rbtree_delete_fixup)(
     RCPR_SYM(rbtree)* tree, RCPR_SYM(rbtree_node)* x)
 {
-    while (x != tree->nil && x->color == RBTREE_BLACK)
+    while (x != tree->root && x->color == RBTREE_BLACK)
     {
         if (x == x->parent->left)
         {
@@ -66,7 +66,7 @@ RCPR_SYM(rbtree_delete_fixup)(
         {
             rbtree_node* w = x->parent->left;
 
-            if (x->color == RBTREE_RED)
+            if (w->color == RBTREE_RED)
             {
                 w->color = RBTREE_BLACK;
                 x->parent->color = RBTREE_RED;
-- 
2.43.0


From 11b05f894a9d1b97462d115cb4befd3a513e3b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:56 +0000
Subject: [PATCH 07/37] fix: rbtree: swap contents only, so that each tree
 keeps its own nil node and memory

---
 src/rbtree/rbtree_swap.c | 55 ++++++++++++++++++++++++++++++++++++++--
 1 file changed, 53 insertions(+), 2 deletions(-)

diff --git a/src/rbtree/rbtree_swap.c b/src/rbtree/rbtree_swap.c
index 1055af1..fc137b0 100644
--- a/src/rbtree/rbtree_swap.c
+++ b/src/rbtree/rbtree_swap.c
@@ -15,6 +15,10 @@
 RCPR_IMPORT_rbtree;
 RCPR_IMPORT_rbtree_internal;
 
+/* forward decls. */
+static void nil_replace(
+    rbtree_node* node, rbtree_node* old_nil, rbtree_node* new_nil);
+
 /**
  * \brief Swap the contents of two rbtree instances.
  *
@@ -42,11 +46,58 @@ void RCPR_SYM(rbtree_swap)(RCPR_SYM(rbtree)* left, RCPR_SYM(rbtree)* right)
     RCPR_MODEL_ASSERT(prop_rbtree_valid(left));
     RCPR_MODEL_ASSERT(prop_rbtree_valid(right));
 
+    /* swap the contents, but not the identities, of these two instances. */
     memcpy(&tmp, left, sizeof(tmp));
-    memcpy(left, right, sizeof(tmp));
-    memcpy(right, &tmp, sizeof(tmp));
+    left->context = right->context;
+    left->compare = right->compare;
+    left->key = right->key;
+    left->root = right->root;
+    left->count = right->count;
+    right->context = tmp.context;
+    right->compare = tmp.compare;
+    right->key = tmp.key;
+    right->root = tmp.root;
+    right->count = tmp.count;
+
+    /* the nodes must now refer to the nil node of the tree that holds them. */
+    if (left != right)
+    {
+        if (left->root == right->nil)
+            left->root = left->nil;
+        else
+            nil_replace(left->root, right->nil, left->nil);
+
+        if (right->root == left->nil)
+            right->root = right->nil;
+        else
+            nil_replace(right->root, left->nil, right->nil);
+    }
 
     /* postcondition sanity checks. */
     RCPR_MODEL_ASSERT(prop_rbtree_valid(left));
     RCPR_MODEL_ASSERT(prop_rbtree_valid(right));
 }
+
+/**
+ * \brief Replace references to one nil node with another in the given subtree.
+ *
+ * \param node          The root of the subtree.
+ * \param old_nil       The nil node to be replaced.
+ * \param new_nil       The nil node replacing it.
+ */
+static void nil_replace(
+    rbtree_node* node, rbtree_node* old_nil, rbtree_node* new_nil)
+{
+    if (node->parent == old_nil)
+        node->parent = new_nil;
+
+    if (node->left == old_nil)
+        node->left = new_nil;
+    else
+        nil_replace(node->left, old_nil, new_nil);
+
+    if (node->right == old_nil)
+        node->right = new_nil;
+    else
+        nil_replace(node->right, old_nil, new_nil);
+}
-- 
2.43.0


From 7b66d69e68e76caed2090865c6460d1d4f32dd3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:13 +0000
Subject: [PATCH 08/37] fix: uuid: a failed parse no longer overwrites the
 caller's uuid

---
 src/uuid/rcpr_uuid_parse_raw_string.c | 6 ++++++
 src/uuid/rcpr_uuid_parse_string.c     | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/src/uuid/rcpr_uuid_parse_raw_string.c b/src/uuid/rcpr_uuid_parse_raw_string.c
index b4ef9e4..560216c 100644
--- a/src/uuid/rcpr_uuid_parse_raw_string.c
+++ b/src/uuid/rcpr_uuid_parse_raw_string.c
@@ -53,11 +53,16 @@ RCPR_SYM(rcpr_uuid_parse_raw_string)(
     RCPR_SYM(rcpr_uuid)* uuid, const char* str, size_t length)
 {
     uint8_t ignore;
+    rcpr_uuid tmp;
+    rcpr_uuid* out = uuid;
 
     /* parameter sanity checks. */
     RCPR_MODEL_ASSERT(prop_uuid_valid(uuid));
     RCPR_MODEL_ASSERT(NULL != str);
 
+    /* parse into a temporary value, so that uuid is unchanged on failure. */
+    uuid = &tmp;
+
     /* verify that the string is not NULL. */
     if (NULL == str) goto fail;
 
@@ -103,6 +108,7 @@ RCPR_SYM(rcpr_uuid_parse_raw_string)(
     if (!try_read_hex_byte(&str, uuid->data + 15)) goto fail;
 
     /* if we've made it here, we've successfully parsed a uuid string. */
+    *out = tmp;
     return STATUS_SUCCESS;
 
 fail:
diff --git a/src/uuid/rcpr_uuid_parse_string.c b/src/uuid/rcpr_uuid_parse_string.c
index d18f04a..de07b9a 100644
--- a/src/uuid/rcpr_uuid_parse_string.c
+++ b/src/uuid/rcpr_uuid_parse_string.c
@@ -48,11 +48,16 @@ RCPR_SYM(rcpr_uuid_parse_string)(
     RCPR_SYM(rcpr_uuid)* uuid, const char* str)
 {
     uint8_t ignore;
+    rcpr_uuid tmp;
+    rcpr_uuid* out = uuid;
 
     /* parameter sanity checks. */
     RCPR_MODEL_ASSERT(prop_uuid_valid(uuid));
     RCPR_MODEL_ASSERT(NULL != str);
 
+    /* parse into a temporary value, so that uuid is unchanged on failure. */
+    uuid = &tmp;
+
     /* verify that the string is not NULL. */
     if (NULL == str) goto fail;
 
@@ -98,6 +103,7 @@ RCPR_SYM(rcpr_uuid_parse_string)(
     if (0 != *str) goto fail;
 
     /* if we've made it here, we've successfully parsed a uuid string. */
+    *out = tmp;
     return STATUS_SUCCESS;
 
 fail:
-- 
2.43.0


From 268d841621723c5e6ebebe88101af314e5db0371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:24 +0000
Subject: [PATCH 09/37] fix: psock: refuse boxed data whose size does not fit
 in the packet's size field

---
 src/psock/psock_write_boxed_data.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/psock/psock_write_boxed_data.c b/src/psock/psock_write_boxed_data.c
index 93b414f..2a7e20e 100644
--- a/src/psock/psock_write_boxed_data.c
+++ b/src/psock/psock_write_boxed_data.c
@@ -55,6 +55,12 @@ RCPR_SYM(psock_write_boxed_data)(
     RCPR_MODEL_ASSERT(NULL != data);
     RCPR_MODEL_ASSERT(data_size <= UINT32_MAX);
 
+    /* the size must fit in the packet's size field. */
+    if (data_size > UINT32_MAX)
+    {
+        return ERROR_PSOCK_WRITE_INVALID_SIZE;
+    }
+
     /* attempt to write the type to the socket. */
     retval = psock_write_raw_uint32(sock, PSOCK_BOXED_TYPE_DATA);
     if (STATUS_SUCCESS != retval)
-- 
2.43.0


From 6235c0219b6cfffdb3f0b00895fdd72778a7b333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:40 +0000
Subject: [PATCH 10/37] fix: psock: an output buffer stream accounts for every
 byte it accepts, and for no other, when memory runs out

---
 src/psock/psock_from_buffer_write.c | 68 ++++++++++++++++++++---------
 1 file changed, 47 insertions(+), 21 deletions(-)

diff --git a/src/psock/psock_from_buffer_write.c b/src/psock/psock_from_buffer_write.c
index 336ada5..7e7a052 100644
--- a/src/psock/psock_from_buffer_write.c
+++ b/src/psock/psock_from_buffer_write.c
@@ -53,6 +53,7 @@ status RCPR_SYM(psock_from_buffer_write)(
     size_t total_size = 0;
     psock_output_buffer_node* ob = NULL;
     void* large_buffer = NULL;
+    char* new_buffer = NULL;
 
     /* parameter sanity checks. */
     RCPR_MODEL_ASSERT(prop_psock_valid(sock));
@@ -82,15 +83,21 @@ status RCPR_SYM(psock_from_buffer_write)(
         copy_size = *size;
     }
     memcpy(pb->output_curr_buffer + pb->buffer_write_offset, data, copy_size);
-    data = ((uint8_t*)data) + copy_size;
-    total_size += copy_size;
-    pb->buffer_write_offset += copy_size;
-    *size -= copy_size;
 
     /* if the current buffer is full, append it to the output queue and reset
      * the buffer. */
-    if (pb->buffer_write_offset >= pb->output_buffer_size)
+    if (pb->buffer_write_offset + copy_size >= pb->output_buffer_size)
     {
+        /* allocate memory for the new buffer first, so that a failure leaves
+         * the stream as it was. */
+        retval =
+            allocator_allocate(
+                sock->alloc, (void**)&new_buffer, PSOCK_BUFFER_SIZE);
+        if (STATUS_SUCCESS != retval)
+        {
+            goto done;
+        }
+
         /* create an output buffer node. */
         retval =
             psock_output_buffer_node_create(
@@ -98,7 +105,7 @@ status RCPR_SYM(psock_from_buffer_write)(
                 pb->output_buffer_size);
         if (STATUS_SUCCESS != retval)
         {
-            goto done;
+            goto cleanup_new_buffer;
         }
 
         /* append this to the tail of the queue. */
@@ -112,24 +119,24 @@ status RCPR_SYM(psock_from_buffer_write)(
             {
                 retval = release_retval;
             }
-            goto done;
+            goto cleanup_new_buffer;
         }
 
-        /* the output current buffer is no longer set. */
-        pb->output_curr_buffer = NULL;
+        /* switch to the new buffer. */
+        pb->output_curr_buffer = new_buffer;
         pb->output_buffer_size = PSOCK_BUFFER_SIZE;
         pb->buffer_write_offset = 0;
-
-        /* allocate memory for the new buffer. */
-        retval =
-            allocator_allocate(
-                sock->alloc, (void**)&pb->output_curr_buffer,
-                pb->output_buffer_size);
-        if (STATUS_SUCCESS != retval)
-        {
-            goto done;
-        }
     }
+    else
+    {
+        pb->buffer_write_offset += copy_size;
+    }
+
+    /* these bytes have been accepted. */
+    data = ((uint8_t*)data) + copy_size;
+    total_size += copy_size;
+    pb->output_buffer_total_size += copy_size;
+    *size -= copy_size;
 
     /* if the remaining size is greater than the current output buffer size,
      * then create and append a buffer equal to that size to save time. */
@@ -139,7 +146,7 @@ status RCPR_SYM(psock_from_buffer_write)(
         retval = allocator_allocate(sock->alloc, (void**)&large_buffer, *size);
         if (STATUS_SUCCESS != retval)
         {
-            goto done;
+            goto short_write;
         }
 
         /* copy data to this buffer. */
@@ -165,6 +172,7 @@ status RCPR_SYM(psock_from_buffer_write)(
         /* fixups. */
         data = ((uint8_t*)data) + *size;
         total_size += *size;
+        pb->output_buffer_total_size += *size;
         *size = 0;
     }
 
@@ -176,13 +184,13 @@ status RCPR_SYM(psock_from_buffer_write)(
             pb->output_curr_buffer + pb->buffer_write_offset, data, copy_size);
         total_size += copy_size;
         pb->buffer_write_offset += copy_size;
+        pb->output_buffer_total_size += copy_size;
         *size -= copy_size;
     }
 
     /* success. */
     RCPR_MODEL_ASSERT(0 == *size);
     *size = total_size;
-    pb->output_buffer_total_size += *size;
     retval = STATUS_SUCCESS;
     goto done;
 
@@ -199,6 +207,24 @@ cleanup_large_buffer:
     {
         retval = release_retval;
     }
+
+short_write:
+    /* the bytes accepted before this failure are reported as a short write. */
+    if (total_size > 0)
+    {
+        *size = total_size;
+        retval = STATUS_SUCCESS;
+    }
+
+    goto done;
+
+cleanup_new_buffer:
+    release_retval = allocator_reclaim(sock->alloc, new_buffer);
+    if (STATUS_SUCCESS != release_retval)
+    {
+        retval = release_retval;
+    }
+
     goto done;
 
 done:
-- 
2.43.0


From 74802a7331e9255c659eb34bca54fc008d29a3b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:13 +0000
Subject: [PATCH 11/37] fix: report the error when a buffered reader cannot be
 created

---
 src/psock/psock_br_create_from_psock.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/psock/psock_br_create_from_psock.c b/src/psock/psock_br_create_from_psock.c
index 27545eb..852bcfc 100644
--- a/src/psock/psock_br_create_from_psock.c
+++ b/src/psock/psock_br_create_from_psock.c
@@ -129,7 +129,7 @@ RCPR_SYM(psock_br_create_from_psock)(
 
 cleanup_tmp:
     release_retval = resource_release(&tmp->hdr.hdr);
-    if (STATUS_SUCCESS != retval)
+    if (STATUS_SUCCESS != release_retval)
     {
         retval = release_retval;
     }
-- 
2.43.0


From 8e759c8a24d56fbf3690f2508e98fcd1777747b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:13 +0000
Subject: [PATCH 12/37] fix: refill the buffered reader only when it is empty,
 so that large reads work and buffered bytes are not lost at the end

---
 src/psock/psock_br_psock_read.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/psock/psock_br_psock_read.c b/src/psock/psock_br_psock_read.c
index ea8e8af..942e486 100644
--- a/src/psock/psock_br_psock_read.c
+++ b/src/psock/psock_br_psock_read.c
@@ -49,8 +49,8 @@ status RCPR_SYM(psock_br_psock_read)(
     uint8_t* bdata = (uint8_t*)data;
 
     do {
-        /* attempt to fill the buffer if we don't have enough bytes. */
-        if (available_bytes < requested_bytes)
+        /* attempt to fill the buffer if it is empty. */
+        if (0 == available_bytes && requested_bytes > 0)
         {
             retval = psock_br_fill(br);
             if (STATUS_SUCCESS != retval)
-- 
2.43.0


From 0a4924782b5847ac50bf14cecc69111c1a6cf073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:46 +0000
Subject: [PATCH 13/37] fix: descriptors moved above a threshold keep their
 files when numbers overlap or are in place already

---
 .../vsocket_utility_move_descriptors.c        | 26 +++++++++++--------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/socket_utilities/vsocket_utility_move_descriptors.c b/src/socket_utilities/vsocket_utility_move_descriptors.c
index cef5165..d157985 100644
--- a/src/socket_utilities/vsocket_utility_move_descriptors.c
+++ b/src/socket_utilities/vsocket_utility_move_descriptors.c
@@ -7,6 +7,7 @@
  * distribution for the license terms under which this software is distributed.
  */
 
+#include <fcntl.h>
 #include <rcpr/socket_utilities.h>
 #include <stddef.h>
 #include <unistd.h>
@@ -53,23 +54,26 @@ RCPR_SYM(vsocket_utility_move_descriptors)(
             goto done;
         }
 
-        /* Move the descriptor to the threshold or above */
-        new_fd = dup2(old_fd, threshold);
-        if (new_fd < 0)
+        /* Move the descriptor to the threshold or above, unless it is there. */
+        if (old_fd < threshold)
         {
-            retval = ERROR_SOCKET_UTILITIES_DUP2_FAILURE;
-            goto done;
-        }
+            /* Pick a free descriptor, so that no open one is replaced. */
+            new_fd = fcntl(old_fd, F_DUPFD, threshold);
+            if (new_fd < 0)
+            {
+                retval = ERROR_SOCKET_UTILITIES_DUP2_FAILURE;
+                goto done;
+            }
 
-        /* Close the old file descriptor */
-        close(old_fd);
+            /* Close the old file descriptor */
+            close(old_fd);
 
-        /* Update the descriptor to point to the new location */
-        *curr = threshold;
+            /* Update the descriptor to point to the new location */
+            *curr = new_fd;
+        }
 
         /* Advance to next descriptor */
         curr = va_arg(args, int*);
-        threshold++;
     }
 
     retval = STATUS_SUCCESS;
-- 
2.43.0


From 9c5746a656c9462514058d287a624ec61532acf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:46 +0000
Subject: [PATCH 14/37] fix: mapping a descriptor onto its own number no longer
 closes it

---
 src/socket_utilities/vsocket_utility_setfds.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/socket_utilities/vsocket_utility_setfds.c b/src/socket_utilities/vsocket_utility_setfds.c
index 7d67bae..fa21809 100644
--- a/src/socket_utilities/vsocket_utility_setfds.c
+++ b/src/socket_utilities/vsocket_utility_setfds.c
@@ -44,8 +44,11 @@ RCPR_SYM(vsocket_utility_setfds)(int curr, int mapped, va_list args)
             goto done;
         }
 
-        /* close the old fd. */
-        close(curr);
+        /* close the old fd, unless it was already in place. */
+        if (curr != mapped)
+        {
+            close(curr);
+        }
 
         /* attempt to read the next descriptor. */
         curr = va_arg(args, int);
-- 
2.43.0


From 888eddf41ee59c1c22363166f96ca76054f2c266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:59 +0000
Subject: [PATCH 15/37] fix: reset a trigger before notifying its listener, so
 that signals and registrations made from within are kept

---
 src/auto_reset_trigger/auto_reset_trigger_step.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/auto_reset_trigger/auto_reset_trigger_step.c b/src/auto_reset_trigger/auto_reset_trigger_step.c
index 0f96a6b..bbe0d9d 100644
--- a/src/auto_reset_trigger/auto_reset_trigger_step.c
+++ b/src/auto_reset_trigger/auto_reset_trigger_step.c
@@ -28,13 +28,16 @@ RCPR_SYM(auto_reset_trigger_step)(RCPR_SYM(auto_reset_trigger)* trigger)
         /* Is there a listener? */
         if (NULL != trigger->callback)
         {
-            /* notify the listener. */
-            (trigger->callback)(trigger->context);
+            RCPR_SYM(auto_reset_trigger_callback) callback = trigger->callback;
+            void* context = trigger->context;
 
-            /* reset the trigger. */
+            /* reset the trigger, so the listener can register again. */
             trigger->triggered = false;
             trigger->callback = NULL;
             trigger->context = NULL;
+
+            /* notify the listener. */
+            callback(context);
         }
     }
 }
-- 
2.43.0


From 0d177bf49e3be995b25958e36f5ffc161ee65921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:26 +0000
Subject: [PATCH 16/37] fix: report the failure to register a new mailbox

---
 .../message_discipline_mailbox_create_callback_handler.c        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/message/message_discipline_mailbox_create_callback_handler.c b/src/message/message_discipline_mailbox_create_callback_handler.c
index 80080bf..122377b 100644
--- a/src/message/message_discipline_mailbox_create_callback_handler.c
+++ b/src/message/message_discipline_mailbox_create_callback_handler.c
@@ -79,7 +79,7 @@ status RCPR_SYM(message_discipline_mailbox_create_callback_handler)(
 
 cleanup_mailbox:
     release_retval = resource_release(&tmp->hdr);
-    if (STATUS_SUCCESS != retval)
+    if (STATUS_SUCCESS != release_retval)
     {
         retval = release_retval;
     }
-- 
2.43.0


From ed426a0c9d0dac2e99ed7c9413a5e454712e9349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:26 +0000
Subject: [PATCH 17/37] fix: report the failure to register a new condition
 barrier

---
 .../fiber/condition_discipline_create_callback_handler.c        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/condition/fiber/condition_discipline_create_callback_handler.c b/src/condition/fiber/condition_discipline_create_callback_handler.c
index a88d53a..27b04e8 100644
--- a/src/condition/fiber/condition_discipline_create_callback_handler.c
+++ b/src/condition/fiber/condition_discipline_create_callback_handler.c
@@ -79,7 +79,7 @@ status RCPR_SYM(condition_discipline_create_callback_handler)(
 
 cleanup_condition_barrier:
     release_retval = resource_release(&tmp->hdr);
-    if (STATUS_SUCCESS != retval)
+    if (STATUS_SUCCESS != release_retval)
     {
         retval = release_retval;
     }
-- 
2.43.0


From 6ec53c9be64115f765e8daa14568956cc420983b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:26 +0000
Subject: [PATCH 18/37] fix: report the failure that ended the creation of a
 disciplined scheduler

---
 src/fiber/common/fiber_scheduler_create_with_disciplines.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fiber/common/fiber_scheduler_create_with_disciplines.c b/src/fiber/common/fiber_scheduler_create_with_disciplines.c
index bff433b..9c49c3b 100644
--- a/src/fiber/common/fiber_scheduler_create_with_disciplines.c
+++ b/src/fiber/common/fiber_scheduler_create_with_disciplines.c
@@ -349,7 +349,7 @@ cleanup_disciplines_by_uuid:
     /* this should always succeed. */
     RCPR_MODEL_ASSERT(STATUS_SUCCESS == release_retval);
     /* runtime assurance: bubble up the error. */
-    if (STATUS_SUCCESS != retval)
+    if (STATUS_SUCCESS != release_retval)
     {
         retval = release_retval;
     }
-- 
2.43.0


From ea0e9bb6eb8ce41e772ed1d7f01739414e391550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:26 +0000
Subject: [PATCH 19/37] fix: refuse the yield event just past the end of a
 discipline

---
 src/fiber/common/fiber_discipline_yield.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fiber/common/fiber_discipline_yield.c b/src/fiber/common/fiber_discipline_yield.c
index 1a707ec..6e06d18 100644
--- a/src/fiber/common/fiber_discipline_yield.c
+++ b/src/fiber/common/fiber_discipline_yield.c
@@ -62,7 +62,7 @@ RCPR_SYM(fiber_discipline_yield)(
     size_t yield_offset = (size_t)yield_event;
 
     /* bounds checking. */
-    if (yield_offset > disc->callback_vector_size)
+    if (yield_offset >= disc->callback_vector_size)
     {
         return ERROR_FIBER_SCHEDULER_BAD_YIELD_EVENT;
     }
-- 
2.43.0


From 33412dfd21cd251b80d438ff3e237d0f7244f02d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:26 +0000
Subject: [PATCH 20/37] fix: a discipline that could not be added stays with
 its caller alone

---
 .../common/fiber_scheduler_discipline_add.c   | 21 ++++++++++---------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/fiber/common/fiber_scheduler_discipline_add.c b/src/fiber/common/fiber_scheduler_discipline_add.c
index 0d466d4..412488f 100644
--- a/src/fiber/common/fiber_scheduler_discipline_add.c
+++ b/src/fiber/common/fiber_scheduler_discipline_add.c
@@ -87,16 +87,6 @@ RCPR_SYM(fiber_scheduler_discipline_add)(
         return ERROR_FIBER_SCHEDULER_DUPLICATE_DISCIPLINE_ID;
     }
  
-    /* add this discipline to the discipline tree. */
-    retval =
-        rbtree_insert(
-            ctx->disciplines_by_uuid,
-            fiber_scheduler_discipline_resource_handle(disc));
-    if (STATUS_SUCCESS != retval)
-    {
-        return retval;
-    }
-
     /* create or reallocate the callback vector to hold these callbacks. */
     size_t callback_offset = ctx->callback_vector_size;
     if (NULL == ctx->callback_vector)
@@ -144,6 +134,17 @@ RCPR_SYM(fiber_scheduler_discipline_add)(
         return retval;
     }
 
+    /* add this discipline to the discipline tree, now that nothing else can
+     * fail, so that a failure leaves it owned by the caller alone. */
+    retval =
+        rbtree_insert(
+            ctx->disciplines_by_uuid,
+            fiber_scheduler_discipline_resource_handle(disc));
+    if (STATUS_SUCCESS != retval)
+    {
+        return retval;
+    }
+
     /* update the callback vector size. */
     ctx->callback_vector_size += disc->callback_vector_size;
 
-- 
2.43.0


From dd7c7b35b841a84557f7b8a22f08c480f8a4adef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:26 +0000
Subject: [PATCH 21/37] fix: releasing a disciplined scheduler reclaims its
 context

---
 src/fiber/common/fiber_scheduler_create_with_disciplines.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/fiber/common/fiber_scheduler_create_with_disciplines.c b/src/fiber/common/fiber_scheduler_create_with_disciplines.c
index 9c49c3b..1a6c4bb 100644
--- a/src/fiber/common/fiber_scheduler_create_with_disciplines.c
+++ b/src/fiber/common/fiber_scheduler_create_with_disciplines.c
@@ -492,6 +492,7 @@ static status fiber_scheduler_disciplined_context_resource_release(resource* r)
     status idle_fiber_retval = STATUS_SUCCESS;
     status callback_vector_retval = STATUS_SUCCESS;
     status context_vector_retval = STATUS_SUCCESS;
+    status context_retval = STATUS_SUCCESS;
 
     /* recover the context type. */
     fiber_scheduler_disciplined_context* ctx =
@@ -550,6 +551,9 @@ static status fiber_scheduler_disciplined_context_resource_release(resource* r)
         context_vector_retval = allocator_reclaim(alloc, ctx->context_vector);
     }
 
+    /* reclaim the context structure. */
+    context_retval = allocator_reclaim(alloc, ctx);
+
     /* check the error codes from each of the release / reclaim operations,
      * bubbling up the first error to the caller, or STATUS_SUCCESS if
      * everything succeeded. */
@@ -579,7 +583,7 @@ static status fiber_scheduler_disciplined_context_resource_release(resource* r)
     }
     else
     {
-        return STATUS_SUCCESS;
+        return context_retval;
     }
 }
 
-- 
2.43.0


From 2b7cb4623b9004d34a8e703aac97b23e7811b6b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:26 +0000
Subject: [PATCH 22/37] fix: a disciplined scheduler whose creation fails is
 released without using it before it is set

---
 .../common/fiber_scheduler_create_with_disciplines.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/fiber/common/fiber_scheduler_create_with_disciplines.c b/src/fiber/common/fiber_scheduler_create_with_disciplines.c
index 1a6c4bb..774cf66 100644
--- a/src/fiber/common/fiber_scheduler_create_with_disciplines.c
+++ b/src/fiber/common/fiber_scheduler_create_with_disciplines.c
@@ -984,10 +984,14 @@ static status fiber_scheduler_disciplined_resource_release_callback_handler(
     (void)yield_param;
 
     /* insert the yielding fiber into the beginning of the run queue. */
-    return
-        disciplined_fiber_scheduler_set_next_fiber_to_run(
-            ctx->sched, yield_fib, &FIBER_SCHEDULER_INTERNAL_DISCIPLINE,
-            FIBER_SCHEDULER_RESUME_EVENT_RESOURCE_RELEASE, NULL);
+    /* we must do this by hand because ctx->sched is not set if the scheduler is
+     * released while it is being created. */
+    yield_fib->restore_discipline_id = &FIBER_SCHEDULER_INTERNAL_DISCIPLINE;
+    yield_fib->restore_reason_code =
+        FIBER_SCHEDULER_RESUME_EVENT_RESOURCE_RELEASE;
+    yield_fib->restore_param = NULL;
+
+    return queue_insert(ctx->run_queue, fiber_resource_handle(yield_fib));
 }
 
 /**
-- 
2.43.0


From 5ca4ceafa48f6c7265d70c8a377da4c9be5e7bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:11 +0000
Subject: [PATCH 23/37] fix: a discipline that could not be created is
 reclaimed even if part of it cannot be

---
 src/fiber/common/fiber_scheduler_discipline_create.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fiber/common/fiber_scheduler_discipline_create.c b/src/fiber/common/fiber_scheduler_discipline_create.c
index a58f98e..54acb98 100644
--- a/src/fiber/common/fiber_scheduler_discipline_create.c
+++ b/src/fiber/common/fiber_scheduler_discipline_create.c
@@ -160,7 +160,7 @@ reclaim_fiber_scheduler_vector:
     release_retval = allocator_reclaim(alloc, tmp->callback_vector);
     if (STATUS_SUCCESS != release_retval)
     {
-        return release_retval;
+        retval = release_retval;
     }
 
 reclaim_fiber_scheduler_discipline:
-- 
2.43.0


From 15e68d0e8e37e6017b4de81020d79afdf3208ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:11 +0000
Subject: [PATCH 24/37] fix: a fiber is in the run queue at most once, so that
 it is not resumed after it has stopped

---
 ...ined_fiber_scheduler_add_fiber_to_run_queue.c | 16 +++++++++++++++-
 ...lined_fiber_scheduler_set_next_fiber_to_run.c | 16 +++++++++++++++-
 src/fiber/common/fiber_internal.h                |  1 +
 .../fiber_scheduler_create_with_disciplines.c    |  3 +++
 4 files changed, 34 insertions(+), 2 deletions(-)

diff --git a/src/fiber/common/disciplined_fiber_scheduler_add_fiber_to_run_queue.c b/src/fiber/common/disciplined_fiber_scheduler_add_fiber_to_run_queue.c
index 1fe99d5..e17608f 100644
--- a/src/fiber/common/disciplined_fiber_scheduler_add_fiber_to_run_queue.c
+++ b/src/fiber/common/disciplined_fiber_scheduler_add_fiber_to_run_queue.c
@@ -46,6 +46,7 @@ RCPR_SYM(disciplined_fiber_scheduler_add_fiber_to_run_queue)(
     RCPR_SYM(fiber_scheduler)* sched, RCPR_SYM(fiber)* fib,
     const RCPR_SYM(rcpr_uuid)* resume_id, int resume_event, void* resume_param)
 {
+    status retval;
     fiber_scheduler_disciplined_context* ctx = NULL;
 
     /* parameter sanity checks. */
@@ -62,6 +63,19 @@ RCPR_SYM(disciplined_fiber_scheduler_add_fiber_to_run_queue)(
     fib->restore_reason_code = resume_event;
     fib->restore_param = resume_param;
 
+    /* a fiber already in the run queue must not be run twice; it keeps its place
+     * and resumes with these parameters. */
+    if (fib->queued)
+    {
+        return STATUS_SUCCESS;
+    }
+
     /* add this fiber to the run queue. */
-    return queue_append(ctx->run_queue, fiber_resource_handle(fib));
+    retval = queue_append(ctx->run_queue, fiber_resource_handle(fib));
+    if (STATUS_SUCCESS == retval)
+    {
+        fib->queued = true;
+    }
+
+    return retval;
 }
diff --git a/src/fiber/common/disciplined_fiber_scheduler_set_next_fiber_to_run.c b/src/fiber/common/disciplined_fiber_scheduler_set_next_fiber_to_run.c
index 595a7a8..cef0aa2 100644
--- a/src/fiber/common/disciplined_fiber_scheduler_set_next_fiber_to_run.c
+++ b/src/fiber/common/disciplined_fiber_scheduler_set_next_fiber_to_run.c
@@ -47,6 +47,7 @@ RCPR_SYM(disciplined_fiber_scheduler_set_next_fiber_to_run)(
     RCPR_SYM(fiber_scheduler)* sched, RCPR_SYM(fiber)* fib,
     const RCPR_SYM(rcpr_uuid)* resume_id, int resume_event, void* resume_param)
 {
+    status retval;
     fiber_scheduler_disciplined_context* ctx = NULL;
 
     /* parameter sanity checks. */
@@ -63,6 +64,19 @@ RCPR_SYM(disciplined_fiber_scheduler_set_next_fiber_to_run)(
     fib->restore_reason_code = resume_event;
     fib->restore_param = resume_param;
 
+    /* a fiber already in the run queue must not be run twice; it keeps its place
+     * and resumes with these parameters. */
+    if (fib->queued)
+    {
+        return STATUS_SUCCESS;
+    }
+
     /* add this fiber to the start of the run queue. */
-    return queue_insert(ctx->run_queue, fiber_resource_handle(fib));
+    retval = queue_insert(ctx->run_queue, fiber_resource_handle(fib));
+    if (STATUS_SUCCESS == retval)
+    {
+        fib->queued = true;
+    }
+
+    return retval;
 }
diff --git a/src/fiber/common/fiber_internal.h b/src/fiber/common/fiber_internal.h
index 472a304..9521ae9 100644
--- a/src/fiber/common/fiber_internal.h
+++ b/src/fiber/common/fiber_internal.h
@@ -42,6 +42,7 @@ struct RCPR_SYM(fiber)
     void* restore_param;
     uint64_t fiber_state;
     RCPR_SYM(fiber_scheduler)* sched;
+    bool queued;
 };
 
 struct RCPR_SYM(fiber_scheduler)
diff --git a/src/fiber/common/fiber_scheduler_create_with_disciplines.c b/src/fiber/common/fiber_scheduler_create_with_disciplines.c
index 774cf66..94c66cf 100644
--- a/src/fiber/common/fiber_scheduler_create_with_disciplines.c
+++ b/src/fiber/common/fiber_scheduler_create_with_disciplines.c
@@ -697,6 +697,9 @@ static status fiber_scheduler_disciplined_callback(
         fiber* next_fiber = (fiber*)next_fiber_resource;
         RCPR_MODEL_ASSERT(prop_fiber_valid(next_fiber));
 
+        /* this fiber is no longer in the run queue. */
+        next_fiber->queued = false;
+
         /* set that fiber as the resume fiber. */
         *resume_fib = next_fiber;
         *resume_id = next_fiber->restore_discipline_id;
-- 
2.43.0


From 9359991eb41726c6b712de9f66c6a5f68f5957b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:11 +0000
Subject: [PATCH 25/37] fix: a fiber that could not be added stays with its
 caller alone

---
 .../fiber_scheduler_create_with_disciplines.c | 75 ++++++++++++-------
 1 file changed, 49 insertions(+), 26 deletions(-)

diff --git a/src/fiber/common/fiber_scheduler_create_with_disciplines.c b/src/fiber/common/fiber_scheduler_create_with_disciplines.c
index 94c66cf..e8be9d9 100644
--- a/src/fiber/common/fiber_scheduler_create_with_disciplines.c
+++ b/src/fiber/common/fiber_scheduler_create_with_disciplines.c
@@ -825,7 +825,9 @@ static status fiber_scheduler_disciplined_main_callback_handler(
 static status fiber_scheduler_disciplined_add_fiber_callback_handler(
     void* context, fiber* yield_fib, int yield_event, void* yield_param)
 {
-    status retval;
+    status retval, release_retval;
+    resource* dummy = NULL;
+    bool management_unqueued = false;
     fiber_scheduler_disciplined_context* ctx =
         (fiber_scheduler_disciplined_context*)context;
     fiber* new_fib = (fiber*)yield_param;
@@ -847,25 +849,6 @@ static status fiber_scheduler_disciplined_add_fiber_callback_handler(
         return retval;
     }
 
-    /* append this fiber to the run queue. */
-    retval =
-        disciplined_fiber_scheduler_add_fiber_to_run_queue(
-            ctx->sched, new_fib, &FIBER_SCHEDULER_INTERNAL_DISCIPLINE,
-            FIBER_SCHEDULER_RESUME_EVENT_ADD_FIBER, NULL);
-    if (STATUS_SUCCESS != retval)
-    {
-        /* remove the fiber from the tree before returning an error status. */
-        resource* dummy = NULL;
-        status delete_retval = rbtree_delete(
-            &dummy, ctx->fibers_by_pointer, fiber_resource_handle(new_fib));
-
-        /* return the last error code to occur. */
-        if (STATUS_SUCCESS != delete_retval)
-            return delete_retval;
-        else
-            return retval;
-    }
-
     /* insert the yielding fiber into the beginning of the run queue. */
     retval =
         disciplined_fiber_scheduler_set_next_fiber_to_run(
@@ -873,15 +856,14 @@ static status fiber_scheduler_disciplined_add_fiber_callback_handler(
             FIBER_SCHEDULER_RESUME_EVENT_ADD_FIBER, NULL);
     if (STATUS_SUCCESS != retval)
     {
-        /* bubble up the error. */
-        /* TODO - deal with ownership issues for added fiber. */
-        return retval;
+        goto remove_new_fiber;
     }
 
     /* if the management fiber exists, */
     /* insert the management discipline into the beginning of the run queue. */
     if (NULL != ctx->management_fiber)
     {
+        management_unqueued = !ctx->management_fiber->queued;
         retval =
             disciplined_fiber_scheduler_set_next_fiber_to_run(
                 ctx->sched, ctx->management_fiber,
@@ -890,15 +872,56 @@ static status fiber_scheduler_disciplined_add_fiber_callback_handler(
                 new_fib);
         if (STATUS_SUCCESS != retval)
         {
-            return retval;
+            goto unqueue_yield_fiber;
         }
+    }
 
-        /* clear the management fiber until it yields again. */
-        ctx->management_fiber = NULL;
+    /* append the new fiber to the run queue. */
+    retval =
+        disciplined_fiber_scheduler_add_fiber_to_run_queue(
+            ctx->sched, new_fib, &FIBER_SCHEDULER_INTERNAL_DISCIPLINE,
+            FIBER_SCHEDULER_RESUME_EVENT_ADD_FIBER, NULL);
+    if (STATUS_SUCCESS != retval)
+    {
+        goto unqueue_management_fiber;
     }
 
+    /* clear the management fiber until it yields again. */
+    ctx->management_fiber = NULL;
+
     /* success. */
     return STATUS_SUCCESS;
+
+unqueue_management_fiber:
+    if (management_unqueued)
+    {
+        release_retval = queue_pop(ctx->run_queue, &dummy);
+        ctx->management_fiber->queued = false;
+        if (STATUS_SUCCESS != release_retval)
+        {
+            retval = release_retval;
+        }
+    }
+
+unqueue_yield_fiber:
+    release_retval = queue_pop(ctx->run_queue, &dummy);
+    yield_fib->queued = false;
+    if (STATUS_SUCCESS != release_retval)
+    {
+        retval = release_retval;
+    }
+
+remove_new_fiber:
+    /* the new fiber stays with the caller. */
+    release_retval =
+        rbtree_delete(
+            &dummy, ctx->fibers_by_pointer, fiber_resource_handle(new_fib));
+    if (STATUS_SUCCESS != release_retval)
+    {
+        retval = release_retval;
+    }
+
+    return retval;
 }
 
 /**
-- 
2.43.0


From ece2b4f8407ccb412adee43c52ac3767c771a296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:42 +0000
Subject: [PATCH 26/37] fix: a message whose sending fails stays with its
 sender alone, and its receiver keeps waiting

---
 ...discipline_message_send_callback_handler.c | 50 +++++++------------
 1 file changed, 19 insertions(+), 31 deletions(-)

diff --git a/src/message/message_discipline_message_send_callback_handler.c b/src/message/message_discipline_message_send_callback_handler.c
index 50680f4..cfe105b 100644
--- a/src/message/message_discipline_message_send_callback_handler.c
+++ b/src/message/message_discipline_message_send_callback_handler.c
@@ -68,13 +68,6 @@ status RCPR_SYM(message_discipline_message_send_callback_handler)(
     /* mailbox sanity check. */
     RCPR_MODEL_ASSERT(prop_mailbox_valid(mbox));
 
-    /* append the message to the end of the mail queue. */
-    retval = queue_append(mbox->message_queue, &msg->hdr);
-    if (STATUS_SUCCESS != retval)
-    {
-        goto resume_fail;
-    }
-
     /* message sent, so tell the original fiber to restart. */
     retval =
         disciplined_fiber_scheduler_set_next_fiber_to_run(
@@ -86,41 +79,36 @@ status RCPR_SYM(message_discipline_message_send_callback_handler)(
         return retval;
     }
 
-    /* if there is a blocked fiber on this mailbox, set it as the next fiber to
-     * run. */
+    /* if there is a blocked fiber on this mailbox, its message queue is empty;
+     * give it this message and set it as the next fiber to run. */
     if (NULL != mbox->blocked_fiber)
     {
-        fiber* receive_fiber = mbox->blocked_fiber;
-        mbox->blocked_fiber = NULL;
-
-        /* pop the next message off of the queue. */
-        resource* msgresource;
-        retval = queue_pop(mbox->message_queue, &msgresource);
+        retval =
+            disciplined_fiber_scheduler_set_next_fiber_to_run(
+                ctx->sched, mbox->blocked_fiber,
+                &FIBER_SCHEDULER_MESSAGE_DISCIPLINE,
+                FIBER_SCHEDULER_MESSAGE_RESUME_EVENT_MESSAGE_RECEIVE_SUCCESS,
+                &msg->hdr);
         if (STATUS_SUCCESS != retval)
         {
-            resume_event =
-                FIBER_SCHEDULER_MESSAGE_RESUME_EVENT_MESSAGE_RECEIVE_FAILURE;
-            resume_param = (void*)((ptrdiff_t)retval);
-        }
-        else
-        {
-            resume_event =
-                FIBER_SCHEDULER_MESSAGE_RESUME_EVENT_MESSAGE_RECEIVE_SUCCESS;
-            resume_param = msgresource;
+            goto resume_fail;
         }
 
-        return
-            disciplined_fiber_scheduler_set_next_fiber_to_run(
-                ctx->sched, receive_fiber,
-                &FIBER_SCHEDULER_MESSAGE_DISCIPLINE, resume_event,
-                resume_param);
+        mbox->blocked_fiber = NULL;
     }
-    /* otherwise, leave the message on the queue. */
+    /* otherwise, append the message to the end of the mail queue. */
     else
     {
-        return STATUS_SUCCESS;
+        retval = queue_append(mbox->message_queue, &msg->hdr);
+        if (STATUS_SUCCESS != retval)
+        {
+            goto resume_fail;
+        }
     }
 
+    /* success. */
+    return STATUS_SUCCESS;
+
 resume_fail:
     resume_event = FIBER_SCHEDULER_MESSAGE_RESUME_EVENT_MESSAGE_SEND_FAILURE;
     resume_param = (void*)((ptrdiff_t)retval);
-- 
2.43.0


From 38078f755fea3422f7cbe6536fc8e82f1a5cf7a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:42 +0000
Subject: [PATCH 27/37] fix: a message is kept in its mailbox if its receiver
 cannot be scheduled

---
 ...sage_discipline_message_receive_callback_handler.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/message/message_discipline_message_receive_callback_handler.c b/src/message/message_discipline_message_receive_callback_handler.c
index 8333644..49411e9 100644
--- a/src/message/message_discipline_message_receive_callback_handler.c
+++ b/src/message/message_discipline_message_receive_callback_handler.c
@@ -78,6 +78,17 @@ status RCPR_SYM(message_discipline_message_receive_callback_handler)(
     /* otherwise, give the next queue message to the fiber. */
     else
     {
+        /* schedule the fiber first, so that no message can be lost. */
+        retval =
+            disciplined_fiber_scheduler_set_next_fiber_to_run(
+                ctx->sched, yield_fib, &FIBER_SCHEDULER_MESSAGE_DISCIPLINE,
+                FIBER_SCHEDULER_MESSAGE_RESUME_EVENT_MESSAGE_RECEIVE_FAILURE,
+                NULL);
+        if (STATUS_SUCCESS != retval)
+        {
+            return retval;
+        }
+
         /* pop the first message off of the queue. */
         resource* msgresource;
         retval = queue_pop(mbox->message_queue, &msgresource);
-- 
2.43.0


From 2209c37c7e97ac526d263087b5121e4061f07a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:16 +0000
Subject: [PATCH 28/37] fix: closing a mailbox wakes the fiber waiting for a
 message in it

---
 ...iscipline_mailbox_close_callback_handler.c | 26 +++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/src/message/message_discipline_mailbox_close_callback_handler.c b/src/message/message_discipline_mailbox_close_callback_handler.c
index 06a93df..c5fbcb9 100644
--- a/src/message/message_discipline_mailbox_close_callback_handler.c
+++ b/src/message/message_discipline_mailbox_close_callback_handler.c
@@ -16,6 +16,7 @@ RCPR_IMPORT_fiber;
 RCPR_IMPORT_message;
 RCPR_IMPORT_message_internal;
 RCPR_IMPORT_rbtree;
+RCPR_IMPORT_resource;
 
 /**
  * \brief The callback handler for a close mailbox request.
@@ -34,6 +35,7 @@ status RCPR_SYM(message_discipline_mailbox_close_callback_handler)(
     void* yield_param)
 {
     status retval;
+    mailbox* mbox;
     int resume_event;
     void* resume_param;
 
@@ -48,6 +50,30 @@ status RCPR_SYM(message_discipline_mailbox_close_callback_handler)(
     RCPR_MODEL_ASSERT(prop_message_discipline_context_valid(ctx));
     RCPR_MODEL_ASSERT(addr > 0);
 
+    /* look up the mailbox. */
+    retval = rbtree_find((resource**)&mbox, ctx->mailboxes, &addr);
+    if (STATUS_SUCCESS != retval)
+    {
+        goto resume_fail;
+    }
+
+    /* a fiber waiting for a message here would wait forever; wake it. */
+    if (NULL != mbox->blocked_fiber)
+    {
+        retval =
+            disciplined_fiber_scheduler_add_fiber_to_run_queue(
+                ctx->sched, mbox->blocked_fiber,
+                &FIBER_SCHEDULER_MESSAGE_DISCIPLINE,
+                FIBER_SCHEDULER_MESSAGE_RESUME_EVENT_MESSAGE_RECEIVE_FAILURE,
+                (void*)((ptrdiff_t)ERROR_MESSAGE_UNKNOWN_ERROR));
+        if (STATUS_SUCCESS != retval)
+        {
+            goto resume_fail;
+        }
+
+        mbox->blocked_fiber = NULL;
+    }
+
     /* Attempt to delete the mailbox. */
     retval = rbtree_delete(NULL, ctx->mailboxes, &addr);
     if (STATUS_SUCCESS != retval)
-- 
2.43.0


From ddab0f4ef54ad796d6eb803fa8bae196b92edd3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:16 +0000
Subject: [PATCH 29/37] fix: closing a condition barrier wakes the fibers
 waiting on it

---
 ...dition_discipline_close_callback_handler.c | 41 +++++++++++++++++++
 1 file changed, 41 insertions(+)

diff --git a/src/condition/fiber/condition_discipline_close_callback_handler.c b/src/condition/fiber/condition_discipline_close_callback_handler.c
index 1c4fdd4..806f3f0 100644
--- a/src/condition/fiber/condition_discipline_close_callback_handler.c
+++ b/src/condition/fiber/condition_discipline_close_callback_handler.c
@@ -16,6 +16,8 @@ RCPR_IMPORT_fiber;
 RCPR_IMPORT_condition;
 RCPR_IMPORT_condition_internal;
 RCPR_IMPORT_rbtree;
+RCPR_IMPORT_resource;
+RCPR_IMPORT_slist;
 
 /**
  * \brief The callback handler for a close conditional request.
@@ -34,6 +36,7 @@ status RCPR_SYM(condition_discipline_close_callback_handler)(
     void* yield_param)
 {
     status retval;
+    condition_barrier* barrier;
     int resume_event;
     void* resume_param;
 
@@ -48,6 +51,44 @@ status RCPR_SYM(condition_discipline_close_callback_handler)(
     RCPR_MODEL_ASSERT(prop_condition_discipline_context_valid(ctx));
     RCPR_MODEL_ASSERT(cond > 0);
 
+    /* look up the condition barrier. */
+    retval =
+        rbtree_find((resource**)&barrier, ctx->condition_barriers, &cond);
+    if (STATUS_SUCCESS != retval)
+    {
+        goto resume_fail;
+    }
+
+    /* fibers waiting here would wait forever; wake them. */
+    while (slist_count(barrier->wait_list) > 0)
+    {
+        /* schedule the fiber first, so that it is not lost on failure. */
+        slist_node* node;
+        resource* fib;
+        retval = slist_head(&node, barrier->wait_list);
+        if (STATUS_SUCCESS == retval)
+        {
+            retval = slist_node_child(&fib, node);
+        }
+        if (STATUS_SUCCESS == retval)
+        {
+            retval =
+                disciplined_fiber_scheduler_add_fiber_to_run_queue(
+                    ctx->sched, (fiber*)fib,
+                    &FIBER_SCHEDULER_CONDITION_DISCIPLINE,
+                    FIBER_SCHEDULER_CONDITION_RESUME_EVENT_WAIT_FAILURE,
+                    (void*)((ptrdiff_t)ERROR_CONDITION_UNKNOWN_ERROR));
+        }
+        if (STATUS_SUCCESS == retval)
+        {
+            retval = slist_pop(barrier->wait_list, &fib);
+        }
+        if (STATUS_SUCCESS != retval)
+        {
+            goto resume_fail;
+        }
+    }
+
     /* Attempt to delete the condition barrier. */
     retval = rbtree_delete(NULL, ctx->condition_barriers, &cond);
     if (STATUS_SUCCESS != retval)
-- 
2.43.0


From 6b9db1d82319cfc7f5a137299b3b8195d6cfbdce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:16 +0000
Subject: [PATCH 30/37] fix: a fiber that cannot be woken by a notification
 keeps waiting, and the failure is reported

---
 ...n_discipline_notify_all_callback_handler.c | 38 +++++++++++--------
 ...n_discipline_notify_one_callback_handler.c | 38 +++++++++++--------
 2 files changed, 46 insertions(+), 30 deletions(-)

diff --git a/src/condition/fiber/condition_discipline_notify_all_callback_handler.c b/src/condition/fiber/condition_discipline_notify_all_callback_handler.c
index b442ae1..989993e 100644
--- a/src/condition/fiber/condition_discipline_notify_all_callback_handler.c
+++ b/src/condition/fiber/condition_discipline_notify_all_callback_handler.c
@@ -63,25 +63,33 @@ status RCPR_SYM(condition_discipline_notify_all_callback_handler)(
     /* for every waiting fiber... */
     while (slist_count(cond->wait_list) > 0)
     {
-        /* get a waiting fiber. */
-        fiber* fib;
-        retval = slist_pop(cond->wait_list, (resource**)&fib);
-        if (STATUS_SUCCESS != retval)
+        /* schedule the waiting fiber first, so that it is not lost on
+         * failure. */
+        slist_node* node;
+        resource* fib;
+        retval = slist_head(&node, cond->wait_list);
+        if (STATUS_SUCCESS == retval)
         {
-            /* skip failures. */
-            continue;
+            retval = slist_node_child(&fib, node);
+        }
+        if (STATUS_SUCCESS == retval)
+        {
+            /* resume the waiting fiber. */
+            retval =
+                disciplined_fiber_scheduler_add_fiber_to_run_queue(
+                    ctx->sched, (fiber*)fib,
+                    &FIBER_SCHEDULER_CONDITION_DISCIPLINE,
+                    FIBER_SCHEDULER_CONDITION_RESUME_EVENT_WAIT_SUCCESS,
+                    (void*)((ptrdiff_t)STATUS_SUCCESS));
+        }
+        if (STATUS_SUCCESS == retval)
+        {
+            /* it waits no longer. */
+            retval = slist_pop(cond->wait_list, &fib);
         }
-
-        /* resume the waiting fiber. */
-        retval =
-            disciplined_fiber_scheduler_add_fiber_to_run_queue(
-                ctx->sched, fib, &FIBER_SCHEDULER_CONDITION_DISCIPLINE,
-                FIBER_SCHEDULER_CONDITION_RESUME_EVENT_WAIT_SUCCESS,
-                (void*)((ptrdiff_t)STATUS_SUCCESS));
         if (STATUS_SUCCESS != retval)
         {
-            /* skip failures. */
-            continue;
+            goto resume_fail;
         }
     }
 
diff --git a/src/condition/fiber/condition_discipline_notify_one_callback_handler.c b/src/condition/fiber/condition_discipline_notify_one_callback_handler.c
index fcc16c2..582fd13 100644
--- a/src/condition/fiber/condition_discipline_notify_one_callback_handler.c
+++ b/src/condition/fiber/condition_discipline_notify_one_callback_handler.c
@@ -63,25 +63,33 @@ status RCPR_SYM(condition_discipline_notify_one_callback_handler)(
     /* are there waiting fibers? */
     if (slist_count(cond->wait_list) > 0)
     {
-        /* get a waiting fiber. */
-        fiber* fib;
-        retval = slist_pop(cond->wait_list, (resource**)&fib);
-        if (STATUS_SUCCESS != retval)
+        /* schedule the waiting fiber first, so that it is not lost on
+         * failure. */
+        slist_node* node;
+        resource* fib;
+        retval = slist_head(&node, cond->wait_list);
+        if (STATUS_SUCCESS == retval)
         {
-            /* skip failures. */
-            goto resume_success;
+            retval = slist_node_child(&fib, node);
+        }
+        if (STATUS_SUCCESS == retval)
+        {
+            /* resume the waiting fiber. */
+            retval =
+                disciplined_fiber_scheduler_add_fiber_to_run_queue(
+                    ctx->sched, (fiber*)fib,
+                    &FIBER_SCHEDULER_CONDITION_DISCIPLINE,
+                    FIBER_SCHEDULER_CONDITION_RESUME_EVENT_WAIT_SUCCESS,
+                    (void*)((ptrdiff_t)STATUS_SUCCESS));
+        }
+        if (STATUS_SUCCESS == retval)
+        {
+            /* it waits no longer. */
+            retval = slist_pop(cond->wait_list, &fib);
         }
-
-        /* resume the waiting fiber. */
-        retval =
-            disciplined_fiber_scheduler_add_fiber_to_run_queue(
-                ctx->sched, fib, &FIBER_SCHEDULER_CONDITION_DISCIPLINE,
-                FIBER_SCHEDULER_CONDITION_RESUME_EVENT_WAIT_SUCCESS,
-                (void*)((ptrdiff_t)STATUS_SUCCESS));
         if (STATUS_SUCCESS != retval)
         {
-            /* skip failures. */
-            goto resume_success;
+            goto resume_fail;
         }
     }
 
-- 
2.43.0


From 4613c318fb25d3091fa10ddfd2180eacbd6fb223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:18 +0000
Subject: [PATCH 31/37] fix: an error or hang-up reported alone wakes the
 fibers blocked on a socket

---
 src/psock/platform/epoll/psock_idle_fiber_entry.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/psock/platform/epoll/psock_idle_fiber_entry.c b/src/psock/platform/epoll/psock_idle_fiber_entry.c
index 8fb470c..39467ed 100644
--- a/src/psock/platform/epoll/psock_idle_fiber_entry.c
+++ b/src/psock/platform/epoll/psock_idle_fiber_entry.c
@@ -70,8 +70,11 @@ status RCPR_SYM(psock_idle_fiber_entry)(void* context)
             memset(&event, 0, sizeof(event));
             event.events = EPOLLONESHOT;
 
-            /* check for a read resume event. */
-            if ((filter & EPOLLIN) && NULL != ps->read_block_fib)
+            /* check for a read resume event. An error or a hang-up can be
+             * reported alone, and also ends the wait for data. */
+            if (
+                (filter & (EPOLLIN | EPOLLERR | EPOLLHUP | EPOLLRDHUP))
+             && NULL != ps->read_block_fib)
             {
                 ptrdiff_t resume_param = 0;
                 int resume_event =
@@ -106,8 +109,11 @@ status RCPR_SYM(psock_idle_fiber_entry)(void* context)
                 ps->read_block_fib = NULL;
             }
 
-            /* check for a write resume event. */
-            if ((filter & EPOLLOUT) && NULL != ps->write_block_fib)
+            /* check for a write resume event. An error or a hang-up can be
+             * reported alone, and also ends the wait for space. */
+            if (
+                (filter & (EPOLLOUT | EPOLLERR | EPOLLHUP))
+             && NULL != ps->write_block_fib)
             {
                 ptrdiff_t resume_param = 0;
                 int resume_event =
-- 
2.43.0


From 2e2e74807e387f2ed753f2ba26f5faf4e335f3ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:18 +0000
Subject: [PATCH 32/37] fix: an async write that stops early reports how much
 it wrote

---
 src/psock/psock_wrap_async_write.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/psock/psock_wrap_async_write.c b/src/psock/psock_wrap_async_write.c
index 029f229..bfca6c4 100644
--- a/src/psock/psock_wrap_async_write.c
+++ b/src/psock/psock_wrap_async_write.c
@@ -82,6 +82,7 @@ status RCPR_SYM(psock_wrap_async_write)(
             retval = psock_write_block(sock);
             if (STATUS_SUCCESS != retval)
             {
+                *size -= write_size;
                 return retval;
             }
         }
@@ -94,6 +95,7 @@ status RCPR_SYM(psock_wrap_async_write)(
         /* if no data was written, then the peer closed the socket. */
         else if (0 == tmp_size)
         {
+            *size -= write_size;
             return ERROR_PSOCK_WRITE_EOF;
         }
 
-- 
2.43.0


From 56fed5c4280707865d5b42f7099fa53305cc7cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:18 +0000
Subject: [PATCH 33/37] fix: the psock discipline is added to a scheduler only
 once its idle fiber exists

---
 src/psock/psock_create_wrap_async.c | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/src/psock/psock_create_wrap_async.c b/src/psock/psock_create_wrap_async.c
index abda230..0e63754 100644
--- a/src/psock/psock_create_wrap_async.c
+++ b/src/psock/psock_create_wrap_async.c
@@ -295,22 +295,20 @@ static status psock_create_wrap_async_add_psock_discipline(
         goto done;
     }
 
-    /* add this discipline to the scheduler. */
-    retval = fiber_scheduler_discipline_add(sched, *disc);
+    /* create the idle fiber. */
+    retval =
+        fiber_create(
+            &idle_fiber, a, sched, 16384, context, &psock_idle_fiber_entry);
     if (STATUS_SUCCESS != retval)
     {
         goto cleanup_discipline;
     }
 
-    /* create the idle fiber. */
-    retval =
-        fiber_create(
-            &idle_fiber, a, sched, 16384, context, &psock_idle_fiber_entry);
+    /* add this discipline to the scheduler. */
+    retval = fiber_scheduler_discipline_add(sched, *disc);
     if (STATUS_SUCCESS != retval)
     {
-        /* note: if we successfully added the discipline to the scheduler, it
-         * owns the discipline, so we don't need to release it anymore. */
-        goto done;
+        goto cleanup_idle_fiber;
     }
 
     /* set the idle fiber. */
@@ -320,7 +318,13 @@ static status psock_create_wrap_async_add_psock_discipline(
         /* note: if we've added the fiber, we can no longer clean it up. But,
          * the add won't fail. */
         /* TODO - make set idle fiber return void. */
-        goto cleanup_idle_fiber;
+        /* skip the discipline cleanup; it is now handled by the scheduler. */
+        release_retval = resource_release(fiber_resource_handle(idle_fiber));
+        if (STATUS_SUCCESS != release_retval)
+        {
+            retval = release_retval;
+        }
+        goto done;
     }
 
     /* success. */
@@ -334,9 +338,6 @@ cleanup_idle_fiber:
         retval = release_retval;
     }
 
-    /* skip the discipline cleanup; it is now handled by the scheduler. */
-    goto done;
-
 cleanup_discipline:
     release_retval =
         resource_release(fiber_scheduler_discipline_resource_handle(*disc));
-- 
2.43.0


From 729f14abddffafa7ef468725d125d81c8ab66ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:28 +0000
Subject: [PATCH 34/37] fix: a management request that fails leaves its
 requester out of the run queue

---
 .../fiber_scheduler_create_with_disciplines.c | 30 +++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/src/fiber/common/fiber_scheduler_create_with_disciplines.c b/src/fiber/common/fiber_scheduler_create_with_disciplines.c
index e8be9d9..e8e19b5 100644
--- a/src/fiber/common/fiber_scheduler_create_with_disciplines.c
+++ b/src/fiber/common/fiber_scheduler_create_with_disciplines.c
@@ -1074,7 +1074,9 @@ static status
 fiber_scheduler_disciplined_management_quiesce_event_callback_handler(
     void* context, fiber* yield_fib, int yield_event, void* yield_param)
 {
-    status retval;
+    status retval, release_retval;
+    resource* dummy = NULL;
+    bool requester_unqueued = !yield_fib->queued;
     fiber_scheduler_disciplined_context* ctx =
         (fiber_scheduler_disciplined_context*)context;
     fiber* fib = (fiber*)yield_param;
@@ -1119,6 +1121,17 @@ fiber_scheduler_disciplined_management_quiesce_event_callback_handler(
             NULL);
         if (STATUS_SUCCESS != retval)
         {
+            /* the calling fiber continues with this error instead. */
+            if (requester_unqueued)
+            {
+                release_retval = queue_pop(ctx->run_queue, &dummy);
+                yield_fib->queued = false;
+                if (STATUS_SUCCESS != release_retval)
+                {
+                    retval = release_retval;
+                }
+            }
+
             return retval;
         }
     }
@@ -1145,7 +1158,9 @@ static status
 fiber_scheduler_disciplined_management_terminate_event_callback_handler(
     void* context, fiber* yield_fib, int yield_event, void* yield_param)
 {
-    status retval;
+    status retval, release_retval;
+    resource* dummy = NULL;
+    bool requester_unqueued = !yield_fib->queued;
     fiber_scheduler_disciplined_context* ctx =
         (fiber_scheduler_disciplined_context*)context;
     fiber* fib = (fiber*)yield_param;
@@ -1190,6 +1205,17 @@ fiber_scheduler_disciplined_management_terminate_event_callback_handler(
             NULL);
         if (STATUS_SUCCESS != retval)
         {
+            /* the calling fiber continues with this error instead. */
+            if (requester_unqueued)
+            {
+                release_retval = queue_pop(ctx->run_queue, &dummy);
+                yield_fib->queued = false;
+                if (STATUS_SUCCESS != release_retval)
+                {
+                    retval = release_retval;
+                }
+            }
+
             return retval;
         }
     }
-- 
2.43.0


From f36e32bf5516f5fa9b596dde2a2c1e025bb10526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:14 +0000
Subject: [PATCH 35/37] fix: a fiber resumed from waiting on a stream forgets
 only its own registration

---
 src/psock/psock_read_block.c  | 8 ++++++--
 src/psock/psock_write_block.c | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/psock/psock_read_block.c b/src/psock/psock_read_block.c
index 12600e6..8ba3585 100644
--- a/src/psock/psock_read_block.c
+++ b/src/psock/psock_read_block.c
@@ -102,8 +102,12 @@ RCPR_SYM(psock_read_block)(
                 &resume_event, &resume_param);
 
         /* regardless of whether this yield succeeds or not, we are no longer
-         * blocked. */
-        s->read_block_fib = NULL;
+         * blocked. If we were already unblocked before being resumed, another
+         * fiber may have blocked since, and must not be forgotten. */
+        if (s->read_block_fib == current_fib)
+        {
+            s->read_block_fib = NULL;
+        }
 
         /* decode the response from yield. */
         if (STATUS_SUCCESS != retval)
diff --git a/src/psock/psock_write_block.c b/src/psock/psock_write_block.c
index 3763321..47e9515 100644
--- a/src/psock/psock_write_block.c
+++ b/src/psock/psock_write_block.c
@@ -99,8 +99,12 @@ RCPR_SYM(psock_write_block)(RCPR_SYM(psock)* sock)
                 &resume_event, &resume_param);
 
         /* regardless of whether this yield succeeds or not, we are no longer
-         * blocked. */
-        s->write_block_fib = NULL;
+         * blocked. If we were already unblocked before being resumed, another
+         * fiber may have blocked since, and must not be forgotten. */
+        if (s->write_block_fib == current_fib)
+        {
+            s->write_block_fib = NULL;
+        }
 
         /* decode the response from yield. */
         if (STATUS_SUCCESS != retval)
-- 
2.43.0


From 29129ff425d2e98861b5a5ba0dcd2580c13aab6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:15 +0000
Subject: [PATCH 36/37] fix: fibers whose descriptor cannot be re-armed are
 resumed to get the error

---
 .../platform/epoll/psock_idle_fiber_entry.c   | 39 ++++++++++++++++++-
 1 file changed, 37 insertions(+), 2 deletions(-)

diff --git a/src/psock/platform/epoll/psock_idle_fiber_entry.c b/src/psock/platform/epoll/psock_idle_fiber_entry.c
index 39467ed..97e9c26 100644
--- a/src/psock/platform/epoll/psock_idle_fiber_entry.c
+++ b/src/psock/platform/epoll/psock_idle_fiber_entry.c
@@ -175,9 +175,44 @@ status RCPR_SYM(psock_idle_fiber_entry)(void* context)
                     retval =
                         epoll_ctl(
                             ctx->ep, EPOLL_CTL_ADD, desc->descriptor, &event);
+                }
 
-                    /* TODO - we can't really do anything yet if this fails. */
-                    (void)retval;
+                /* if this fails, these fibers would wait forever. Resume them;
+                 * they try again, and are told of the error. */
+                bool armed = retval >= 0;
+                if (!armed && NULL != ps->read_block_fib)
+                {
+                    retval =
+                        disciplined_fiber_scheduler_add_fiber_to_run_queue(
+                            ctx->sched, ps->read_block_fib,
+                            &FIBER_SCHEDULER_PSOCK_IO_DISCIPLINE,
+                            FIBER_SCHEDULER_PSOCK_IO_RESUME_EVENT_AVAILABLE_READ,
+                            (void*)(ptrdiff_t)
+                                FIBER_SCHEDULER_PSOCK_IO_RESUME_EVENT_FLAG_ERROR
+                            );
+                    if (STATUS_SUCCESS != retval)
+                    {
+                        goto done;
+                    }
+
+                    ps->read_block_fib = NULL;
+                }
+                if (!armed && NULL != ps->write_block_fib)
+                {
+                    retval =
+                        disciplined_fiber_scheduler_add_fiber_to_run_queue(
+                            ctx->sched, ps->write_block_fib,
+                            &FIBER_SCHEDULER_PSOCK_IO_DISCIPLINE,
+                            FIBER_SCHEDULER_PSOCK_IO_RESUME_EVENT_AVAILABLE_WRITE,
+                            (void*)(ptrdiff_t)
+                                FIBER_SCHEDULER_PSOCK_IO_RESUME_EVENT_FLAG_ERROR
+                            );
+                    if (STATUS_SUCCESS != retval)
+                    {
+                        goto done;
+                    }
+
+                    ps->write_block_fib = NULL;
                 }
             }
         }
-- 
2.43.0


From 5da608666a8a096b9cac0ce0bb98ad3f4d930c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:08 +0000
Subject: [PATCH 37/37] fix: end the process with status 1 when a fiber entry
 returns (load the constant, not address 1)

---
 src/fiber/platform/sysv/x86_64/fiber_make.s | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fiber/platform/sysv/x86_64/fiber_make.s b/src/fiber/platform/sysv/x86_64/fiber_make.s
index 19e5bee..ab001ad 100644
--- a/src/fiber/platform/sysv/x86_64/fiber_make.s
+++ b/src/fiber/platform/sysv/x86_64/fiber_make.s
@@ -102,7 +102,7 @@ trampoline:
 
 finish:
     # exit code is non-zero.
-    mov 0x1, %rdi
+    mov $0x1, %rdi
     # exit application.
     call  _exit@PLT
     hlt
-- 
2.43.0

