From a2e8ef4fd8eca0b794c534a7db73fca810fd269b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:37 +0000
Subject: [PATCH 01/22] fix: keep arena blocks inside the arena and reclaim
 them completely

The header walk omitted the header sizes and ran past the end of the arena,
freeing the last block read past the end, neighbouring free blocks were never
merged again, a consolidated block could not be released with the size that was
requested, extending neither checked the size of the neighbour nor the result
of the search, and sizes above 16 MB were silently truncated.
---
 runtime/arena.c  | 165 +++++++++++++++++++++++------------------------
 runtime/server.c |   2 +-
 2 files changed, 82 insertions(+), 85 deletions(-)

diff --git a/runtime/arena.c b/runtime/arena.c
index 50b05fa..a2888e5 100644
--- a/runtime/arena.c
+++ b/runtime/arena.c
@@ -32,9 +32,9 @@
 #include <string.h>
 
 struct gracht_header {
-    uint32_t length    : 24;
+    uint32_t length    : 31; // number of bytes following this header
     uint32_t allocated : 1;
-    uint32_t flags     : 7;
+    uint32_t size;           // number of bytes the owner of the allocation may use
     uint32_t payload[1];
 };
 
@@ -51,6 +51,9 @@ struct gracht_arena {
 #define GET_HEADER(ptr)      ((struct gracht_header*)((char*)(ptr) - HEADER_SIZE))
 #define GET_NEXT_HEADER(hdr) ((struct gracht_header*)((char*)(hdr) + (HEADER_SIZE + (hdr)->length)))
 
+// the largest number of bytes a header can describe
+#define ARENA_MAX_LENGTH     0x7FFFFFFFu
+
 void gracht_arena_free(struct gracht_arena* arena, void* memory, size_t size);
 
 int gracht_arena_create(size_t size, struct gracht_arena** arenaOut)
@@ -58,7 +61,7 @@ int gracht_arena_create(size_t size, struct gracht_arena** arenaOut)
     struct gracht_arena* arena;
     void*                base;
 
-    if (!size || !arenaOut) {
+    if (size <= HEADER_SIZE || size > ARENA_MAX_LENGTH || !arenaOut) {
         errno = EINVAL;
         return -1;
     }
@@ -81,8 +84,8 @@ int gracht_arena_create(size_t size, struct gracht_arena** arenaOut)
     arena->length = size;
 
     // initialize the first header
-    arena->base->length = (uint32_t)(size & 0x00FFFFFF) - HEADER_SIZE;
-    arena->base->flags  = 0;
+    arena->base->length = (uint32_t)(size - HEADER_SIZE);
+    arena->base->size   = 0;
     arena->base->allocated = 0;
 
     *arenaOut = arena;
@@ -106,35 +109,59 @@ static inline void create_header(void* memory, uint32_t size)
     struct gracht_header* header = memory;
     header->length = size - HEADER_SIZE;
     header->allocated = 0;
-    header->flags = 0;
+    header->size = 0;
 }
 
-static inline void move_header(struct gracht_header* header, long byteCount)
+// returns the header that follows, or NULL if it was the last header of the arena
+static inline struct gracht_header* next_header(struct gracht_arena* arena, struct gracht_header* header)
 {
-    void* target = ((char*)header + byteCount);
-    GRTRACE(GRSTR("moving header from %p to %p"), header, target);
+    struct gracht_header* next = GET_NEXT_HEADER(header);
+    if ((char*)next >= (char*)arena->base + arena->length) {
+        return NULL;
+    }
+    return next;
+}
 
-    memmove(target, header, HEADER_SIZE);
+// merges any free headers following into the given header
+static inline void merge_forward(struct gracht_arena* arena, struct gracht_header* header)
+{
+    struct gracht_header* next = next_header(arena, header);
+    while (next && !next->allocated) {
+        header->length += next->length + HEADER_SIZE;
+        next = next_header(arena, header);
+    }
+}
+
+// gives everything beyond byteCount bytes of this allocation back to the arena, if
+// there is room for a header
+static inline void trim_header(struct gracht_arena* arena, struct gracht_header* header, uint32_t byteCount, uint32_t threshold)
+{
+    uint32_t spillover;
+
+    merge_forward(arena, header);
+    spillover = header->length - byteCount;
+    if (spillover >= threshold) {
+        header->length = byteCount;
+        create_header(GET_NEXT_HEADER(header), spillover);
+    }
 }
 
 static inline struct gracht_header* find_free_header(struct gracht_arena* arena, uint32_t size)
 {
-    struct gracht_header* itr    = arena->base;
-    uint32_t              length = 0;
+    struct gracht_header* itr = arena->base;
 
     GRTRACE(GRSTR("find_free_header(arena=0x%p, size=%u)"), arena, size);
-    while (length < arena->length) {
+    while (itr) {
         GRTRACE(GRSTR("header: at=0x%p length=%u, allocated=%i"), itr, itr->length, itr->allocated);
-        if (!itr->allocated && itr->length >= size) {
-            return itr;
+        if (!itr->allocated) {
+            // allocations are only merged in forward direction when they are freed, so
+            // do the remaining merging here
+            merge_forward(arena, itr);
+            if (itr->length >= size) {
+                return itr;
+            }
         }
-
-        if (!itr->length) {
-            break;
-        }
-
-        length += itr->length;
-        itr = GET_NEXT_HEADER(itr);
+        itr = next_header(arena, itr);
     }
     return NULL;
 }
@@ -142,36 +169,39 @@ static inline struct gracht_header* find_free_header(struct gracht_arena* arena,
 void* gracht_arena_allocate(struct gracht_arena* arena, void* allocation, size_t size)
 {
     struct gracht_header* allocHeader;
-    uint32_t              correctedSize = (uint32_t)(size & 0x00FFFFFF);
+    uint32_t              correctedSize = (uint32_t)size;
     GRTRACE(GRSTR("gracht_arena_allocate(arena=0x%p, allocation=0x%p, size=%u)"), arena, allocation, correctedSize);
 
-    if (!arena || !size) {
+    if (!arena || !size || size > arena->length) {
         return NULL;
     }
 
     mtx_lock(&arena->mutex);
     if (allocation) {
         struct gracht_header* header     = GET_HEADER(allocation);
-        struct gracht_header* nextHeader = GET_NEXT_HEADER(header);
-
-        if (!nextHeader || nextHeader->allocated) {
-            // we must reallocate the memory space to somewhere else
-            correctedSize += header->length;
+        struct gracht_header* nextHeader = next_header(arena, header);
+        size_t                available  = header->length;
 
-            allocHeader = find_free_header(arena, correctedSize);
-            memcpy(&allocHeader->payload[0], &header->payload[0], header->length);
-
-            // what consequences could this call have
-            gracht_arena_free(arena, allocation, header->length);
+        // can we safely extend the current allocation
+        while (nextHeader && !nextHeader->allocated) {
+            available += nextHeader->length + HEADER_SIZE;
+            nextHeader = next_header(arena, nextHeader);
         }
-        else {
-            // we are able to safely extend the current allocation
-            header->length += correctedSize;
-            nextHeader->length -= correctedSize;
-            move_header(nextHeader, (long)correctedSize);
+
+        correctedSize += header->size;
+        if (available >= correctedSize) {
+            header->size = correctedSize;
+            trim_header(arena, header, correctedSize, ALLOCATION_SPILLOVER_THRESHOLD);
             mtx_unlock(&arena->mutex);
             return &header->payload[0];
         }
+
+        // otherwise we must reallocate the memory space to somewhere else
+        allocHeader = find_free_header(arena, correctedSize);
+        if (allocHeader) {
+            memcpy(&allocHeader->payload[0], &header->payload[0], header->size);
+            gracht_arena_free(arena, allocation, 0);
+        }
     }
     else {
         allocHeader = find_free_header(arena, correctedSize);
@@ -182,20 +212,11 @@ void* gracht_arena_allocate(struct gracht_arena* arena, void* allocation, size_t
         return NULL;
     }
 
-    // if the bytes left in the header is less than a threshold, then we consolidate
-    // with the current allocation.
-    if ((allocHeader->length - correctedSize) < ALLOCATION_SPILLOVER_THRESHOLD) {
-        correctedSize = allocHeader->length;
-    }
-
-    // create a new free header
-    if (correctedSize != allocHeader->length) {
-        create_header(((char*)allocHeader + HEADER_SIZE + correctedSize), allocHeader->length - correctedSize);
-    }
-
-    // update current header
+    // update current header, if the bytes left in the header is less than a threshold,
+    // then we consolidate with the current allocation.
     allocHeader->allocated = 1;
-    allocHeader->length = (uint32_t)(correctedSize & 0x00FFFFFF);
+    allocHeader->size = correctedSize;
+    trim_header(arena, allocHeader, correctedSize, ALLOCATION_SPILLOVER_THRESHOLD);
     GRTRACE(GRSTR("gracht_arena_allocate returns=%p"), &allocHeader->payload[0]);
     mtx_unlock(&arena->mutex);
     return &allocHeader->payload[0];
@@ -204,51 +225,27 @@ void* gracht_arena_allocate(struct gracht_arena* arena, void* allocation, size_t
 void gracht_arena_free(struct gracht_arena* arena, void* memory, size_t size)
 {
     struct gracht_header* header;
-    struct gracht_header* nextHeader;
-    uint32_t              allocLength = (uint32_t)(size & 0x00FFFFFF);
-    GRTRACE(GRSTR("gracht_arena_free(arena=0x%p, memory=0x%p, size=%u)"), arena, memory, allocLength);
+    GRTRACE(GRSTR("gracht_arena_free(arena=0x%p, memory=0x%p, size=%zu)"), arena, memory, size);
 
     if (!arena || !memory) {
         return;
     }
 
     mtx_lock(&arena->mutex);
-    header     = GET_HEADER(memory);
-    nextHeader = GET_NEXT_HEADER(header);
+    header = GET_HEADER(memory);
 
     // currently we only merge in forward direction, to merge in backwards
     // direction without iterating we need to add an allocation footer
-    if (allocLength != 0 && header->length != allocLength) {
-        // must free atleast enough, otherwise skip partial-free operation
-        if (allocLength < sizeof(struct gracht_header)) {
-            mtx_unlock(&arena->mutex);
-            return;
-        }
-
+    if (size != 0 && size < header->size) {
         // reduce the size of this allocation by the number of bytes we free
-        GRTRACE(GRSTR("%p=reducing allocation from %u by %u"), header, header->length, allocLength);
-        header->length -= allocLength;
-
-        // either we must adjust the header link or create a new
-        // based on whether its free or not
-        if (!nextHeader->allocated) {
-            long negated = 0 - (long)allocLength;
-            GRTRACE(GRSTR("%p=moving by %li bytes"), nextHeader, negated);
-
-            // header is not allocated, we add the size to it and move it
-            GRTRACE(GRSTR("%p=increasing length by %u bytes to %u bytes"), nextHeader, allocLength, nextHeader->length);
-            nextHeader->length += allocLength;
-            move_header(nextHeader, negated);
-        } else {
-            // it was allocated, we must create a new header with the size that was freed
-            create_header(GET_NEXT_HEADER(header), allocLength);
-        }
+        GRTRACE(GRSTR("%p=reducing allocation from %u by %zu"), header, header->size, size);
+        header->size -= (uint32_t)size;
+        trim_header(arena, header, header->size, sizeof(struct gracht_header));
     }
     else {
         header->allocated = 0;
-        if (!nextHeader->allocated) {
-            header->length += nextHeader->length + HEADER_SIZE;
-        }
+        header->size = 0;
+        merge_forward(arena, header);
     }
     mtx_unlock(&arena->mutex);
 }
diff --git a/runtime/server.c b/runtime/server.c
index dd6a2bb..dc70158 100644
--- a/runtime/server.c
+++ b/runtime/server.c
@@ -339,7 +339,7 @@ static struct gracht_message* get_in_buffer_mt(struct gracht_server* server)
 
 static void put_message_mt(struct gracht_server* server, struct gracht_message* message)
 {
-    gracht_arena_free(server->arena, message, server->allocationSize);
+    gracht_arena_free(server->arena, message, 0);
 }
 
 static int handle_packet(struct gracht_server* server, struct gracht_link* link)
-- 
2.43.0


From 87fc3d2b51c2c7c9a6c6c859bd8badcbbc23419b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:07 +0000
Subject: [PATCH 02/22] fix: make the buffer stack safe for concurrent use and
 growth

A push beyond the capacity skipped a slot (which was later popped as garbage),
and a pop could read a slot before the pushing thread had stored into it.
---
 include/stack.h | 13 +++++----
 runtime/stack.c | 78 +++++++++++++++++++------------------------------
 2 files changed, 37 insertions(+), 54 deletions(-)

diff --git a/include/stack.h b/include/stack.h
index 3ae0581..614e2fc 100644
--- a/include/stack.h
+++ b/include/stack.h
@@ -14,24 +14,25 @@
  * You should have received a copy of the GNU General Public License
  * along with this program. If not, see <http://www.gnu.org/licenses/>.
  *
- * Lockless stack implementation
+ * Thread-safe stack implementation
  */
 
 #ifndef __GRACHT_STACK_H__
 #define __GRACHT_STACK_H__
 
-#include "gatomic.h"
+#include "thread_api.h"
 #include <stddef.h>
 
 struct stack {
-    atomic_uintptr_t elements;
-    atomic_uint      index;
-    size_t           count;
+    mtx_t  mutex;
+    void** elements;
+    size_t index;
+    size_t count;
 };
 
 int   stack_construct(struct stack* stack, size_t initialCount);
 void  stack_destroy(struct stack* stack);
-void  stack_push(struct stack* stack, void* pointer);
+int   stack_push(struct stack* stack, void* pointer);
 void* stack_pop(struct stack* stack);
 
 #endif //! __GRACHT_STACK_H__
diff --git a/runtime/stack.c b/runtime/stack.c
index 7014364..f92bd46 100644
--- a/runtime/stack.c
+++ b/runtime/stack.c
@@ -14,7 +14,7 @@
  * You should have received a copy of the GNU General Public License
  * along with this program. If not, see <http://www.gnu.org/licenses/>.
  *
- * Lockless stack implementation
+ * Thread-safe stack implementation
  */
 
 #include <errno.h>
@@ -23,26 +23,21 @@
 #include <stdlib.h>
 #include <string.h>
 
-#ifdef _WIN32
-typedef uintptr_t uint_loaded_t;
-#else
-typedef unsigned int uint_loaded_t;
-#endif
-
 int stack_construct(struct stack* stack, size_t initialCount)
 {
-    uintptr_t space;
+    void** space;
     if (!stack || !initialCount) {
         errno = EINVAL;
         return -1;
     }
 
-    space = (uintptr_t)malloc(sizeof(uintptr_t) * initialCount);
+    space = malloc(sizeof(void*) * initialCount);
     if (!space) {
         errno = ENOMEM;
         return -1;
     }
 
+    mtx_init(&stack->mutex, mtx_plain);
     stack->elements = space;
     stack->index    = 0;
     stack->count    = initialCount;
@@ -55,71 +50,58 @@ void stack_destroy(struct stack* stack)
         return;
     }
 
-    free((void*)atomic_load(&stack->elements));
+    mtx_destroy(&stack->mutex);
+    free(stack->elements);
 }
 
-int stack_resize(struct stack* stack, size_t newSize)
+static int stack_resize(struct stack* stack, size_t newSize)
 {
-    uintptr_t original = atomic_load(&stack->elements);
-    uintptr_t resized  = (uintptr_t)malloc(sizeof(uintptr_t) * newSize);
-    int       result;
+    void** resized = malloc(sizeof(void*) * newSize);
 
     if (!resized) {
         errno = ENOMEM;
         return -1;
     }
 
-    memcpy((void*)resized, (const void*)original, sizeof(uintptr_t) * stack->count);
-    
-    result = atomic_compare_exchange_strong(&stack->elements, &original, resized);
-    if (!result) {
-        // try again, someone else beat us to it
-        free((void*)resized);
-        return 0;
-    }
-
-    stack->count = newSize;
+    memcpy(resized, stack->elements, sizeof(void*) * stack->count);
+    free(stack->elements);
+    stack->elements = resized;
+    stack->count    = newSize;
     return 0;
 }
 
-void stack_push(struct stack* stack, void* pointer)
+int stack_push(struct stack* stack, void* pointer)
 {
-    uint_loaded_t index;
+    int status = 0;
 
     if (!stack || !pointer) {
-        return;
+        errno = EINVAL;
+        return -1;
     }
 
-perform_push:
-    index = atomic_fetch_add(&stack->index, 1);
-    if (index >= stack->count) {
-        if (stack_resize(stack, stack->count * 2)) {
-            return;
-        }
-        goto perform_push;
+    mtx_lock(&stack->mutex);
+    if (stack->index == stack->count) {
+        status = stack_resize(stack, stack->count * 2);
     }
-
-    ((uintptr_t*)atomic_load(&stack->elements))[index] = (uintptr_t)pointer;
+    if (!status) {
+        stack->elements[stack->index++] = pointer;
+    }
+    mtx_unlock(&stack->mutex);
+    return status;
 }
 
 void* stack_pop(struct stack* stack)
 {
-    uint_loaded_t index;
-    int           result;
+    void* pointer = NULL;
 
     if (!stack) {
         return NULL;
     }
 
-perform_pop:
-    index = atomic_load(&stack->index);
-    if (!index) {
-        return NULL;
-    }
-
-    result = atomic_compare_exchange_strong(&stack->index, &index, index - 1);
-    if (!result) {
-        goto perform_pop;
+    mtx_lock(&stack->mutex);
+    if (stack->index) {
+        pointer = stack->elements[--stack->index];
     }
-    return (void*)((uintptr_t*)atomic_load(&stack->elements))[index - 1];
+    mtx_unlock(&stack->mutex);
+    return pointer;
 }
-- 
2.43.0


From 3b860c7ce846454daf921f98d3ad13680fbdb372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:07 +0000
Subject: [PATCH 03/22] fix: return the send buffer when the receiving client
 is gone

gracht_server_respond and gracht_server_send_event lost the borrowed buffer
whenever the client they were meant for did not exist (any more).
---
 runtime/server.c | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/runtime/server.c b/runtime/server.c
index dc70158..012a359 100644
--- a/runtime/server.c
+++ b/runtime/server.c
@@ -623,6 +623,14 @@ int gracht_server_get_buffer(gracht_server_t* server, gracht_buffer_t* buffer)
     return 0;
 }
 
+static void put_buffer(gracht_server_t* server, gracht_buffer_t* buffer)
+{
+    // return the borrowed buffer to the stack
+    if (stack_push(&server->bufferStack, buffer->data)) {
+        free(buffer->data);
+    }
+}
+
 int gracht_server_respond(struct gracht_message* messageContext, gracht_buffer_t* message)
 {
     struct client_wrapper* entry;
@@ -646,6 +654,7 @@ int gracht_server_respond(struct gracht_message* messageContext, gracht_buffer_t
         rwlock_r_unlock(&messageContext->server->clients_lock);
         link = get_link_by_conn(messageContext->server, messageContext->link);
         if (!link) {
+            put_buffer(messageContext->server, message);
             errno = ENODEV;
             return -1;
         }
@@ -656,8 +665,7 @@ int gracht_server_respond(struct gracht_message* messageContext, gracht_buffer_t
         rwlock_r_unlock(&messageContext->server->clients_lock);
     }
 
-    // return the borrowed buffer to the stack
-    stack_push(&messageContext->server->bufferStack, message->data);
+    put_buffer(messageContext->server, message);
     return status;
 }
 
@@ -678,6 +686,7 @@ int gracht_server_send_event(gracht_server_t* server, gracht_conn_t client, grac
     clientEntry = gr_hashtable_get(&server->clients, &(struct client_wrapper){ .handle = client });
     if (!clientEntry) {
         rwlock_r_unlock(&server->clients_lock);
+        put_buffer(server, message);
         errno = ENOENT;
         return -1;
     }
@@ -686,8 +695,7 @@ int gracht_server_send_event(gracht_server_t* server, gracht_conn_t client, grac
     status = clientEntry->link->ops.server.send_client(clientEntry->client, message, flags);
     rwlock_r_unlock(&server->clients_lock);
 
-    // return the borrowed buffer to the stack
-    stack_push(&server->bufferStack, message->data);
+    put_buffer(server, message);
     return status;
 }
 
@@ -710,8 +718,7 @@ int gracht_server_broadcast_event(gracht_server_t* server, gracht_buffer_t* mess
     gr_hashtable_enumerate(&server->clients, client_enum_broadcast, &context);
     rwlock_r_unlock(&server->clients_lock);
 
-    // return the borrowed buffer to the stack
-    stack_push(&server->bufferStack, message->data);
+    put_buffer(server, message);
     return 0;
 }
 
-- 
2.43.0


From 5909c025d5153fa842a544d90aaad07c45accf2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:11 +0000
Subject: [PATCH 04/22] fix: wait for receive memory instead of dereferencing
 NULL

When the workers of a multi-threaded server held all of the receive memory the
next message was written to address zero. A message that filled its buffer
exactly was freed entirely when it should have been trimmed by zero bytes.
---
 runtime/server.c | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/runtime/server.c b/runtime/server.c
index 012a359..dc4d290 100644
--- a/runtime/server.c
+++ b/runtime/server.c
@@ -79,6 +79,8 @@ typedef struct gracht_server {
     gracht_handle_t                set_handle;
     int                            set_handle_provided;
     struct gracht_arena*           arena;
+    mtx_t                          arena_lock;
+    cnd_t                          arena_signal;
     gr_hashtable_t                 protocols;
     struct rwlock                  protocols_lock;
     gr_hashtable_t                 clients;
@@ -142,10 +144,14 @@ int gracht_server_create(gracht_server_configuration_t* config, gracht_server_t*
     }
     memset(server, 0, sizeof(gracht_server_t));
     server->set_handle = GRACHT_HANDLE_INVALID;
+    mtx_init(&server->arena_lock, mtx_plain);
+    cnd_init(&server->arena_signal);
 
     status = configure_server(server, config);
     if (status) {
         GRERROR(GRSTR("gracht_server_start: invalid configuration provided"));
+        cnd_destroy(&server->arena_signal);
+        mtx_destroy(&server->arena_lock);
         free(server);
         return -1;
     }
@@ -323,7 +329,10 @@ static void dispatch_mt(struct gracht_server* server, struct gracht_message* mes
         uint32_t messageLength  = *((uint32_t*)&message->payload[message->index + MSG_INDEX_LEN]);
         uint32_t metaDatalength = sizeof(struct gracht_message) + message->index;
 
-        gracht_arena_free(server->arena, message, server->allocationSize - messageLength - metaDatalength);
+        // be careful, freeing zero bytes frees the entire message
+        if (server->allocationSize > (size_t)messageLength + metaDatalength) {
+            gracht_arena_free(server->arena, message, server->allocationSize - messageLength - metaDatalength);
+        }
         gracht_worker_pool_dispatch(server->worker_pool, message);
     }
 }
@@ -331,7 +340,16 @@ static void dispatch_mt(struct gracht_server* server, struct gracht_message* mes
 static struct gracht_message* get_in_buffer_mt(struct gracht_server* server)
 {
     struct gracht_message* message;
+
+    // if all the receive memory is in use by the workers, then wait for them
+    mtx_lock(&server->arena_lock);
     message = gracht_arena_allocate(server->arena, NULL, server->allocationSize);
+    while (!message) {
+        cnd_wait(&server->arena_signal, &server->arena_lock);
+        message = gracht_arena_allocate(server->arena, NULL, server->allocationSize);
+    }
+    mtx_unlock(&server->arena_lock);
+
     message->server = server;
     message->index  = server->allocationSize;
     return message;
@@ -393,6 +411,7 @@ static int handle_client_event(struct gracht_server* server, gracht_conn_t handl
         while (entry) {
             struct gracht_message* message = server->ops->get_incoming_buffer(server);
             if (!message) {
+                rwlock_r_unlock(&server->clients_lock);
                 GRERROR(GRSTR("handle_client_event ran out of receiving buffers"));
                 errno = ENOMEM;
                 return -1;
@@ -480,6 +499,8 @@ static int gracht_server_shutdown(gracht_server_t* server)
     gr_hashtable_destroy(&server->clients);
     rwlock_destroy(&server->protocols_lock);
     rwlock_destroy(&server->clients_lock);
+    cnd_destroy(&server->arena_signal);
+    mtx_destroy(&server->arena_lock);
     free(server);
     return 0;
 }
@@ -531,7 +552,10 @@ void server_cleanup_message(struct gracht_server* server, struct gracht_message*
     if (!server || !recvMessage) {
         return;
     }
+    mtx_lock(&server->arena_lock);
     gracht_arena_free(server->arena, recvMessage, 0);
+    cnd_signal(&server->arena_signal);
+    mtx_unlock(&server->arena_lock);
 }
 
 int gracht_server_handle_event(gracht_server_t* server, gracht_conn_t handle, unsigned int events)
-- 
2.43.0


From aaad7e5c0cd6279c82369a3a9dea66bfbd739607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:32 +0000
Subject: [PATCH 05/22] fix: report the disconnection of known clients only

---
 runtime/server.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/runtime/server.c b/runtime/server.c
index dc4d290..a0b7145 100644
--- a/runtime/server.c
+++ b/runtime/server.c
@@ -815,6 +815,14 @@ static void client_destroy(struct gracht_server* server, gracht_conn_t client)
 {
     struct client_wrapper* entry;
 
+    // only report clients that we know of
+    rwlock_r_lock(&server->clients_lock);
+    entry = gr_hashtable_get(&server->clients, &(struct client_wrapper){ .handle = client });
+    rwlock_r_unlock(&server->clients_lock);
+    if (!entry) {
+        return;
+    }
+
     if (server->callbacks.clientDisconnected) {
         server->callbacks.clientDisconnected(client);
     }
-- 
2.43.0


From 7fff43588fe21abe1c3cf206aa458d6a91996da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:36 +0000
Subject: [PATCH 06/22] fix: never lose a job or a shutdown request in the
 worker pool

A job for a worker with a full queue was dropped, a shutdown request was lost
when the worker had not started or had not started to wait yet, and a spurious
wake-up made the worker execute a job that does not exist.
---
 runtime/dispatch_generic.c | 40 +++++++++++++++++++++-----------------
 1 file changed, 22 insertions(+), 18 deletions(-)

diff --git a/runtime/dispatch_generic.c b/runtime/dispatch_generic.c
index 3f76a4d..c87ce89 100644
--- a/runtime/dispatch_generic.c
+++ b/runtime/dispatch_generic.c
@@ -37,6 +37,7 @@ struct gracht_worker {
     mtx_t           sync_object;
     struct gr_queue job_queue;
     cnd_t           signal;
+    cnd_t           space;
     int             state;
 };
 
@@ -103,8 +104,10 @@ void gracht_worker_pool_destroy(struct gracht_worker_pool* pool)
 
     // destroy pool of workers
     for (i = 0; i < pool->worker_count; i++) {
+        mtx_lock(&pool->workers[i].sync_object);
         pool->workers[i].state = WORKER_SHUTDOWN_REQUEST;
         cnd_signal(&pool->workers[i].signal);
+        mtx_unlock(&pool->workers[i].sync_object);
 
         // wait for cleanup
         thrd_join(pool->workers[i].id, &exitCode);
@@ -126,9 +129,12 @@ void gracht_worker_pool_dispatch(struct gracht_worker_pool* pool, struct gracht_
 
     worker = &pool->workers[pool->rr_index];
     mtx_lock(&worker->sync_object);
-    gr_queue_enqueue(&worker->job_queue, recvMessage);
-    mtx_unlock(&worker->sync_object);
+    // wait for the worker to make progress if its queue is full
+    while (gr_queue_enqueue(&worker->job_queue, recvMessage)) {
+        cnd_wait(&worker->space, &worker->sync_object);
+    }
     cnd_signal(&worker->signal);
+    mtx_unlock(&worker->sync_object);
 
     // increase round robin index and handle limit
     pool->rr_index++;
@@ -153,6 +159,7 @@ static void initialize_worker(struct gracht_server* server, struct gracht_worker
     gr_queue_construct(&worker->job_queue, SERVER_WORKER_DEFAULT_QUEUE_SIZE);
     mtx_init(&worker->sync_object, mtx_plain);
     cnd_init(&worker->signal);
+    cnd_init(&worker->space);
     worker->state = WORKER_STARTUP;
 
     if (thrd_create(&worker->id, worker_dowork, context) != thrd_success) {
@@ -164,6 +171,7 @@ static void cleanup_worker(struct gracht_worker* worker)
 {
     mtx_destroy(&worker->sync_object);
     cnd_destroy(&worker->signal);
+    cnd_destroy(&worker->space);
     gr_queue_destroy(&worker->job_queue);
 }
 
@@ -175,21 +183,19 @@ static int worker_dowork(void* context)
     GRTRACE(GRSTR("worker_dowork: running"));
 
     worker = workerContext->worker;
-    worker->state = WORKER_ALIVE;
-    while (1) {
-        mtx_lock(&worker->sync_object);
+
+    mtx_lock(&worker->sync_object);
+    if (worker->state == WORKER_STARTUP) {
+        worker->state = WORKER_ALIVE;
+    }
+
+    while (worker->state != WORKER_SHUTDOWN_REQUEST) {
         job = gr_queue_dequeue(&worker->job_queue);
         if (!job) {
             cnd_wait(&worker->signal, &worker->sync_object);
-            if (worker->state == WORKER_SHUTDOWN_REQUEST) {
-                worker->state = WORKER_SHUTDOWN;
-                mtx_unlock(&worker->sync_object);
-                break;
-            }
-
-            job = gr_queue_dequeue(&worker->job_queue);
-            // assert(job_header != NULL);
+            continue;
         }
+        cnd_signal(&worker->space);
         mtx_unlock(&worker->sync_object);
 
         // handle the job
@@ -197,12 +203,10 @@ static int worker_dowork(void* context)
         server_invoke_action(workerContext->server, job);
         server_cleanup_message(workerContext->server, job);
 
-        // check again at exit of iteration
-        if (worker->state == WORKER_SHUTDOWN_REQUEST) {
-            worker->state = WORKER_SHUTDOWN;
-            break;
-        }
+        mtx_lock(&worker->sync_object);
     }
+    worker->state = WORKER_SHUTDOWN;
+    mtx_unlock(&worker->sync_object);
     GRTRACE(GRSTR("worker_dowork: shutting down"));
 
     job = gr_queue_dequeue(&worker->job_queue);
-- 
2.43.0


From 0a9740091d0a58f92cbde40f72f4a557b7bc57f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:20 +0000
Subject: [PATCH 07/22] fix: keep the message framing of server side stream
 sockets intact

A header that arrived in pieces was thrown away, a message that arrived in
pieces blocked the whole server, the length of a message was trusted, messages
sent by different workers or only partially could be mixed up, and sending to
a closed connection raised SIGPIPE.
---
 runtime/link/socket/server.c    | 114 +++++++++++++++++++++++++++-----
 runtime/link/socket/socket_os.h |   5 ++
 2 files changed, 102 insertions(+), 17 deletions(-)

diff --git a/runtime/link/socket/server.c b/runtime/link/socket/server.c
index 01ccb1f..2a922b3 100644
--- a/runtime/link/socket/server.c
+++ b/runtime/link/socket/server.c
@@ -26,6 +26,8 @@
 #include "logging.h"
 #include "crc.h"
 #include "server_private.h"
+#include "thread_api.h"
+#include <errno.h>
 #include <stdlib.h>
 #include <string.h>
 
@@ -37,6 +39,9 @@ struct socket_link_client {
     gracht_conn_t               socket;
     gracht_conn_t               link;
     int                         streaming;
+    mtx_t                       send_lock;      // messages must not be mixed up on the stream
+    uint8_t*                    partial;        // what has been received of the next message
+    uint32_t                    partial_length;
 #ifdef _WIN32
     WSABUF                      waitbuf;
     uint8_t                     headerbuf[GRACHT_MESSAGE_HEADER_SIZE];
@@ -68,6 +73,7 @@ static int queue_accept(struct gracht_link_socket* link, gracht_handle_t iocp_ha
 
     client->base.handle = client->socket;
     client->streaming   = 1;
+    mtx_init(&client->send_lock, mtx_plain);
     client->waitbuf.buf = &client->headerbuf[0];
     client->waitbuf.len = GRACHT_MESSAGE_HEADER_SIZE;
 
@@ -78,6 +84,7 @@ static int queue_accept(struct gracht_link_socket* link, gracht_handle_t iocp_ha
         DWORD reason = WSAGetLastError();
         if (reason != WSA_IO_PENDING) {
             closesocket(client->socket);
+            mtx_destroy(&client->send_lock);
             free(client);
             return -1;
         }
@@ -102,30 +109,77 @@ static unsigned int get_socket_flags(unsigned int flags)
 static int socket_link_send_client(struct socket_link_client* client,
     struct gracht_buffer* message, unsigned int flags)
 {
-    unsigned int socketFlags = get_socket_flags(flags);
-    intmax_t     bytesWritten;
+    unsigned int socketFlags = get_socket_flags(flags) | MSG_NOSIGNAL;
+    uint32_t     bytesSent   = 0;
 
 #ifdef _WIN32
     __set_nonblocking_if_needed(client->base.handle, flags);
 #endif
 
     GRTRACE(GRSTR("[socket_link_send] sending message"));
-    bytesWritten = send(client->base.handle, &message->data[0], message->index, socketFlags);
-    if (bytesWritten != message->index) {
-        return -1;
+    mtx_lock(&client->send_lock);
+    while (bytesSent < message->index) {
+        intmax_t bytesWritten = send(client->base.handle, &message->data[bytesSent],
+            message->index - bytesSent, socketFlags);
+        if (bytesWritten <= 0) {
+            if (bytesWritten < 0 && errno == EINTR) {
+                continue;
+            }
+            break;
+        }
+        bytesSent += (uint32_t)bytesWritten;
+
+        // once a part of the message has been sent the rest must follow
+        socketFlags &= ~(MSG_DONTWAIT);
+    }
+    mtx_unlock(&client->send_lock);
+    return bytesSent == message->index ? 0 : -1;
+}
+
+#ifndef _WIN32
+// Receives until the first byteCount bytes of the message are available in the context. If they
+// are not available yet, then we keep what was received untill the next time.
+static int socket_link_recv_until(struct socket_link_client* client, struct gracht_message* context,
+    uint32_t* bytesReceived, uint32_t byteCount, unsigned int socketFlags)
+{
+    while (*bytesReceived < byteCount) {
+        intmax_t bytesRead = recv(client->base.handle, &context->payload[*bytesReceived],
+            byteCount - *bytesReceived, socketFlags);
+        if (bytesRead == 0) {
+            errno = ENODATA;
+            return -1;
+        }
+        else if (bytesRead < 0) {
+            int reason = errno;
+            if (*bytesReceived > client->partial_length) {
+                void* partial = realloc(client->partial, *bytesReceived);
+                if (!partial) {
+                    errno = EFAULT;
+                    return -1;
+                }
+                memcpy(partial, &context->payload[0], *bytesReceived);
+                client->partial        = partial;
+                client->partial_length = *bytesReceived;
+            }
+            errno = reason;
+            return -1;
+        }
+        *bytesReceived += (uint32_t)bytesRead;
     }
     return 0;
 }
+#endif
 
 static int socket_link_recv_client(struct socket_link_client* client,
     struct gracht_message* context, unsigned int flags)
 {
-    unsigned int socketFlags = get_socket_flags(flags);
-    intmax_t     bytesRead;
-    uint32_t     missingData;
+    uint32_t capacity = context->index - (uint32_t)sizeof(struct gracht_message);
+    uint32_t messageLength;
     
     GRTRACE(GRSTR("socket_link_recv_client reading message header"));
 #ifdef _WIN32
+    intmax_t bytesRead;
+    uint32_t missingData;
     DWORD overlappedFlags;
     DWORD overlappedLength;
     BOOL  status;
@@ -154,20 +208,33 @@ static int socket_link_recv_client(struct socket_link_client* client,
         }
     }
 #else
-    bytesRead = recv(client->base.handle, &context->payload[0], GRACHT_MESSAGE_HEADER_SIZE, socketFlags);
-    if (bytesRead != GRACHT_MESSAGE_HEADER_SIZE) {
-        if (bytesRead == 0) {
-            errno = ENODATA;
-        }
+    unsigned int socketFlags   = get_socket_flags(flags);
+    uint32_t     bytesReceived = client->partial_length;
+
+    // continue where we left if we did not receive an entire message last time
+    if (bytesReceived) {
+        memcpy(&context->payload[0], client->partial, bytesReceived);
+    }
+
+    if (socket_link_recv_until(client, context, &bytesReceived, GRACHT_MESSAGE_HEADER_SIZE, socketFlags)) {
         return -1;
     }
 #endif
     
+    messageLength = *((uint32_t*)&context->payload[4]);
     GRTRACE(GRSTR("socket_link_recv_client message id %u, length of message %u"), 
-        *((uint32_t*)&context->payload[0]), *((uint32_t*)&context->payload[4]));
-    missingData = *((uint32_t*)&context->payload[4]) - GRACHT_MESSAGE_HEADER_SIZE;
+        *((uint32_t*)&context->payload[0]), messageLength);
+    if (messageLength < GRACHT_MESSAGE_HEADER_SIZE || messageLength > capacity) {
+        // there is no way to find the next message, so give up on this client
+        GRERROR(GRSTR("socket_link_recv_client invalid message length %u"), messageLength);
+        errno = (EFAULT);
+        return -1;
+    }
+
+    GRTRACE(GRSTR("socket_link_recv_client reading message payload"));
+#ifdef _WIN32
+    missingData = messageLength - GRACHT_MESSAGE_HEADER_SIZE;
     if (missingData) {
-        GRTRACE(GRSTR("socket_link_recv_client reading message payload"));
         bytesRead = recv(client->base.handle, &context->payload[GRACHT_MESSAGE_HEADER_SIZE], 
             (size_t)missingData, MSG_WAITALL);
         if (bytesRead != missingData) {
@@ -178,12 +245,21 @@ static int socket_link_recv_client(struct socket_link_client* client,
             return -1;
         }
     }
+#else
+    if (socket_link_recv_until(client, context, &bytesReceived, messageLength, socketFlags)) {
+        return -1;
+    }
+
+    free(client->partial);
+    client->partial        = NULL;
+    client->partial_length = 0;
+#endif
 
     // ->server is set by server
     context->link   = client->link;
     context->client = client->socket;
     context->index  = 0;
-    context->size   = *((uint32_t*)&context->payload[4]);
+    context->size   = messageLength;
 
 #ifdef _WIN32
     // queue up another read
@@ -219,6 +295,7 @@ static int socket_link_create_client(struct gracht_link_socket* link, struct gra
     client->base.handle = message->client;
     client->socket      = link->base.connection;
     client->streaming   = 0;
+    mtx_init(&client->send_lock, mtx_plain);
 
     address = (struct sockaddr_storage*)&message->payload[0];
     memcpy(&client->address, address, (size_t)link->address_length);
@@ -244,6 +321,8 @@ static int socket_link_destroy_client(struct socket_link_client* client, gracht_
         }
     }
     status = close(client->base.handle);
+    mtx_destroy(&client->send_lock);
+    free(client->partial);
     free(client);
     return status;
 }
@@ -415,6 +494,7 @@ static int socket_link_accept(
     }
     client->base.handle = client->socket;
     client->streaming   = 1;
+    mtx_init(&client->send_lock, mtx_plain);
     
     status = socket_aio_add(set_handle, client->socket);
     if (status) {
diff --git a/runtime/link/socket/socket_os.h b/runtime/link/socket/socket_os.h
index 48cc463..ac860f2 100644
--- a/runtime/link/socket/socket_os.h
+++ b/runtime/link/socket/socket_os.h
@@ -144,6 +144,11 @@ static inline void __set_nonblocking_if_needed(gracht_conn_t socket, unsigned in
 
 #endif
 
+// sending to a closed connection must be reported as an error, and not kill the process
+#ifndef MSG_NOSIGNAL
+#define MSG_NOSIGNAL 0
+#endif
+
 struct gracht_link_socket {
     struct gracht_link      base;
     int                     listen;
-- 
2.43.0


From d37411d1b8f99bef24fd94a2a22c7ca3f214473e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:24 +0000
Subject: [PATCH 08/22] fix: keep the message framing of client side stream
 sockets intact

A header that arrived in pieces was thrown away by a non-blocking wait, a length
outside of the receive buffer was trusted, no data was reported as a broken
connection, and sending to a closed connection raised SIGPIPE.
---
 runtime/link/socket/client.c    | 113 +++++++++++++++++++++++---------
 runtime/link/socket/socket_os.h |   4 ++
 2 files changed, 87 insertions(+), 30 deletions(-)

diff --git a/runtime/link/socket/client.c b/runtime/link/socket/client.c
index 79c1dbd..f53d535 100644
--- a/runtime/link/socket/client.c
+++ b/runtime/link/socket/client.c
@@ -32,50 +32,102 @@
 static int socket_link_send_stream(struct gracht_link_socket* link,
     struct gracht_buffer* message)
 {
-    long byteCount;
+    uint32_t bytesSent = 0;
     
-    byteCount = (long)send(link->base.connection, &message->data[0], message->index, 0);
-    if ((uint32_t)byteCount != message->index) {
-        GRERROR(GRSTR("link_client: failed to send message, bytes sent: %li, expected: %u (%i)"),
-              byteCount, message->index, errno);
-        errno = (EPIPE);
-        return -1;
+    while (bytesSent < message->index) {
+        long byteCount = (long)send(link->base.connection, &message->data[bytesSent],
+            message->index - bytesSent, MSG_NOSIGNAL);
+        if (byteCount <= 0) {
+            if (byteCount < 0 && errno == EINTR) {
+                continue;
+            }
+            GRERROR(GRSTR("link_client: failed to send message, bytes sent: %u, expected: %u (%i)"),
+                  bytesSent, message->index, errno);
+            errno = (EPIPE);
+            return -1;
+        }
+        bytesSent += (uint32_t)byteCount;
     }
     return 0;
 }
 
-static int socket_link_recv_stream(struct gracht_link_socket* link,
-    struct gracht_buffer* message, unsigned int flags)
+// Receives until the first byteCount bytes of the message are available. If they are not available 
+// yet, then we keep what was received untill the next time.
+static int socket_link_recv_until(struct gracht_link_socket* link, struct gracht_buffer* message,
+    uint32_t* bytesReceived, uint32_t byteCount, unsigned int flags)
 {
-    size_t   bytesRead;
-    uint32_t missingData;
-    
-    GRTRACE(GRSTR("[gracht_connection_recv_stream] reading message header"));
-    bytesRead = recv(link->base.connection, &message->data[0], GRACHT_MESSAGE_HEADER_SIZE, flags);
-    if (bytesRead != GRACHT_MESSAGE_HEADER_SIZE) {
+    while (*bytesReceived < byteCount) {
+        intmax_t bytesRead = (intmax_t)recv(link->base.connection, &message->data[*bytesReceived],
+            byteCount - *bytesReceived, flags);
         if (bytesRead == 0) {
             errno = (ENODATA);
+            return -1;
         }
-        else {
-            errno = (EPIPE);
+        else if (bytesRead < 0) {
+            int reason = errno;
+            if (reason != EAGAIN && reason != EWOULDBLOCK && reason != EINTR) {
+                errno = (EPIPE);
+                return -1;
+            }
+
+            if (*bytesReceived > link->partial_length) {
+                void* partial = realloc(link->partial, *bytesReceived);
+                if (!partial) {
+                    link->broken = 1;
+                    errno = (ENOMEM);
+                    return -1;
+                }
+                memcpy(partial, &message->data[0], *bytesReceived);
+                link->partial        = partial;
+                link->partial_length = *bytesReceived;
+            }
+            errno = reason;
+            return -1;
         }
+        *bytesReceived += (uint32_t)bytesRead;
+    }
+    return 0;
+}
+
+static int socket_link_recv_stream(struct gracht_link_socket* link,
+    struct gracht_buffer* message, unsigned int flags)
+{
+    uint32_t bytesReceived = link->partial_length;
+    uint32_t messageLength;
+
+    if (link->broken) {
+        errno = (EPIPE);
         return -1;
     }
+
+    // continue where we left if we did not receive an entire message last time
+    if (bytesReceived) {
+        memcpy(&message->data[0], link->partial, bytesReceived);
+    }
     
-    missingData = *((uint32_t*)&message->data[4]) - GRACHT_MESSAGE_HEADER_SIZE;
-    if (missingData) {
-        GRTRACE(GRSTR("[gracht_connection_recv_stream] reading message payload"));
-        bytesRead = recv(link->base.connection, &message->data[GRACHT_MESSAGE_HEADER_SIZE], missingData, MSG_WAITALL);
-        if (bytesRead != missingData) {
-            // do not process incomplete requests
-            GRERROR(GRSTR("[gracht_connection_recv_message] did not read full amount of bytes (%u, expected %u)"),
-                  (uint32_t)bytesRead, missingData);
-            errno = (EPIPE);
-            return -1; 
-        }
+    GRTRACE(GRSTR("[gracht_connection_recv_stream] reading message header"));
+    if (socket_link_recv_until(link, message, &bytesReceived, GRACHT_MESSAGE_HEADER_SIZE, flags)) {
+        return -1;
+    }
+    
+    messageLength = *((uint32_t*)&message->data[4]);
+    if (messageLength < GRACHT_MESSAGE_HEADER_SIZE || messageLength > message->index) {
+        // there is no way to find the next message, so give up on this connection
+        GRERROR(GRSTR("[gracht_connection_recv_stream] invalid message length %u"), messageLength);
+        link->broken = 1;
+        errno = (EPIPE);
+        return -1;
+    }
+
+    GRTRACE(GRSTR("[gracht_connection_recv_stream] reading message payload"));
+    if (socket_link_recv_until(link, message, &bytesReceived, messageLength, flags)) {
+        return -1;
     }
 
-    message->index = 0;
+    free(link->partial);
+    link->partial        = NULL;
+    link->partial_length = 0;
+    message->index       = 0;
     return 0;
 }
 
@@ -85,7 +137,7 @@ static int socket_link_send_packet(struct gracht_link_socket* link, struct grach
 
     GRTRACE(GRSTR("link_client: send message (%u)"), message->index);
 
-    byteCount = send(link->base.connection, &message->data[0], message->index, 0);
+    byteCount = send(link->base.connection, &message->data[0], message->index, MSG_NOSIGNAL);
     if (byteCount != message->index) {
         GRERROR(GRSTR("link_client: failed to send message, bytes sent: %u, expected: %u"),
               (uint32_t)byteCount, message->index);
@@ -201,6 +253,7 @@ static void socket_link_destroy(struct gracht_link_socket* link)
     if (link->base.connection != GRACHT_CONN_INVALID) {
         close(link->base.connection);
     }
+    free(link->partial);
     free(link);
 }
 
diff --git a/runtime/link/socket/socket_os.h b/runtime/link/socket/socket_os.h
index ac860f2..2c85482 100644
--- a/runtime/link/socket/socket_os.h
+++ b/runtime/link/socket/socket_os.h
@@ -155,6 +155,10 @@ struct gracht_link_socket {
     int                     domain;
     struct sockaddr_storage address;
     socklen_t               address_length;
+    // what a client has received of the next message
+    uint8_t*                partial;
+    uint32_t                partial_length;
+    int                     broken;
 #ifdef _WIN32
     WSABUF                  waitbuf;
     DWORD                   recvFlags;
-- 
2.43.0


From c6957bee88b885c602d2f8ed18be40ee003196d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:57 +0000
Subject: [PATCH 09/22] fix: address connection-less clients by the address of
 their packets

Responses and events for clients of packet links were sent to nobody or to a
descriptor that happened to have the number of the address checksum, destroying
such a client closed that descriptor, short addresses made the server read the
message at the wrong offset, and the length of packets was not verified.
---
 runtime/link/socket/client.c | 26 ++++++++------
 runtime/link/socket/server.c | 66 +++++++++++++++++++++++++-----------
 2 files changed, 62 insertions(+), 30 deletions(-)

diff --git a/runtime/link/socket/client.c b/runtime/link/socket/client.c
index f53d535..4b889a8 100644
--- a/runtime/link/socket/client.c
+++ b/runtime/link/socket/client.c
@@ -149,27 +149,23 @@ static int socket_link_send_packet(struct gracht_link_socket* link, struct grach
 
 static int socket_link_recv_packet(struct gracht_link_socket* link, struct gracht_buffer* message, unsigned int flags)
 {
-    socklen_t addrlen = link->address_length;
-    char*     base    = &message->data[addrlen];
-    size_t    len     = message->index - addrlen;
-    long      bytes_read;
-    
-    message->index = addrlen;
+    long bytes_read;
     
     // Packets are atomic, either the full packet is there, or none is. So avoid
     // the use of MSG_WAITALL here.
     GRTRACE(GRSTR("[gracht_connection_recv_stream] reading full message"));
-    bytes_read = (long)recvfrom(link->base.connection, base, len, flags, 
-        (struct sockaddr*)&message->data[0], &addrlen);
-    if (bytes_read < GRACHT_MESSAGE_HEADER_SIZE) {
+    bytes_read = (long)recv(link->base.connection, &message->data[0], message->index, flags & ~(MSG_WAITALL));
+    if (bytes_read < GRACHT_MESSAGE_HEADER_SIZE || *((uint32_t*)&message->data[4]) != (uint32_t)bytes_read) {
         if (bytes_read == 0) {
             errno = (ENODATA);
         }
-        else {
+        else if (bytes_read > 0 || (errno != EAGAIN && errno != EWOULDBLOCK)) {
             errno = (EPIPE);
         }
         return -1;
     }
+
+    message->index = 0;
     return 0;
 }
 
@@ -183,6 +179,16 @@ static gracht_conn_t socket_link_connect(struct gracht_link_socket* link)
         return -1;
     }
     
+#if defined(__linux__)
+    // let the system assign us an address, otherwise the server can never respond to us
+    if (type == SOCK_DGRAM && link->domain == AF_LOCAL) {
+        struct sockaddr self = { .sa_family = AF_LOCAL };
+        if (bind(link->base.connection, &self, sizeof(self.sa_family))) {
+            GRWARNING(GRSTR("client_link: failed to bind socket to an address"));
+        }
+    }
+#endif
+
     int status = connect(link->base.connection, 
         (const struct sockaddr*)&link->address,
         link->address_length);
diff --git a/runtime/link/socket/server.c b/runtime/link/socket/server.c
index 2a922b3..05ea1ee 100644
--- a/runtime/link/socket/server.c
+++ b/runtime/link/socket/server.c
@@ -33,9 +33,16 @@
 
 #include "socket_os.h"
 
+// messages received on connection-less links are prefixed with the address of the sender
+struct socket_link_sender {
+    struct sockaddr_storage address;
+    socklen_t               address_length;
+};
+
 struct socket_link_client {
     struct gracht_server_client base;
     struct sockaddr_storage     address;
+    socklen_t                   address_length;
     gracht_conn_t               socket;
     gracht_conn_t               link;
     int                         streaming;
@@ -117,6 +124,12 @@ static int socket_link_send_client(struct socket_link_client* client,
 #endif
 
     GRTRACE(GRSTR("[socket_link_send] sending message"));
+    if (!client->streaming) {
+        intmax_t bytesWritten = sendto(client->socket, &message->data[0], message->index, socketFlags,
+            (const struct sockaddr*)&client->address, client->address_length);
+        return bytesWritten == message->index ? 0 : -1;
+    }
+
     mtx_lock(&client->send_lock);
     while (bytesSent < message->index) {
         intmax_t bytesWritten = send(client->base.handle, &message->data[bytesSent],
@@ -278,7 +291,7 @@ static int socket_link_create_client(struct gracht_link_socket* link, struct gra
     struct socket_link_client** clientOut)
 {
     struct socket_link_client* client;
-    struct sockaddr_storage*   address;
+    struct socket_link_sender  sender;
     
     if (!link || !message || !clientOut) {
         errno = (EINVAL);
@@ -297,8 +310,9 @@ static int socket_link_create_client(struct gracht_link_socket* link, struct gra
     client->streaming   = 0;
     mtx_init(&client->send_lock, mtx_plain);
 
-    address = (struct sockaddr_storage*)&message->payload[0];
-    memcpy(&client->address, address, (size_t)link->address_length);
+    memcpy(&sender, &message->payload[0], sizeof(struct socket_link_sender));
+    client->address        = sender.address;
+    client->address_length = sender.address_length;
     
     *clientOut = client;
     return 0;
@@ -306,21 +320,22 @@ static int socket_link_create_client(struct gracht_link_socket* link, struct gra
 
 static int socket_link_destroy_client(struct socket_link_client* client, gracht_handle_t set_handle)
 {
-    int status;
+    int status = 0;
     
     if (!client) {
         errno = (EINVAL);
         return -1;
     }
     
-    // remove the client if the client is a streaming one
+    // remove the client if the client is a streaming one, connection-less clients
+    // share the socket of the link
     if (client->streaming) {
         status = socket_aio_remove(set_handle, client->socket);
         if (status) {
             GRWARNING(GRSTR("socket_link_destroy_client failed to remove client socket from set_handle"));
         }
+        status = close(client->base.handle);
     }
-    status = close(client->base.handle);
     mtx_destroy(&client->send_lock);
     free(client->partial);
     free(client);
@@ -509,11 +524,11 @@ static int socket_link_accept(
 static int socket_link_recv_packet(struct gracht_link_socket* link, 
     struct gracht_message* context, unsigned int flags)
 {
-    socklen_t    addrlen     = link->address_length;
-    char*        base        = (char*)&context->payload[addrlen];
-    size_t       len         = context->index - addrlen;
-    unsigned int socketFlags = get_socket_flags(flags);
-    uint32_t     addressCrc;
+    struct socket_link_sender sender      = { .address_length = sizeof(struct sockaddr_storage) };
+    char*                     base        = (char*)&context->payload[sizeof(struct socket_link_sender)];
+    size_t                    len         = context->index - sizeof(struct gracht_message) - sizeof(struct socket_link_sender);
+    unsigned int              socketFlags = get_socket_flags(flags);
+    uint32_t                  addressCrc;
 
     if (link->base.type != gracht_link_packet_based) {
         errno = ENOSYS;
@@ -535,7 +550,8 @@ static int socket_link_recv_packet(struct gracht_link_socket* link,
 
     // store initial bytes received (header) and store the address
     memcpy(base, &link->buffer[0], overlappedLength);
-    memcpy(&context->payload[0], &link->buffer[GRACHT_MESSAGE_HEADER_SIZE], link->recvLength);
+    memcpy(&sender.address, &link->buffer[GRACHT_MESSAGE_HEADER_SIZE], link->recvLength);
+    sender.address_length = link->recvLength;
     // link->recvLength should == link->address_length
 
     // read the rest of the message
@@ -547,11 +563,12 @@ static int socket_link_recv_packet(struct gracht_link_socket* link,
         }
         return -1;
     }
+    bytesRead += (int)overlappedLength;
 #else
     // Packets are atomic, either the full packet is there, or none is. So avoid
     // the use of MSG_WAITALL here.
     intmax_t bytesRead = (intmax_t)recvfrom(link->base.connection, base, len, 
-        socketFlags, (struct sockaddr*)&context->payload[0], &addrlen);
+        socketFlags, (struct sockaddr*)&sender.address, &sender.address_length);
     if (bytesRead <= 0) {
         if (bytesRead == 0) {
             errno = (ENODATA);
@@ -560,16 +577,17 @@ static int socket_link_recv_packet(struct gracht_link_socket* link,
     }
 #endif
 
-    addressCrc = crc32_generate((const unsigned char*)&context->payload[0], (size_t)addrlen);
+    memcpy(&context->payload[0], &sender, sizeof(struct socket_link_sender));
+    addressCrc = crc32_generate((const unsigned char*)&sender.address, (size_t)sender.address_length);
     GRTRACE(GRSTR("socket_link_recv_packet read [%u/%u] addr bytes, %p"),
-            addrlen, link->address_length, &context->payload[0]);
+            sender.address_length, link->address_length, &context->payload[0]);
     GRTRACE(GRSTR("socket_link_recv_packet read %lu bytes"), bytesRead);
 
     // ->server is set by server
     context->link   = link->base.connection;
     context->client = (int)addressCrc;
-    context->index  = addrlen;
-    context->size   = (uint32_t)bytesRead + (uint32_t)addrlen;
+    context->index  = sizeof(struct socket_link_sender);
+    context->size   = (uint32_t)bytesRead + (uint32_t)sizeof(struct socket_link_sender);
 
 #ifdef _WIN32
     // queue up another read
@@ -582,21 +600,29 @@ static int socket_link_recv_packet(struct gracht_link_socket* link,
         }
     }
 #endif
+
+    // do not process packets that are not exactly one message
+    if (bytesRead < GRACHT_MESSAGE_HEADER_SIZE || *((uint32_t*)&base[4]) != (uint32_t)bytesRead) {
+        errno = (EBADMSG);
+        return -1;
+    }
     return 0;
 }
 
 static int socket_link_send_packet(struct gracht_link_socket* link,
     struct gracht_message* messageContext, struct gracht_buffer* message)
 {
-    long bytesWritten;
-    (void)messageContext;
+    struct socket_link_sender sender;
+    long                      bytesWritten;
 
     if (link->base.type != gracht_link_packet_based) {
         errno = ENOSYS;
         return -1;
     }
     
-    bytesWritten = (long)send(link->base.connection, &message->data[0], message->index, MSG_WAITALL);
+    memcpy(&sender, &messageContext->payload[0], sizeof(struct socket_link_sender));
+    bytesWritten = (long)sendto(link->base.connection, &message->data[0], message->index, MSG_NOSIGNAL,
+        (const struct sockaddr*)&sender.address, sender.address_length);
     if (bytesWritten != message->index) {
         GRERROR(GRSTR("link_server: failed to respond [%li/%i]"), bytesWritten, message->index);
         if (bytesWritten == -1) {
-- 
2.43.0


From c94588dd6d3deef86094c34a12a54849058fcd94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:11 +0000
Subject: [PATCH 10/22] fix: tell connection-less clients that their request is
 unknown

The error notice was sent as an event to a registered client, which a client
of a packet link is only after it has subscribed to something.
---
 include/control.h |  1 +
 runtime/control.c | 22 ++++++++++++++++++++++
 runtime/server.c  |  2 +-
 3 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/include/control.h b/include/control.h
index 11dc0a2..18a1626 100644
--- a/include/control.h
+++ b/include/control.h
@@ -44,6 +44,7 @@ void gracht_control_subscribe_invocation(const struct gracht_message* message, c
 void gracht_control_unsubscribe_invocation(const struct gracht_message* message, const uint8_t protocol);
 
 int gracht_control_event_error_single(gracht_server_t* server, const gracht_conn_t client, const uint32_t messageId, const int errorCode);
+int gracht_control_error_response(struct gracht_message* message, const uint32_t messageId, const int errorCode);
 int gracht_control_event_error_all(gracht_server_t* server, const uint32_t messageId, const int errorCode);
 
 // Client part of the internal control protocol
diff --git a/runtime/control.c b/runtime/control.c
index 0b1d22a..1abd59e 100644
--- a/runtime/control.c
+++ b/runtime/control.c
@@ -60,6 +60,7 @@ gracht_protocol_t gracht_control_client_protocol = GRACHT_PROTOCOL_INIT(0, "grac
 gracht_protocol_t gracht_control_server_protocol = GRACHT_PROTOCOL_INIT(0, "gracht_control", 2, server_control_callbacks);
 
 extern int gracht_server_get_buffer(gracht_server_t*, gracht_buffer_t*);
+extern int gracht_server_respond(struct gracht_message*, gracht_buffer_t*);
 extern int gracht_server_send_event(gracht_server_t*, gracht_conn_t client, gracht_buffer_t*, unsigned int flags);
 extern int gracht_server_broadcast_event(gracht_server_t*, gracht_buffer_t*, unsigned int flags);
 
@@ -107,6 +108,27 @@ int gracht_control_event_error_single(gracht_server_t* server, const gracht_conn
     return __status;
 }
 
+int gracht_control_error_response(struct gracht_message* message, const uint32_t messageId, const int errorCode)
+{
+    gracht_buffer_t __buffer;
+    int             __status;
+
+    __status = gracht_server_get_buffer(message->server, &__buffer);
+    if (__status) {
+        return __status;
+    }
+
+    serialize_uint32_t(&__buffer, 0);
+    serialize_uint32_t(&__buffer, 0);
+    serialize_uint8_t(&__buffer, 0);
+    serialize_uint8_t(&__buffer, 2);
+    serialize_uint8_t(&__buffer, MESSAGE_FLAG_EVENT);
+    serialize_uint32_t(&__buffer, messageId);
+    serialize_int(&__buffer, errorCode);
+    __status = gracht_server_respond(message, &__buffer);
+    return __status;
+}
+
 int gracht_control_event_error_all(gracht_server_t* server, const uint32_t messageId, const int errorCode)
 {
     gracht_buffer_t __buffer;
diff --git a/runtime/server.c b/runtime/server.c
index a0b7145..cfccc7a 100644
--- a/runtime/server.c
+++ b/runtime/server.c
@@ -538,7 +538,7 @@ void server_invoke_action(struct gracht_server* server, struct gracht_message* r
     rwlock_r_unlock(&server->protocols_lock);
     if (!function) {
         GRWARNING(GRSTR("server_invoke_action failed to invoke server action"));
-        gracht_control_event_error_single(server, recvMessage->client, messageId, ENOENT);
+        gracht_control_error_response(recvMessage, messageId, ENOENT);
         return;
     }
 
-- 
2.43.0


From c7c61e4f9c6a172b1528d79d57f814b4ce5e439b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:35 +0000
Subject: [PATCH 11/22] fix: complete, await and hand out calls correctly on
 the client

Waiting in any-mode waited for all calls, a thread could be left waiting for a
call that was completed by another thread or before it started to wait, two
threads could not await the same call, and a broken connection made awaiting
spin. Asking for the result of a pending call removed the call, unexpected
and repeated responses leaked their memory or replaced the result, waiting for a
call returned at the next event, and every response kept a full-size buffer.
---
 runtime/client.c | 466 +++++++++++++++++++++++------------------------
 1 file changed, 231 insertions(+), 235 deletions(-)

diff --git a/runtime/client.c b/runtime/client.c
index 841eaa6..066aea8 100644
--- a/runtime/client.c
+++ b/runtime/client.c
@@ -40,12 +40,11 @@
 // N+M buffers. One for each event received and for each call in air
 
 struct gracht_message_awaiter {
-    uint32_t      id;
-    unsigned int  flags;
-    cnd_t         event;
-    mtx_t         mutex;
-    int           current_count;
-    int           count;
+    uint32_t                        id;
+    unsigned int                    flags;
+    cnd_t                           event; // used with messages_lock
+    struct gracht_message_context** contexts;
+    int                             count;
 };
 
 struct gracht_message_awaiter_entry {
@@ -57,7 +56,6 @@ struct gracht_message_awaiter_entry {
 struct gracht_message_descriptor {
     uint32_t        id;
     int             status;
-    uint32_t        awaiter_id;
     gracht_buffer_t buffer;
 };
 
@@ -76,7 +74,7 @@ typedef struct gracht_client {
     mtx_t                messages_lock;
     gr_hashtable_t       awaiters;
     mtx_t                awaiters_lock;
-    mtx_t                wait_lock;
+    bool                 listening; // is a thread receiving messages, protected by messages_lock
 } gracht_client_t;
 
 #define MESSAGE_STATUS_EXECUTED(status) (status == GRACHT_MESSAGE_ERROR || status == GRACHT_MESSAGE_COMPLETED)
@@ -90,7 +88,7 @@ GRACHTAPI int gracht_client_invoke(gracht_client_t*, struct gracht_message_conte
 // static methods
 static uint32_t get_message_id(gracht_client_t*);
 static uint32_t get_awaiter_id(gracht_client_t*);
-static void     mark_awaiters(gracht_client_t*, uint32_t);
+static void     mark_awaiters(gracht_client_t*);
 static uint64_t message_hash(const void* element);
 static int      message_cmp(const void* element1, const void* element2);
 static uint64_t awaiter_hash(const void* element);
@@ -196,7 +194,6 @@ static int __handle_response(
         struct gracht_buffer* buffer)
 {
     struct gracht_message_descriptor* descriptor;
-    uint32_t                          awaiterID;
     GRTRACE(GRSTR("__handle_response()"));
 
     mtx_lock(&client->messages_lock);
@@ -206,7 +203,7 @@ static int __handle_response(
                 .id = GB_MSG_ID(buffer)
             }
     );
-    if (!descriptor) {
+    if (!descriptor || descriptor->status != GRACHT_MESSAGE_INPROGRESS) {
         mtx_unlock(&client->messages_lock);
         // what the heck?
         GRERROR(GRSTR("[gracht_client_wait_message] no-one was listening for message %u"), GB_MSG_ID(buffer));
@@ -217,151 +214,111 @@ static int __handle_response(
     descriptor->buffer.data  = buffer->data;
     descriptor->buffer.index = buffer->index + GRACHT_MESSAGE_HEADER_SIZE;
     descriptor->status = GRACHT_MESSAGE_COMPLETED;
-    awaiterID = descriptor->awaiter_id;
-    mtx_unlock(&client->messages_lock);
 
-    // iterate awaiters and mark those that contain this message
-    mark_awaiters(client, awaiterID);
+    // wake up those that are waiting for this message
+    mark_awaiters(client);
+    mtx_unlock(&client->messages_lock);
     return 0;
 }
 
-int gracht_client_wait_message(
-        gracht_client_t*               client,
-        struct gracht_message_context* context,
-        unsigned int                   flags)
+// Lets another thread listen for messages
+static void __stop_listening(gracht_client_t* client)
+{
+    mtx_lock(&client->messages_lock);
+    client->listening = false;
+    mark_awaiters(client);
+    mtx_unlock(&client->messages_lock);
+}
+
+// Receives and handles a single message. The caller must be the one listening, which it no longer is
+// when this function returns. The return value tells whether a message could be received, and the status
+// parameter how it was handled.
+static int __receive_message(
+        gracht_client_t* client,
+        unsigned int     flags,
+        bool*            strayOut,
+        int*             statusOut)
 {
     struct gracht_buffer buffer = { 0 };
-    uint32_t             messageId = 0;
     uint8_t              messageFlags;
+    uint32_t             messageLength;
     int                  status;
-    GRTRACE(GRSTR("gracht_client_wait_message()"));
 
-    if (!client) {
-        errno = (EINVAL);
-        return -1;
-    }
+    *strayOut  = false;
+    *statusOut = 0;
 
-    // We must acquire hold of the client mutex as the mutex must be thread-safe in case
-    // of multiple calling threads. Only one thread can listen for client events at a time, and that
-    // means all other threads must queue up and wait for the thread that listens currently.
-listenForMessage:
-    // check message status
-    if (context) {
-        struct gracht_message_descriptor* descriptor;
-
-        mtx_lock(&client->messages_lock);
-        descriptor = gr_hashtable_get(
-                &client->messages,
-                &(struct gracht_message_descriptor) {
-                        .id = context->message_id
-                }
-        );
-        if (!descriptor) {
-            mtx_unlock(&client->messages_lock);
-            errno = ENOENT;
-            return -1;
-        }
-        if (descriptor->status != GRACHT_MESSAGE_INPROGRESS) {
-            mtx_unlock(&client->messages_lock);
-            return 0;
-        }
-        mtx_unlock(&client->messages_lock);
-    }
-
-    if (mtx_trylock(&client->wait_lock) != thrd_success) {
-        if (!(flags & GRACHT_MESSAGE_BLOCK)) {
-            errno = EBUSY;
-            return -1;
-        }
-
-        if (mtx_lock(&client->wait_lock) != thrd_success) {
-            return -1;
-        }
-    }
-
-    // initialize buffer, after this point NO returning, only jump to listenOrExit
     buffer.data = gracht_arena_allocate(client->arena, NULL, client->max_message_size);
     buffer.index = client->max_message_size;
-
     if (!buffer.data) {
-        mtx_unlock(&client->wait_lock);
+        __stop_listening(client);
         // out of memory. client should handle messages
         errno = ENOMEM;
-        status = -1;
-        goto listenOrExit;
+        return -1;
     }
 
     status = client->link->ops.client.recv(client->link, &buffer, flags);
-    mtx_unlock(&client->wait_lock);
     if (status) {
         // In case of any recieving errors we must exit immediately
-        goto listenOrExit;
+        int reason = errno;
+        gracht_arena_free(client->arena, buffer.data, 0);
+        __stop_listening(client);
+        errno = reason;
+        return -1;
     }
 
-    messageFlags = GB_MSG_FLG(&buffer);
-
-    // If the message is not an event, then do not invoke any actions. In any case if a context is provided
-    // we expect the caller wanting to listen for that specific message. That means any incoming event and/or
-    // response we recieve should be for that, or we should keep waiting.
+    messageFlags  = GB_MSG_FLG(&buffer);
+    messageLength = GB_MSG_LEN(&buffer);
     GRTRACE(GRSTR("[gracht] [client] message received %u - %u:%u"),
             messageFlags, GB_MSG_SID(&buffer), GB_MSG_AID(&buffer));
-    if (MESSAGE_FLAG_TYPE(messageFlags) == MESSAGE_FLAG_EVENT) {
-        status = __invoke_action(client, &buffer);
-    } else if (MESSAGE_FLAG_TYPE(messageFlags) == MESSAGE_FLAG_RESPONSE) {
-        status = __handle_response(client, &buffer);
-        if (status) {
-            goto listenForMessage;
-        }
 
-        // set message id handled
-        messageId = GB_MSG_ID(&buffer);
+    // Responses and control messages complete calls, this must be done before we let another thread
+    // listen for messages - that thread could be waiting for exactly this call.
+    if (MESSAGE_FLAG_TYPE(messageFlags) == MESSAGE_FLAG_RESPONSE) {
+        // only keep the memory that the response needs
+        if (messageLength + buffer.index < (uint32_t)client->max_message_size) {
+            gracht_arena_free(client->arena, buffer.data,
+                    client->max_message_size - messageLength - buffer.index);
+        }
 
-        // zero the buffer pointer, so it does not get freed, freeing is now handled by
-        // the awaiter
-        buffer.data = NULL;
+        if (__handle_response(client, &buffer)) {
+            *strayOut = true;
+        } else {
+            // zero the buffer pointer, so it does not get freed, freeing is now handled by
+            // the awaiter
+            buffer.data = NULL;
+        }
+        __stop_listening(client);
+    } else if (MESSAGE_FLAG_TYPE(messageFlags) == MESSAGE_FLAG_EVENT) {
+        if (GB_MSG_SID(&buffer) == 0) {
+            *statusOut = __invoke_action(client, &buffer);
+            __stop_listening(client);
+        } else {
+            __stop_listening(client);
+            *statusOut = __invoke_action(client, &buffer);
+        }
+    } else {
+        __stop_listening(client);
     }
 
-listenOrExit:
     if (buffer.data) {
         gracht_arena_free(client->arena, buffer.data, 0);
     }
-
-    if (context) {
-        // In case a context was provided the meaning is that we should wait
-        // for a specific message. Make sure that the message we've handled were
-        // the one that was requested.
-        if (messageId != 0 && context->message_id != messageId) {
-            goto listenForMessage;
-        }
-    }
-    return status;
+    return 0;
 }
 
-static struct gracht_message_awaiter* __awaiter_new(
-        gracht_client_t* client,
-        unsigned int     flags,
-        int              contextCount)
+static void __awaiter_init(
+        gracht_client_t*                client,
+        struct gracht_message_awaiter*  awaiter,
+        struct gracht_message_context** contexts,
+        int                             contextCount,
+        unsigned int                    flags)
 {
-    struct gracht_message_awaiter* awaiter;
-
-    awaiter = malloc(sizeof(struct gracht_message_awaiter));
-    if (!awaiter) {
-        return NULL;
-    }
-
-    awaiter->id            = get_awaiter_id(client);
-    awaiter->flags         = flags;
-    awaiter->count         = contextCount;
-    awaiter->current_count = 0;
+    awaiter->id       = get_awaiter_id(client);
+    awaiter->flags    = flags;
+    awaiter->contexts = contexts;
+    awaiter->count    = contextCount;
     cnd_init(&awaiter->event);
-    mtx_init(&awaiter->mutex, mtx_plain);
-    return awaiter;
-}
 
-static inline void __await_add(
-        gracht_client_t*               client,
-        struct gracht_message_awaiter* awaiter)
-{
     mtx_lock(&client->awaiters_lock);
     gr_hashtable_set(&client->awaiters, &(struct gracht_message_awaiter_entry) {
         .id = awaiter->id,
@@ -370,120 +327,166 @@ static inline void __await_add(
     mtx_unlock(&client->awaiters_lock);
 }
 
-static inline void __await_remove(
+static void __awaiter_destroy(
         gracht_client_t*               client,
         struct gracht_message_awaiter* awaiter)
 {
+    int reason = errno;
+
     mtx_lock(&client->awaiters_lock);
     gr_hashtable_remove(&client->awaiters, &(struct gracht_message_awaiter_entry) {
             .id = awaiter->id
     });
     mtx_unlock(&client->awaiters_lock);
+    cnd_destroy(&awaiter->event);
+    errno = reason;
 }
 
-static inline void __await_loop(
-        gracht_client_t*                client,
-        struct gracht_message_context** contexts,
-        struct gracht_message_awaiter*  awaiter)
+// Determines whether what the awaiter is waiting for has happened, messages_lock must be held
+static bool __awaiter_done(
+        gracht_client_t*               client,
+        struct gracht_message_awaiter* awaiter)
 {
-    while (awaiter->current_count < awaiter->count) {
-        gracht_client_wait_message(client, NULL, GRACHT_MESSAGE_BLOCK);
+    int executed = 0;
 
-        // update status
-        mtx_lock(&client->messages_lock);
-        awaiter->current_count = 0;
-        for (int i = 0; i < awaiter->count; i++) {
-            struct gracht_message_descriptor* descriptor = gr_hashtable_get(
-                    &client->messages,
-                    &(struct gracht_message_descriptor) {
-                            .id = contexts[i]->message_id
-                    }
-            );
-            if (descriptor == NULL || MESSAGE_STATUS_EXECUTED(descriptor->status)) {
-                awaiter->current_count++;
-            }
+    for (int i = 0; i < awaiter->count; i++) {
+        struct gracht_message_descriptor* descriptor = gr_hashtable_get(
+                &client->messages,
+                &(struct gracht_message_descriptor) {
+                        .id = awaiter->contexts[i]->message_id
+                }
+        );
+        // we could be waiting for a non-existant message, in theory it could
+        // have dissappeared?
+        if (descriptor == NULL || MESSAGE_STATUS_EXECUTED(descriptor->status)) {
+            executed++;
         }
-        mtx_unlock(&client->messages_lock);
     }
+
+    if (awaiter->flags & GRACHT_AWAIT_ALL) {
+        return executed == awaiter->count;
+    }
+    return executed > 0;
 }
 
-int gracht_client_await_multiple(
-        gracht_client_t*                client,
-        struct gracht_message_context** contexts,
-        int                             contextCount,
-        unsigned int                    flags)
+// Only one thread can listen for messages at a time, and that means all other threads must wait
+// untill the thread that listens currently either has received what they are waiting for, or untill
+// it is their turn to listen.
+enum await_result {
+    AWAIT_DONE,
+    AWAIT_LISTEN, // the calling thread must receive a message
+    AWAIT_BUSY    // the calling thread would have to wait, but does not want to
+};
+
+static enum await_result __awaiter_wait(
+        gracht_client_t*               client,
+        struct gracht_message_awaiter* awaiter,
+        bool                           block)
 {
-    struct gracht_message_awaiter* awaiter;
-    int                            i;
-    bool                           bail;
-    GRTRACE(GRSTR("gracht_client_await_multiple()"));
-    
-    if (!client || !contexts || !contextCount) {
-        errno = (EINVAL);
-        return -1;
+    enum await_result result = AWAIT_DONE;
+
+    mtx_lock(&client->messages_lock);
+    while (!__awaiter_done(client, awaiter)) {
+        if (!(awaiter->flags & GRACHT_AWAIT_ASYNC) && !client->listening) {
+            client->listening = true;
+            result = AWAIT_LISTEN;
+            break;
+        }
+        if (!block) {
+            result = AWAIT_BUSY;
+            break;
+        }
+        cnd_wait(&awaiter->event, &client->messages_lock);
     }
+    mtx_unlock(&client->messages_lock);
+    return result;
+}
 
-    // create the awaiter
-    awaiter = __awaiter_new(client, flags, contextCount);
-    if (awaiter == NULL) {
+int gracht_client_wait_message(
+        gracht_client_t*               client,
+        struct gracht_message_context* context,
+        unsigned int                   flags)
+{
+    struct gracht_message_awaiter awaiter;
+    bool                          stray  = true;
+    int                           status = 0;
+    GRTRACE(GRSTR("gracht_client_wait_message()"));
+
+    if (!client) {
+        errno = (EINVAL);
         return -1;
     }
 
-    // first step is to get a status of all messages we are awaiting
-    mtx_lock(&client->messages_lock);
-    for (i = 0; i < contextCount; i++) {
-        struct gracht_message_descriptor* descriptor = gr_hashtable_get(
+    if (context) {
+        struct gracht_message_descriptor* descriptor;
+
+        mtx_lock(&client->messages_lock);
+        descriptor = gr_hashtable_get(
                 &client->messages,
                 &(struct gracht_message_descriptor) {
-                    .id = contexts[i]->message_id
+                        .id = context->message_id
                 }
         );
+        mtx_unlock(&client->messages_lock);
         if (!descriptor) {
-            // we were waiting for a non-existant message, in theory it could
-            // have dissappeared?
-            awaiter->current_count++;
-            continue;
-        }
-
-        descriptor->awaiter_id = awaiter->id;
-        if (MESSAGE_STATUS_EXECUTED(descriptor->status)) {
-            awaiter->current_count++;
+            errno = ENOENT;
+            return -1;
         }
     }
 
-    // calculate here whether we can bail early, so we can skip time
-    // not adding the awaiter
-    bail = (!(flags & GRACHT_AWAIT_ALL) && awaiter->current_count > 0) || awaiter->current_count == awaiter->count;
+    // In case a context was provided the meaning is that we should wait
+    // for a specific message, so keep listening untill that has been handled.
+    __awaiter_init(client, &awaiter, &context, context ? 1 : 0, GRACHT_AWAIT_ANY);
+    while (context || stray) {
+        enum await_result result = __awaiter_wait(client, &awaiter, flags & GRACHT_MESSAGE_BLOCK);
+        if (result == AWAIT_DONE) {
+            status = 0;
+            break;
+        }
+        if (result == AWAIT_BUSY) {
+            errno  = EBUSY;
+            status = -1;
+            break;
+        }
 
-    // add the awaiter while we hold the message lock to avoid a data-race
-    // between those
-    if (!bail) {
-        __await_add(client, awaiter);
+        if (__receive_message(client, flags, &stray, &status)) {
+            status = -1;
+            break;
+        }
     }
-    mtx_unlock(&client->messages_lock);
+    __awaiter_destroy(client, &awaiter);
+    return status;
+}
 
-    // early bail?
-    if (bail) {
-        goto cleanup;
-    }
+int gracht_client_await_multiple(
+        gracht_client_t*                client,
+        struct gracht_message_context** contexts,
+        int                             contextCount,
+        unsigned int                    flags)
+{
+    struct gracht_message_awaiter awaiter;
+    bool                          stray;
+    int                           status = 0;
+    GRTRACE(GRSTR("gracht_client_await_multiple()"));
     
-    // in async bail mode we expect another thread to do the event pumping,
-    // and thus we should just use the awaiter
-    if (flags & GRACHT_AWAIT_ASYNC) {
-        mtx_lock(&awaiter->mutex);
-        cnd_wait(&awaiter->event, &awaiter->mutex);
-        mtx_unlock(&awaiter->mutex);
-    } else {
-        // otherwise we are a single threaded application (maybe) and we should also
-        // handle the pumping of messages.
-        __await_loop(client, contexts, awaiter);
+    if (!client || !contexts || contextCount <= 0) {
+        errno = (EINVAL);
+        return -1;
     }
-    __await_remove(client, awaiter);
 
-cleanup:
-    // cleanup the awaiter
-    free(awaiter);
-    return 0;
+    // in async bail mode we expect another thread to do the event pumping,
+    // and thus we should just use the awaiter, otherwise we are a single threaded
+    // application (maybe) and we should also handle the pumping of messages.
+    __awaiter_init(client, &awaiter, contexts, contextCount, flags);
+    while (__awaiter_wait(client, &awaiter, true) == AWAIT_LISTEN) {
+        int result;
+        if (__receive_message(client, GRACHT_MESSAGE_BLOCK, &stray, &result)) {
+            status = -1;
+            break;
+        }
+    }
+    __awaiter_destroy(client, &awaiter);
+    return status;
 }
 
 int gracht_client_await(gracht_client_t* client, struct gracht_message_context* context, unsigned int flags)
@@ -521,7 +524,7 @@ int gracht_client_get_status_buffer(
     
     // guard against already checked
     mtx_lock(&client->messages_lock);
-    descriptor = gr_hashtable_remove(
+    descriptor = gr_hashtable_get(
             &client->messages,
             &(struct gracht_message_descriptor) {
                     .id = context->message_id
@@ -536,14 +539,17 @@ int gracht_client_get_status_buffer(
     status = descriptor->status;
     buffer->data = descriptor->buffer.data;
     buffer->index = descriptor->buffer.index;
-    mtx_unlock(&client->messages_lock);
 
-    // immediately cleanup the buffer if an error has ocurred
-    if (descriptor->status == GRACHT_MESSAGE_ERROR) {
-        if (descriptor->buffer.data) {
-            gracht_arena_free(client->arena, descriptor->buffer.data, 0);
-        }
+    // the message must be kept untill it has been executed
+    if (MESSAGE_STATUS_EXECUTED(status)) {
+        gr_hashtable_remove(
+                &client->messages,
+                &(struct gracht_message_descriptor) {
+                        .id = context->message_id
+                }
+        );
     }
+    mtx_unlock(&client->messages_lock);
     return status;
 }
 
@@ -583,7 +589,6 @@ int gracht_client_create(gracht_client_configuration_t* config, gracht_client_t*
     
     memset(client, 0, sizeof(gracht_client_t));
     mtx_init(&client->send_buffer_lock, mtx_plain);
-    mtx_init(&client->wait_lock, mtx_plain);
     mtx_init(&client->messages_lock, mtx_plain);
     mtx_init(&client->awaiters_lock, mtx_plain);
     gr_hashtable_construct(&client->protocols, 0, sizeof(struct gracht_protocol), protocol_hash, protocol_cmp);
@@ -680,7 +685,6 @@ void gracht_client_shutdown(gracht_client_t* client)
     gr_hashtable_destroy(&client->awaiters);
     gr_hashtable_destroy(&client->messages);
     gr_hashtable_destroy(&client->protocols);
-    mtx_destroy(&client->wait_lock);
     mtx_destroy(&client->send_buffer_lock);
     mtx_destroy(&client->messages_lock);
     mtx_destroy(&client->awaiters_lock);
@@ -717,31 +721,20 @@ void gracht_client_unregister_protocol(gracht_client_t* client, gracht_protocol_
     gr_hashtable_remove(&client->protocols, protocol);
 }
 
-static void mark_awaiters(gracht_client_t* client, uint32_t awaiterID)
+static void __signal_awaiter(int index, const void* element, void* userContext)
 {
-    struct gracht_message_awaiter_entry* entry;
-    struct gracht_message_awaiter*       awaiter;
+    const struct gracht_message_awaiter_entry* entry = element;
+    (void)index;
+    (void)userContext;
+    cnd_signal(&entry->awaiter->event);
+}
 
+// wakes up all awaiters to let them check their messages, messages_lock must be held
+static void mark_awaiters(gracht_client_t* client)
+{
     mtx_lock(&client->awaiters_lock);
-    entry = gr_hashtable_get(
-            &client->awaiters,
-            &(struct gracht_message_awaiter_entry) { .id = awaiterID }
-    );
-    if (!entry) {
-        mtx_unlock(&client->awaiters_lock);
-        return;
-    }
-    awaiter = entry->awaiter;
+    gr_hashtable_enumerate(&client->awaiters, __signal_awaiter, NULL);
     mtx_unlock(&client->awaiters_lock);
-
-    awaiter->current_count++;
-    if (awaiter->flags & GRACHT_AWAIT_ALL) {
-        if (awaiter->current_count == awaiter->count) {
-            cnd_signal(&awaiter->event);
-        }
-    } else {
-        cnd_signal(&awaiter->event);
-    }
 }
 
 static uint32_t get_message_id(gracht_client_t* client)
@@ -751,13 +744,17 @@ static uint32_t get_message_id(gracht_client_t* client)
 
 static uint32_t get_awaiter_id(gracht_client_t* client)
 {
-    return client->current_awaiter_id++;
+    uint32_t id;
+
+    mtx_lock(&client->awaiters_lock);
+    id = client->current_awaiter_id++;
+    mtx_unlock(&client->awaiters_lock);
+    return id;
 }
 
 void gracht_control_error_invocation(gracht_client_t* client, const uint32_t messageId, const int errorCode)
 {
     struct gracht_message_descriptor* descriptor;
-    uint32_t                          awaiterID;
     (void)errorCode;
 
     mtx_lock(&client->messages_lock);
@@ -767,7 +764,7 @@ void gracht_control_error_invocation(gracht_client_t* client, const uint32_t mes
                 .id = messageId
             }
     );
-    if (!descriptor) {
+    if (!descriptor || descriptor->status != GRACHT_MESSAGE_INPROGRESS) {
         mtx_unlock(&client->messages_lock);
         // what the heck?
         GRERROR(GRSTR("gracht_control_error_invocation no-one was listening for message %u"), messageId);
@@ -776,11 +773,10 @@ void gracht_control_error_invocation(gracht_client_t* client, const uint32_t mes
     
     // set status
     descriptor->status = GRACHT_MESSAGE_ERROR;
-    awaiterID = descriptor->awaiter_id;
-    mtx_unlock(&client->messages_lock);
     
-    // iterate awaiters and mark those that contain this message
-    mark_awaiters(client, awaiterID);
+    // wake up those that are waiting for this message
+    mark_awaiters(client);
+    mtx_unlock(&client->messages_lock);
 }
 
 static uint64_t message_hash(const void* element)
-- 
2.43.0


From dfcad8507db200ee83725a40f32970debcd31782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:54 +0000
Subject: [PATCH 12/22] fix: release the link of a client and the socket of a
 failed link

Shutting down a client that never connected leaked its link, and a server link
that could not be bound or listened on left its socket open.
---
 runtime/client.c             | 3 ++-
 runtime/link/socket/server.c | 6 ++++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/runtime/client.c b/runtime/client.c
index 066aea8..c47d745 100644
--- a/runtime/client.c
+++ b/runtime/client.c
@@ -670,7 +670,8 @@ void gracht_client_shutdown(gracht_client_t* client)
         return;
     }
     
-    if (client->iod != GRACHT_CONN_INVALID) {
+    // the link belongs to the client, whether or not it was connected
+    if (client->link) {
         client->link->ops.client.destroy(client->link);
     }
 
diff --git a/runtime/link/socket/server.c b/runtime/link/socket/server.c
index 05ea1ee..29a4bbf 100644
--- a/runtime/link/socket/server.c
+++ b/runtime/link/socket/server.c
@@ -361,6 +361,8 @@ static gracht_conn_t socket_link_setup(struct gracht_link_socket* link, gracht_h
         status = bind(link->base.connection,
             (const struct sockaddr*)&link->address, link->address_length);
         if (status) {
+            close(link->base.connection);
+            link->base.connection = GRACHT_CONN_INVALID;
             return GRACHT_CONN_INVALID;
         }
         
@@ -400,12 +402,16 @@ static gracht_conn_t socket_link_setup(struct gracht_link_socket* link, gracht_h
         status = bind(link->base.connection,
             (const struct sockaddr*)&link->address, link->address_length);
         if (status) {
+            close(link->base.connection);
+            link->base.connection = GRACHT_CONN_INVALID;
             return GRACHT_CONN_INVALID;
         }
         
         // Enable listening for connections, with a maximum of 2 on backlog
         status = listen(link->base.connection, 2);
         if (status) {
+            close(link->base.connection);
+            link->base.connection = GRACHT_CONN_INVALID;
             return GRACHT_CONN_INVALID;
         }
         
-- 
2.43.0


From be4a61eef54f05e42ea8937800d08c47ec10052f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:58 +0000
Subject: [PATCH 13/22] fix: never answer another connection that reuses the
 handle of a client

A deferred request remembers its client by the handle of the connection. When
that client disconnects and a new connection is given the same handle, then the
response of the old request was delivered to the new client. Give every
connection its own identity, and drop responses to connections that are gone.
---
 include/gracht/link/link.h |  1 +
 include/gracht/types.h     |  1 +
 runtime/server.c           | 12 ++++++++++++
 3 files changed, 14 insertions(+)

diff --git a/include/gracht/link/link.h b/include/gracht/link/link.h
index ad52090..2dedd29 100644
--- a/include/gracht/link/link.h
+++ b/include/gracht/link/link.h
@@ -37,6 +37,7 @@ enum gracht_link_type {
 // to communicate with the client. The link functions will have this information available.
 struct gracht_server_client {
     gracht_conn_t handle;
+    uint64_t      connection; // unique for each connection, handles are reused. 0 if connection-less
     uint32_t      flags;
     uint32_t      subscriptions[8]; // 32 bytes to cover 255 bits
 };
diff --git a/include/gracht/types.h b/include/gracht/types.h
index 9b38682..305298e 100644
--- a/include/gracht/types.h
+++ b/include/gracht/types.h
@@ -112,6 +112,7 @@ struct gracht_message {
     gracht_server_t* server;  // server instance message is received on
     gracht_conn_t    link;    // link message is received on
     gracht_conn_t    client;  // client context on the link
+    uint64_t         connection; // identity of the client's connection, 0 if connection-less
     uint32_t         size;    // size of the payload
     uint32_t         index;   // used internally for payload storage
     uint8_t          payload[]; // payload follows this message header
diff --git a/runtime/server.c b/runtime/server.c
index cfccc7a..d9d5928 100644
--- a/runtime/server.c
+++ b/runtime/server.c
@@ -85,6 +85,7 @@ typedef struct gracht_server {
     struct rwlock                  protocols_lock;
     gr_hashtable_t                 clients;
     struct rwlock                  clients_lock;
+    uint64_t                       connection_id;
     struct link_table              link_table;
 } gracht_server_t;
 
@@ -278,6 +279,7 @@ static int handle_connection(struct gracht_server* server, struct gracht_link* l
     // this is a streaming client, which means we handle them differently if they should
     // unsubscribe to certain protocols. Streaming clients are subscribed to all from start
     client->flags |= GRACHT_CLIENT_FLAG_STREAM;
+    client->connection = ++server->connection_id;
     memset(&client->subscriptions[0], 0xFF, sizeof(client->subscriptions));
     
     rwlock_w_lock(&server->clients_lock);
@@ -377,6 +379,7 @@ static int handle_packet(struct gracht_server* server, struct gracht_link* link)
             break;
         }
 
+        message->connection = 0;
         server->ops->dispatch(server, message);
     }
     
@@ -436,6 +439,7 @@ static int handle_client_event(struct gracht_server* server, gracht_conn_t handl
                 return 0;
             }
 
+            message->connection = entry->client->connection;
             server->ops->dispatch(server, message);
         }
         rwlock_r_unlock(&server->clients_lock);
@@ -672,6 +676,14 @@ int gracht_server_respond(struct gracht_message* messageContext, gracht_buffer_t
 
     rwlock_r_lock(&messageContext->server->clients_lock);
     entry = gr_hashtable_get(&messageContext->server->clients, &(struct client_wrapper){ .handle = messageContext->client });
+    if (entry && entry->client->connection != messageContext->connection) {
+        // the client is gone, and another client has been given its handle
+        rwlock_r_unlock(&messageContext->server->clients_lock);
+        put_buffer(messageContext->server, message);
+        errno = ENODEV;
+        return -1;
+    }
+
     if (!entry) {
         struct gracht_link* link;
         
-- 
2.43.0


From 393f67978040e7950e4f06ef7172729d6b00ccbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:04 +0000
Subject: [PATCH 14/22] fix: variant entries that are scalars or strings

The setters of variant entries that are not structures assigned the name of
the type instead of the parameter and did not record the choice, and the
deserializer of a string entry left out the variant, so that a description
with such an entry was accepted but its code did not compile.
---
 generator/languages/langc.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/generator/languages/langc.py b/generator/languages/langc.py
index 85d2960..0ccf3af 100644
--- a/generator/languages/langc.py
+++ b/generator/languages/langc.py
@@ -530,10 +530,14 @@ def write_struct_member_deserializer(service: ServiceObject, prefix, struct, mem
     if member.get_is_variable():
         write_variable_struct_member_deserializer(service, member, outfile)
     elif typename.lower() == "string":
+        outfile.writeln("{")
+        outfile.indent_inc()
         outfile.writeln(f"uint32_t _{name}_length = *((uint32_t*)&buffer->data[buffer->index]);")
-        outfile.writeln(f"out->{name} = malloc(_{name}_length + 1);")
-        outfile.writeln(f"assert(out->{name} != NULL);")
+        outfile.writeln(f"out->{prefix}{name} = malloc(_{name}_length + 1);")
+        outfile.writeln(f"assert(out->{prefix}{name} != NULL);")
         outfile.writeln(f"deserialize_string_copy(buffer, &out->{prefix}{name}[0], 0);")
+        outfile.indent_dec()
+        outfile.writeln("}")
     elif service.typename_is_struct(typename):
         struct_type = service.lookup_struct(typename)
         struct_name = get_scoped_name(struct_type)
@@ -899,13 +903,11 @@ def write_structure_variant_member_functions(service: ServiceObject, struct: Str
             outfile.writeln(f"{member_name}_copy({entry.get_name()}, &in->{variant.get_name()}.{entry.get_name()});")
             outfile.writeln(f"in->{variant.get_name()}_type = {get_variant_enum_name(struct, variant, entry)};")
         elif entry.get_typename() == "string":
-            outfile.writeln(f"if ({entry.get_typename()} != NULL) {{")
-            outfile.indent_inc()
-            outfile.writeln(f"in->{variant.get_name()}.{entry.get_name()} = strdup({entry.get_typename()});")
-            outfile.indent_dec()
-            outfile.writeln("}")
+            outfile.writeln(f"in->{variant.get_name()}.{entry.get_name()} = {entry.get_name()} != NULL ? strdup({entry.get_name()}) : NULL;")
+            outfile.writeln(f"in->{variant.get_name()}_type = {get_variant_enum_name(struct, variant, entry)};")
         else:
-            outfile.writeln(f"in->{variant.get_name()}.{entry.get_name()} = {entry.get_typename()};")
+            outfile.writeln(f"in->{variant.get_name()}.{entry.get_name()} = {entry.get_name()};")
+            outfile.writeln(f"in->{variant.get_name()}_type = {get_variant_enum_name(struct, variant, entry)};")
         outfile.indent_dec()
         outfile.writeln("}")
         outfile.writeln("")
-- 
2.43.0


From 67ad919a3f4ec0e1a5e475e0a7d01a01fd925a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:25 +0000
Subject: [PATCH 15/22] fix: numbers in service descriptions

Hexadecimal numbers with lowercase digits were refused, and a malformed number
(010, --1, 0x) was taken for no number at all, so that an enumerator silently
got another value than the one given.
---
 generator/parser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/generator/parser.py b/generator/parser.py
index 05843c4..dcef86f 100644
--- a/generator/parser.py
+++ b/generator/parser.py
@@ -791,7 +791,7 @@ def parse_digit(scanner, data):
     if data[startIdx] == '0' and data[startIdx + 1] == 'x':
         scanner.consume(2)
         while scanner.has_next():
-            if scanner.current() not in "0123456789ABCDEF":
+            if scanner.current() not in "0123456789ABCDEFabcdef":
                 break
             scanner.consume()
         return str2int(data[startIdx: scanner.index()])
@@ -860,6 +860,8 @@ def create_tokens_from_text(data):
             tokens.append(Token(scanner, TOKENS.QUOTE, unquoted))
         elif el.isdigit() or el == '-':
             digit = parse_digit(scanner, data)
+            if digit is None:
+                error(f"malformed number at line {scanner.line_no()}:{scanner.line_index()}")
             tokens.append(Token(scanner, TOKENS.DIGIT, digit))
         elif el.isalpha() or el == '_':
             ident = parse_identifier(scanner)
-- 
2.43.0


From 24934a5f12d10fa065ba29a62ca34c9f72f4f3d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:51 +0000
Subject: [PATCH 16/22] fix: results after an array of structures that was
 larger than the room for it

The elements without room were not skipped, so that the results after the
array were read from the middle of it.
---
 generator/languages/langc.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/generator/languages/langc.py b/generator/languages/langc.py
index 0ccf3af..f756444 100644
--- a/generator/languages/langc.py
+++ b/generator/languages/langc.py
@@ -484,13 +484,21 @@ def write_variable_member_deserializer(service: ServiceObject, member, outfile:
     name = member.get_name()
     outfile.writeln("__count = deserialize_uint32(&__buffer);")
     if service.typename_is_struct(typename):
-        outfile.writeln(f"for (uint32_t __i = 0; __i < GRMIN(__count, {name}_count); __i++) {{")
-        outfile.indent_inc()
         struct_type = service.lookup_struct(typename)
         struct_name = get_scoped_name(struct_type)
+        outfile.writeln(f"for (uint32_t __i = 0; __i < GRMIN(__count, {name}_count); __i++) {{")
+        outfile.indent_inc()
         outfile.writeln(f"deserialize_{struct_name}(&__buffer, &{name}_out[__i]);")
         outfile.indent_dec()
         outfile.writeln("}")
+        # skip the elements that there is no room for, what follows them must still be found
+        outfile.writeln(f"for (uint32_t __i = {name}_count; __i < __count; __i++) {{")
+        outfile.indent_inc()
+        outfile.writeln(f"{get_scoped_typename(struct_type)} __skipped;")
+        outfile.writeln(f"deserialize_{struct_name}(&__buffer, &__skipped);")
+        outfile.writeln(f"{struct_name}_destroy(&__skipped);")
+        outfile.indent_dec()
+        outfile.writeln("}")
     elif typename.lower() == "string":
         outfile.writeln(f"for (uint32_t __i = 0; __i < GRMIN(__count, {name}_max_length); __i++) {{")
         outfile.indent_inc()
-- 
2.43.0


From d2f043799f2bcff84caab4e8b7b93a65509b67d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:15 +0000
Subject: [PATCH 17/22] fix: structures that extend one which is defined later,
 or an empty one

Consolidating the base first was called with the wrong arguments, made the
list of finished structures None, and the member after an empty base was
passed over.
---
 generator/passes/consolidate.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/generator/passes/consolidate.py b/generator/passes/consolidate.py
index aa43b5a..c1f52a9 100644
--- a/generator/passes/consolidate.py
+++ b/generator/passes/consolidate.py
@@ -12,7 +12,7 @@ def consolidate_struct_member(service: ServiceObject, done: list, struct: Struct
         if struct_target is None:
             raise ValueError(f"Type {typename} cannot be resolved")
         if not struct_target in done:
-            consolidate_struct(struct_target)
+            consolidate_struct(service, done, struct_target)
         
         mems = struct.get_members()
         index = mems.index(member)
@@ -26,12 +26,11 @@ def consolidate_struct(service: ServiceObject, done: list, struct: StructureObje
     if struct in done:
         return
     
-    for member in struct.get_members():
+    for member in list(struct.get_members()):
         consolidate_struct_member(service, done, struct, member)
     done.append(struct)
-    return done
 
 def pass_consolidate(service: ServiceObject):
     done = []
     for struct in service.get_structs():
-        done = consolidate_struct(service, done, struct)
+        consolidate_struct(service, done, struct)
-- 
2.43.0


From 9fda51899148ce5f3204ae5c78a86678ff01651e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:19 +0000
Subject: [PATCH 18/22] fix: accept events without parameters

An empty parameter list was refused for an event, while functions may have one
and the code generators for events handle it.
---
 generator/parser.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/generator/parser.py b/generator/parser.py
index dcef86f..908a5a0 100644
--- a/generator/parser.py
+++ b/generator/parser.py
@@ -567,14 +567,17 @@ def handle_event(context, tokens):
         context.create_member(tokens[0].value(), tokens[0].value(), False)
         tokens.pop(0)  # consume IDENTIFIER
     else:
-        # create sublist
         tokens.pop(0)  # consume LPARENTHESIS
-        rparen = next((x for x in tokens if x.token_type() == TOKENS.RPARENTHESIS), None)
-        if rparen is None:
-            error("expected ')' at end of parameter list")
-        endOfParams = tokens.index(rparen) + 1
-        parse_scope(context, tokens[:endOfParams], get_param_scope_syntax())
-        del tokens[:endOfParams]
+        if tokens[0].token_type() != TOKENS.RPARENTHESIS:
+            # create sublist
+            rparen = next((x for x in tokens if x.token_type() == TOKENS.RPARENTHESIS), None)
+            if rparen is None:
+                error("expected ')' at end of parameter list")
+            endOfParams = tokens.index(rparen) + 1
+            parse_scope(context, tokens[:endOfParams], get_param_scope_syntax())
+            del tokens[:endOfParams]
+        else:
+            tokens.pop(0)  # consume RPARENTHESIS
 
     tokens.pop(0)  # consume EQUAL
     actionId = tokens[0].value()
-- 
2.43.0


From bd22ef78ef5fe8fd73d6112ac99cb0221b3e29f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:38 +0000
Subject: [PATCH 19/22] fix: copy array members completely

The copy of a structure took as many bytes of an array of scalars or
enumerations as the array has elements; the rest stayed uninitialised.
---
 generator/languages/langc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generator/languages/langc.py b/generator/languages/langc.py
index f756444..60ee826 100644
--- a/generator/languages/langc.py
+++ b/generator/languages/langc.py
@@ -1056,7 +1056,7 @@ def write_structure_copy_function_members(service: ServiceObject, prefix, struct
             outfile.indent_dec()
             outfile.writeln("}")
         else:
-            outfile.writeln(f"memcpy(out->{prefix}{member.get_name()}, in->{prefix}{member.get_name()}, in->{prefix}{member.get_name()}_count);")
+            outfile.writeln(f"memcpy(out->{prefix}{member.get_name()}, in->{prefix}{member.get_name()}, sizeof({get_c_typename(service, member.get_typename())}) * in->{prefix}{member.get_name()}_count);")
         outfile.indent_dec()
         outfile.writeln("} else {")
         outfile.indent_inc()
-- 
2.43.0


From 636149f83b66fa859d692057fc29689ba6054a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:52 +0000
Subject: [PATCH 20/22] fix: report a quotation that is never closed

The end of the text was compared with the method instead of its result,
so a description that ends within a quotation was accepted.
---
 generator/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generator/parser.py b/generator/parser.py
index 908a5a0..e700689 100644
--- a/generator/parser.py
+++ b/generator/parser.py
@@ -782,7 +782,7 @@ def parse_quoted(scanner, data):
         unquoted += scanner.current()
         scanner.consume()
 
-    if scanner.index == len(data):
+    if scanner.index() >= len(data):
         error("expected closing '\"' but found end of file")
 
     scanner.consume()  # consume closing quote
-- 
2.43.0


From ae934f412422f705f1c9fb69fe297fd7034eb356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:33 +0000
Subject: [PATCH 21/22] fix: packets longer than the receive buffer are
 dropped, not cut off

---
 runtime/link/socket/client.c    | 6 ++++--
 runtime/link/socket/server.c    | 7 ++++---
 runtime/link/socket/socket_os.h | 7 +++++++
 3 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/runtime/link/socket/client.c b/runtime/link/socket/client.c
index 4b889a8..5a5b750 100644
--- a/runtime/link/socket/client.c
+++ b/runtime/link/socket/client.c
@@ -154,8 +154,10 @@ static int socket_link_recv_packet(struct gracht_link_socket* link, struct grach
     // Packets are atomic, either the full packet is there, or none is. So avoid
     // the use of MSG_WAITALL here.
     GRTRACE(GRSTR("[gracht_connection_recv_stream] reading full message"));
-    bytes_read = (long)recv(link->base.connection, &message->data[0], message->index, flags & ~(MSG_WAITALL));
-    if (bytes_read < GRACHT_MESSAGE_HEADER_SIZE || *((uint32_t*)&message->data[4]) != (uint32_t)bytes_read) {
+    bytes_read = (long)recv(link->base.connection, &message->data[0], message->index,
+        (flags & ~(MSG_WAITALL)) | SOCKET_PACKET_LENGTH);
+    if (bytes_read < GRACHT_MESSAGE_HEADER_SIZE || bytes_read > (long)message->index
+        || *((uint32_t*)&message->data[4]) != (uint32_t)bytes_read) {
         if (bytes_read == 0) {
             errno = (ENODATA);
         }
diff --git a/runtime/link/socket/server.c b/runtime/link/socket/server.c
index 29a4bbf..fd6187e 100644
--- a/runtime/link/socket/server.c
+++ b/runtime/link/socket/server.c
@@ -574,7 +574,7 @@ static int socket_link_recv_packet(struct gracht_link_socket* link,
     // Packets are atomic, either the full packet is there, or none is. So avoid
     // the use of MSG_WAITALL here.
     intmax_t bytesRead = (intmax_t)recvfrom(link->base.connection, base, len, 
-        socketFlags, (struct sockaddr*)&sender.address, &sender.address_length);
+        socketFlags | SOCKET_PACKET_LENGTH, (struct sockaddr*)&sender.address, &sender.address_length);
     if (bytesRead <= 0) {
         if (bytesRead == 0) {
             errno = (ENODATA);
@@ -607,8 +607,9 @@ static int socket_link_recv_packet(struct gracht_link_socket* link,
     }
 #endif
 
-    // do not process packets that are not exactly one message
-    if (bytesRead < GRACHT_MESSAGE_HEADER_SIZE || *((uint32_t*)&base[4]) != (uint32_t)bytesRead) {
+    // do not process packets that are not exactly one message, or that did not fit
+    if (bytesRead < GRACHT_MESSAGE_HEADER_SIZE || (size_t)bytesRead > len
+        || *((uint32_t*)&base[4]) != (uint32_t)bytesRead) {
         errno = (EBADMSG);
         return -1;
     }
diff --git a/runtime/link/socket/socket_os.h b/runtime/link/socket/socket_os.h
index 2c85482..0a37aea 100644
--- a/runtime/link/socket/socket_os.h
+++ b/runtime/link/socket/socket_os.h
@@ -169,4 +169,11 @@ struct gracht_link_socket {
 #endif
 };
 
+// makes receiving a packet return the length that the packet really has, even when it has been truncated
+#if defined(__linux__)
+#define SOCKET_PACKET_LENGTH MSG_TRUNC
+#else
+#define SOCKET_PACKET_LENGTH 0
+#endif
+
 #endif // !__GRACHT_SOCKET_OS_H__
-- 
2.43.0


From 97ac7b79373bfd6c2a0aa2e172cb68c3624367d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:18 +0000
Subject: [PATCH 22/22] fix: signals do not break packet links

---
 runtime/link/socket/client.c |  6 ++++--
 runtime/link/socket/server.c | 13 +++++++++----
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/runtime/link/socket/client.c b/runtime/link/socket/client.c
index 5a5b750..f6609f6 100644
--- a/runtime/link/socket/client.c
+++ b/runtime/link/socket/client.c
@@ -137,7 +137,9 @@ static int socket_link_send_packet(struct gracht_link_socket* link, struct grach
 
     GRTRACE(GRSTR("link_client: send message (%u)"), message->index);
 
-    byteCount = send(link->base.connection, &message->data[0], message->index, MSG_NOSIGNAL);
+    do {
+        byteCount = send(link->base.connection, &message->data[0], message->index, MSG_NOSIGNAL);
+    } while (byteCount < 0 && errno == EINTR);
     if (byteCount != message->index) {
         GRERROR(GRSTR("link_client: failed to send message, bytes sent: %u, expected: %u"),
               (uint32_t)byteCount, message->index);
@@ -161,7 +163,7 @@ static int socket_link_recv_packet(struct gracht_link_socket* link, struct grach
         if (bytes_read == 0) {
             errno = (ENODATA);
         }
-        else if (bytes_read > 0 || (errno != EAGAIN && errno != EWOULDBLOCK)) {
+        else if (bytes_read > 0 || (errno != EAGAIN && errno != EWOULDBLOCK && errno != EINTR)) {
             errno = (EPIPE);
         }
         return -1;
diff --git a/runtime/link/socket/server.c b/runtime/link/socket/server.c
index fd6187e..d19f4a4 100644
--- a/runtime/link/socket/server.c
+++ b/runtime/link/socket/server.c
@@ -125,8 +125,11 @@ static int socket_link_send_client(struct socket_link_client* client,
 
     GRTRACE(GRSTR("[socket_link_send] sending message"));
     if (!client->streaming) {
-        intmax_t bytesWritten = sendto(client->socket, &message->data[0], message->index, socketFlags,
-            (const struct sockaddr*)&client->address, client->address_length);
+        intmax_t bytesWritten;
+        do {
+            bytesWritten = sendto(client->socket, &message->data[0], message->index, socketFlags,
+                (const struct sockaddr*)&client->address, client->address_length);
+        } while (bytesWritten < 0 && errno == EINTR);
         return bytesWritten == message->index ? 0 : -1;
     }
 
@@ -628,8 +631,10 @@ static int socket_link_send_packet(struct gracht_link_socket* link,
     }
     
     memcpy(&sender, &messageContext->payload[0], sizeof(struct socket_link_sender));
-    bytesWritten = (long)sendto(link->base.connection, &message->data[0], message->index, MSG_NOSIGNAL,
-        (const struct sockaddr*)&sender.address, sender.address_length);
+    do {
+        bytesWritten = (long)sendto(link->base.connection, &message->data[0], message->index, MSG_NOSIGNAL,
+            (const struct sockaddr*)&sender.address, sender.address_length);
+    } while (bytesWritten < 0 && errno == EINTR);
     if (bytesWritten != message->index) {
         GRERROR(GRSTR("link_server: failed to respond [%li/%i]"), bytesWritten, message->index);
         if (bytesWritten == -1) {
-- 
2.43.0

